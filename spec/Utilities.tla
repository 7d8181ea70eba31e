------------------------------ MODULE Utilities ------------------------------
(***************************************************************************)
(* diag, scaled_identity, split, normalize_rows/cols and IndexSequenceRange*)
(***************************************************************************)
EXTENDS Algos

UtilKinds == {"diag", "ident", "split", "norm", "range"}
UNIT == 1000000                       \* quotients are in millionths

DiagOf(v) == [i \in DOMAIN v |-> [j \in DOMAIN v |-> IF i = j THEN v[i] ELSE NONE]]
Ident(n, x) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN x ELSE NONE]]
Part(m, up) == [i \in DOMAIN m |-> [j \in DOMAIN m[i] |-> IF (i < j) <=> up THEN m[i][j] ELSE NONE]]
(* y is x/s up to rounding *)
Quot(y, x, s) == IF x = NONE THEN y = NONE ELSE y # NONE /\ Abs(y - (UNIT * x) \div s) <= 2
RowNormal(y, m) == /\ DOMAIN y = DOMAIN m
                   /\ \A i \in DOMAIN m : LET s == SumStored(m[i]) IN
                        DOMAIN y[i] = DOMAIN m[i] /\ \A j \in DOMAIN m[i] : Quot(y[i][j], m[i][j], s)

ErrU(r, f) == IF f \in DOMAIN r.err THEN r.err[f] ELSE ""
OutU(r, f) == IF f \in DOMAIN r.out THEN r.out[f] ELSE <<>>
Un(b, f) == IF b THEN {} ELSE {f}

BadUtil(r) ==
  CASE r.k = "diag" -> Un(OutU(r, "m") = DiagOf(r.v), "m")
    [] r.k = "ident" -> Un(OutU(r, "m") = Ident(r.n, r.s), "m") \cup
                        Un(OutU(r, "one") = Ident(r.n, 1), "one")
    [] r.k = "split" -> Un(OutU(r, "l") = Part(r.g, FALSE), "l") \cup
                        Un(OutU(r, "u") = Part(r.g, TRUE), "u")
    [] r.k = "norm" -> Un("rows" \in DOMAIN r.out /\ RowNormal(r.out.rows, r.g), "rows") \cup
                       Un("cols" \in DOMAIN r.out /\ RowNormal(Transp(r.out.cols), Transp(r.g)), "cols")
    [] r.k = "range" ->
         LET is == [k \in 1..(r.e - r.b) |-> r.b + k - 1] IN
         Un(OutU(r, "iter") = is, "iter") \cup Un(OutU(r, "at") = is, "at") \cup
         Un(OutU(r, "size") = <<r.e - r.b>>, "size") \cup
         Un(OutU(r, "empty") = <<IF r.e = r.b THEN 1 ELSE 0>>, "empty") \cup
         \* a vector 0, 10, 20, ... gathered with the range, and scattered with it
         Un(OutU(r, "gather") = [k \in 1..(r.e - r.b) |-> 10 * is[k]], "gather") \cup
         Un(OutU(r, "scatter") = [i \in 1..r.n |-> IF i - 1 >= r.b /\ i - 1 < r.e THEN 100 + (i - 1 - r.b) ELSE 7], "scatter")
=============================================================================
