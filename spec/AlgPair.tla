------------------------------ MODULE AlgPair ------------------------------
(***************************************************************************)
(* The answers two builds of the library gave to the same calls must be the *)
(* same; where an answer is a rounded fraction, the same within rounding.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

A == ndJsonDeserialize(IOEnv.TRACE_A)
B == ndJsonDeserialize(IOEnv.TRACE_B)
None == -999999             \* no entry

VARIABLES l
Tol(k) == CASE k \in {"rank", "bc", "norm"} -> 2 [] k = "markov" -> 100 [] OTHER -> 0
Near(k, x, y) == IF x = y THEN TRUE
                 ELSE /\ Tol(k) > 0 /\ x # None /\ y # None
                      /\ x - y <= Tol(k) /\ y - x <= Tol(k)
RECURSIVE Same(_, _, _, _)
Same(k, d, x, y) ==                            \* d: how deep the answer nests
  IF d = 0 THEN Near(k, x, y)
  ELSE Len(x) = Len(y) /\ \A i \in DOMAIN x : Same(k, d - 1, x[i], y[i])
Agree(p, q) ==
  /\ p.k = q.k /\ p.err = q.err /\ DOMAIN p.out = DOMAIN q.out
  /\ \A f \in DOMAIN p.out : IF p.depth[f] # q.depth[f] THEN FALSE ELSE Same(p.k, p.depth[f], p.out[f], q.out[f])

Init == l = 1
Next == /\ l <= Len(A) /\ l' = l + 1
        /\ IF Agree(A[l], B[l]) THEN TRUE ELSE PrintT(<<"DIFFER", ToString(l)>>)
Spec == Init /\ [][Next]_l
=============================================================================
