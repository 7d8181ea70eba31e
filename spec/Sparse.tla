------------------------------- MODULE Sparse -------------------------------
(***************************************************************************)
(* The values GBTL programs manipulate and the mathematics of GraphBLAS    *)
(* operations on them: scalar domains and conversions, operators, monoids, *)
(* sparse vectors and matrices, masks, accumulation, the write rule, and   *)
(* the result of each operation before the write rule.                     *)
(*                                                                         *)
(* A sparse vector of size n is a sequence of n entries, a sparse r-by-c   *)
(* matrix a sequence of r rows; an entry is a value or NONE (not stored).  *)
(* Positions in the API are 0-based, TLA+ sequences are 1-based: only      *)
(* index lists are shifted.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC   \* TLC for TLCEval(v) = v

NONE  == -999999          \* "no entry stored here"; never a value
SCALE == 16               \* "f64" values are carried as v * SCALE (exact)

-----------------------------------------------------------------------------
(* Scalar domains.  "int" is the mathematical integers (used inside an     *)
(* operator before the result is converted to the result domain).          *)

Domains == {"bool", "i8", "u8", "i16", "i32", "i64", "f64"}

TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

Wrap(v, d) ==
  CASE d = "u8"  -> v % 256
    [] d = "i8"  -> (((v % 256) + 128) % 256) - 128
    [] d = "i16" -> (((v % 65536) + 32768) % 65536) - 32768
    [] OTHER     -> v

Cast(v, from, to) ==
  IF from = to THEN v
  ELSE IF to = "bool" THEN (IF v # 0 THEN 1 ELSE 0)
  ELSE IF to = "f64" THEN v * SCALE
  ELSE Wrap(IF from = "f64" THEN TruncDiv(v, SCALE) ELSE v, to)

CastE(e, from, to) == IF e = NONE THEN NONE ELSE Cast(e, from, to)

-----------------------------------------------------------------------------
(* Operators.  A binary operator is [f |-> name, d |-> <<D1, D2, D3>>].    *)

BinFun(f, a, b, one) ==
  CASE f = "plus"   -> a + b
    [] f = "minus"  -> a - b
    [] f = "times"  -> TruncDiv(a * b, one)
    [] f = "min"    -> IF b < a THEN b ELSE a
    [] f = "max"    -> IF a < b THEN b ELSE a
    [] f = "first"  -> a
    [] f = "second" -> b
    [] f = "lor"    -> IF a # 0 \/ b # 0 THEN one ELSE 0
    [] f = "land"   -> IF a # 0 /\ b # 0 THEN one ELSE 0
    [] f = "lxor"   -> IF (a # 0) # (b # 0) THEN one ELSE 0
    [] f = "lxnor"  -> IF (a # 0) = (b # 0) THEN one ELSE 0
    [] f = "eq"     -> IF a = b THEN one ELSE 0
    [] f = "ne"     -> IF a # b THEN one ELSE 0
    [] f = "gt"     -> IF a > b THEN one ELSE 0
    [] f = "lt"     -> IF a < b THEN one ELSE 0
    [] f = "ge"     -> IF a >= b THEN one ELSE 0
    [] f = "le"     -> IF a <= b THEN one ELSE 0
    [] f = "lin"    -> 2 * a + b              \* harness-defined, asymmetric

Bin(op, a, b) ==            \* a in op.d[1], b in op.d[2], result in op.d[3]
  LET fl == op.d[1] = "f64" \/ op.d[2] = "f64"
      c  == IF fl THEN "f64" ELSE "int"
  IN  Cast(BinFun(op.f, Cast(a, op.d[1], c), Cast(b, op.d[2], c),
                  IF fl THEN SCALE ELSE 1),
           c, op.d[3])

(* Unary operators [f, d |-> <<D1, D2>>]. *)
UnFun(f, a, one) ==
  CASE f = "ident"  -> a
    [] f = "ainv"   -> -a
    [] f = "abs"    -> IF a < 0 THEN -a ELSE a
    [] f = "lnot"   -> IF a = 0 THEN one ELSE 0
    [] f = "inc"    -> a + one
    [] f = "zero"   -> 0
    [] f = "mod5"   -> (IF a >= 0 THEN a % (5*one) ELSE -((-a) % (5*one)))

Un(op, a) ==
  LET fl == op.d[1] = "f64"
      c  == IF fl THEN "f64" ELSE "int"
  IN  Cast(UnFun(op.f, Cast(a, op.d[1], c), IF fl THEN SCALE ELSE 1), c, op.d[2])

(* Identity of the monoid with operator f over domain d. *)
Ident(f, d) ==
  CASE f = "plus"  -> 0
    [] f = "times" -> Cast(1, "int", d)
    [] f = "lor"   -> 0
    [] f = "land"  -> Cast(1, "int", d)
    [] f = "lxor"  -> 0
    [] f = "lxnor" -> Cast(1, "int", d)
    [] f = "eq"    -> 1
    [] f = "min"   -> (CASE d = "i32" -> 2147483647 [] d = "i64" -> 1000000000 [] d = "i16" -> 32767
                        [] d = "i8" -> 127 [] d = "u8" -> 255 [] d = "bool" -> 1)
    [] f = "max"   -> (CASE d = "i32" -> -2147483647 - 1 [] d = "i64" -> -1000000000 [] d = "i16" -> -32768
                        [] d = "i8" -> -128 [] d = "u8" -> 0 [] d = "bool" -> 0)

(* Monoid operator on entries: NONE is absent, not a value. *)
AddE(add, x, y) ==
  IF x = NONE THEN y ELSE IF y = NONE THEN x ELSE Bin(add, x, y)

RECURSIVE FoldE(_, _, _, _)
FoldE(add, s, k, acc) ==
  IF k > Len(s) THEN acc ELSE FoldE(add, s, k + 1, AddE(add, acc, s[k]))

(* Fold of the stored entries of sequence s, NONE when there are none. *)
Fold(add, s) == FoldE(add, s, 1, NONE)

-----------------------------------------------------------------------------
(* Containers: [k |-> "V" | "M", d |-> domain, x |-> entries].             *)

Size(v)  == Len(v.x)
NRows(m) == Len(m.x)
NCols(m) == Len(m.x[1])

EmptyV(n)    == [i \in 1..n |-> NONE]
EmptyM(r, c) == [i \in 1..r |-> [j \in 1..c |-> NONE]]

NvalsV(x) == Cardinality({i \in DOMAIN x : x[i] # NONE})

RECURSIVE SumNvals(_, _)
SumNvals(x, i) == IF i > Len(x) THEN 0 ELSE NvalsV(x[i]) + SumNvals(x, i + 1)
NvalsM(x) == SumNvals(x, 1)

Nvals(o) == IF o.k = "V" THEN NvalsV(o.x) ELSE NvalsM(o.x)

TransposeX(x) == TLCEval([j \in 1..Len(x[1]) |-> [i \in 1..Len(x) |-> x[i][j]]])
View(x, t) == IF t THEN TransposeX(x) ELSE x

-----------------------------------------------------------------------------
(* Masks, accumulation, and the write rule (one cell).                     *)

Allows(kind, e) ==
  CASE kind = "none"  -> TRUE
    [] kind = "val"   -> e # NONE /\ e # 0
    [] kind = "comp"  -> ~(e # NONE /\ e # 0)
    [] kind = "str"   -> e # NONE
    [] kind = "scomp" -> e = NONE

(* Accumulator NoAcc or a binary operator.  c: old output entry of domain  *)
(* cd; t: computed entry of domain td; result converted to cd.             *)
NoAcc == [f |-> "no", d |-> <<"i32", "i32", "i32">>]

AccumE(acc, c, cd, t, td) ==
  IF acc.f = "no" THEN CastE(t, td, cd)
  ELSE LET z == IF c = NONE THEN CastE(t, td, acc.d[3])
                ELSE IF t = NONE THEN CastE(c, cd, acc.d[3])
                ELSE Bin(acc, Cast(c, cd, acc.d[1]), Cast(t, td, acc.d[2]))
       IN CastE(z, acc.d[3], cd)

WriteE(c, cd, allowed, acc, t, td, outp) ==
  IF allowed THEN AccumE(acc, c, cd, t, td)
  ELSE IF outp = "replace" THEN NONE ELSE c

(* The same for whole containers; m is the mask entries (ignored if none). *)
WriteV(c, cd, mk, m, acc, t, td, outp) ==
  [i \in DOMAIN c |->
     WriteE(c[i], cd, IF mk = "none" THEN TRUE ELSE Allows(mk, m[i]),
            acc, t[i], td, outp)]

WriteM(c, cd, mk, m, acc, t, td, outp) ==
  [i \in DOMAIN c |->
    [j \in DOMAIN c[i] |->
       WriteE(c[i][j], cd, IF mk = "none" THEN TRUE ELSE Allows(mk, m[i][j]),
              acc, t[i][j], td, outp)]]

-----------------------------------------------------------------------------
(* Results T of the operations, before the write rule.                     *)
(* Arguments are entry arrays with their domains.                          *)

BinE(op, x, dx, y, dy) ==            \* both operands must be stored
  IF x = NONE \/ y = NONE THEN NONE
  ELSE Bin(op, Cast(x, dx, op.d[1]), Cast(y, dy, op.d[2]))

UnionE(op, x, dx, y, dy) ==
  IF x = NONE THEN CastE(y, dy, op.d[3])
  ELSE IF y = NONE THEN CastE(x, dx, op.d[3])
  ELSE Bin(op, Cast(x, dx, op.d[1]), Cast(y, dy, op.d[2]))

RECURSIVE DotE(_, _, _, _, _, _, _, _)
DotE(add, mul, x, dx, y, dy, k, acc) ==
  IF k > Len(x) THEN acc
  ELSE DotE(add, mul, x, dx, y, dy, k + 1,
            IF x[k] = NONE \/ y[k] = NONE THEN acc
            ELSE AddE(add, acc, BinE(mul, x[k], dx, y[k], dy)))

Dot(add, mul, x, dx, y, dy) == DotE(add, mul, x, dx, y, dy, 1, NONE)

MxM(add, mul, a, da, b, db) ==
  LET bt == TransposeX(b)
  IN  [i \in 1..Len(a) |-> [j \in 1..Len(bt) |-> Dot(add, mul, a[i], da, bt[j], db)]]

MxV(add, mul, a, da, u, du) == [i \in 1..Len(a) |-> Dot(add, mul, a[i], da, u, du)]

VxM(add, mul, u, du, a, da) ==
  LET at == TransposeX(a)
  IN  [j \in 1..Len(at) |-> Dot(add, mul, u, du, at[j], da)]

EWiseAddV(op, u, du, v, dv)  == [i \in DOMAIN u |-> UnionE(op, u[i], du, v[i], dv)]
EWiseMultV(op, u, du, v, dv) == [i \in DOMAIN u |-> BinE(op, u[i], du, v[i], dv)]
EWiseAddM(op, a, da, b, db)  == [i \in DOMAIN a |-> EWiseAddV(op, a[i], da, b[i], db)]
EWiseMultM(op, a, da, b, db) == [i \in DOMAIN a |-> EWiseMultV(op, a[i], da, b[i], db)]

ApplyV(op, u, du) == [i \in DOMAIN u |->
                        IF u[i] = NONE THEN NONE ELSE Un(op, Cast(u[i], du, op.d[1]))]
ApplyM(op, a, da) == [i \in DOMAIN a |-> ApplyV(op, a[i], da)]

(* Binary operator with a bound scalar s of domain ds. *)
Bind1V(op, s, ds, u, du) == [i \in DOMAIN u |-> BinE(op, s, ds, u[i], du)]
Bind2V(op, u, du, s, ds) == [i \in DOMAIN u |-> BinE(op, u[i], du, s, ds)]
Bind1M(op, s, ds, a, da) == [i \in DOMAIN a |-> Bind1V(op, s, ds, a[i], da)]
Bind2M(op, a, da, s, ds) == [i \in DOMAIN a |-> Bind2V(op, a[i], da, s, ds)]

CastV(u, du, d) == [i \in DOMAIN u |-> CastE(u[i], du, d)]

ReduceRows(add, a, da) == [i \in DOMAIN a |-> Fold(add, CastV(a[i], da, add.d[1]))]
ReduceV(add, u, du)    == LET r == Fold(add, CastV(u, du, add.d[1]))
                          IN IF r = NONE THEN Ident(add.f, add.d[3]) ELSE r
ReduceM(add, a, da)    == LET r == Fold(add, ReduceRows(add, a, da))
                          IN IF r = NONE THEN Ident(add.f, add.d[3]) ELSE r

Kron(op, a, da, b, db) ==
  LET p == Len(b)  q == Len(b[1])
  IN  [i \in 1..(Len(a) * p) |->
        [j \in 1..(Len(a[1]) * q) |->
           BinE(op, a[((i-1) \div p) + 1][((j-1) \div q) + 1], da,
                    b[((i-1) % p) + 1][((j-1) % q) + 1], db)]]

-----------------------------------------------------------------------------
(* Index lists: [k |-> "all"], [k |-> "list", v |-> seq], [k |-> "rng",    *)
(* b, e] for b..e-1; 0-based.                                              *)

IxSeq(ix, n) ==
  CASE ix.k = "all"  -> [i \in 1..n |-> i - 1]
    [] ix.k = "list" -> ix.v
    [] ix.k = "rng"  -> [i \in 1..(ix.e - ix.b) |-> ix.b + i - 1]

IxOk(ix, n) == \A i \in DOMAIN IxSeq(ix, n) : IxSeq(ix, n)[i] \in 0..(n-1)

(* extract into an output of size n: AllIndices stands for the leading     *)
(* min(source size, n) positions, the remaining ones getting nothing.      *)
ExSeq(ix, src, n) ==
  IF ix.k # "all" THEN IxSeq(ix, src)
  ELSE [i \in 1..n |-> IF i <= src THEN i - 1 ELSE -1]

ExtractV(u, ix, n) ==
  LET s == ExSeq(ix, Len(u), n)
  IN  [i \in DOMAIN s |-> IF s[i] < 0 THEN NONE ELSE u[s[i] + 1]]
ExtractM(a, ri, ci, nr, nc) ==
  LET rs == ExSeq(ri, Len(a), nr)  cs == ExSeq(ci, Len(a[1]), nc)
  IN  [i \in DOMAIN rs |-> [j \in DOMAIN cs |->
         IF rs[i] < 0 \/ cs[j] < 0 THEN NONE ELSE a[rs[i] + 1][cs[j] + 1]]]
ExtractCol(a, ri, j, n) ==
  LET rs == ExSeq(ri, Len(a), n)
  IN  [i \in DOMAIN rs |-> IF rs[i] < 0 THEN NONE ELSE a[rs[i] + 1][j + 1]]

(* assign: Z, the whole output before masking.  Inside the indexed region  *)
(* the source decides (accumulated with the old entry if acc is given);    *)
(* outside it the old content stays (passing through the accumulator's     *)
(* result domain when there is one).  With repeated indices the source     *)
(* entry used is that of the last listing (constants do not care).         *)
PosOf(s, p) == LET K == {k \in DOMAIN s : s[k] = p}
               IN IF K = {} THEN 0 ELSE CHOOSE k \in K : \A l \in K : l <= k

KeepE(acc, c, cd) == IF acc.f = "no" THEN c ELSE AccumE(acc, c, cd, NONE, cd)

AssignZV(c, cd, acc, u, du, ix) ==
  LET s == IxSeq(ix, Len(c))
  IN  [p \in DOMAIN c |->
         LET k == PosOf(s, p - 1)
         IN  IF k = 0 THEN KeepE(acc, c[p], cd) ELSE AccumE(acc, c[p], cd, u[k], du)]

AssignZM(c, cd, acc, a, da, ri, ci) ==
  LET rs == IxSeq(ri, Len(c))  cs == IxSeq(ci, Len(c[1]))
      kc == [q \in DOMAIN c[1] |-> PosOf(cs, q - 1)]
  IN  [p \in DOMAIN c |->
         LET k == PosOf(rs, p - 1)
         IN  [q \in DOMAIN c[p] |->
                IF k = 0 \/ kc[q] = 0 THEN KeepE(acc, c[p][q], cd)
                ELSE AccumE(acc, c[p][q], cd, a[k][kc[q]], da)]]

AssignZConstV(c, cd, acc, s, ds, ix) ==
  LET l == IxSeq(ix, Len(c))
  IN  [p \in DOMAIN c |->
         IF \E k \in DOMAIN l : l[k] = p - 1 THEN AccumE(acc, c[p], cd, s, ds)
         ELSE KeepE(acc, c[p], cd)]

AssignZConstM(c, cd, acc, s, ds, ri, ci) ==
  LET rs == IxSeq(ri, Len(c))  cs == IxSeq(ci, Len(c[1]))
      R == {rs[k] + 1 : k \in DOMAIN rs}  C == {cs[k] + 1 : k \in DOMAIN cs}
  IN  [p \in DOMAIN c |-> [q \in DOMAIN c[p] |->
         IF p \in R /\ q \in C THEN AccumE(acc, c[p][q], cd, s, ds)
         ELSE KeepE(acc, c[p][q], cd)]]

=============================================================================
