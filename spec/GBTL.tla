-------------------------------- MODULE GBTL --------------------------------
(***************************************************************************)
(* The GBTL abstract machine.  The state is a store of named containers;   *)
(* a command is one call of the public API; Exec gives its outcome: the    *)
(* set of errors it must report (if any) and otherwise the new store and   *)
(* the scalar it returns.  A call with an error changes nothing.           *)
(*                                                                         *)
(* The same Exec is used three ways: MCGbtl explores it exhaustively and   *)
(* checks the algebraic laws (MC configurations), generates behaviours     *)
(* that are replayed in the C++ library, and GBTLTrace checks traces       *)
(* recorded from the C++ library against it.                               *)
(***************************************************************************)
EXTENDS Sparse

E(cond, name) == IF cond THEN {name} ELSE {}

DIM == "DimensionException"
OOB == "IndexOutOfBoundsException"
IIX == "InvalidIndexException"
IVL == "InvalidValueException"
NOV == "NoValueException"

-----------------------------------------------------------------------------
(* Shape of what a command refers to. *)

VR(o, t) == IF t THEN NCols(o) ELSE NRows(o)       \* rows/cols of a view
VC(o, t) == IF t THEN NRows(o) ELSE NCols(o)

IxLen(ix, n) == Len(IxSeq(ix, n))

MaskErrV(S, c, n) ==
  E(c.mk # "none" /\ (IF c.mk = "none" THEN FALSE ELSE Size(S[c.m]) # n), DIM)

MaskErrM(S, c, r, k) ==
  IF c.mk = "none" THEN {}
  ELSE E(NRows(S[c.m]) # r \/ NCols(S[c.m]) # k, DIM)

MaskX(S, c) == IF c.mk = "none" THEN <<>> ELSE S[c.m].x

(* Output entries after the write rule, t being the result in domain td. *)
OutV(S, c, t, td) ==
  WriteV(S[c.o].x, S[c.o].d, c.mk, MaskX(S, c), c.acc, t, td, c.z)
OutM(S, c, t, td) ==
  WriteM(S[c.o].x, S[c.o].d, c.mk, MaskX(S, c), c.acc, t, td, c.z)
(* assign: z already contains the accumulation. *)
OutZV(S, c, z) ==
  WriteV(S[c.o].x, S[c.o].d, c.mk, MaskX(S, c), NoAcc, z, S[c.o].d, c.z)
OutZM(S, c, z) ==
  WriteM(S[c.o].x, S[c.o].d, c.mk, MaskX(S, c), NoAcc, z, S[c.o].d, c.z)

Upd(S, id, x) == [S EXCEPT ![id].x = x]

-----------------------------------------------------------------------------
(* Build: duplicates combined in listing order with dup. *)
RECURSIVE BuildEFrom(_, _, _, _, _)
BuildEFrom(dup, pos, vals, k, st) ==
  IF k > Len(pos) THEN st
  ELSE BuildEFrom(dup, pos, vals, k + 1,
         [st EXCEPT ![pos[k]] = IF @ = NONE THEN vals[k] ELSE Bin(dup, @, vals[k])])

BuildV(dup, n, ii, vv) == BuildEFrom(dup, [k \in DOMAIN ii |-> ii[k] + 1], vv, 1, EmptyV(n))
BuildM(dup, r, c, ii, jj, vv) ==
  LET flat == BuildEFrom(dup, [k \in DOMAIN ii |-> ii[k] * c + jj[k] + 1], vv, 1, EmptyV(r * c))
  IN  [i \in 1..r |-> [j \in 1..c |-> flat[(i-1)*c + j]]]

ResizeV(x, n) == [i \in 1..n |-> IF i <= Len(x) THEN x[i] ELSE NONE]
ResizeM(x, r, c) ==
  [i \in 1..r |-> [j \in 1..c |->
     IF i <= Len(x) /\ j <= Len(x[1]) THEN x[i][j] ELSE NONE]]

B2I(b) == IF b THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* Errors a command must report (any one of them). *)

Errs(S, c) ==
  CASE c.op = "mxm" ->
         LET r == VR(S[c.a], c.ta)  k == VC(S[c.b], c.tb) IN
         MaskErrM(S, c, NRows(S[c.o]), NCols(S[c.o]))
         \cup E(NRows(S[c.o]) # r \/ NCols(S[c.o]) # k, DIM)
         \cup E(VC(S[c.a], c.ta) # VR(S[c.b], c.tb), DIM)
    [] c.op = "mxv" ->
         MaskErrV(S, c, Size(S[c.o]))
         \cup E(Size(S[c.o]) # VR(S[c.a], c.ta) \/ Size(S[c.b]) # VC(S[c.a], c.ta), DIM)
    [] c.op = "vxm" ->
         MaskErrV(S, c, Size(S[c.o]))
         \cup E(Size(S[c.o]) # VC(S[c.b], c.tb) \/ Size(S[c.a]) # VR(S[c.b], c.tb), DIM)
    [] c.op \in {"eaddv", "emulv"} ->
         MaskErrV(S, c, Size(S[c.o]))
         \cup E(Size(S[c.o]) # Size(S[c.a]) \/ Size(S[c.a]) # Size(S[c.b]), DIM)
    [] c.op \in {"eaddm", "emulm"} ->
         MaskErrM(S, c, NRows(S[c.o]), NCols(S[c.o]))
         \cup E(\/ NRows(S[c.o]) # VR(S[c.a], c.ta) \/ NCols(S[c.o]) # VC(S[c.a], c.ta)
                \/ NRows(S[c.o]) # VR(S[c.b], c.tb) \/ NCols(S[c.o]) # VC(S[c.b], c.tb), DIM)
    [] c.op \in {"applyv", "bind1v", "bind2v"} ->
         MaskErrV(S, c, Size(S[c.o])) \cup E(Size(S[c.o]) # Size(S[c.a]), DIM)
    [] c.op \in {"applym", "bind1m", "bind2m"} ->
         MaskErrM(S, c, NRows(S[c.o]), NCols(S[c.o]))
         \cup E(NRows(S[c.o]) # VR(S[c.a], c.ta) \/ NCols(S[c.o]) # VC(S[c.a], c.ta), DIM)
    [] c.op = "reducemv" ->
         MaskErrV(S, c, Size(S[c.o])) \cup E(Size(S[c.o]) # VR(S[c.a], c.ta), DIM)
    [] c.op = "transpose" ->
         MaskErrM(S, c, NRows(S[c.o]), NCols(S[c.o]))
         \cup E(NRows(S[c.o]) # VC(S[c.a], c.ta) \/ NCols(S[c.o]) # VR(S[c.a], c.ta), DIM)
    [] c.op = "kron" ->
         MaskErrM(S, c, NRows(S[c.o]), NCols(S[c.o]))
         \cup E(\/ NRows(S[c.o]) # VR(S[c.a], c.ta) * VR(S[c.b], c.tb)
                \/ NCols(S[c.o]) # VC(S[c.a], c.ta) * VC(S[c.b], c.tb), DIM)
    [] c.op = "extractv" ->
         MaskErrV(S, c, Size(S[c.o]))
         \cup E(c.ri.k # "all" /\ Size(S[c.o]) # IxLen(c.ri, Size(S[c.a])), DIM)
         \cup E(~IxOk(c.ri, Size(S[c.a])), OOB)
    [] c.op = "extractm" ->
         LET r == VR(S[c.a], c.ta)  k == VC(S[c.a], c.ta) IN
         MaskErrM(S, c, NRows(S[c.o]), NCols(S[c.o]))
         \cup E(\/ c.ri.k # "all" /\ NRows(S[c.o]) # IxLen(c.ri, r)
                \/ c.ci.k # "all" /\ NCols(S[c.o]) # IxLen(c.ci, k), DIM)
         \cup E(~IxOk(c.ri, r) \/ ~IxOk(c.ci, k), OOB)
    [] c.op = "extractcol" ->
         LET r == VR(S[c.a], c.ta)  k == VC(S[c.a], c.ta) IN
         MaskErrV(S, c, Size(S[c.o]))
         \cup E(c.ri.k # "all" /\ Size(S[c.o]) # IxLen(c.ri, r), DIM)
         \cup E(~IxOk(c.ri, r), OOB) \cup E(c.i >= k, IIX)
    [] c.op = "assignv" ->
         MaskErrV(S, c, Size(S[c.o]))
         \cup E(Size(S[c.a]) # IxLen(c.ri, Size(S[c.o])), DIM)
         \cup E(~IxOk(c.ri, Size(S[c.o])), OOB)
    [] c.op = "assignm" ->
         MaskErrM(S, c, NRows(S[c.o]), NCols(S[c.o]))
         \cup E(\/ VR(S[c.a], c.ta) # IxLen(c.ri, NRows(S[c.o]))
                \/ VC(S[c.a], c.ta) # IxLen(c.ci, NCols(S[c.o])), DIM)
         \cup E(~IxOk(c.ri, NRows(S[c.o])) \/ ~IxOk(c.ci, NCols(S[c.o])), OOB)
    [] c.op = "assigncol" ->
         MaskErrV(S, c, NRows(S[c.o]))
         \cup E(Size(S[c.a]) # IxLen(c.ri, NRows(S[c.o])), DIM)
         \cup E(~IxOk(c.ri, NRows(S[c.o])), OOB) \cup E(c.i >= NCols(S[c.o]), IIX)
    [] c.op = "assignrow" ->
         MaskErrV(S, c, NCols(S[c.o]))
         \cup E(Size(S[c.a]) # IxLen(c.ri, NCols(S[c.o])), DIM)
         \cup E(~IxOk(c.ri, NCols(S[c.o])), OOB) \cup E(c.i >= NRows(S[c.o]), IIX)
    [] c.op = "assigncv" ->
         MaskErrV(S, c, Size(S[c.o]))
         \cup E(IxLen(c.ri, Size(S[c.o])) > Size(S[c.o]), DIM)
         \cup E(~IxOk(c.ri, Size(S[c.o])), OOB)
    [] c.op = "assigncm" ->
         MaskErrM(S, c, NRows(S[c.o]), NCols(S[c.o]))
         \cup E(\/ IxLen(c.ri, NRows(S[c.o])) > NRows(S[c.o])
                \/ IxLen(c.ci, NCols(S[c.o])) > NCols(S[c.o]), DIM)
         \cup E(~IxOk(c.ri, NRows(S[c.o])) \/ ~IxOk(c.ci, NCols(S[c.o])), OOB)
    \* container methods
    [] c.op \in {"vset", "vrem", "vhas"} -> E(c.i >= Size(S[c.o]), OOB)
    [] c.op = "vget" ->
         E(c.i >= Size(S[c.o]), OOB)
         \cup E(IF c.i < Size(S[c.o]) THEN S[c.o].x[c.i + 1] = NONE ELSE FALSE, NOV)
    [] c.op \in {"mset", "mrem", "mhas"} ->
         E(c.i >= NRows(S[c.o]) \/ c.j >= NCols(S[c.o]), OOB)
    [] c.op = "mget" ->
         LET in == c.i < NRows(S[c.o]) /\ c.j < NCols(S[c.o]) IN
         E(~in, OOB) \cup E(IF in THEN S[c.o].x[c.i + 1][c.j + 1] = NONE ELSE FALSE, NOV)
    [] c.op = "vresize" -> E(c.n = 0, IVL)
    [] c.op = "mresize" -> E(c.n = 0 \/ c.n2 = 0, IVL)
    [] c.op = "vbuild" ->
         E(Len(c.ii) # Len(c.vv), DIM)
         \cup E(\E k \in DOMAIN c.ii : c.ii[k] >= Size(S[c.o]), OOB)
    [] c.op = "mbuild" ->
         E(Len(c.ii) # Len(c.vv) \/ Len(c.jj) # Len(c.vv), DIM)
         \cup E((\E k \in DOMAIN c.ii : c.ii[k] >= NRows(S[c.o]))
                \/ (\E k \in DOMAIN c.jj : c.jj[k] >= NCols(S[c.o])), OOB)
    [] c.op = "vcopy" -> E(Size(S[c.o]) # Size(S[c.a]), DIM)
    [] c.op = "vdense" -> E(Size(S[c.o]) # Len(c.vv), DIM)
    [] c.op = "mcopy" -> E(NRows(S[c.o]) # NRows(S[c.a]) \/ NCols(S[c.o]) # NCols(S[c.a]), DIM)
    [] c.op = "vctor" -> E((c.how \in {"size", "fill"} /\ c.n = 0)
                           \/ (c.how \in {"dense", "densez"} /\ Len(c.vv) = 0), IVL)
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* New store of a successful command. *)

AX(S, c) == View(S[c.a].x, c.ta)
BX(S, c) == View(S[c.b].x, c.tb)
AD(S, c) == S[c.a].d
BD(S, c) == S[c.b].d

MapOut(c, S) ==
  CASE c.op = "mxm" ->
         OutM(S, c, MxM(c.add, c.mul, AX(S, c), AD(S, c), BX(S, c), BD(S, c)), c.add.d[3])
    [] c.op = "mxv" ->
         OutV(S, c, MxV(c.add, c.mul, AX(S, c), AD(S, c), S[c.b].x, BD(S, c)), c.add.d[3])
    [] c.op = "vxm" ->
         OutV(S, c, VxM(c.add, c.mul, S[c.a].x, AD(S, c), BX(S, c), BD(S, c)), c.add.d[3])
    [] c.op = "eaddv" ->
         OutV(S, c, EWiseAddV(c.mul, S[c.a].x, AD(S, c), S[c.b].x, BD(S, c)), c.mul.d[3])
    [] c.op = "emulv" ->
         OutV(S, c, EWiseMultV(c.mul, S[c.a].x, AD(S, c), S[c.b].x, BD(S, c)), c.mul.d[3])
    [] c.op = "eaddm" ->
         OutM(S, c, EWiseAddM(c.mul, AX(S, c), AD(S, c), BX(S, c), BD(S, c)), c.mul.d[3])
    [] c.op = "emulm" ->
         OutM(S, c, EWiseMultM(c.mul, AX(S, c), AD(S, c), BX(S, c), BD(S, c)), c.mul.d[3])
    [] c.op = "applyv" -> OutV(S, c, ApplyV(c.un, S[c.a].x, AD(S, c)), c.un.d[2])
    [] c.op = "applym" -> OutM(S, c, ApplyM(c.un, AX(S, c), AD(S, c)), c.un.d[2])
    [] c.op = "bind1v" -> OutV(S, c, Bind1V(c.mul, c.v, c.vd, S[c.a].x, AD(S, c)), c.mul.d[3])
    [] c.op = "bind2v" -> OutV(S, c, Bind2V(c.mul, S[c.a].x, AD(S, c), c.v, c.vd), c.mul.d[3])
    [] c.op = "bind1m" -> OutM(S, c, Bind1M(c.mul, c.v, c.vd, AX(S, c), AD(S, c)), c.mul.d[3])
    [] c.op = "bind2m" -> OutM(S, c, Bind2M(c.mul, AX(S, c), AD(S, c), c.v, c.vd), c.mul.d[3])
    [] c.op = "reducemv" -> OutV(S, c, ReduceRows(c.add, AX(S, c), AD(S, c)), c.add.d[3])
    [] c.op = "transpose" -> OutM(S, c, View(S[c.a].x, ~c.ta), AD(S, c))
    [] c.op = "kron" ->
         OutM(S, c, Kron(c.mul, AX(S, c), AD(S, c), BX(S, c), BD(S, c)), c.mul.d[3])
    [] c.op = "extractv" -> OutV(S, c, ExtractV(S[c.a].x, c.ri, Size(S[c.o])), AD(S, c))
    [] c.op = "extractm" -> OutM(S, c, ExtractM(AX(S, c), c.ri, c.ci, NRows(S[c.o]), NCols(S[c.o])), AD(S, c))
    [] c.op = "extractcol" -> OutV(S, c, ExtractCol(AX(S, c), c.ri, c.i, Size(S[c.o])), AD(S, c))
    [] c.op = "assignv" ->
         OutZV(S, c, AssignZV(S[c.o].x, S[c.o].d, c.acc, S[c.a].x, AD(S, c), c.ri))
    [] c.op = "assignm" ->
         OutZM(S, c, AssignZM(S[c.o].x, S[c.o].d, c.acc, AX(S, c), AD(S, c), c.ri, c.ci))
    [] c.op = "assigncv" ->
         OutZV(S, c, AssignZConstV(S[c.o].x, S[c.o].d, c.acc, c.v, c.vd, c.ri))
    [] c.op = "assigncm" ->
         OutZM(S, c, AssignZConstM(S[c.o].x, S[c.o].d, c.acc, c.v, c.vd, c.ri, c.ci))
    [] c.op = "assigncol" ->
         LET C == S[c.o].x  j == c.i + 1  d == S[c.o].d
             old == [p \in DOMAIN C |-> C[p][j]]
             z == AssignZV(old, d, c.acc, S[c.a].x, AD(S, c), c.ri)
             new == WriteV(old, d, c.mk, MaskX(S, c), NoAcc, z, d, c.z)
         IN  [p \in DOMAIN C |-> [C[p] EXCEPT ![j] = new[p]]]
    [] c.op = "assignrow" ->
         LET C == S[c.o].x  i == c.i + 1  d == S[c.o].d
             z == AssignZV(C[i], d, c.acc, S[c.a].x, AD(S, c), c.ri)
         IN  [C EXCEPT ![i] = WriteV(C[i], d, c.mk, MaskX(S, c), NoAcc, z, d, c.z)]
    \* container methods
    [] c.op = "vset" -> [S[c.o].x EXCEPT ![c.i + 1] = c.v]
    [] c.op = "vrem" -> [S[c.o].x EXCEPT ![c.i + 1] = NONE]
    [] c.op = "mset" -> [S[c.o].x EXCEPT ![c.i + 1][c.j + 1] = c.v]
    [] c.op = "mrem" -> [S[c.o].x EXCEPT ![c.i + 1][c.j + 1] = NONE]
    [] c.op = "vclear" -> EmptyV(Size(S[c.o]))
    [] c.op = "mclear" -> EmptyM(NRows(S[c.o]), NCols(S[c.o]))
    [] c.op = "vresize" -> ResizeV(S[c.o].x, c.n)
    [] c.op = "mresize" -> ResizeM(S[c.o].x, c.n, c.n2)
    [] c.op = "vbuild" -> BuildV(c.mul, Size(S[c.o]), c.ii, c.vv)
    [] c.op = "mbuild" -> BuildM(c.mul, NRows(S[c.o]), NCols(S[c.o]), c.ii, c.jj, c.vv)
    [] c.op \in {"vcopy", "mcopy"} -> S[c.a].x
    [] c.op = "vdense" -> c.vv
    [] c.op = "vctor" ->
        (CASE c.how = "size"   -> EmptyV(c.n)
           [] c.how = "fill"   -> [i \in 1..c.n |-> c.v]
           [] c.how = "dense"  -> c.vv
           [] c.how = "densez" -> [i \in DOMAIN c.vv |-> IF c.vv[i] = c.v THEN NONE ELSE c.vv[i]]
           [] c.how = "copy"   -> S[c.a].x)
    [] c.op = "mctor" ->
        (CASE c.how = "size"   -> EmptyM(c.n, c.n2)
           [] c.how = "dense"  -> c.vv
           [] c.how = "densez" -> [i \in DOMAIN c.vv |->
                                    [j \in DOMAIN c.vv[i] |->
                                       IF c.vv[i][j] = c.v THEN NONE ELSE c.vv[i][j]]]
           [] c.how = "copy"   -> S[c.a].x)

Queries == {"vget", "vhas", "mget", "mhas", "veq", "meq", "vview", "mview", "reducevs", "reducems"}

(* Scalar returned by a query or reduction (0 for commands without one).   *)
(* reduce to scalar: c.v is the old scalar of domain c.vd.                 *)
ScalarOf(S, c) ==
  CASE c.op = "vget" -> S[c.o].x[c.i + 1]
    [] c.op = "mget" -> S[c.o].x[c.i + 1][c.j + 1]
    [] c.op = "vhas" -> B2I(S[c.o].x[c.i + 1] # NONE)
    [] c.op = "mhas" -> B2I(S[c.o].x[c.i + 1][c.j + 1] # NONE)
    [] c.op \in {"veq", "meq"} -> B2I(S[c.a].x = S[c.b].x)
    \* what views say: shape (rows * 1000 + columns), and (structural views) their count
    [] c.op = "mview" ->
         LET a == S[c.a] IN
         (CASE c.how = "tran" -> NCols(a) * 1000 + NRows(a)
            [] c.how = "str"  -> NRows(a) * 1000 + NCols(a) + 1000000 * (NvalsM(a.x) % 1000)
            [] c.how = "scomp" -> NRows(a) * 1000 + NCols(a)
                                  + 1000000 * ((NRows(a) * NCols(a) - NvalsM(a.x)) % 1000)
            [] OTHER          -> NRows(a) * 1000 + NCols(a))
    [] c.op = "vview" ->
         Size(S[c.a]) + 1000000 * ((IF c.how = "str" THEN NvalsV(S[c.a].x) ELSE
                                    IF c.how = "scomp" THEN Size(S[c.a]) - NvalsV(S[c.a].x) ELSE 0) % 1000)
    [] c.op = "reducevs" ->
         AccumE(c.acc, c.v, c.vd, ReduceV(c.add, S[c.a].x, AD(S, c)), c.add.d[3])
    [] c.op = "reducems" ->
         AccumE(c.acc, c.v, c.vd, ReduceM(c.add, AX(S, c), AD(S, c)), c.add.d[3])
    [] OTHER -> 0

(* Objects named by an "init" command: a fresh store. *)
InitStore(c) ==
  [id \in {c.objs[k].id : k \in DOMAIN c.objs} |->
     LET k == CHOOSE k \in DOMAIN c.objs : c.objs[k].id = id
     IN  [k |-> c.objs[k].k, d |-> c.objs[k].d, x |-> c.objs[k].x]]

(* An object that comes into being: its id, kind and domain are in c. *)
Create(S, id, k, d, x) ==
  [i \in DOMAIN S \cup {id} |-> IF i = id THEN [k |-> k, d |-> d, x |-> x] ELSE S[i]]

Post(S, c) ==
  IF c.op = "init" THEN InitStore(c)
  ELSE IF c.op = "new" THEN Create(S, c.o, c.k, c.d, c.x)
  ELSE IF c.op = "vctor" THEN Create(S, c.o, "V", c.d, MapOut(c, S))
  ELSE IF c.op = "mctor" THEN Create(S, c.o, "M", c.d, MapOut(c, S))
  ELSE IF c.op \in Queries THEN S
  ELSE Upd(S, c.o, MapOut(c, S))

=============================================================================
