-------------------------------- MODULE MCOps --------------------------------
(***************************************************************************)
(* Exhaustive exploration of single operations of the GBTL machine inside  *)
(* small constants.  Every initial state is a store together with one      *)
(* command; the only step performs it.  In every state the laws below are  *)
(* evaluated (they relate the machine's outcome to independent statements  *)
(* of what the operation means), and every step is printed so that it can  *)
(* be replayed in the C++ library: the store, the command, the outcome the *)
(* machine allows.                                                         *)
(***************************************************************************)
EXTENDS GBTL, TLC, Json

CONSTANTS
  Ops,                       \* operations explored
  DN, DK, DL,                \* dimensions
  EC, EA, EB, EM,            \* entries of output, operands, mask
  MKs, ACCs, Zs,             \* masks, accumulators, output modes
  TAs, TBs,                  \* transpositions
  MULs, ADDs, UNs,           \* operators
  Aliases,                   \* subset of {"none","oa","ob","ab","oab","om","am"}
  ErrDims,                   \* add mismatched sizes (BOOLEAN)
  TSN                        \* typeset: element types of everything involved

VARIABLES S, c, phase, dim
vars == <<S, c, phase, dim>>

(* The typesets of harness/core.hpp: output, mask, operands; operator;     *)
(* accumulator; unary operator; scalar.                                    *)
TyOf(cc, mm, aa, bb, d1, d2, d3, q1, q2, q3, u1, u2, ss) ==
  [C |-> cc, M |-> mm, A |-> aa, B |-> bb, D |-> <<d1, d2, d3>>, Q |-> <<q1, q2, q3>>,
   U |-> <<u1, u2>>, S |-> ss]
Ty ==
  CASE TSN = "T_I"  -> TyOf("i32","i32","i32","i32","i32","i32","i32","i32","i32","i32","i32","i32","i32")
    [] TSN = "T_B"  -> TyOf("bool","bool","bool","bool","bool","bool","bool","bool","bool","bool","bool","bool","bool")
    [] TSN = "T_U"  -> TyOf("u8","u8","u8","u8","u8","u8","u8","u8","u8","u8","u8","u8","u8")
    [] TSN = "T_L"  -> TyOf("i64","i64","i64","i64","i64","i64","i64","i64","i64","i64","i64","i64","i64")
    [] TSN = "T_X1" -> TyOf("i32","f64","f64","i8","f64","i32","f64","i32","f64","f64","f64","f64","f64")
    [] TSN = "T_X2" -> TyOf("f64","i8","i32","f64","i32","f64","f64","f64","f64","f64","i32","f64","i16")
    [] TSN = "T_X3" -> TyOf("bool","bool","u8","i16","i32","i32","i32","bool","i32","i32","i16","i32","i32")
    [] TSN = "T_X4" -> TyOf("i16","u8","i8","u8","i32","i32","i32","i32","i32","i16","i32","i16","i32")

Op3(f) == [f |-> f, d |-> Ty.D]
Add3(f) == [f |-> f, d |-> <<Ty.D[3], Ty.D[3], Ty.D[3]>>]
AccOf(f) == IF f = "no" THEN NoAcc ELSE [f |-> f, d |-> Ty.Q]

VOf(n, ents) == [1..n -> ents]
MOf(r, k, ents) == [1..r -> [1..k -> ents]]
Vec(x, d) == [k |-> "V", d |-> d, x |-> x]
Mat(x, d) == [k |-> "M", d |-> d, x |-> x]

VecOut == {"mxv", "vxm", "eaddv", "emulv", "applyv", "bind1v", "bind2v", "reducemv",
           "extractv", "extractcol", "assignv", "assigncv"}
MatOut == {"mxm", "eaddm", "emulm", "applym", "bind1m", "bind2m", "transpose", "kron",
           "extractm", "assignm", "assigncm", "assigncol", "assignrow"}
VecA == {"vxm", "eaddv", "emulv", "applyv", "bind1v", "bind2v", "extractv", "assignv",
         "assigncol", "assignrow"}
MatA == {"mxm", "mxv", "eaddm", "emulm", "applym", "bind1m", "bind2m", "reducemv",
         "transpose", "kron", "extractm", "extractcol", "assignm"}
VecB == {"mxv", "eaddv", "emulv"}
MatB == {"mxm", "vxm", "eaddm", "emulm", "kron"}

(* Index lists of length q into 0..n-1; distinct for assign. *)
IxAll == [k |-> "all"]
IxL(s) == [k |-> "list", v |-> s]
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
IxLists(n, q) == {IxL([i \in 1..q |-> s[i]]) : s \in [1..q -> 0..(n-1)]}
IxD(n, q) == {x \in IxLists(n, q) : Distinct(x.v)}
IxRng(n, q) == {[k |-> "rng", b |-> b, e |-> b + q] : b \in 0..(n-q)}
IxFor(n, q, dist) ==
  (IF q <= n THEN IxRng(n, q) ELSE {}) \cup (IF dist THEN IxD(n, q) ELSE IxLists(n, q))
  \cup (IF q = n THEN {IxAll} ELSE {})
IxKindsOk(r, k) == <<r.k, k.k>> \in {<<"all","all">>, <<"all","list">>, <<"list","all">>,
                                       <<"list","list">>, <<"rng","rng">>}

(* Shapes of output, first and second operand (as views) for dims n, k, l. *)
OutShape(op, n, k, l) ==
  CASE op = "mxm" -> <<n, l>>
    [] op = "kron" -> <<n * l, k * l>>
    [] op \in MatOut -> <<n, k>>
    [] op \in VecOut -> <<n>>
AShape(op, n, k, l) ==
  CASE op = "mxm" -> <<n, k>>  [] op = "mxv" -> <<n, k>> [] op = "vxm" -> <<k>>
    [] op \in {"eaddv", "emulv", "applyv", "bind1v", "bind2v"} -> <<n>>
    [] op = "reducemv" -> <<n, k>> [] op = "transpose" -> <<k, n>>
    [] op = "kron" -> <<n, k>>
    [] op \in {"extractv", "extractcol"} -> IF op = "extractv" THEN <<k>> ELSE <<k, l>>
    [] op = "extractm" -> <<l, l>>
    [] op = "assignv" -> <<k>>  [] op = "assignm" -> <<l, l>>
    [] op \in {"assigncol", "assignrow"} -> <<l>>
    [] OTHER -> <<n, k>>
BShape(op, n, k, l) ==
  CASE op = "mxm" -> <<k, l>> [] op = "mxv" -> <<k>> [] op = "vxm" -> <<k, n>>
    [] op \in {"eaddv", "emulv"} -> <<n>> [] op = "kron" -> <<l, l>>
    [] OTHER -> <<n, k>>

(* Stored shape behind a view. *)
Un2(sh, t) == IF t THEN <<sh[2], sh[1]>> ELSE sh
ObjsOf(sh, ents, d) == IF Len(sh) = 1 THEN {Vec(x, d) : x \in VOf(sh[1], ents)}
                       ELSE {Mat(x, d) : x \in MOf(sh[1], sh[2], ents)}
Bump(sh) == {sh} \cup (IF ErrDims THEN {[sh EXCEPT ![i] = @ + 1] : i \in DOMAIN sh} ELSE {})

MaskShapeOf(op, osh) ==
  IF op = "assigncol" THEN <<osh[1]>> ELSE IF op = "assignrow" THEN <<osh[2]>> ELSE osh

UsesA(op) == op \in VecA \cup MatA
UsesB(op) == op \in VecB \cup MatB
UsesTA(op) == op \in MatA
UsesTB(op) == op \in MatB
UsesMul(op) == op \in {"mxm","mxv","vxm","eaddv","emulv","eaddm","emulm","bind1v","bind2v",
                       "bind1m","bind2m","kron"}
UsesAdd(op) == op \in {"mxm", "mxv", "vxm", "reducemv"}
UsesUn(op)  == op \in {"applyv", "applym"}
UsesVal(op) == op \in {"bind1v","bind2v","bind1m","bind2m","assigncv","assigncm"}

RIs(op, n, k, l) ==
  CASE op = "extractv" -> IxFor(k, n, FALSE)
    [] op = "extractm" -> IxFor(l, n, FALSE)
    [] op = "extractcol" -> IxFor(k, n, FALSE)
    [] op = "assignv" -> IxFor(n, k, TRUE)
    [] op = "assignm" -> IxFor(n, l, TRUE)
    [] op = "assigncol" -> IxFor(n, l, TRUE)
    [] op = "assignrow" -> IxFor(k, l, TRUE)
    [] op = "assigncv" -> IxFor(n, k, FALSE)
    [] op = "assigncm" -> IxFor(n, l, FALSE)
    [] OTHER -> {IxAll}
CIs(op, n, k, l) ==
  CASE op = "extractm" -> IxFor(l, k, FALSE)
    [] op = "assignm" -> IxFor(k, l, TRUE)
    [] op = "assigncm" -> IxFor(k, l, FALSE)
    [] OTHER -> {IxAll}
Is(op, n, k, l) ==
  CASE op = "extractcol" -> 0..(l - 1 + B2I(ErrDims))
    [] op = "assigncol" -> 0..(k - 1 + B2I(ErrDims))
    [] op = "assignrow" -> 0..(n - 1 + B2I(ErrDims))
    [] OTHER -> {0}

One(set) == {CHOOSE x \in set : TRUE}

(* First the command is chosen, then the objects it applies to (the empty *)
(* store and the dimensions are kept in the state meanwhile).              *)
NoStore == [id \in {} |-> 0]
Dummy(d) == {Vec(<<NONE>>, d)}

Init ==
  \E op \in Ops, n \in DN, k \in DK, l \in DL, al \in Aliases :
  \E ta \in (IF UsesTA(op) THEN TAs ELSE {FALSE}),
     tb \in (IF UsesTB(op) THEN TBs ELSE {FALSE}),
     mk \in MKs, acc \in ACCs, z \in Zs,
     mul \in (IF UsesMul(op) THEN MULs ELSE One(MULs)),
     add \in (IF UsesAdd(op) THEN ADDs ELSE One(ADDs)),
     un  \in (IF UsesUn(op) THEN UNs ELSE One(UNs)),
     v   \in (IF UsesVal(op) THEN {2, 0} ELSE {0}) :
  \E ri \in RIs(op, n, k, l), ci \in CIs(op, n, k, l), i \in Is(op, n, k, l) :
    LET a == IF al \in {"oa", "oab"} THEN "c" ELSE "a"
        b == IF al \in {"ob", "oab"} THEN "c" ELSE IF al = "ab" THEN "a" ELSE "b"
        m == IF al = "om" THEN "c" ELSE IF al = "am" THEN "a" ELSE "m"
    IN
    /\ op \in {"extractm", "assignm", "assigncm"} => IxKindsOk(ri, ci)
    \* an alias needs an object of the right kind and type
    /\ al \in {"oa", "oab"} => Ty.A = Ty.C
    /\ al \in {"ob", "oab"} => Ty.B = Ty.C
    /\ al \in {"ab", "oab"} => Ty.A = Ty.B
    /\ al = "om" => Ty.M = Ty.C
    /\ al = "am" => Ty.M = Ty.A
    /\ al \in {"oa", "oab"} => UsesA(op) /\ (op \in VecOut) = (op \in VecA)
    /\ al \in {"ob", "oab"} => UsesB(op) /\ (op \in VecOut) = (op \in VecB)
    /\ al = "ab" => UsesB(op) /\ (op \in VecA) = (op \in VecB)
    /\ al = "om" => mk # "none" /\ op \notin {"assigncol", "assignrow"}
    /\ al = "am" => /\ mk # "none" /\ UsesA(op)
                    /\ (op \in VecA) = (op \in VecOut \cup {"assigncol", "assignrow"})
    /\ c = [op |-> op, ts |-> TSN, o |-> "c", a |-> a, b |-> b, ta |-> ta, tb |-> tb,
            mk |-> mk, m |-> m, acc |-> AccOf(acc), z |-> z, mul |-> Op3(mul),
            add |-> Add3(add), un |-> [f |-> un, d |-> Ty.U], v |-> Cast(v, "i32", Ty.S), vd |-> Ty.S,
            ri |-> ri, ci |-> ci, i |-> i, bop |-> FALSE]
    /\ phase = "cfg" /\ dim = <<n, k, l>>
    /\ S = NoStore

Choose ==
  /\ phase = "cfg" /\ phase' = "todo" /\ UNCHANGED <<c, dim>>
  /\ LET op == c.op  n == dim[1]  k == dim[2]  l == dim[3]
         as == IF UsesA(op) /\ c.a = "a"
               THEN UNION {ObjsOf(sh, EA, Ty.A) : sh \in Bump(Un2(AShape(op, n, k, l), c.ta))} ELSE Dummy(Ty.A)
         bs == IF UsesB(op) /\ c.b = "b"
               THEN UNION {ObjsOf(sh, EB, Ty.B) : sh \in Bump(Un2(BShape(op, n, k, l), c.tb))} ELSE Dummy(Ty.B)
         ms == IF c.mk # "none" /\ c.m = "m"
               THEN UNION {ObjsOf(sh, EM, Ty.M) : sh \in Bump(MaskShapeOf(op, OutShape(op, n, k, l)))} ELSE Dummy(Ty.M)
     IN \E co \in ObjsOf(OutShape(op, n, k, l), EC, Ty.C), ao \in as, bo \in bs, mo \in ms :
          S' = [id \in {"a", "b", "c", "m"} |->
                  CASE id = "a" -> ao [] id = "b" -> bo [] id = "c" -> co [] id = "m" -> mo]

Emit(errs, t) ==
  PrintT(<<"T", ToJson([objs |-> S, cmd |-> c,
                        errs |-> errs, x |-> IF errs = {} THEN t["c"].x ELSE <<>>])>>)

Perform ==
  /\ phase = "todo" /\ phase' = "done" /\ UNCHANGED <<c, dim>>
  /\ LET errs == Errs(S, c)  t == IF errs = {} THEN Post(S, c) ELSE S
     IN  S' = t /\ Emit(errs, t)

Next == Choose \/ Perform

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Laws, evaluated in the "todo" state of every command. *)

Ok == Errs(S, c) = {}
Out == Post(S, c)["c"].x
OutOf(S2, c2) == Post(S2, c2)[c2.o].x

ForCells(P(_, _)) ==      \* over every output position, as a pair (i, j); j = 1 for vectors
  LET o == S["c"] IN
  IF o.k = "V" THEN \A i \in DOMAIN o.x : P(i, 1)
  ELSE \A i \in DOMAIN o.x : \A j \in DOMAIN o.x[1] : P(i, j)
At(o, x, i, j) == IF o.k = "V" THEN x[i] ELSE x[i][j]
MaskAt(i, j) == IF c.mk = "none" THEN TRUE ELSE
                Allows(c.mk, IF c.op = "assigncol" THEN S[c.m].x[i]
                             ELSE IF c.op = "assignrow" THEN S[c.m].x[j]
                             ELSE At(S[c.m], S[c.m].x, i, j))
InLine(i, j) == CASE c.op = "assigncol" -> j = c.i + 1
                  [] c.op = "assignrow" -> i = c.i + 1
                  [] OTHER -> TRUE

(* Masking only selects: allowed positions as without a mask, others kept  *)
(* or deleted.                                                             *)
MaskLaw ==
  (phase = "todo" /\ Ok) =>
    LET o == S["c"]  free == OutOf(S, [c EXCEPT !.mk = "none"])  out == Out IN
    ForCells(LAMBDA i, j :
      At(o, out, i, j) =
        IF ~InLine(i, j) THEN At(o, o.x, i, j)
        ELSE IF MaskAt(i, j) THEN At(o, free, i, j)
        ELSE IF c.z = "replace" THEN NONE ELSE At(o, o.x, i, j))

(* A complemented mask allows exactly what the plain one forbids. *)
PartitionLaw ==
  (phase = "todo" /\ c.mk \in {"val", "str"} /\ Ok /\ c.op \notin {"assigncol", "assignrow"}) =>
    LET o == S["c"]
        x1 == OutOf(S, [c EXCEPT !.z = "merge"])
        x2 == OutOf(S, [c EXCEPT !.z = "merge", !.mk = IF c.mk = "val" THEN "comp" ELSE "scomp"])
        free == OutOf(S, [c EXCEPT !.mk = "none"])
    IN ForCells(LAMBDA i, j :
         {At(o, x1, i, j), At(o, x2, i, j)} = {At(o, o.x, i, j), At(o, free, i, j)})

(* A transposed view equals the transposed object. *)
ViewLaw ==
  (phase = "todo" /\ Ok /\ (c.ta \/ c.tb) /\ c.a # "c" /\ c.b # "c" /\ c.a # c.b /\ c.m # "a") =>
    LET S2 == [S EXCEPT !["a"] = IF c.ta THEN Mat(TransposeX(@.x), @.d) ELSE @,
                        !["b"] = IF c.tb THEN Mat(TransposeX(@.x), @.d) ELSE @]
    IN  OutOf(S2, [c EXCEPT !.ta = FALSE, !.tb = FALSE]) = Out

(* Aliased arguments equal distinct copies. *)
AliasLaw ==
  (phase = "todo" /\ Ok) =>
    LET S2 == [id \in {"c", "a2", "b2", "m2"} |->
                 CASE id = "c" -> S["c"] [] id = "a2" -> S[c.a] [] id = "b2" -> S[c.b]
                   [] id = "m2" -> S[c.m]]
    IN  OutOf(S2, [c EXCEPT !.a = "a2", !.b = "b2", !.m = "m2"]) = Out

(* Independent statements of what the results are, without mask/accumulator. *)
Plain == [c EXCEPT !.mk = "none", !.acc = NoAcc]
AV == View(S[c.a].x, c.ta)
BV == View(S[c.b].x, c.tb)
KS(x, y) == {k \in DOMAIN x : x[k] # NONE /\ y[k] # NONE}
RECURSIVE SumOver(_, _)
SumOver(K, f) == IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN f[k] + SumOver(K \ {k}, f)
Mul2(x, y) == BinFun(c.mul.f, x, y, 1)
DotDef(x, y) ==
  LET K == KS(x, y)  f == [k \in K |-> Mul2(x[k], y[k])] IN
  IF K = {} THEN NONE
  ELSE CASE c.add.f = "plus" -> SumOver(K, f)
         [] c.add.f = "min" -> CHOOSE v \in {f[k] : k \in K} : \A w \in {f[k] : k \in K} : v <= w
         [] c.add.f = "max" -> CHOOSE v \in {f[k] : k \in K} : \A w \in {f[k] : k \in K} : w <= v
Col(x, j) == [i \in DOMAIN x |-> x[i][j]]
DefLaw ==
  (phase = "todo" /\ Ok /\ TSN = "T_I") =>
    LET x == OutOf(S, Plain) IN
    CASE c.op = "mxm" -> \A i \in DOMAIN x, j \in DOMAIN x[1] : x[i][j] = DotDef(AV[i], Col(BV, j))
      [] c.op = "mxv" -> \A i \in DOMAIN x : x[i] = DotDef(AV[i], S[c.b].x)
      [] c.op = "vxm" -> \A j \in DOMAIN x : x[j] = DotDef(S[c.a].x, Col(BV, j))
      [] c.op \in {"eaddv", "emulv", "eaddm", "emulm"} ->
           LET P(p, q) == IF S["c"].k = "V" THEN <<S[c.a].x[p], S[c.b].x[p]>> ELSE <<AV[p][q], BV[p][q]>>
           IN ForCells(LAMBDA p, q :
                LET e == At(S["c"], x, p, q)  u == P(p, q)[1]  w == P(p, q)[2] IN
                /\ (e # NONE) = (IF c.op \in {"eaddv", "eaddm"} THEN u # NONE \/ w # NONE
                                 ELSE u # NONE /\ w # NONE)
                /\ (u # NONE /\ w # NONE) => e = Mul2(u, w)
                /\ (e # NONE /\ u = NONE) => e = w
                /\ (e # NONE /\ w = NONE) => e = u)
      [] c.op = "transpose" -> TransposeX(x) = AV
      [] c.op = "kron" ->
           \A i1 \in DOMAIN AV, j1 \in DOMAIN AV[1], i2 \in DOMAIN BV, j2 \in DOMAIN BV[1] :
             x[(i1-1) * Len(BV) + i2][(j1-1) * Len(BV[1]) + j2] =
               IF AV[i1][j1] = NONE \/ BV[i2][j2] = NONE THEN NONE ELSE Mul2(AV[i1][j1], BV[i2][j2])
      [] c.op \in {"extractm"} ->
           LET rs == ExSeq(c.ri, Len(AV), Len(x))  cs == ExSeq(c.ci, Len(AV[1]), Len(x[1])) IN
           \A i \in DOMAIN x, j \in DOMAIN x[1] : x[i][j] = AV[rs[i] + 1][cs[j] + 1]
      [] c.op = "assignm" ->
           LET rs == IxSeq(c.ri, Len(x))  cs == IxSeq(c.ci, Len(x[1]))  o == S["c"].x IN
           /\ \A i \in DOMAIN rs, j \in DOMAIN cs : x[rs[i] + 1][cs[j] + 1] = AV[i][j]
           /\ \A i \in DOMAIN x, j \in DOMAIN x[1] :
                (\A p \in DOMAIN rs : rs[p] + 1 # i) \/ (\A q \in DOMAIN cs : cs[q] + 1 # j)
                => x[i][j] = o[i][j]
      [] c.op = "reducemv" -> \A i \in DOMAIN x :
           LET K == {k \in DOMAIN AV[i] : AV[i][k] # NONE} IN
           x[i] = IF K = {} THEN NONE
                  ELSE CASE c.add.f = "plus" -> SumOver(K, AV[i])
                         [] OTHER -> IF c.add.f = "min"
                             THEN CHOOSE v \in {AV[i][k] : k \in K} : \A k \in K : v <= AV[i][k]
                             ELSE CHOOSE v \in {AV[i][k] : k \in K} : \A k \in K : v >= AV[i][k]
      [] OTHER -> TRUE

(* Operands matter only through their values converted to the operator's  *)
(* argument types.                                                         *)
CastObj(x, d) == IF x.k = "V" THEN Vec(CastV(x.x, x.d, d), d)
                 ELSE Mat([i \in DOMAIN x.x |-> CastV(x.x[i], x.d, d)], d)
ConvLaw ==
  (phase = "todo" /\ Ok /\ c.op \in {"mxm","mxv","vxm","emulv","emulm","kron","applyv","applym"}) =>
    LET da == IF UsesUn(c.op) THEN Ty.U[1] ELSE Ty.D[1]
        S2 == [id \in {"c", "a2", "b2", "m2"} |->
                 CASE id = "c" -> S["c"] [] id = "a2" -> CastObj(S[c.a], da)
                   [] id = "b2" -> CastObj(S[c.b], Ty.D[2]) [] id = "m2" -> S[c.m]]
    IN  OutOf(S2, [c EXCEPT !.a = "a2", !.b = "b2", !.m = "m2"]) = Out
(* Every value the output holds is one of its own type. *)
InDom(v, d) == CASE d = "bool" -> v \in {0, 1} [] d = "u8" -> v \in 0..255
                 [] d = "i8" -> v \in -128..127 [] d = "i16" -> v \in -32768..32767 [] OTHER -> TRUE
DomainLaw ==
  (phase = "todo" /\ Ok) =>
    LET o == S["c"]  out == Out IN
    ForCells(LAMBDA i, j : At(o, out, i, j) = NONE \/ InDom(At(o, out, i, j), o.d))

(* A command changes nothing but its output, and nothing at all if rejected. *)
FrameLaw ==
  phase = "todo" =>
    IF Ok THEN LET t == Post(S, c) IN \A id \in DOMAIN S : id # c.o => t[id] = S[id]
    ELSE Errs(S, c) \subseteq {DIM, OOB, IIX, IVL, NOV}
ShapeLaw ==
  (phase = "todo" /\ Ok) =>
    LET o == S["c"]  x == Out IN
    /\ Len(x) = Len(o.x)
    /\ o.k = "M" => \A i \in DOMAIN x : Len(x[i]) = Len(o.x[1])
=============================================================================
