------------------------------- MODULE MCCont -------------------------------
(***************************************************************************)
(* The complete state graph of one container ("M": a matrix, "V": a        *)
(* vector) inside small constants: every state is a container, every       *)
(* transition one method call.  Transitions are printed with their source  *)
(* and target so that every edge of the graph can be walked in the C++     *)
(* library, and the container laws are checked on every edge.              *)
(***************************************************************************)
EXTENDS GBTL, TLC, Json

CONSTANTS Kind, MaxR, MaxC, Vals, BuildLen, Dups, Init0

VARIABLE o
vars == <<o>>

Store(x) == [id \in {"o"} |-> [k |-> Kind, d |-> "i32", x |-> x]]
I3 == <<"i32", "i32", "i32">>
Cm(op) == [op |-> op, ts |-> "i32", ta |-> FALSE, tb |-> FALSE, o |-> "o", a |-> "o", b |-> "o",
           i |-> 0, j |-> 0, v |-> 0, n |-> 0, n2 |-> 0, ii |-> <<>>, jj |-> <<>>, vv |-> <<>>,
           how |-> "copy", dflt |-> FALSE, iter |-> FALSE, d |-> "i32",
           mul |-> [f |-> "second", d |-> I3]]
Seqs(set, n) == UNION {[1..k -> set] : k \in 0..n}

NR == Len(o)
NC == IF Kind = "M" THEN Len(o[1]) ELSE 1
(* Small positions including one out of range in each direction. *)
PosI == 0..NR
PosJ == IF Kind = "M" THEN 0..NC ELSE {0}
IsEmpty == (IF Kind = "M" THEN NvalsM(o) ELSE NvalsV(o)) = 0

VCmds ==
  {[Cm(op) EXCEPT !.i = i] : op \in {"vrem", "vget", "vhas"}, i \in PosI}
  \cup {[Cm("vset") EXCEPT !.i = i, !.v = v] : i \in PosI, v \in Vals}
  \cup {Cm("vclear")}
  \cup {[Cm("vresize") EXCEPT !.n = n] : n \in 0..MaxR}
  \cup {[Cm("vdense") EXCEPT !.vv = w] : w \in [1..NR -> Vals] \cup [1..(NR+1) -> {1}]}
  \cup {Cm("veq"), Cm("vcopy")}
  \* build replaces what a vector holds, so it is explored from every state
  \cup {[Cm("vbuild") EXCEPT !.ii = [p \in DOMAIN s |-> s[p][1]], !.vv = [p \in DOMAIN s |-> s[p][2]],
                             !.mul = [f |-> f, d |-> I3]] :
          s \in Seqs((0..(NR-1)) \X Vals, BuildLen), f \in Dups}
  \cup {[Cm("vbuild") EXCEPT !.ii = <<0, NR>>, !.vv = <<1, 1>>],
        [Cm("vbuild") EXCEPT !.ii = <<0>>, !.vv = <<1, 1>>]}
MCmds ==
  {[Cm(op) EXCEPT !.i = i, !.j = j] : op \in {"mrem", "mget", "mhas"}, i \in PosI, j \in PosJ}
  \cup {[Cm("mset") EXCEPT !.i = i, !.j = j, !.v = v] : i \in PosI, j \in PosJ, v \in Vals}
  \cup {Cm("mclear")}
  \cup {[Cm("mresize") EXCEPT !.n = n, !.n2 = k] : n \in 0..MaxR, k \in 0..MaxC}
  \cup {Cm("meq"), Cm("mcopy")}
  \cup (IF ~IsEmpty THEN {} ELSE
        {[Cm("mbuild") EXCEPT !.ii = [p \in DOMAIN s |-> s[p][1]], !.jj = [p \in DOMAIN s |-> s[p][2]],
                              !.vv = [p \in DOMAIN s |-> s[p][3]], !.mul = [f |-> f, d |-> I3]] :
           s \in Seqs((0..(NR-1)) \X (0..(NC-1)) \X Vals, BuildLen), f \in Dups})
  \cup {[Cm("mbuild") EXCEPT !.ii = <<0, NR>>, !.jj = <<0, 0>>, !.vv = <<1, 1>>],
        [Cm("mbuild") EXCEPT !.ii = <<0, 0>>, !.jj = <<0, NC>>, !.vv = <<1, 1>>],
        [Cm("mbuild") EXCEPT !.ii = <<0>>, !.jj = <<0>>, !.vv = <<1, 1>>]}
Cmds == IF Kind = "M" THEN MCmds ELSE VCmds

Init == o = IF Kind = "M" THEN EmptyM(1, 1) ELSE EmptyV(1)

Count(x) == IF Kind = "M" THEN NvalsM(x) ELSE NvalsV(x)
EntryAt(x, i, j) == IF Kind = "M" THEN x[i + 1][j + 1] ELSE x[i + 1]

(* Laws of one call. *)
LawOk(c, errs, x, s) ==
  LET f == c.op IN
  /\ errs # {} => x = o
  /\ (errs = {} /\ f \in {"vset", "mset"}) =>
       /\ EntryAt(x, c.i, c.j) = c.v
       /\ Count(x) = Count(o) + (IF EntryAt(o, c.i, c.j) = NONE THEN 1 ELSE 0)
  /\ (errs = {} /\ f \in {"vrem", "mrem"}) =>
       /\ EntryAt(x, c.i, c.j) = NONE
       /\ Count(x) = Count(o) - (IF EntryAt(o, c.i, c.j) = NONE THEN 0 ELSE 1)
  /\ (errs = {} /\ f \in {"vclear", "mclear"}) => Count(x) = 0 /\ Len(x) = Len(o)
  /\ (errs = {} /\ f \in {"vresize", "mresize"}) =>
       /\ Len(x) = c.n /\ (Kind = "M" => Len(x[1]) = c.n2)
       /\ Count(x) <= Count(o)
  /\ (errs = {} /\ f \in {"vbuild", "mbuild"}) =>
       Count(x) = Cardinality({<<c.ii[p], IF Kind = "M" THEN c.jj[p] ELSE 0>> : p \in DOMAIN c.ii})
  /\ (f \in Queries) => x = o

Call(c) ==
  LET St == Store(o)  errs == Errs(St, c)
      t == IF errs = {} THEN Post(St, c)["o"].x ELSE o
      s == IF errs = {} THEN ScalarOf(St, c) ELSE 0
  IN  /\ o' = t
      /\ Assert(LawOk(c, errs, t, s), <<"law", o, c>>)
      /\ PrintT(<<"E", ToJson([from |-> o, cmd |-> c, errs |-> errs, x |-> t, s |-> s])>>)

Next == \E c \in Cmds : Call(c)
Spec == Init /\ [][Next]_vars
TypeOK == /\ Len(o) \in 1..MaxR
          /\ Kind = "M" => Len(o[1]) \in 1..MaxC
=============================================================================
