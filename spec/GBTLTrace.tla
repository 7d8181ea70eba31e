------------------------------ MODULE GBTLTrace ------------------------------
(***************************************************************************)
(* Is a trace recorded from the C++ library a behaviour of the GBTL        *)
(* abstract machine?  The trace is a file of JSON records, one per call;   *)
(* see harness/driver.cpp.  S is the abstract store.  Each record is       *)
(* matched against the machine: its outcome must be one the machine        *)
(* allows, and every object the library shows afterwards must hold exactly *)
(* what the machine's store holds (an object that is not shown has not     *)
(* changed, so the machine must not have changed it either).               *)
(*                                                                         *)
(* A record that does not match is reported with what the machine expected *)
(* and the rest of its script (up to the next "init") is skipped.          *)
(***************************************************************************)
EXTENDS GBTL, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,       \* next record
          S,       \* abstract store
          skip,    \* skipping to the next init
          bad      \* number of mismatches

vars == <<l, S, skip, bad>>

Has(r, f) == f \in DOMAIN r

(* Observation w of one object agrees with the store s. *)
ObsOk(s, w) ==
  /\ w.id \in DOMAIN s
  /\ w.k = s[w.id].k /\ w.d = s[w.id].d
  /\ w.x = s[w.id].x                  \* contents and shape
  /\ w.n = Nvals(s[w.id])             \* nvals()
  /\ w.t = w.n                        \* number of tuples extracted
  /\ ~Has(w, "bad")                   \* no tuple out of range or repeated
  /\ ~Has(w, "y")                     \* element access agrees with tuples
  /\ ~Has(w, "eq")                    \* == / != agree with contents

Shown(r) == {r.w[k].id : k \in DOMAIN r.w}

(* r agrees with the machine, t being the store it reaches from s. *)
RecordOk(s, r, errs, t) ==
  IF errs # {}
  THEN r.ret \in errs /\ r.w = <<>>
  ELSE /\ r.ret = "ok"
       /\ r.s = ScalarOf(s, r)
       /\ \A k \in DOMAIN r.w : ObsOk(t, r.w[k])
       /\ r.op \in Queries \/ (IF r.op = "init" THEN Shown(r) = DOMAIN t ELSE r.o \in Shown(r))
       \* "not shown" means unchanged, and the machine changes only r.o

Expected(s, r) ==
  LET errs == Errs(s, r) IN
  IF errs # {} THEN [errs |-> errs]
  ELSE IF r.op \in Queries THEN [s |-> ScalarOf(s, r)]
  ELSE IF r.op = "init" THEN [x |-> <<>>] ELSE [x |-> Post(s, r)[r.o].x]

Init == l = 1 /\ S = [i \in {} |-> 0] /\ skip = FALSE /\ bad = 0

Next ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET r == Log[l] IN
     IF skip /\ r.op # "init" THEN UNCHANGED <<S, skip, bad>>
     ELSE LET errs == TLCEval(Errs(S, r))
              t == IF errs = {} THEN TLCEval(Post(S, r)) ELSE S IN
          IF RecordOk(S, r, errs, t)
          THEN /\ S' = t
               /\ skip' = FALSE /\ bad' = bad
          ELSE /\ PrintT(<<"REJECT", ToString(l), ToJson(Expected(S, r)), ToJson(S)>>)
               /\ skip' = TRUE /\ bad' = bad + 1 /\ S' = S

Spec == Init /\ [][Next]_vars

(* The whole trace was matched, without a mismatch. *)
NoReject == bad = 0
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
