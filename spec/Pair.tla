-------------------------------- MODULE Pair --------------------------------
(***************************************************************************)
(* Two recordings of one program, made on two platforms, must be the same  *)
(* behaviour: same outcome, same scalar, same observations, call by call.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

A == ndJsonDeserialize(IOEnv.TRACE_A)
B == ndJsonDeserialize(IOEnv.TRACE_B)

VARIABLES l, skip
Min(x, y) == IF x < y THEN x ELSE y
Agree(p, q) == p.op = q.op /\ p.ret = q.ret /\ p.s = q.s /\ p.w = q.w

Init == /\ l = 1 /\ skip = FALSE
        /\ (Len(A) # Len(B)) => PrintT(<<"DIFFER", ToString(Min(Len(A), Len(B)) + 1)>>)
(* After a difference the rest of that script says nothing new. *)
Next == /\ l <= Min(Len(A), Len(B))
        /\ l' = l + 1
        /\ IF skip /\ A[l].op # "init" THEN skip' = TRUE
           ELSE IF Agree(A[l], B[l]) THEN skip' = FALSE
           ELSE PrintT(<<"DIFFER", ToString(l)>>) /\ skip' = TRUE
Spec == Init /\ [][Next]_<<l, skip>>
=============================================================================
