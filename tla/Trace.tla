------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation.  A trace is a sequence of groups; a group is one      *)
(* history of events recorded from the real code.  TLC starts one          *)
(* behaviour per group and has to consume every event; `st` is the model   *)
(* state of the history.  An event the specification does not allow is     *)
(* printed and the behaviour goes on, so that every event is judged.       *)
(***************************************************************************)
EXTENDS RandEvents, ValueEvents, Json, IOUtils

Groups == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES g, i, st, bad
vars == <<g, i, st, bad>>

NextState(e) == IF e.p # "" THEN st
                ELSE IF e.op \in FieldOps THEN FieldNext(st, e)
                ELSE IF e.op \in ProtoEventOps THEN ProtoNext(st, e)
                ELSE st

EventOK(e, s2) ==
   /\ e.p = ""
   /\ e.v = 1
   /\ IF e.op \in FieldOps THEN FieldObs(e) = s2
      ELSE IF e.op \in FieldEventOps THEN FieldEventOK(e)
      ELSE IF e.op \in ProtoEventOps THEN ProtoEventOK(s2, e)
      ELSE IF e.op \in ThetaEventOps THEN ThetaEventOK(e)
      ELSE IF e.op \in ValueOps THEN ValueEventOK(e)
      ELSE IF e.op \in RandOps THEN RandEventOK(e)
      ELSE EcEventOK(e)

Init == g \in 1..Len(Groups) /\ i = 0 /\ st = <<>> /\ bad = 0
Consume ==
   /\ i < Len(Groups[g].ev)
   /\ i' = i + 1
   /\ g' = g
   /\ LET e == Groups[g].ev[i + 1]
          s2 == NextState(e)
      IN /\ st' = s2
         /\ IF EventOK(e, s2) THEN bad' = bad
            ELSE PrintT(<<"MISMATCH", g, i + 1, e.op>>) /\ bad' = bad + 1
Next == Consume
Spec == Init /\ [][Next]_vars
=============================================================================
