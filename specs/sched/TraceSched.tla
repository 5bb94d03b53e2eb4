----------------------------- MODULE TraceSched -----------------------------
(* The recorded events of a set of green threads are exactly those of the
   specification, whose invariants are evaluated after every event. *)
EXTENDS Sched, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
InitOf(cfg) == { SchedInit(cfg) }
Outcomes(st, op, a) ==
  LET o == Step(st) IN
  IF o.op = "undef" THEN { [any |-> TRUE] }
  ELSE IF o.op = op /\ o.a = a THEN { [st |-> o.st, r |-> o.r, c |-> << >>] }
  ELSE { [st |-> st, r |-> <<o.op, o.a, o.r>>, c |-> <<"instead">>] }
VARIABLES tid, l, sts
INSTANCE Replay
Inv == \A s \in sts : StateOK(s)
=============================================================================
