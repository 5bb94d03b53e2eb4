---- MODULE TraceImgDispatch ----
EXTENDS Dispatch, Json, IOUtils
Base(st, op, a) == DispOutcomes(st, op, a)
Saving(st) == { [st |-> st, log |-> << >>] }
Restart(st) == { st }
Done(st) == st
Late(g) == { g }
Init0(cfg) == { DispInit }
C0(st) == << >>
I == INSTANCE Image
Traces == ndJsonDeserialize(IOEnv.TRACE)
InitOf(cfg) == I!ImageInit(cfg)
Outcomes(q, op, a) == I!ImageOutcomes(q, op, a, C0)
VARIABLES tid, l, sts
INSTANCE Replay
====
