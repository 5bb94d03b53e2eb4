---- MODULE TraceImgHashed ----
EXTENDS Hashed, Json, IOUtils
Base(st, op, a) == HashOutcomes(st, op, a)
Saving(st) == { [st |-> st, log |-> << >>] }
Restart(st) == { st }
Done(st) == st
Late(g) == { g }
Init0(cfg) == { HashInit(cfg[1]) }
C0(st) == Project(st)
I == INSTANCE Image
Traces == ndJsonDeserialize(IOEnv.TRACE)
InitOf(cfg) == I!ImageInit(cfg)
Outcomes(q, op, a) == I!ImageOutcomes(q, op, a, C0)
VARIABLES tid, l, sts
INSTANCE Replay
====
