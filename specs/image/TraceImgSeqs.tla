---- MODULE TraceImgSeqs ----
EXTENDS Seqs, TLC, Json, IOUtils
Base(st, op, a) == SeqOutcomes(st, op, a)
Saving(st) == { [st |-> st, log |-> << >>] }
Restart(st) == { st }
Done(st) == st
Late(g) == { g }
Init0(cfg) == { SeqInit(cfg[1], << >>) }
C0(st) == st.s
I == INSTANCE Image
Traces == ndJsonDeserialize(IOEnv.TRACE)
InitOf(cfg) == I!ImageInit(cfg)
Outcomes(q, op, a) == I!ImageOutcomes(q, op, a, C0)
VARIABLES tid, l, sts
INSTANCE Replay
====
