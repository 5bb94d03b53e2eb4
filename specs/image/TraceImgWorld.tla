---- MODULE TraceImgWorld ----
EXTENDS TraceImgWorldDefs, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
InitOf(cfg) == I!ImageInit(cfg)
Outcomes(q, op, a) == I!ImageOutcomes(q, op, a, C0)
VARIABLES tid, l, sts
INSTANCE Replay
====
