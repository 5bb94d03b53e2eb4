---------------------------- MODULE TraceHashed -----------------------------
EXTENDS Hashed, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
InitOf(cfg) == { HashInit(cfg[1]) }
Outcomes(st, op, a) == HashOutcomes(st, op, a)
VARIABLES tid, l, sts
INSTANCE Replay
=============================================================================
