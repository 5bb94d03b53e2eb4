----------------------------- MODULE TraceDispatch ------------------------------
EXTENDS Dispatch, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
InitOf(cfg) == { DispInit }
Outcomes(st, op, a) == DispOutcomes(st, op, a)
VARIABLES tid, l, sts
INSTANCE Replay
=============================================================================
