----------------------------- MODULE TraceSeqs ------------------------------
EXTENDS Seqs, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
InitOf(cfg) == { SeqInit(cfg[1], << >>) }
Outcomes(st, op, a) == SeqOutcomes(st, op, a)
VARIABLES tid, l, sts
INSTANCE Replay
=============================================================================
