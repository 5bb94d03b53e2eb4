----------------------------- MODULE TraceHeap ------------------------------
EXTENDS Heap, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
InitOf(cfg) == { HeapInit }
Outcomes(st, op, a) == HeapOutcomes(st, op, a)
VARIABLES tid, l, sts
INSTANCE Replay
=============================================================================
