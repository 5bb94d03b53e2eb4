---- MODULE TraceSave ----
EXTENDS SaveFile, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
InitOf(cfg) == { SaveInit }
Outcomes(st, op, a) == SaveOutcomes(st, op, a)
VARIABLES tid, l, sts
INSTANCE Replay
====
