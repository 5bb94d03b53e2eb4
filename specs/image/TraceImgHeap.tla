---- MODULE TraceImgHeap ----
EXTENDS Heap, Json, IOUtils
Base(st, op, a) == HeapOutcomes(st, op, a)
Saving(st) == { [st |-> o.st, log |-> Tail(o.r)] : o \in Must(st, <<1>>) }
Restart(st) == { [st EXCEPT !.fin = {}] }   \* registrations are for one run
Done(st) == st
Late(g) == { g, SelectSeq(g, LAMBDA x : x > 1000) }  \* finalizability is not preserved by a save
Init0(cfg) == { HeapInit }
C0(st) == << >>
I == INSTANCE Image
Traces == ndJsonDeserialize(IOEnv.TRACE)
InitOf(cfg) == I!ImageInit(cfg)
Outcomes(q, op, a) == I!ImageOutcomes(q, op, a, C0)
VARIABLES tid, l, sts
INSTANCE Replay
====
