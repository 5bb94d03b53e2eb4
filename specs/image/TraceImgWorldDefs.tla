---- MODULE TraceImgWorldDefs ----
EXTENDS World
Base(st, op, a) == WorldOutcomes(st, op, a)
(* With pw, the process that saves is not the driver, which waits for a semaphore
   together with processes 1 (before it), 2 and 3 (after it); they are signalled when
   the save is over.  In a program that is restarted, 1 to 3 still wait.
   Events that dependents of ObjectMemory see: 1 about to save, 2 the save has ended, 3 restarted. *)
Done(st) == [st EXCEPT !.om = Append(@, 2), !.ps = @ /\ ~st.pw]
(* Processes that were ready may run while the system saves or starts, in any order. *)
RECURSIVE Some(_, _)
Some(st, k) == IF k = 0 THEN st ELSE LET x == Head(st.rd) IN Some(Go([st EXCEPT !.rd = Tail(@)], x[1], x[2]), k - 1)
Perms(s) == { [i \in 1..Len(s) |-> s[f[i]]] : f \in { f \in [1..Len(s) -> 1..Len(s)] : \A i, j \in 1..Len(s) : i # j => f[i] # f[j] } }
Loose(st) == { Some([st EXCEPT !.rd = x], k) : x \in Perms(st.rd), k \in 0..Len(st.rd) }
Saving(st) == { [st |-> [t EXCEPT !.om = Append(@, 1)], log |-> IF t.pw THEN <<1, 0, 2, 3>> ELSE << >>] : t \in Loose(st) }
Restart(st) == { [t EXCEPT !.om = Append(@, 3), !.ps = @ \/ st.pw] : t \in Loose(st) }
Late(g) == { << >> }
Init0(cfg) == { WorldInit }
C0(st) == << >>
I == INSTANCE Image
====
