-------------------------------- MODULE Image --------------------------------
(* Saving and restarting, over any system given by its outcomes: a saved image
   keeps the state of the moment of the save, whatever the running system does
   afterwards; restarting from it continues with that state. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Base(_, _, _),       \* the outcomes of the system's own operations
          Saving(_),           \* what may happen to the system during a save: its states and what is left to be reported
          Restart(_),          \* what a restart leaves behind
          Late(_),             \* which of what was left to be reported is reported after a restart too
          Done(_),             \* what the program that saved sees when the save has ended
          Init0(_)
ImageInit(cfg) == { [cur |-> s, saved |-> << >>] : s \in Init0(cfg) }
ImageOutcomes(q, op, a, c0(_)) ==
  CASE op = "snap" ->
         { [st |-> [cur |-> Done(s.st), saved |-> [k \in DOMAIN q.saved \cup {a[1]} |-> IF k = a[1] THEN s ELSE q.saved[k]]], r |-> <<1>> \o s.log, c |-> c0(Done(s.st))] : s \in Saving(q.cur) }
    [] op = "resume" -> LET s == q.saved[a[1]] IN
         { [st |-> [q EXCEPT !.cur = t], r |-> <<1>> \o g, c |-> c0(t)] : g \in Late(s.log), t \in Restart(s.st) }
    [] OTHER -> { [o EXCEPT !.st = [q EXCEPT !.cur = o.st]] : o \in Base(q.cur, op, a) }
=============================================================================
