------------------------------ MODULE SaveFile -------------------------------
(* What saving an image does to the files: a file system whose operations may
   fail or be the last thing that a process does, and what must be true of the
   images after each operation, since the process may be killed there.

   The state: cur, what the running program would save; img, the names (1, 2) of
   images -> the file (inode) each refers to, and tmp, the other names; f, the
   files: [v, ok], the contents saved and whether the file is a complete image;
   tgt the image being saved (0: none); old the file it was when the save began;
   bad: an operation has failed during this save. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Drop(g, k) == [x \in DOMAIN g \ {k} |-> g[x]]
Upd(g, k, v) == [x \in DOMAIN g \cup {k} |-> IF x = k THEN v ELSE g[x]]
SaveInit == [cur |-> 0, nm |-> << >>, f |-> << >>, tgt |-> 0, old |-> 0, bad |-> FALSE]

(* Image names are 1 and 2; greater numbers are other files. *)
Images == {1, 2}
File(st, n) == IF n \in DOMAIN st.nm THEN st.nm[n] ELSE 0
Whole(st, n) == File(st, n) # 0 /\ st.f[File(st, n)].ok

(* After any step: an image that was there is still there, and complete; only the
   image being saved may have changed, to what the program is. *)
Kept(s, t) ==
  \A n \in Images : Whole(s, n) =>
     /\ Whole(t, n)
     /\ \/ t.nm[n] = s.nm[n] /\ t.f[t.nm[n]] = s.f[s.nm[n]]
        \/ n = s.tgt /\ t.f[t.nm[n]].v = s.cur

(* The operations; r is what they answered: -1 for a failure. *)
Fail(st) == [st EXCEPT !.bad = TRUE]
Sys(st, op, a, r) ==
  CASE op = "open" -> \* name, whether it truncates, whether the file is a new one
         IF r = -1 THEN Fail(st)
         ELSE [st EXCEPT !.nm = Upd(@, a[1], r), !.f = IF a[3] = 1 \/ a[2] = 1 THEN Upd(@, r, [v |-> st.cur, ok |-> FALSE]) ELSE @]
    [] op = "write" -> \* file, size, whether this completes it
         IF r = -1 THEN Fail([st EXCEPT !.f = IF a[1] \in DOMAIN @ THEN [@ EXCEPT ![a[1]].ok = FALSE] ELSE @])
         ELSE [st EXCEPT !.f = Upd(@, a[1], [v |-> st.cur, ok |-> a[3] = 1]), !.bad = @ \/ (r < a[2] /\ a[3] = 2)]
    [] op = "trunc" -> IF r = -1 THEN Fail(st) ELSE [st EXCEPT !.f = Upd(@, a[1], [v |-> st.cur, ok |-> FALSE])]
    [] op = "close" -> IF r = -1 THEN Fail(st) ELSE st
    [] op = "unlink" -> IF r = -1 THEN st ELSE [st EXCEPT !.nm = Drop(@, a[1])]
    [] op = "rename" -> IF r = -1 THEN Fail(st) ELSE [st EXCEPT !.nm = Upd(Drop(@, a[1]), a[2], File(st, a[1]))]
    [] op = "link" -> IF r = -1 THEN Fail(st) ELSE [st EXCEPT !.nm = Upd(@, a[2], File(st, a[1]))]

Out(st, r) == { [st |-> st, r |-> <<r>>, c |-> << >>] }
SaveOutcomes(st, op, a) ==
  CASE op = "set" -> Out([st EXCEPT !.cur = a[1]], 1)
    [] op = "get" -> Out(st, st.cur)
    [] op = "begin" -> Out([st EXCEPT !.tgt = a[1], !.old = File(st, a[1]), !.bad = FALSE], 1)
    [] op = "sys" -> LET t == Sys(st, a[1], a[2], a[3]) IN IF Kept(st, t) THEN Out(t, 1) ELSE {}
    [] op = "saved" -> \* the program is told that the save succeeded: 1; or failed: -1
         LET done == [st EXCEPT !.tgt = 0]
             new  == Whole(st, st.tgt) /\ st.f[File(st, st.tgt)].v = st.cur
         IN (IF new THEN Out(done, 1) ELSE {}) \cup
            (IF st.bad /\ (st.old = 0 \/ Whole(st, st.tgt)) THEN Out(done, -1) ELSE {})
    [] op = "ended" -> \* a session that was not killed leaves no other files: their number
         Out(st, 0)
    [] op = "killed" -> Out([st EXCEPT !.tgt = 0], 1)
    [] op = "boot" -> \* started from an image: what it says it is; there is no image: -5
         IF a[1] = 0 THEN Out([st EXCEPT !.cur = 0], 0)
         ELSE IF Whole(st, a[1]) THEN LET v == st.f[File(st, a[1])].v IN Out([st EXCEPT !.cur = v], v)
         ELSE { [st |-> st, r |-> <<0>>, c |-> << >>, any |-> TRUE] }
    [] OTHER -> Out(st, -7777)
=============================================================================
