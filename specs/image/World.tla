-------------------------------- MODULE World --------------------------------
(* The rest of what a program can leave in an image: globals and class
   variables, symbols, numbers and other literals, processes waiting for
   semaphores or delays or ready to run, with blocks to be run when they are
   terminated, half-read streams and generators, dependents.

   The driver runs at priority 4.  Processes of priority 5 run at once when they
   can; process 1 has priority 3, runs when the driver idles (at the latest), and
   has semaphore 3 for itself.
   Process bodies: 1 waits and logs its number, again and again, and logs
   100 + number when it ends; 2 the same, but after each wake it also signals an
   error that it catches, and logs 200 + number; 3 once, then ends; 4 waits for a
   delay and ends; 5 once, protected by the mutex of the semaphores (number 3), then ends. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NP == 5
NS == 3
None == [s |-> 0, pr |-> 0, k |-> 0, i |-> 0]
WorldInit == [g |-> [x \in 1..3 |-> 0], cv |-> [x \in 1..4 |-> 0], sy |-> {}, ob |-> {},
              p |-> [x \in 1..NP |-> None], n |-> [x \in 1..NS |-> 0], q |-> [x \in 1..NS |-> << >>], rd |-> << >>,
              log |-> << >>, dl |-> {}, sp |-> [x \in 1..3 |-> 0], dp |-> [x \in 1..2 |-> << >>], om |-> << >>, pw |-> FALSE, ps |-> FALSE]

Log(st, x) == [st EXCEPT !.log = Append(@, x)]
(* Process p goes on: after a wake-up (w), or from its start. *)
RECURSIVE Go(_, _, _)
Go(st, p, w) ==
  LET o  == st.p[p]
      s1 == IF w THEN Log(st, p) ELSE st
      s2 == IF w /\ o.k = 2 THEN Log(s1, 200 + p) ELSE s1
  IN IF w /\ o.k = 3 THEN [Log(s2, 100 + p) EXCEPT !.p[p].s = 9]
     ELSE IF st.n[o.i] > 0 THEN Go([s2 EXCEPT !.n[o.i] = @ - 1], p, TRUE)
     ELSE [s2 EXCEPT !.q[o.i] = Append(@, p), !.p[p].s = 1]
RECURSIVE Idle(_)
Idle(st) == IF st.rd = << >> THEN st
            ELSE LET x == Head(st.rd) IN Idle(Go([st EXCEPT !.rd = Tail(@)], x[1], x[2]))
Sig(st, i) ==
  IF st.q[i] = << >> THEN [st EXCEPT !.n[i] = @ + 1]
  ELSE LET p == Head(st.q[i])
           t == [st EXCEPT !.q[i] = Tail(@), !.p[p].s = 2]
       IN IF st.p[p].pr = 5 THEN Go(t, p, TRUE) ELSE [t EXCEPT !.rd = Append(@, <<p, TRUE>>)]
RECURSIVE SigN(_, _, _)
SigN(st, i, k) == IF k = 0 THEN st ELSE SigN(Sig(st, i), i, k - 1)

Out(st, r) == { [st |-> st, r |-> r, c |-> << >>] }
RECURSIVE WorldOutcomes(_, _, _)
WorldOutcomes(st, op, a) ==
  CASE op = "glob" -> Out([st EXCEPT !.g[a[1]] = a[2]], <<1>>)
    [] op = "getglob" -> Out(st, <<st.g[a[1]], st.g[a[1]]>>)             \* directly, and by compiling an expression
    [] op = "cvar" -> Out([st EXCEPT !.cv[a[1]] = a[2]], <<1>>)
    [] op = "getcvar" -> Out(st, <<st.cv[a[1]]>>)
    [] op = "sym" -> Out([st EXCEPT !.sy = @ \cup {a[1]}], <<1>>)
    [] op = "symsame" -> Out(st, <<IF a[1] \in st.sy THEN 1 ELSE -1>>)    \* the symbol with that name is still the same one
    [] op = "obj" -> Out([st EXCEPT !.ob = @ \cup {a[1]}], <<1>>)
    [] op = "objok" -> Out(st, <<IF a[1] \in st.ob THEN 1 ELSE -1>>)
    [] op = "spawn" /\ a[1] = 1 /\ st.rd # << >> -> WorldOutcomes(Idle(st), op, a)
    [] op = "spawn" -> \* process, priority, semaphore, body
         IF st.p[a[1]].s \notin {0, 9} THEN Out(st, <<-1>>)
         ELSE IF a[4] = 4 THEN Out([st EXCEPT !.p[a[1]] = [s |-> 3, pr |-> 5, k |-> 4, i |-> 0], !.dl = @ \cup {a[1]}], <<1>>)
         ELSE LET t == [st EXCEPT !.p[a[1]] = [s |-> 2, pr |-> a[2], k |-> a[4], i |-> a[3]]]
              IN Out(IF a[2] = 5 THEN Go(t, a[1], FALSE) ELSE [t EXCEPT !.rd = Append(@, <<a[1], FALSE>>)], <<1>>)
    [] op = "sig" -> Out(SigN(st, a[1], a[2]), <<1>>)
    [] op = "idle" -> Out(Idle(st), <<1>>)
    [] op = "term" ->
         LET o == st.p[a[1]] IN
         IF o.s # 1 \/ o.pr # 5 THEN Out(st, <<-1>>)
         ELSE LET t == [st EXCEPT !.q[o.i] = SelectSeq(@, LAMBDA x : x # a[1]), !.p[a[1]].s = 9]
              IN Out(IF o.k \in {1, 3} THEN Log(t, 100 + a[1]) ELSE t, <<1>>)
    [] op = "log" -> \* what process 1 logged, and what the others did
         LET t == Idle(st) IN
         Out([t EXCEPT !.log = << >>], <<1>> \o SelectSeq(t.log, LAMBDA x : x % 100 = 1) \o <<0>> \o SelectSeq(t.log, LAMBDA x : x % 100 # 1))
    [] op = "sleep" -> \* all delays end
         Out([Idle(st) EXCEPT !.dl = {}, !.p = [x \in 1..NP |-> IF x \in st.dl THEN None ELSE Idle(st).p[x]]], <<1>> \o SetToSortSeq(st.dl, <))
    [] op = "next" -> IF st.sp[a[1]] = 12 THEN Out(st, <<0>>) ELSE Out([st EXCEPT !.sp[a[1]] = @ + 1], <<st.sp[a[1]] + 1>>)
    [] op = "adddep" -> IF Contains(st.dp[a[1]], a[2]) THEN Out(st, <<-1>>) ELSE Out([st EXCEPT !.dp[a[1]] = Append(@, a[2])], <<1>>)
    [] op = "remdep" -> Out([st EXCEPT !.dp[a[1]] = SelectSeq(@, LAMBDA x : x # a[2])], <<1>>)
    [] op = "changed" -> Out(st, <<1>> \o st.dp[a[1]])
    [] op = "events" -> Out([st EXCEPT !.om = << >>], <<1>> \o st.om)
    [] op = "pw" -> Out([st EXCEPT !.pw = (a[1] = 1)], <<1>>)
    [] op = "pcheck" -> IF st.ps THEN Out([st EXCEPT !.ps = FALSE], <<1, 1, 2, 3>>) ELSE Out(st, <<-1>>)
    [] op = "ccall" -> Out(st, <<1>>)
    [] OTHER -> Out(st, <<-7777>>)
=============================================================================
