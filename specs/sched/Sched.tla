------------------------------- MODULE Sched --------------------------------
(* The green threads of the virtual machine: ready lists, the active process,
   semaphores, recursion locks, and what each process still has to do.

   A process runs a program: a sequence of instructions <<name, k, ...>>, k
   being the number of the instruction in the process.  What is observable is
   a global sequence of events
     B p k     process p starts instruction k
     E p k r   instruction k of p ended with result r
     N p k     p entered the critical section / protected block k
     X p k     control flow of p went on after the block k
     U p k     the #ensure: block k of p was evaluated
     C p k     the #ifCurtailed: block k of p was evaluated
     H p k     the exception handler k of p was evaluated
     D p       the outermost #ensure: block of p was evaluated
     F         nothing is left to run: the final state
   There is no time slicing in this virtual machine: between two scheduling
   operations a process runs undisturbed, so a program has one behaviour. *)
EXTENDS Integers, Sequences, FiniteSets

MAIN == 0        \* the process that is running in the beginning
WATCH == 9       \* runs when nobody else can, and ends the history
PIDS == 0..9
PRIOS == 1..9
NOBODY == -1

(* ---- lists ------------------------------------------------------------- *)
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
InSeq(s, x)   == \E i \in 1..Len(s) : s[i] = x
Times(s, x)   == Len(SelectSeq(s, LAMBDA y : y = x))
RECURSIVE SumOver(_, _)
SumOver(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumOver(f, n - 1)
RECURSIVE CatAll(_)
CatAll(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o CatAll(Tail(ss))

(* ---- the state ----------------------------------------------------------
   act  the active process        rl   the ready list of each priority
   known the processes that others can already name
   prio priority                  life "none" "alive" "dead"
   k    continuation              ret  result of the last operation
   sig  excess signals            q    waiting processes, in order
   own  owner of each recursion lock (numbered as the semaphore it uses)
   ghost: sent/taken count the signals and successful waits, ens the number
   of times the ensure block of <<p, k>> was entered and was run,
   crit who is inside the critical section of each semaphore                  *)

Lists(st, p) == { n \in PRIOS : InSeq(st.rl[n], p) }
Ready(st, p) == InSeq(st.rl[st.prio[p]], p)
OnSem(st, p) == { s \in DOMAIN st.q : InSeq(st.q[s], p) }
Unlink(st, p) == [st EXCEPT !.rl = [n \in PRIOS |-> Without(@[n], p)],
                            !.q  = [s \in DOMAIN @ |-> Without(@[s], p)]]
PutFirst(st, p) == LET u == Unlink(st, p) IN [u EXCEPT !.rl[st.prio[p]] = <<p>> \o @]
PutLast(st, p)  == LET u == Unlink(st, p) IN [u EXCEPT !.rl[st.prio[p]] = Append(@, p)]

(* The first process of the highest non-empty list; the scheduled process, if
   it comes up first, goes to the end of its list, and if it is alone there
   its priority is passed over. *)
RECURSIVE Highest(_, _, _)
Highest(st, cur, n) ==
  IF n = 0 THEN <<st, NOBODY>>
  ELSE IF st.rl[n] = << >> THEN Highest(st, cur, n - 1)
  ELSE LET p == Head(st.rl[n]) IN
       IF p # cur THEN <<[st EXCEPT !.rl[n] = Tail(@)], p>>
       ELSE LET l == Append(Tail(st.rl[n]), p) IN
            IF Len(l) = 1 THEN Highest(st, cur, n - 1)
            ELSE <<[st EXCEPT !.rl[n] = Tail(l)], Head(l)>>

Activate(st, p) == IF p = NOBODY \/ p = st.act THEN st ELSE [PutFirst(st, p) EXCEPT !.act = p]
(* the active process stopped being ready *)
SwitchAway(st) == LET h == Highest(st, st.act, 9) IN Activate(h[1], h[2])

Resume(st, p) ==
  IF p = st.act THEN PutFirst(st, p)
  ELSE IF st.prio[p] >= st.prio[st.act]
  THEN LET s1 == IF Lists(st, st.act) # {} \/ OnSem(st, st.act) # {} THEN PutLast(st, st.act) ELSE st
       IN [PutFirst(s1, p) EXCEPT !.act = p]
  ELSE PutFirst(st, p)

Suspend(st, p) == LET u == Unlink(st, p) IN IF p = st.act THEN SwitchAway(u) ELSE u

Yield(st) ==
  LET a == st.act
      h == Highest(st, a, 9)
      s1 == IF Ready(h[1], a) THEN PutLast(h[1], a) ELSE h[1]
  IN IF h[2] = NOBODY THEN s1 ELSE Activate(s1, h[2])

Ret(st, p, r) == [st EXCEPT !.ret[p] = r]

(* wake the process that has waited longest, if any *)
Wake(st, s) == LET p == Head(st.q[s]) IN Ret(Resume(st, p), p, 1)
Signal(st, s) ==
  LET t == [st EXCEPT !.sent[s] = @ + 1] IN
  IF st.q[s] = << >> THEN [t EXCEPT !.sig[s] = @ + 1]
  ELSE [Wake(t, s) EXCEPT !.taken[s] = @ + 1]
RECURSIVE NotifyAll(_, _)
NotifyAll(st, s) == IF st.q[s] = << >> THEN st ELSE NotifyAll(Wake(st, s), s)
WaitFor(st, s, p) ==
  IF st.sig[s] > 0
  THEN Ret([st EXCEPT !.sig[s] = @ - 1, !.taken[s] = @ + 1], p, 1)
  ELSE LET u == Unlink(st, p)
           v == Ret([u EXCEPT !.q[s] = Append(@, p)], p, 2)
       IN IF p = st.act THEN SwitchAway(v) ELSE v
WaitAfterSignal(st, s1, s2) == WaitFor(Signal(st, s2), s1, st.act)

(* ---- continuations ------------------------------------------------------ *)
Ev(e, kk, r)  == <<"ev", e, kk, r>>
(* What unwinding the part c of a continuation does: the ensure and curtailed
   blocks and the releases, innermost first; nothing else. *)
UnwindOf(i) ==
  CASE i[1] = "endens"  -> i[3] \o << <<"ensrun", i[2]>>, Ev("U", i[2], << >>) >>
    [] i[1] = "endcurt" -> << Ev("C", i[2], << >>) >>
    [] i[1] = "endcrit" -> << <<"rel", i[3]>> >>
    [] i[1] = "endown"  -> << <<"disown", i[2]>> >>
    [] i[1] = "acqres"  -> << <<"relif", i[3]>> >>
    [] i[1] = "endbase" -> << Ev("D", 0, << >>) >>
    [] i[1] \in {"unw", "rel", "disown", "ensrun"} -> << i >>
    [] OTHER            -> << >>
Unwind(c) == CatAll([i \in 1..Len(c) |-> UnwindOf(c[i])])
FirstOf(c, name) == LET P == { i \in 1..Len(c) : c[i][1] = name }
                    IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j

Mid(c, i, j) == IF j < i THEN << >> ELSE SubSeq(c, i, j)
(* A process waiting for a critical section has not got it yet. *)
Terminated(st, p) ==
  LET c  == st.k[p]
      w  == OnSem(st, p) # {}
      c1 == IF w \/ st.ret[p] # 1 THEN SelectSeq(c, LAMBDA i : i[1] # "acqres") ELSE c
  IN [st EXCEPT !.k[p] = Unwind(SelectSeq(c1, LAMBDA i : i[1] # "die")) \o << <<"die">> >>,
                !.dying[p] = TRUE]

Reply(i) == << <<"evr", i[2]>> >>

(* One silent micro step of the active process. *)
Micro(st) ==
  LET p == st.act
      i == Head(st.k[p])
      st1 == [st EXCEPT !.k[p] = Tail(@)]
      Push(s) == [st1 EXCEPT !.k[p] = s \o @]
      Op == Push(<< Ev("B", i[2], << >>), <<"do">> \o i, <<"evr", i[2]>> >>)
      R1(s) == IF s.act = p THEN Ret(s, p, 1) ELSE Ret(s, p, 1)
  IN CASE i[1] = "boot"   -> [Push(i[2] \o << <<"endbase">>, <<"die">> >>) EXCEPT !.known = @ \cup {p}]
  [] i[1] = "know"        -> [st1 EXCEPT !.known = @ \cup {i[2]}]
  [] i[1] = "endbase"     -> Push(<< Ev("D", 0, << >>) >>)
  [] i[1] = "die"         -> LET s == Suspend([st1 EXCEPT !.life[p] = "dead"], p) IN s
  \* blocks
  [] i[1] = "crit"        -> \* <<"crit", k, s, body>>
        Push(<< Ev("B", i[2], << >>), <<"acq", i[2], i[3]>>, <<"acqres", i[2], i[3], i[4], 0>>, Ev("X", i[2], << >>) >>)
  [] i[1] = "lock"        -> \* <<"lock", k, s, body>> recursion lock
        IF st.own[i[3]] = p
        THEN Push(<< Ev("B", i[2], << >>), Ev("N", i[2], << >>) >> \o i[4] \o << Ev("X", i[2], << >>) >>)
        ELSE Push(<< Ev("B", i[2], << >>), <<"acq", i[2], i[3]>>, <<"acqres", i[2], i[3], i[4], 1>>, Ev("X", i[2], << >>) >>)
  [] i[1] = "acq"         -> WaitFor(st1, i[3], p)
  [] i[1] = "acqres"      ->
        IF st.ret[p] # 1 THEN st1
        ELSE LET body == << Ev("N", i[2], << >>) >> \o i[4]
             IN [(IF i[5] = 1
                  THEN [Push(body \o << <<"endown", i[3]>>, <<"endcrit", i[2], i[3]>> >>) EXCEPT !.own[i[3]] = p]
                  ELSE Push(body \o << <<"endcrit", i[2], i[3]>> >>))
                 EXCEPT !.crit[i[3]] = @ \cup {p}]
  [] i[1] \in {"endcrit"} -> [Signal([st1 EXCEPT !.crit[i[3]] = @ \ {p}], i[3]) EXCEPT !.ret[p] = @]
  [] i[1] = "rel"         -> Signal([st1 EXCEPT !.crit[i[2]] = @ \ {p}], i[2])
  [] i[1] = "relif"       -> Signal([st1 EXCEPT !.crit[i[2]] = @ \ {p}], i[2])
  [] i[1] \in {"endown", "disown"} -> [st1 EXCEPT !.own[i[2]] = NOBODY]
  [] i[1] = "ens"         -> \* <<"ens", k, body, cleanup>>
        [Push(<< Ev("N", i[2], << >>) >> \o i[3] \o << <<"endens", i[2], i[4]>>, Ev("X", i[2], << >>) >>)
         EXCEPT !.ensin = @ \cup {<<p, i[2]>>}]
  [] i[1] = "endens"      -> Push(i[3] \o << <<"ensrun", i[2]>>, Ev("U", i[2], << >>) >>)
  [] i[1] = "ensrun"      -> [st1 EXCEPT !.ensout = Append(@, <<p, i[2]>>)]
  [] i[1] = "curt"        -> Push(<< Ev("N", i[2], << >>) >> \o i[3] \o << <<"endcurt", i[2]>>, Ev("X", i[2], << >>) >>)
  [] i[1] = "endcurt"     -> st1
  [] i[1] = "catch"       -> Push(<< Ev("N", i[2], << >>) >> \o i[3] \o << <<"endcatch", i[2]>>, Ev("X", i[2], << >>) >>)
  [] i[1] = "endcatch"    -> st1
  [] i[1] = "scope"       -> Push(<< Ev("N", i[2], << >>) >> \o i[3] \o << <<"endscope", i[2]>>, Ev("X", i[2], << >>) >>)
  [] i[1] = "endscope"    -> st1
  [] i[1] = "raise"       -> \* the handler runs, then everything above it unwinds
        LET c == Tail(st.k[p]) j == FirstOf(c, "endcatch")
        IN [st EXCEPT !.k[p] = << Ev("B", i[2], << >>), Ev("H", c[j][2], << >>) >> \o Unwind(Mid(c, 1, j - 1)) \o Mid(c, j, Len(c))]
  [] i[1] = "exit"        -> \* a non-local return out of the innermost scope
        LET c == Tail(st.k[p]) j == FirstOf(c, "endscope")
        IN [st EXCEPT !.k[p] = << Ev("B", i[2], << >>) >> \o Unwind(Mid(c, 1, j - 1)) \o Mid(c, j, Len(c))]
  \* operations
  [] i[1] \in {"sig", "asig", "wait", "notify", "notifyAll", "wasig", "semlock", "yield", "resume", "suspend", "prio",
               "fork", "term", "status", "would"} -> Op
  [] i[1] = "sigq"        -> R1(Signal(st1, i[3]))       \* no events: cleanup code
  [] i[1] = "do"          ->
       LET o == i[2] a == i[4] b == i[5] Unknown == a \notin st.known IN
       CASE o \in {"sig", "asig"} -> Signal(Ret(st1, p, 1), a)
         [] o = "notify"    -> IF st.q[a] = << >> THEN Ret(st1, p, 1) ELSE Wake(Ret(st1, p, 1), a)
         [] o = "notifyAll" -> NotifyAll(Ret(st1, p, 1), a)
         [] o = "wait"      -> WaitFor(st1, a, p)
         [] o = "wasig"     -> WaitAfterSignal(st1, a, b)
         [] o = "semlock"   -> Ret([st1 EXCEPT !.sig[a] = 0, !.taken[a] = @ + st.sig[a]], p, IF st.sig[a] > 0 THEN 1 ELSE 0)
         [] o = "would"     -> Ret(st1, p, IF st.sig[a] > 0 THEN 0 ELSE 1)
         [] o = "yield"     -> Yield(Ret(st1, p, 1))
         [] o = "resume"    -> IF Unknown THEN Ret(st1, p, 0)
                               ELSE IF st.life[a] = "dead" THEN Ret(st1, p, -1)
                               ELSE Resume(Ret(st1, p, 1), a)
         [] o = "suspend"   -> IF Unknown THEN Ret(st1, p, 0) ELSE Suspend(Ret(st1, p, 1), a)
         [] o = "prio"      -> IF Unknown THEN Ret(st1, p, 0)
                               ELSE LET s == [Ret(st1, p, 1) EXCEPT !.prio[a] = b] IN
                                    IF InSeq(st.rl[st.prio[a]], a) THEN Resume(s, a) ELSE s
         [] o = "fork"      -> IF st.life[a] # "none" THEN Ret(st1, p, 0)
                               ELSE LET s0 == PutLast(Ret(Push(<< <<"know", a>> >>), p, 1), p)
                                        s1 == [s0 EXCEPT !.life[a] = "alive", !.prio[a] = b]
                                        s2 == [PutFirst(s1, a) EXCEPT !.act = a]
                                    IN IF b < st.prio[p] THEN Yield(s2) ELSE s2
         [] o = "term"      -> IF Unknown THEN Ret(st1, p, 0)
                               ELSE IF st.life[a] = "dead" THEN Ret(st1, p, 1)
                               ELSE IF st.dying[a] THEN [st1 EXCEPT !.undef = TRUE]
                               ELSE IF a = p THEN Terminated(Ret(st1, p, 1), p)
                               ELSE LET s == Terminated(Ret(st1, p, 1), a) IN Resume(Unlink(s, a), a)
         [] o = "status"    -> Ret(st1, p, IF Unknown THEN 0
                                           ELSE IF st.life[a] = "dead" THEN 5
                                           ELSE IF a = p THEN 1
                                           ELSE IF OnSem(st, a) # {} THEN 3
                                           ELSE IF Ready(st, a) THEN 2 ELSE 4)

Observable(i) == i[1] \in {"ev", "evr", "final"}
RECURSIVE Run(_)
Run(st) == IF st.undef \/ Observable(Head(st.k[st.act])) THEN st ELSE Run(Micro(st))

Final(st, np, ns) ==
  CatAll([j \in 1..(np + 1) |-> LET i == j - 1 IN << IF i \notin st.known THEN 0 ELSE IF st.life[i] = "dead" THEN 5
                             ELSE IF OnSem(st, i) # {} THEN 3 ELSE IF Ready(st, i) THEN 2 ELSE 4, st.prio[i] >>])
  \o [s \in 1..ns |-> st.sig[s] - Len(st.q[s])]

(* cfg = [np, ns, sems, progs, prios, started]: sems the initial signals,
   started[i] = 1 when process i exists, suspended, from the beginning *)
SchedInit(cfg) ==
  LET np == cfg.np
      ns == cfg.ns
      S == 1..ns
  IN [ act  |-> MAIN,
       rl   |-> [n \in PRIOS |-> IF n = cfg.mainprio THEN <<MAIN>> ELSE IF n = 3 THEN <<WATCH>> ELSE << >>],
       prio |-> [p \in PIDS |-> IF p = MAIN THEN cfg.mainprio ELSE IF p = WATCH THEN 3
                                ELSE IF p <= np THEN cfg.prios[p] ELSE 1],
       life |-> [p \in PIDS |-> IF p \in {MAIN, WATCH} THEN "alive"
                                ELSE IF p <= np /\ cfg.started[p] = 1 THEN "alive" ELSE "none"],
       k    |-> [p \in PIDS |-> IF p = WATCH THEN << <<"final">> >>
                                ELSE IF p <= np THEN << <<"boot", cfg.progs[p + 1]>> >> ELSE << >>],
       known |-> {MAIN} \cup { p \in 1..np : cfg.started[p] = 1 },
       ret  |-> [p \in PIDS |-> 1],
       sig  |-> [s \in S |-> cfg.sems[s]],
       q    |-> [s \in S |-> << >>],
       own  |-> [s \in S |-> NOBODY],
       sent |-> [s \in S |-> cfg.sems[s]],
       taken |-> [s \in S |-> 0],
       crit |-> [s \in S |-> {}],
       undef |-> FALSE,
       ensin |-> {}, ensout |-> << >>,
       dying |-> [p \in PIDS |-> FALSE],
       np |-> np, ns |-> ns, mutex |-> cfg.mutex ]

(* The next event of the system: [st, op, a, r]. *)
Step(st0) ==
  LET st == Run(st0)
      p == st.act
      i == Head(st.k[p])
      st1 == [st EXCEPT !.k[p] = Tail(@)]
  IN IF st.undef THEN [st |-> st, op |-> "undef", a |-> << >>, r |-> << >>]
     ELSE IF i[1] = "final" THEN [st |-> st1, op |-> "F", a |-> << >>, r |-> Final(st, st.np, st.ns)]
     ELSE IF i[1] = "evr" THEN [st |-> st1, op |-> "E", a |-> <<p, i[2]>>, r |-> <<st.ret[p]>>]
     ELSE [st |-> st1, op |-> i[2], a |-> <<p, i[3]>>, r |-> << >>]

(* ---- what must hold in every state --------------------------------------- *)
AllPids(st) == {MAIN, WATCH} \cup 1..st.np
(* every process is in at most one list, once; the active one is ready *)
ListsOK(st) ==
  /\ \A p \in AllPids(st) :
       SumOver([n \in PRIOS |-> Times(st.rl[n], p)], 9) + SumOver([s \in DOMAIN st.q |-> Times(st.q[s], p)], Len(st.q)) <= 1
  /\ InSeq(st.rl[st.prio[st.act]], st.act)
  /\ \A p \in AllPids(st) : st.life[p] = "dead" => Lists(st, p) = {} /\ OnSem(st, p) = {}
  /\ \A n \in PRIOS : \A i \in 1..Len(st.rl[n]) : st.prio[st.rl[n][i]] = n
(* no signal is lost or invented *)
SignalsOK(st) ==
  \A s \in DOMAIN st.q : /\ st.sig[s] >= 0
                         /\ st.sent[s] = st.taken[s] + st.sig[s]
                         /\ st.sig[s] > 0 => st.q[s] = << >>
(* semaphores only used for mutual exclusion: one process inside at most, and
   none of them is lost *)
MutexOK(st) ==
  \A m \in {st.mutex[i] : i \in 1..Len(st.mutex)} : /\ Cardinality(st.crit[m]) <= 1
                        /\ st.sig[m] <= 1
                        /\ st.own[m] # NOBODY => st.own[m] \in st.crit[m]
(* an ensure block runs at most once, and once its process is dead has run *)
EnsureOK(st) ==
  /\ \A i, j \in 1..Len(st.ensout) : i # j => st.ensout[i] # st.ensout[j]
  /\ \A e \in st.ensin : st.life[e[1]] = "dead" => InSeq(st.ensout, e)
StateOK(st) == ListsOK(st) /\ SignalsOK(st) /\ MutexOK(st) /\ EnsureOK(st)
=============================================================================
