------------------------------- MODULE MCSched -------------------------------
(* Every choice of programs from a small alphabet for two processes and the
   main one: the invariants of the scheduler in every state.  No state repeats, so every run
   comes to its end. *)
EXTENDS Sched, TLC

CONSTANTS Family, L0, L1, L2, Prios

(* an instruction without its number *)
Alphabet ==
  CASE Family = "C01" -> { <<"yield", 0, 0>>, <<"wait", 1, 0>>, <<"sig", 1, 0>>, <<"notify", 1, 0>>, <<"suspend", 2, 0>>,
                           <<"resume", 2, 0>>, <<"prio", 1, 6>>, <<"prio", 2, 4>>, <<"fork", 3, 4>>, <<"fork", 3, 5>> }
    [] Family = "C02" -> { <<"wait", 1, 0>>, <<"sig", 1, 0>>, <<"asig", 1, 0>>, <<"wait", 2, 0>>, <<"notifyAll", 1, 0>>, <<"notify", 1, 0>>,
                           <<"wasig", 1, 2>>, <<"wasig", 2, 1>>, <<"wasig", 1, 1>>, <<"semlock", 1, 0>>, <<"resume", 1, 0>> }
    [] Family = "C03" -> { <<"lock", 1>>, <<"crit", 2>>, <<"yield", 0, 0>>, <<"term", 1, 0>>, <<"suspend", 1, 0>>,
                           <<"resume", 2, 0>>, <<"sig", 3, 0>>, <<"wait", 3, 0>> }
    [] OTHER          -> { <<"ens", 0>>, <<"curt", 0>>, <<"yield", 0, 0>>, <<"term", 1, 0>>, <<"term", 2, 0>>, <<"wait", 3, 0>>,
                           <<"sig", 3, 0>>, <<"crit", 1>> }

IsBlock(i) == i[1] \in {"lock", "crit", "ens", "curt"}
(* a block holds whatever follows it *)
RECURSIVE Prog(_, _)
Prog(w, n) ==
  IF w = << >> THEN << >>
  ELSE LET i == Head(w) IN
       IF IsBlock(i)
       THEN << CASE i[1] \in {"lock", "crit"} -> <<i[1], n, i[2], Prog(Tail(w), n + 1)>>
                 [] i[1] = "ens"  -> <<"ens", n, Prog(Tail(w), n + 1), << <<"sigq", n + 50, 3>> >> >>
                 [] OTHER         -> <<"curt", n, Prog(Tail(w), n + 1)>> >>
       ELSE << <<i[1], n, i[2], i[3]>> >> \o Prog(Tail(w), n + 1)

Words(n) == UNION { [1..m -> Alphabet] : m \in 0..n }
Mutex == IF Family = "C03" THEN <<1, 2>> ELSE IF Family = "C04" THEN <<1>> ELSE << >>
Cfg(w0, w1, w2, p1, p2) ==
  [ np |-> 3, ns |-> 3, sems |-> IF Family = "C03" THEN <<1, 1, 0>> ELSE IF Family = "C04" THEN <<1, 0, 0>> ELSE <<0, 0, 0>>,
    progs |-> << << <<"resume", 1, 1, 0>>, <<"resume", 2, 2, 0>> >> \o Prog(w0, 3), Prog(w1, 1), Prog(w2, 1), << <<"sig", 1, 1, 0>> >> >>,
    prios |-> <<p1, p2, 4>>, started |-> <<1, 1, 0>>, mainprio |-> 5, mutex |-> Mutex ]

VARIABLE s
Init == \E w0 \in Words(L0), w1 \in Words(L1), w2 \in Words(L2), p1, p2 \in Prios : s = SchedInit(Cfg(w0, w1, w2, p1, p2))
Next == /\ s.act # -2
        /\ LET o == Step(s) IN /\ o.op # "undef"
                               /\ s' = IF o.op = "F" THEN [o.st EXCEPT !.act = -2] ELSE o.st
Spec == Init /\ [][Next]_s
Inv == s.act = -2 \/ StateOK(s)
=============================================================================
