------------------------------- MODULE MCLang -------------------------------
(* Laws of the language, checked on every program of a small grammar: protective
   blocks, handlers, signals, returns, and blocks evaluated by another method. *)
EXTENDS Lang, FiniteSets

CONSTANT Depth

Lt(n) == <<"lit", <<"i", n>>>>
B0(body) == <<"blk", <<>>, <<>>, body>>
B1(p, body) == <<"blk", <<p>>, <<>>, body>>
Snd(r, s, a) == <<"send", r, s, a>>
LogN(n) == Snd(<<"self">>, "vLog:", <<Lt(n)>>)
Sig(c) == Snd(<<"cls", c>>, "signal", <<>>)
VarE == <<"var", "e">>

Leaves == { Lt(7), <<"ret", Lt(8)>>, Sig("VE"), Sig("VW") }

(* What a handler does with its exception. *)
Handlers == { <<Lt(5)>>,
              <<Snd(VarE, "return:", <<Lt(6)>>)>>,
              <<Snd(VarE, "resume:", <<Lt(4)>>)>>,
              <<Snd(VarE, "pass", <<>>)>>,
              <<<<"ret", Lt(9)>>>>,
              <<Sig("VE")>> }

(* Numbers that say which construct a line of the log is about are given by
   the depth: d enters, 10 + d protects, 20 + d is curtailed, 30 + d handles,
   40 + d continues after the construct. *)
RECURSIVE Progs(_)
Progs(d) ==
  IF d = 0 THEN Leaves
  ELSE LET S == Progs(d - 1) IN
       S
       \cup { Snd(B0(<<LogN(d), x>>), "ensure:", <<B0(<<LogN(10 + d), y>>)>>) : x \in S, y \in {Lt(0)} }
       \cup { Snd(B0(<<LogN(d), x>>), "ensure:", <<B0(<<LogN(10 + d), y>>)>>) : x \in Leaves, y \in Leaves }
       \cup { Snd(B0(<<LogN(d), x, LogN(40 + d)>>), "ifCurtailed:", <<B0(<<LogN(20 + d)>>)>>) : x \in S }
       \cup { Snd(B0(<<LogN(d), x, LogN(40 + d)>>), "on:do:", <<<<"cls", c>>, B1("e", <<LogN(30 + d)>> \o h)>>)
                : x \in S, c \in {"VE", "VW"}, h \in Handlers }
       \cup { Snd(<<"self">>, "run:", <<B0(<<x>>)>>) : x \in S }

Prog(x) == [sup |-> [VA |-> "Object", VE |-> "Error", VW |-> "Warning"], nivars |-> [VA |-> 0, VE |-> 0, VW |-> 0],
            cvnames |-> <<>>, start |-> "VA",
            meth |-> [m \in {"VA>>main", "VA>>body", "VA>>run:"} |->
               CASE m = "VA>>main" -> [par |-> <<>>, tmp |-> <<>>,
                                       body |-> <<Snd(<<"self">>, "vLog:", <<Snd(<<"self">>, "body", <<>>)>>), <<"ret", Lt(100)>>>>]
                 [] m = "VA>>body" -> [par |-> <<>>, tmp |-> <<>>, body |-> <<x, LogN(99), <<"ret", Lt(98)>>>>]
                 [] m = "VA>>run:" -> [par |-> <<"b">>, tmp |-> <<>>,
                                       body |-> <<Snd(Snd(<<"var", "b">>, "value", <<>>), "yourself", <<>>), <<"ret", Lt(97)>>>>]]]

VARIABLES prog, out
vars == <<prog, out>>
Init == /\ prog \in Progs(Depth)
        /\ out = Observed(RunProgram(Prog(prog)))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Count(n) == Cardinality({ i \in 1..Len(out.log) : out.log[i] = <<"i", n>> })
Promised == out.end \in {"value", "terminated"}

(* Which constructs of level d the program contains. *)
RECURSIVE Has(_, _, _)
Has(x, sel, n) ==
  IF x[1] # "send" THEN FALSE
  ELSE \/ x[3] = sel /\ x[2][1] = "blk" /\ Len(x[2][4]) > 0 /\ x[2][4][1] = LogN(n)
       \/ (x[2][1] = "blk" /\ \E i \in 1..Len(x[2][4]) : Has(x[2][4][i], sel, n))
       \/ (x[3] = "run:" /\ Has(x[4][1][4][1], sel, n))

(* A protective block runs exactly as often as its receiver was entered. *)
EnsureOnce == Promised => \A d \in 1..Depth : Has(prog, "ensure:", d) => Count(d) = Count(10 + d)
(* The other one exactly when the receiver was not left normally. *)
CurtailedOnce == Promised => \A d \in 1..Depth :
                     Has(prog, "ifCurtailed:", d) => Count(20 + d) = Count(d) - Count(40 + d)
(* No program of the grammar runs something twice. *)
AtMostOnce == Promised => \A d \in 1..Depth : Count(d) <= 1 /\ Count(10 + d) <= 1 /\ Count(40 + d) <= 1
(* Protective blocks run innermost first, unless they are evaluated in the course of a handler of an outer construct. *)
InnermostFirst == Promised => \A d, e \in 1..Depth : d < e /\ Has(prog, "ensure:", d) /\ Has(prog, "ensure:", e) =>
   \A i, j \in 1..Len(out.log) : (out.log[i] = <<"i", 10 + d>> /\ out.log[j] = <<"i", 10 + e>>) => i < j
(* The body either returns 98 after its end, or is left by a return. *)
Ends == out.end = "value" => /\ out.log[Len(out.log)] = <<"i", 100>>
                             /\ out.log[Len(out.log) - 1] \in { <<"i", n>> : n \in {98, 8, 9} }
                             /\ (Count(99) = 1) = (out.log[Len(out.log) - 1] = <<"i", 98>>)
=============================================================================
