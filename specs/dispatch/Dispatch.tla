------------------------------ MODULE Dispatch ------------------------------
(* Which method a message runs: a table of classes and methods, and lookup
   from the receiver's class upwards, at the moment of the send.  There are no
   caches here.

   Classes 1..NC (5 and 6 have indexed variables), 0 stands for Object.  Each
   class has an instance side (0) and a class side (1).  Selectors are numbers:
     1 m1   2 m2:   3 m3:and:   4 +   5 at:   6 size   7 value   8 at:put:
   A method is [k, v]: 1 answers v and its arguments; 2 answers v and then what
   the same message to super answers; 3 answers v and then what the next unary
   selector sent to self answers.

   State: sup class -> class; m <<class, side, selector>> -> method;
   i instance -> class (0: none); e instance -> indexed variables. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NC == 6
NI == 6
Arity(s) == CASE s \in {1, 6, 7} -> 0 [] s \in {2, 4, 5} -> 1 [] OTHER -> 2
Next3(sd, s) == CASE s = 1 -> IF sd = 0 THEN 6 ELSE 0 [] s = 6 -> 7 [] s = 7 -> 0 [] s \in {2, 3, 4} -> 1 [] s = 5 -> 6 [] s = 8 -> 7

DispInit == [sup |-> [c \in 1..NC |-> IF c \in {2, 3} THEN 1 ELSE IF c = 4 THEN 2 ELSE IF c = 6 THEN 5 ELSE 0],
             m |-> << >>, i |-> [x \in 1..NI |-> x], e |-> [x \in 1..NI |-> <<71, 72, 73>>]]

Indexed(c) == c \in {5, 6}
RECURSIVE Under(_, _, _)
Under(sup, c, d) == c = d \/ (c # 0 /\ Under(sup, sup[c], d))

RECURSIVE Find(_, _, _, _)
(* The class, from c upwards, that defines s on the given side; 0 if none does. *)
Find(st, c, sd, s) == IF c = 0 THEN 0 ELSE IF <<c, sd, s>> \in DOMAIN st.m THEN c ELSE Find(st, st.sup[c], sd, s)

(* The answer of a message: [k, r, st]; k 1 an answer, 2 an error that ends everything. *)
Ans(r, st) == [k |-> 1, r |-> r, st |-> st]
Stop(r, st) == [k |-> 2, r |-> r, st |-> st]

(* The class whose library method is found, when no class of the program has one: class 1
   implements doesNotUnderstand:, which is looked up from where the message was. *)
Library(st, x, c, sd, s, a, f) ==
  IF sd = 0 /\ s = 6 THEN Ans(<<IF Indexed(c) THEN 3 ELSE 0>>, st)
  ELSE IF sd = 0 /\ s = 5 /\ Indexed(c)
       THEN IF a[1] \in 1..3 THEN Ans(<<st.e[x][a[1]]>>, st) ELSE Stop(<<-9999>>, st)
  ELSE IF sd = 0 /\ s = 8 /\ Indexed(c)
       THEN IF a[1] \in 1..3 THEN Ans(<<a[2]>>, [st EXCEPT !.e[x][a[1]] = a[2]]) ELSE Stop(<<-9999>>, st)
  ELSE IF sd = 0 /\ s \in {5, 8} THEN Stop(<<-9999>>, st)
  ELSE IF sd = 0 /\ Under(st.sup, f, 1) THEN Ans(<<-50, s>> \o a, st)
  ELSE Stop(<<-60, s>> \o a, st)

RECURSIVE Run(_, _, _, _, _, _, _)
(* Message s with arguments a to instance x (class c) or class c (side 1), looked up from class f. *)
Run(st, x, c, sd, s, a, f) ==
  LET d == Find(st, f, sd, s) IN
  IF d = 0 THEN Library(st, x, c, sd, s, a, f)
  ELSE LET m == st.m[<<d, sd, s>>] IN
       CASE m.k = 1 -> Ans(<<m.v>> \o a, st)
         [] m.k = 2 -> LET r == Run(st, x, c, sd, s, a, st.sup[d]) IN IF r.k = 2 THEN r ELSE Ans(<<m.v>> \o r.r, r.st)
         [] OTHER -> IF Next3(sd, s) = 0 THEN Ans(<<m.v>>, st)
                     ELSE LET r == Run(st, x, c, sd, Next3(sd, s), << >>, c) IN IF r.k = 2 THEN r ELSE Ans(<<m.v>> \o r.r, r.st)

Out(st, r) == { [st |-> st, r |-> r, c |-> << >>] }
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

DispOutcomes(st, op, a) ==
  CASE op = "def" -> \* class, side, selector, kind, value
         Out([st EXCEPT !.m = Upd(@, <<a[1], a[2], a[3]>>, [k |-> a[4], v |-> a[5]])], <<1>>)
    [] op = "rem" -> \* class, side, selector
         LET k == <<a[1], a[2], a[3]>> IN
         IF k \in DOMAIN st.m THEN Out([st EXCEPT !.m = Drop(@, k)], <<1>>) ELSE Out(st, <<0>>)
    [] op \in {"super", "redef"} -> \* class, its new superclass
         IF Under(st.sup, a[2], a[1]) \/ (Indexed(a[2]) /\ ~Indexed(a[1])) THEN Out(st, <<-1>>)
         ELSE Out([st EXCEPT !.sup[a[1]] = a[2]], <<1>>)
    [] op = "newi" -> Out([st EXCEPT !.i[a[1]] = a[2], !.e[a[1]] = <<71, 72, 73>>], <<1>>)
    [] op = "cc" -> \* instance, new class of the same shape
         IF Indexed(st.i[a[1]]) # Indexed(a[2]) THEN Out(st, <<-1>>) ELSE Out([st EXCEPT !.i[a[1]] = a[2]], <<1>>)
    [] op = "send" -> \* call site, instance, selector, arguments
         LET r == Run(st, a[2], st.i[a[2]], 0, a[3], SubSeq(a, 4, 3 + Arity(a[3])), st.i[a[2]]) IN Out(r.st, r.r)
    [] op = "csend" -> \* call site, class, selector, arguments
         LET r == Run(st, 0, a[2], 1, a[3], SubSeq(a, 4, 3 + Arity(a[3])), a[2]) IN Out(r.st, r.r)
    [] op = "responds" -> \* instance, selector
         Out(st, <<IF Find(st, st.i[a[1]], 0, a[2]) # 0 \/ a[2] \in {5, 6, 8} THEN 1 ELSE 0>>)
    [] op = "which" -> \* class, side, selector: the class of the method
         Out(st, <<Find(st, a[1], a[2], a[3])>>)
    [] op = "includes" -> Out(st, <<IF <<a[1], a[2], a[3]>> \in DOMAIN st.m THEN 1 ELSE 0>>)
    [] op = "inherits" -> Out(st, <<IF Under(st.sup, a[1], a[2]) THEN 1 ELSE 0>>)
    [] op \in {"gc", "scavenge", "flood", "addvar", "compileall"} -> Out(st, <<1>>)
    [] OTHER -> Out(st, <<-7777>>)
=============================================================================
