-------------------------------- MODULE Lang --------------------------------
(* The meaning of Smalltalk programs: an evaluator for abstract syntax trees.
   Nothing in it knows about bytecodes, contexts, or which messages a compiler
   expands in line: a block is an object, a control structure is a message,
   a variable is a cell.

   Values are tagged tuples: <<"i", n>> integer, <<"nil">>, <<"b", 0..1>>,
   <<"y", symbol>>, <<"s", string>>, <<"c", code>>, <<"f", text>> another literal, <<"o", address>> object
   (instances, arrays), <<"k", address>> block, <<"e", address>> exception,
   <<"m", class>> class, <<"x">> something outside the specification.

   The state S of an evaluation: mem (variables), obj (objects), clo (blocks),
   exc (exceptions), log (what the program did), n (work done), id (activations
   and handlers so far).
   A context C: env (name -> variable), self, cls (where the method is defined),
   act (the activation a return leaves), hs (handlers, innermost last), live
   (activations that have not ended), p (the program).
   An outcome [k, v, t, s]: k is "v" (a value), "ret" (returning from activation
   t), "unw" (leaving handler t), "retry" (restarting it), "res" (resuming
   signal t), "term" (the process is terminating), "any" (the specification
   promises nothing from here on). *)
EXTENDS Integers, Sequences, TLC

Fuel == 6000
Big == 100000000

V(v, s)      == [k |-> "v", v |-> v, t |-> 0, s |-> s]
Out(k, v, t, s) == [k |-> k, v |-> v, t |-> t, s |-> s]
Free(s)       == Out("any", <<"x">>, 0, s)
Nil  == <<"nil">>
Bool(b) == IF b THEN <<"b", 1>> ELSE <<"b", 0>>
IntV(n) == <<"i", n>>
TruthV == <<"b", 1>>
FalseV == <<"b", 0>>

S0 == [mem |-> <<>>, obj |-> <<>>, clo |-> <<>>, exc |-> <<>>, log |-> <<>>, n |-> 0, id |-> 1]

EmptyEnv == [x \in {} |-> 0]

Min2(a, b) == IF a < b THEN a ELSE b

(* New variables, one per name, holding VALS. *)
Bind(env, names, base) == [x \in DOMAIN env \cup { names[i] : i \in 1..Len(names) } |->
                             IF \E i \in 1..Len(names) : names[i] = x
                             THEN base + (CHOOSE i \in 1..Len(names) : names[i] = x)
                             ELSE env[x]]
Nils(n) == [i \in 1..n |-> Nil]

-----------------------------------------------------------------------------
(* Classes.  The program's own, and the library's exceptions. *)
ExcSuper == [Exception |-> "Object", Error |-> "Exception", ZeroDivide |-> "ArithmeticError",
             ArithmeticError |-> "Error", MessageNotUnderstood |-> "Error", Warning |-> "Exception",
             IndexOutOfRange |-> "Error", BadReturn |-> "Error", WrongArgumentCount |-> "Error",
             Transcript |-> "Object"]
ExcNames == {"Exception", "Error", "ZeroDivide", "ArithmeticError", "MessageNotUnderstood", "Warning",
             "IndexOutOfRange", "BadReturn", "WrongArgumentCount"}

Super(p, c) == IF c \in DOMAIN p.sup THEN p.sup[c] ELSE IF c \in ExcNames THEN ExcSuper[c] ELSE "Object"

RECURSIVE Inherits(_, _, _)
Inherits(p, c, d) == IF c = d THEN TRUE ELSE IF c = "Object" THEN FALSE ELSE Inherits(p, Super(p, c), d)

RECURSIVE Lookup(_, _, _)
(* The class, from c upwards, whose method for SEL runs; "" if none. *)
Lookup(p, c, sel) == LET key == c \o ">>" \o sel IN
  IF key \in DOMAIN p.meth THEN c
  ELSE IF c \in DOMAIN p.sup THEN Lookup(p, p.sup[c], sel)
  ELSE ""

IsExcClass(p, c) == Inherits(p, c, "Exception")
Resumable(p, c) == ~Inherits(p, c, "Error") \/ c = "MessageNotUnderstood" \/ c = "ZeroDivide" \/ c = "ArithmeticError"

ClassOf(v, s) == CASE v[1] = "o" -> s.obj[v[2]].c
                   [] v[1] = "e" -> s.exc[v[2]].c
                   [] v[1] = "i" -> "SmallInteger"
                   [] v[1] = "nil" -> "UndefinedObject"
                   [] OTHER -> v[1]

-----------------------------------------------------------------------------
(* What a logged value looks like. *)
RECURSIVE Show(_, _, _)
Show(v, s, d) ==
  CASE v[1] = "o" -> IF s.obj[v[2]].c = "Array"
                     THEN IF d = 0 THEN <<"a">>
                          ELSE <<"a", [i \in 1..Len(s.obj[v[2]].f) |-> Show(s.obj[v[2]].f[i], s, d - 1)]>>
                     ELSE <<"o", s.obj[v[2]].c>>
    [] v[1] = "k" -> <<"k">>
    [] v[1] = "e" -> <<"e", s.exc[v[2]].c>>
    [] OTHER -> v

Log(s, v) == [s EXCEPT !.log = Append(@, Show(v, s, 2))]

Same(a, b) == a = b
NewObj(s, c, f) == [s EXCEPT !.obj = Append(@, [c |-> c, f |-> f])]
LastObj(s) == <<"o", Len(s.obj)>>

FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
FloorMod(a, b) == a - b * FloorDiv(a, b)
AbsV(n) == IF n < 0 THEN -n ELSE n
Quo(a, b) == IF (a < 0) = (b < 0) THEN AbsV(a) \div AbsV(b) ELSE -(AbsV(a) \div AbsV(b))

CaseNames == <<"value", "value:", "value:value:", "value:value:value:", "value:value:value:value:">>
ValueSels == {"value", "value:", "value:value:", "value:value:value:", "value:value:value:value:"}

-----------------------------------------------------------------------------
RECURSIVE Ev(_, _, _)            \* evaluate an expression
RECURSIVE EvSeq(_, _, _, _)      \* evaluate expressions, collecting their values
RECURSIVE Body(_, _, _, _)       \* evaluate statements; the value of the last
RECURSIVE Casc(_, _, _, _, _)
RECURSIVE Send(_, _, _, _, _)
RECURSIVE Call(_, _, _, _)       \* evaluate a block
RECURSIVE Invoke(_, _, _, _, _, _)
RECURSIVE While(_, _, _, _, _)
RECURSIVE ToDo(_, _, _, _, _, _)
RECURSIVE Times(_, _, _, _)
RECURSIVE EachDo(_, _, _, _, _, _)
RECURSIVE Signal(_, _, _, _)
RECURSIVE OnDo(_, _, _, _)
RECURSIVE Repeat(_, _, _)
RECURSIVE LitArr(_, _, _, _)

(* A literal array is made of literals: numbers, names, and arrays. *)
LitArr(xs, i, vals, s) ==
  IF i > Len(xs) THEN [vs |-> vals, s |-> s]
  ELSE LET x == xs[i] IN
       CASE x[1] = "larr" -> LET r == LitArr(x[2], 1, <<>>, s)
                                 s2 == NewObj(r.s, "Array", r.vs)
                             IN LitArr(xs, i + 1, Append(vals, LastObj(s2)), s2)
         [] OTHER -> LitArr(xs, i + 1, Append(vals, x), s)

Ev(n, C, S) ==
  CASE n[1] = "lit" -> V(n[2], S)
    [] n[1] = "larr" -> LET r == LitArr(n[2], 1, <<>>, S)
                            s2 == NewObj(r.s, "Array", r.vs)
                        IN V(LastObj(s2), s2)
    [] n[1] = "self" -> V(C.self, S)
    [] n[1] = "var" -> V(S.mem[C.env[n[2]]], S)
    [] n[1] = "ivar" -> V(S.obj[C.self[2]].f[n[2]], S)
    [] n[1] = "cvar" -> V(S.mem[C.p.cvars[n[2]]], S)
    [] n[1] = "cls" -> V(<<"m", n[2]>>, S)
    [] n[1] = "asg" ->
         LET r == Ev(n[3], C, S) IN
         IF r.k # "v" THEN r
         ELSE LET t == n[2] IN
              (CASE t[1] = "var" -> V(r.v, [r.s EXCEPT !.mem[C.env[t[2]]] = r.v])
                [] t[1] = "ivar" -> V(r.v, [r.s EXCEPT !.obj[C.self[2]].f[t[2]] = r.v])
                [] t[1] = "cvar" -> V(r.v, [r.s EXCEPT !.mem[C.p.cvars[t[2]]] = r.v]))
    [] n[1] = "blk" ->
         LET s2 == [S EXCEPT !.clo = Append(@, [par |-> n[2], tmp |-> n[3], body |-> n[4],
                                                env |-> C.env, self |-> C.self, cls |-> C.cls, act |-> C.act])]
         IN V(<<"k", Len(s2.clo)>>, s2)
    [] n[1] = "brace" ->
         LET r == EvSeq(n[2], C, S, <<>>) IN
         IF r.k # "v" THEN r
         ELSE LET s2 == NewObj(r.s, "Array", r.v) IN V(LastObj(s2), s2)
    [] n[1] = "send" ->
         LET r == Ev(n[2], C, S) IN
         IF r.k # "v" THEN r
         ELSE LET a == EvSeq(n[4], C, r.s, <<>>) IN
              IF a.k # "v" THEN a ELSE Send(r.v, n[3], a.v, C, a.s)
    [] n[1] = "ssend" ->
         LET a == EvSeq(n[3], C, S, <<>>) IN
         IF a.k # "v" THEN a
         ELSE LET d == Lookup(C.p, Super(C.p, C.cls), n[2]) IN
              IF d = "" THEN Free(a.s)
              ELSE Invoke(C.self, C.p.meth[d \o ">>" \o n[2]], d, a.v, C, a.s)
    [] n[1] = "casc" ->
         LET r == Ev(n[2], C, S) IN
         IF r.k # "v" THEN r ELSE Casc(r.v, n[3], 1, C, r.s)
    [] n[1] = "ret" ->
         LET r == Ev(n[2], C, S) IN
         IF r.k # "v" THEN r
         ELSE IF C.act \in C.live THEN Out("ret", r.v, C.act, r.s)
         ELSE LET s2 == [r.s EXCEPT !.exc = Append(@, [c |-> "BadReturn", h |-> 0, txt |-> <<"x">>, ret |-> <<"x">>, sig |-> 0, hs |-> <<>>])]
              IN Signal(Len(s2.exc), FALSE, C, s2)

EvSeq(ns, C, S, acc) ==
  IF Len(acc) = Len(ns) THEN V(acc, S)
  ELSE LET r == Ev(ns[Len(acc) + 1], C, S) IN
       IF r.k # "v" THEN r ELSE EvSeq(ns, C, r.s, Append(acc, r.v))

Casc(rv, msgs, i, C, S) ==
  LET a == EvSeq(msgs[i][2], C, S, <<>>) IN
  IF a.k # "v" THEN a
  ELSE LET r == Send(rv, msgs[i][1], a.v, C, a.s) IN
       IF r.k # "v" \/ i = Len(msgs) THEN r ELSE Casc(rv, msgs, i + 1, C, r.s)

(* Statements: the value of the last one, nil if there is none. *)
Body(ns, i, C, S) ==
  IF Len(ns) = 0 THEN V(Nil, S)
  ELSE LET r == Ev(ns[i], C, S) IN
       IF r.k # "v" \/ i = Len(ns) THEN r ELSE Body(ns, i + 1, C, r.s)

(* Run a method: a new activation, its own variables. *)
Invoke(self, m, d, args, C, S) ==
  IF S.n > Fuel THEN Free(S)
  ELSE
  LET a  == S.id
      b  == Len(S.mem)
      s1 == [S EXCEPT !.id = @ + 1, !.n = @ + 1, !.mem = @ \o args \o Nils(Len(m.tmp))]
      C1 == [C EXCEPT !.env = Bind(EmptyEnv, m.par \o m.tmp, b), !.self = self, !.cls = d,
                      !.act = a, !.live = @ \cup {a}]
      r  == Body(m.body, 1, C1, s1)
  IN CASE r.k = "v" -> V(self, r.s)
       [] r.k = "ret" /\ r.t = a -> V(r.v, r.s)
       [] OTHER -> r

SignalNew(c, C, S, ret) ==
  LET s2 == [S EXCEPT !.exc = Append(@, [c |-> c, h |-> 0, txt |-> <<"x">>, ret |-> ret, sig |-> 0, hs |-> <<>>])]
  IN Signal(Len(s2.exc), FALSE, C, s2)

(* Evaluate a block: its own variables every time. *)
Call(k, args, C, S) ==
  LET b == S.clo[k] IN
  IF S.n > Fuel THEN Free(S)
  ELSE IF Len(args) # Len(b.par) THEN SignalNew("WrongArgumentCount", C, S, Nil)
  ELSE
  LET base == Len(S.mem)
      s1 == [S EXCEPT !.n = @ + 1, !.mem = @ \o args \o Nils(Len(b.tmp))]
      C1 == [C EXCEPT !.env = Bind(b.env, b.par \o b.tmp, base), !.self = b.self, !.cls = b.cls, !.act = b.act]
  IN Body(b.body, 1, C1, s1)

Cull(k, args, C, S) == Call(k, SubSeq(args, 1, Min2(Len(args), Len(S.clo[k].par))), C, S)

(* The block that must run when another ends, however it ends.  Which handlers see a signal
   made by such a block while the stack is being unwound is not promised. *)
Ensure(r, k, C) ==
  IF r.k = "any" THEN r
  ELSE LET C1 == IF r.k = "v" THEN C ELSE [C EXCEPT !.hs = [q \in 1..Len(C.hs) |-> [C.hs[q] EXCEPT !.on = 2]]]
           e == Call(k, <<>>, C1, r.s) IN
       IF e.k # "v" THEN (IF r.k = "term" THEN Free(e.s) ELSE e) ELSE [r EXCEPT !.s = e.s]

While(c, b, want, C, S) ==
  LET r == Call(c, <<>>, C, S) IN
  IF r.k # "v" THEN r
  ELSE IF r.v[1] # "b" THEN Free(r.s)
  ELSE IF r.v # want THEN V(Nil, r.s)
  ELSE IF b = 0 THEN While(c, b, want, C, r.s)
  ELSE LET x == Call(b, <<>>, C, r.s) IN
       IF x.k # "v" THEN x ELSE While(c, b, want, C, x.s)

Repeat(c, C, S) ==
  LET r == Call(c, <<>>, C, S) IN IF r.k # "v" THEN r ELSE Repeat(c, C, r.s)

ToDo(i, to, by, b, C, S) ==
  IF (by > 0 /\ i > to) \/ (by < 0 /\ i < to) THEN V(Nil, S)
  ELSE LET r == Call(b, <<IntV(i)>>, C, S) IN
       IF r.k # "v" THEN r ELSE ToDo(i + by, to, by, b, C, r.s)

Times(n, b, C, S) ==
  IF n < 1 THEN V(Nil, S)
  ELSE LET r == Call(b, <<>>, C, S) IN
       IF r.k # "v" THEN r ELSE Times(n - 1, b, C, r.s)

(* do:, collect:, inject:into:, ... over the elements of an array *)
EachDo(xs, i, b, acc, C, S) ==
  IF i > Len(xs) THEN V(acc, S)
  ELSE LET r == Call(b, <<xs[i]>>, C, S) IN
       IF r.k # "v" THEN r ELSE EachDo(xs, i + 1, b, Append(acc, r.v), C, r.s)

RECURSIVE Fold(_, _, _, _, _, _)
Fold(xs, i, acc, b, C, S) ==
  IF i > Len(xs) THEN V(acc, S)
  ELSE LET r == Call(b, <<acc, xs[i]>>, C, S) IN
       IF r.k # "v" THEN r ELSE Fold(xs, i + 1, r.v, b, C, r.s)

-----------------------------------------------------------------------------
(* Exceptions.  A handler is [f, sels, blks, on]; on = 0 while its block runs
   and 2 when it is left over between a running handler and the place of the signal
   (whether such a handler is active is not promised). *)
Matches(p, sel, c) ==
  CASE sel[1] = "m" -> Inherits(p, c, sel[2])
    [] sel[1] = "set" -> \E i \in 1..Len(sel[2]) : Inherits(p, c, sel[2][i])
    [] OTHER -> FALSE

RECURSIVE Find(_, _, _, _)
Find(p, hs, i, c) ==
  IF i = 0 THEN 0
  ELSE IF (hs[i].on # 0 \/ Len(hs[i].sels) > 1) /\ \E j \in 1..Len(hs[i].sels) : Matches(p, hs[i].sels[j], c) THEN i
  ELSE Find(p, hs, i - 1, c)

(* Signal exception object X: search from handler number TOP downwards. *)
SignalFrom(x, top, outer, C, S) ==
  LET c == S.exc[x].c
      i == Find(C.p, C.hs, top, c)
  IN
  IF S.n > Fuel THEN Free(S)
  ELSE IF i = 0 THEN
    IF Inherits(C.p, c, "Warning") THEN V(Nil, S)
    (* the system then signals an Exception of its own, which handlers of Exception may see *)
    ELSE IF \E q \in 1..Len(C.hs) : \E j \in 1..Len(C.hs[q].sels) : Matches(C.p, C.hs[q].sels[j], "Exception")
    THEN Free(S)
    ELSE Out("term", Nil, 0, S)
  (* whether the other block of an on:do:on:do: sees what is signalled in one is not promised *)
  ELSE IF C.hs[i].on # 1 THEN Free(S)
  ELSE
  LET h  == C.hs[i]
      js == { j \in 1..Len(h.sels) : Matches(C.p, h.sels[j], c) }
      j  == CHOOSE j \in js : TRUE
      g  == S.id
      s1 == [S EXCEPT !.id = @ + 1, !.n = @ + 1, !.exc[x].h = h.f, !.exc[x].sig = g, !.exc[x].hs = <<i>>]
      C1 == [C EXCEPT !.hs = [q \in 1..Len(C.hs) |-> IF q = i THEN [C.hs[q] EXCEPT !.on = 0]
                                                     ELSE IF q > i THEN [C.hs[q] EXCEPT !.on = IF @ = 0 THEN 0 ELSE 2]
                                                     ELSE C.hs[q]],
                      !.live = @ \cup {g}]
      r  == Cull(h.blks[j][2], <<<<"e", x>>>>, C1, s1)
  IN IF \E a, b \in js : a # b THEN Free(S)
     ELSE CASE r.k = "v" -> IF outer THEN Free(r.s) ELSE Out("unw", r.v, h.f, r.s)
            [] r.k = "res" /\ r.t = g -> V(r.v, [r.s EXCEPT !.exc[x].h = 0])
            [] OTHER -> r

Signal(x, outer, C, S) == SignalFrom(x, Len(C.hs), outer, C, S)

OnDo(k, sels, blks, cs) ==
  LET C  == cs[1]
      S  == cs[2]
      f  == S.id
      s1 == [S EXCEPT !.id = @ + 1, !.n = @ + 1]
      C1 == [C EXCEPT !.hs = Append(@, [f |-> f, sels |-> sels, blks |-> blks, on |-> 1]), !.live = @ \cup {f}]
      r  == Call(k, <<>>, C1, s1)
  IN IF S.n > Fuel THEN Free(S)
     ELSE CASE r.k = "unw" /\ r.t = f -> V(r.v, r.s)
       [] r.k = "retry" /\ r.t = f -> OnDo(k, sels, blks, <<C, r.s>>)
       [] OTHER -> r

-----------------------------------------------------------------------------
(* Messages of the library. *)
IntSend(a, sel, args, C, S) ==
  IF Len(args) = 1 /\ args[1][1] = "i" THEN
    LET b == args[1][2] IN
    CASE sel = "+" -> IF AbsV(a) > Big \/ AbsV(b) > Big THEN Free(S) ELSE V(IntV(a + b), S)
      [] sel = "-" -> IF AbsV(a) > Big \/ AbsV(b) > Big THEN Free(S) ELSE V(IntV(a - b), S)
      [] sel = "*" -> IF AbsV(a) > 10000 \/ AbsV(b) > 10000 THEN Free(S) ELSE V(IntV(a * b), S)
      [] sel = "//" -> IF b = 0 THEN SignalNew("ZeroDivide", C, S, Nil) ELSE V(IntV(FloorDiv(a, b)), S)
      [] sel = "\\\\" -> IF b = 0 THEN SignalNew("ZeroDivide", C, S, Nil) ELSE V(IntV(FloorMod(a, b)), S)
      [] sel = "rem:" -> IF b = 0 THEN Free(S) ELSE V(IntV(a - b * Quo(a, b)), S)
      [] sel = "quo:" -> IF b = 0 THEN Free(S) ELSE V(IntV(Quo(a, b)), S)
      [] sel = "<" -> V(Bool(a < b), S)
      [] sel = ">" -> V(Bool(a > b), S)
      [] sel = "<=" -> V(Bool(a <= b), S)
      [] sel = ">=" -> V(Bool(a >= b), S)
      [] sel = "max:" -> V(IntV(IF a < b THEN b ELSE a), S)
      [] sel = "min:" -> V(IntV(Min2(a, b)), S)
      [] OTHER -> Free(S)
  ELSE CASE sel = "abs" -> V(IntV(AbsV(a)), S)
      [] sel = "negated" -> V(IntV(-a), S)
      [] sel = "even" -> V(Bool(a % 2 = 0), S)
      [] sel = "odd" -> V(Bool(a % 2 = 1), S)
      [] sel = "isZero" -> V(Bool(a = 0), S)
      [] sel = "between:and:" /\ args[1][1] = "i" /\ args[2][1] = "i" ->
           V(Bool(args[1][2] <= a /\ a <= args[2][2]), S)
      [] sel = "to:do:" /\ args[1][1] = "i" /\ args[2][1] = "k" ->
           LET r == ToDo(a, args[1][2], 1, args[2][2], C, S) IN IF r.k = "v" THEN V(<<"x">>, r.s) ELSE r
      [] sel = "to:by:do:" /\ args[1][1] = "i" /\ args[2][1] = "i" /\ args[3][1] = "k" ->
           IF args[2][2] = 0 THEN Free(S)
           ELSE LET r == ToDo(a, args[1][2], args[2][2], args[3][2], C, S) IN IF r.k = "v" THEN V(<<"x">>, r.s) ELSE r
      [] sel = "timesRepeat:" /\ args[1][1] = "k" ->
           LET r == Times(a, args[1][2], C, S) IN IF r.k = "v" THEN V(<<"x">>, r.s) ELSE r
      [] OTHER -> Free(S)

(* The argument of ifTrue: and its kin: a block is evaluated. *)
Arm(v, args, C, S) == IF v[1] = "k" THEN Call(v[2], args, C, S) ELSE Free(S)

BoolSend(b, sel, args, C, S) ==
  CASE sel = "ifTrue:" -> IF b THEN Arm(args[1], <<>>, C, S) ELSE V(Nil, S)
    [] sel = "ifFalse:" -> IF b THEN V(Nil, S) ELSE Arm(args[1], <<>>, C, S)
    [] sel = "ifTrue:ifFalse:" -> Arm(IF b THEN args[1] ELSE args[2], <<>>, C, S)
    [] sel = "ifFalse:ifTrue:" -> Arm(IF b THEN args[2] ELSE args[1], <<>>, C, S)
    [] sel = "and:" -> IF b THEN Arm(args[1], <<>>, C, S) ELSE V(FalseV, S)
    [] sel = "or:" -> IF b THEN V(TruthV, S) ELSE Arm(args[1], <<>>, C, S)
    [] sel = "&" /\ args[1][1] = "b" -> IF b THEN V(args[1], S) ELSE V(FalseV, S)
    [] sel = "|" /\ args[1][1] = "b" -> IF b THEN V(TruthV, S) ELSE V(args[1], S)
    [] sel = "xor:" /\ args[1][1] = "b" -> V(Bool(Bool(b) # args[1]), S)
    [] sel = "eqv:" /\ args[1][1] = "b" -> V(Bool(Bool(b) = args[1]), S)
    [] sel = "not" -> V(Bool(~b), S)
    [] OTHER -> Free(S)

BlockSend(k, sel, args, C, S) ==
  CASE sel \in ValueSels -> Call(k, args, C, S)
    [] sel = "numArgs" -> V(IntV(Len(S.clo[k].par)), S)
    [] sel = "cull:" -> Cull(k, args, C, S)
    [] sel = "valueWithArguments:" /\ args[1][1] = "o" /\ S.obj[args[1][2]].c = "Array" ->
         IF Len(S.obj[args[1][2]].f) # Len(S.clo[k].par) THEN Free(S)
         ELSE Call(k, S.obj[args[1][2]].f, C, S)
    [] sel = "whileTrue:" /\ args[1][1] = "k" -> While(k, args[1][2], TruthV, C, S)
    [] sel = "whileFalse:" /\ args[1][1] = "k" -> While(k, args[1][2], FalseV, C, S)
    [] sel = "whileTrue" -> While(k, 0, TruthV, C, S)
    [] sel = "whileFalse" -> While(k, 0, FalseV, C, S)
    [] sel = "repeat" -> Repeat(k, C, S)
    [] sel = "ensure:" /\ args[1][1] = "k" -> Ensure(Call(k, <<>>, C, S), args[1][2], C)
    [] sel = "ifCurtailed:" /\ args[1][1] = "k" ->
         LET r == Call(k, <<>>, C, S) IN IF r.k \in {"v", "any"} THEN r ELSE Ensure(r, args[1][2], C)
    [] sel = "on:do:" /\ args[2][1] = "k" -> OnDo(k, <<args[1]>>, <<args[2]>>, <<C, S>>)
    [] sel = "on:do:on:do:" /\ args[2][1] = "k" /\ args[4][1] = "k" ->
         OnDo(k, <<args[1], args[3]>>, <<args[2], args[4]>>, <<C, S>>)
    [] OTHER -> Free(S)

(* Handler H is still waiting for its handler block to end. *)
Current(x, C, S) == /\ S.exc[x].h # 0
                    /\ S.exc[x].h \in C.live
                    /\ S.exc[x].sig \in C.live

(* Handlers below the one that X runs; those above are out of the way. *)
ExcSend(x, sel, args, C, S) ==
  CASE sel = "messageText" -> IF S.exc[x].txt[1] = "x" THEN Free(S) ELSE V(S.exc[x].txt, S)
    [] sel = "messageText:" -> V(<<"x">>, [S EXCEPT !.exc[x].txt = args[1]])
    [] sel = "signal" -> IF S.exc[x].h # 0 THEN Free(S) ELSE Signal(x, FALSE, C, S)
    [] sel = "signal:" -> IF S.exc[x].h # 0 THEN Free(S) ELSE Signal(x, FALSE, C, [S EXCEPT !.exc[x].txt = args[1]])
    [] sel = "class" -> V(<<"m", S.exc[x].c>>, S)
    [] ~Current(x, C, S) -> Free(S)
    [] sel = "return" -> Out("unw", Nil, S.exc[x].h, S)
    [] sel = "return:" -> Out("unw", args[1], S.exc[x].h, S)
    (* retry reinstates every handler, also those that are running further out *)
    [] sel = "retry" -> IF \E q \in 1..(S.exc[x].hs[1] - 1) : C.hs[q].on = 0 THEN Free(S) ELSE Out("retry", Nil, S.exc[x].h, S)
    [] sel = "retryUsing:" /\ args[1][1] = "k" -> Free(S)
    [] sel = "resume" -> Free(S)
    [] sel = "resume:" -> IF Resumable(C.p, S.exc[x].c) THEN Out("res", args[1], S.exc[x].sig, S)
                          ELSE Free(S)
    [] sel \in {"pass", "outer"} ->
         (* the handlers outside the running one; if one of them completes, its value leaves it *)
         LET i == S.exc[x].hs[1]
             s1 == [S EXCEPT !.exc = Append(@, [S.exc[x] EXCEPT !.h = 0])]
             y == Len(s1.exc)
             r == SignalFrom(y, i - 1, FALSE, C, s1)
         IN IF r.k = "v" THEN (IF sel = "outer" THEN r ELSE Free(r.s)) ELSE r
    [] sel = "signalPlain" -> Free(S)
    [] OTHER -> Free(S)

ArrSend(a, sel, args, C, S) ==
  LET f == S.obj[a].f IN
  CASE sel = "size" -> V(IntV(Len(f)), S)
    [] sel = "isEmpty" -> V(Bool(Len(f) = 0), S)
    [] sel = "at:" /\ args[1][1] = "i" ->
         IF args[1][2] \in 1..Len(f) THEN V(f[args[1][2]], S) ELSE SignalNew("IndexOutOfRange", C, S, Nil)
    [] sel = "at:put:" /\ args[1][1] = "i" ->
         IF args[1][2] \in 1..Len(f) THEN V(args[2], [S EXCEPT !.obj[a].f[args[1][2]] = args[2]])
         ELSE SignalNew("IndexOutOfRange", C, S, Nil)
    [] sel = "first" /\ Len(f) > 0 -> V(f[1], S)
    [] sel = "last" /\ Len(f) > 0 -> V(f[Len(f)], S)
    [] sel = "do:" /\ args[1][1] = "k" ->
         LET r == EachDo(f, 1, args[1][2], <<>>, C, S) IN IF r.k = "v" THEN V(<<"x">>, r.s) ELSE r
    [] sel = "collect:" /\ args[1][1] = "k" ->
         LET r == EachDo(f, 1, args[1][2], <<>>, C, S) IN
         IF r.k # "v" THEN r ELSE LET s2 == NewObj(r.s, "Array", r.v) IN V(LastObj(s2), s2)
    [] sel = "inject:into:" /\ args[2][1] = "k" -> Fold(f, 1, args[1], args[2][2], C, S)
    [] sel = "reverse" -> LET s2 == NewObj(S, "Array", [i \in 1..Len(f) |-> f[Len(f) + 1 - i]]) IN V(LastObj(s2), s2)
    [] OTHER -> Free(S)

ClassSend(c, sel, args, C, S) ==
  IF IsExcClass(C.p, c) THEN
    CASE sel = "new" -> LET s2 == [S EXCEPT !.exc = Append(@, [c |-> c, h |-> 0, txt |-> <<"x">>, ret |-> Nil, sig |-> 0, hs |-> <<>>])]
                        IN V(<<"e", Len(s2.exc)>>, s2)
      [] sel = "signal" -> SignalNew(c, C, S, Nil)
      [] sel = "signal:" -> LET s2 == [S EXCEPT !.exc = Append(@, [c |-> c, h |-> 0, txt |-> args[1], ret |-> Nil, sig |-> 0, hs |-> <<>>])]
                            IN Signal(Len(s2.exc), FALSE, C, s2)
      [] sel = "," /\ args[1][1] = "m" -> V(<<"set", <<c, args[1][2]>>>>, S)
      [] OTHER -> Free(S)
  ELSE IF c \in DOMAIN C.p.sup THEN
    CASE sel = "new" -> LET s2 == NewObj(S, c, Nils(C.p.nivars[c])) IN V(LastObj(s2), s2)
      [] OTHER -> Free(S)
  ELSE IF c = "Array" THEN
    CASE sel = "new:" /\ args[1][1] = "i" -> LET s2 == NewObj(S, "Array", Nils(args[1][2])) IN V(LastObj(s2), s2)
      [] sel = "with:" \/ sel = "with:with:" \/ sel = "with:with:with:" \/ sel = "with:with:with:with:" ->
           LET s2 == NewObj(S, "Array", args) IN V(LastObj(s2), s2)
      [] OTHER -> Free(S)
  ELSE Free(S)

Comparable(a, b) ==
  LET other == {"s", "y", "x", "set", "c", "f"} IN
  \/ a[1] \notin other /\ b[1] \notin other
  \/ a[1] = b[1] /\ a[1] \in {"y", "c"}

NotUnderstood == {"foo", "bar:", "zork:with:"}

IsArr(v, S) == v[1] = "o" /\ S.obj[v[2]].c = "Array"

(* Messages every object understands. *)
AnySend(v, sel, args, C, S) ==
  CASE sel = "==" -> IF Comparable(v, args[1]) THEN V(Bool(v = args[1]), S) ELSE Free(S)
    [] sel = "~~" -> IF Comparable(v, args[1]) THEN V(Bool(v # args[1]), S) ELSE Free(S)
    [] sel = "=" /\ Comparable(v, args[1]) /\ ~(IsArr(v, S) /\ IsArr(args[1], S)) -> V(Bool(v = args[1]), S)
    [] sel = "~=" /\ Comparable(v, args[1]) /\ ~(IsArr(v, S) /\ IsArr(args[1], S)) -> V(Bool(v # args[1]), S)
    [] sel = "isNil" -> V(Bool(v = Nil), S)
    [] sel = "notNil" -> V(Bool(v # Nil), S)
    [] sel = "yourself" -> V(v, S)
    [] sel = "class" /\ v[1] = "o" -> V(<<"m", S.obj[v[2]].c>>, S)
    [] sel = "ifNil:" -> IF v = Nil THEN Arm(args[1], <<>>, C, S) ELSE V(v, S)
    [] sel = "ifNotNil:" -> IF v = Nil THEN V(Nil, S)
                            ELSE IF args[1][1] = "k" THEN Cull(args[1][2], <<v>>, C, S) ELSE Free(S)
    [] sel = "ifNil:ifNotNil:" -> IF v = Nil THEN Arm(args[1], <<>>, C, S)
                            ELSE IF args[2][1] = "k" THEN Cull(args[2][2], <<v>>, C, S) ELSE Free(S)
    [] sel = "ifNotNil:ifNil:" -> IF v = Nil THEN Arm(args[2], <<>>, C, S)
                            ELSE IF args[1][1] = "k" THEN Cull(args[1][2], <<v>>, C, S) ELSE Free(S)
    [] sel = "->" -> Free(S)
    [] sel \in NotUnderstood -> SignalNew("MessageNotUnderstood", C, S, Nil)
    (* what the test harness adds to Object *)
    [] sel = "vLog:" -> V(args[1], Log(S, args[1]))
    [] sel \in {"vDeep:", "vGC:", "vNew:", "vId:", "vCall:"} /\ args[1][1] = "k" -> Call(args[1][2], <<>>, C, S)
    [] OTHER -> Free(S)

Generic == {"==", "~~", "=", "~=", "isNil", "notNil", "yourself", "ifNil:", "ifNotNil:", "ifNil:ifNotNil:", "ifNotNil:ifNil:",
            "vLog:", "vDeep:", "vGC:", "vNew:", "vId:", "vCall:"} \cup NotUnderstood

Send(v, sel, args, C, S) ==
  LET c == IF v[1] = "o" THEN S.obj[v[2]].c ELSE IF v[1] = "e" THEN S.exc[v[2]].c ELSE ""
      d == IF c = "" THEN "" ELSE Lookup(C.p, c, sel)
  IN
  IF v[1] = "x" THEN Free(S)
  ELSE IF \E i \in 1..Len(args) : (args[i][1] = "x" /\ sel # "vLog:") THEN Free(S)
  ELSE IF d # "" THEN Invoke(v, C.p.meth[d \o ">>" \o sel], d, args, C, S)
  ELSE IF sel = "vLog:" /\ args[1][1] = "x" THEN Free(S)
  ELSE IF sel \in Generic THEN AnySend(v, sel, args, C, S)
  ELSE CASE v[1] = "i" -> IntSend(v[2], sel, args, C, S)
         [] v[1] = "b" -> BoolSend(v[2] = 1, sel, args, C, S)
         [] v[1] = "k" -> BlockSend(v[2], sel, args, C, S)
         [] v[1] = "e" -> ExcSend(v[2], sel, args, C, S)
         [] v[1] = "m" -> ClassSend(v[2], sel, args, C, S)
         [] v[1] = "o" /\ S.obj[v[2]].c = "Array" -> ArrSend(v[2], sel, args, C, S)
         [] OTHER -> AnySend(v, sel, args, C, S)

-----------------------------------------------------------------------------
(* A program: classes, methods, class variables; it runs VA new main. *)
RunProgram(p0) ==
  LET ncv == Len(p0.cvnames)
      p  == [sup |-> p0.sup, nivars |-> p0.nivars, meth |-> p0.meth,
             cvars |-> [x \in { p0.cvnames[i] : i \in 1..ncv } |-> CHOOSE i \in 1..ncv : p0.cvnames[i] = x]]
      s  == [S0 EXCEPT !.mem = Nils(ncv)]
      C  == [env |-> EmptyEnv, self |-> Nil, cls |-> "Object", act |-> 0, hs |-> <<>>, live |-> {}, p |-> p]
      r0 == Send(<<"m", p0.start>>, "new", <<>>, C, s)
  IN Send(r0.v, "main", <<>>, C, r0.s)

(* What is observed: the log, and how the program ended. *)
Observed(r) == [log |-> IF r.k = "v" THEN r.s.log \o <<Show(r.v, r.s, 2)>> ELSE r.s.log,
                end |-> IF r.k = "v" THEN "value" ELSE IF r.k = "term" THEN "terminated" ELSE r.k]
=============================================================================
