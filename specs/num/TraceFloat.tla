----------------------------- MODULE TraceFloat -----------------------------
(* Registers holding floating-point numbers of three precisions (types 1, 2 and 3: 24, 53 and 64 bits) or
   exact numbers (type 0), and what conversions, arithmetic, rounding, literals and printing answer: the
   representable number nearest to the exact result, ties going to the even one.
   A float is reported as <<type, kind, negative, exponent field>> \o the bytes of its significand. *)
EXTENDS Num, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
NReg == 5
Prec == <<24, 53, 64>>
EMin == <<-149, -1074, -16445>>
EMax == <<128, 1024, 16384>>
ErrR == <<-9999>>
Ex(q) == [t |-> 0, v |-> Fnum(q, q.n.s < 0)]
Fl(t, v) == [t |-> t, v |-> v]
Rnd(t, q) == Fl(t, Round(q, Prec[t], EMin[t], EMax[t]))
InitOf(cfg) == { [i \in 1..NReg |-> Ex(QI(IZero))] }
Cls(n) == IF MBits(n.m) <= 62 \/ (n.s < 0 /\ MBits(IInv(n).m) <= 62) THEN 0 ELSE IF n.s > 0 THEN 1 ELSE 2
RepQ(x) == IF IsInt(x) THEN <<1, x.n.s, Cls(x.n)>> \o x.n.m
           ELSE <<2, x.n.s, 0, Len(x.n.m)>> \o x.n.m \o x.d
\* significand with exactly Prec bits, or fewer for a number below the normal ones
RepF(t, v) ==
  LET neg == IF v.neg THEN 1 ELSE 0 IN
  CASE v.k = "inf" -> <<t, 1, neg>>
    [] v.k = "nan" -> <<t, 2>>
    [] v.q.n.s = 0 -> <<t, 0, neg, 0>>
    [] OTHER -> LET e2 == 1 - MBits(v.q.d)                      \* the value is v.q.n * 2^e2
                    b  == MBits(v.q.n.m)
                    e  == MaxOf(e2 - (Prec[t] - b), EMin[t])
                    m  == IF e <= e2 THEN MShl(v.q.n.m, e2 - e) ELSE MShr(v.q.n.m, e - e2)
                IN <<t, 0, neg, IF MBits(m) < Prec[t] THEN 0 ELSE e - EMin[t] + 1>> \o m
Rep(x) == IF x.t = 0 THEN RepQ(x.v.q) ELSE RepF(x.t, x.v)
Num1(x) == x.v.k = "num"
Bool(b) == <<IF b THEN 1 ELSE 0>>
Given(a, i) == LET k == a[i + 1] IN Q(I(a[i], Strip(SubSeq(a, i + 2, i + 1 + k))), Strip(SubSeq(a, i + 2 + k, Len(a))))
To(t, x) == IF x.t = t THEN x ELSE IF t = 0 THEN Ex(x.v.q)
            ELSE IF x.v.k # "num" \/ x.v.q.n.s = 0 THEN Fl(t, x.v) ELSE Rnd(t, x.v.q)

\* ---- literals: [digits r] [-] digits [. digits] [(e|d|q) [-] digits], underscores between digits ignored
DigVal(c) == IF c >= 97 THEN 99 ELSE IF c >= 65 THEN c - 55 ELSE IF c >= 48 /\ c <= 57 THEN c - 48 ELSE 98
RECURSIVE Upto(_, _, _)
Upto(s, i, base) == IF i > Len(s) THEN i ELSE IF DigVal(s[i]) < base \/ s[i] = 95 THEN Upto(s, i + 1, base) ELSE i
Digits(s, i, j) == LET d == SelectSeq(SubSeq(s, i, j - 1), LAMBDA c : c # 95) IN [k \in 1..Len(d) |-> DigVal(d[k])]
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Small(ds) == LET f(acc, i) == acc * 10 + ds[i] IN Fold(f, 0, 1, Len(ds))
Parse(s) ==
  LET neg0 == At(s, 1) = 45
      i0 == IF neg0 THEN 2 ELSE 1
      j0 == Upto(s, i0, 10)
      rad == At(s, j0) = 114
      base == IF rad THEN Small(Digits(s, i0, j0)) ELSE 10
      neg1 == rad /\ At(s, j0 + 1) = 45
      i1 == IF rad THEN (IF neg1 THEN j0 + 2 ELSE j0 + 1) ELSE i0
      j1 == Upto(s, i1, base)
      frac == At(s, j1) = 46 /\ DigVal(At(s, j1 + 1)) < base
      j2 == IF frac THEN Upto(s, j1 + 1, base) ELSE j1
      fd == IF frac THEN Digits(s, j1 + 1, j2) ELSE << >>
      mant == MFrom(Digits(s, i1, j1) \o fd, base)
      ec == At(s, j2)
      hasE == ec \in {100, 101, 113} /\ j2 < Len(s)
      eneg == hasE /\ At(s, j2 + 1) = 45
      ed == IF hasE THEN Small(Digits(s, IF eneg THEN j2 + 2 ELSE j2 + 1, Len(s) + 1)) ELSE 0
      exp == (IF eneg THEN -ed ELSE ed) - Len(fd)
      q == IF exp >= 0 THEN QI(I(1, MMul(mant, MPow(MNat(base), exp)))) ELSE Q(I(1, mant), MPow(MNat(base), -exp))
      neg == neg0 \/ neg1
  IN [t |-> IF ec = 101 THEN 1 ELSE IF ec = 113 THEN 3 ELSE IF ec = 100 \/ frac THEN 2 ELSE 0,
      q |-> IF neg THEN QNeg(q) ELSE q, neg |-> neg]
FromText(s, ty) == LET p == Parse(s)   t == IF ty < 0 THEN p.t ELSE ty IN
                   IF t = 0 THEN Ex(p.q) ELSE IF p.q.n.s = 0 THEN Fl(t, Fnum(p.q, p.neg)) ELSE Rnd(t, p.q)

\* ---- arithmetic: the operand of less generality is converted first
Kind(x, y) == MaxOf(x.t, y.t)
Arith(op, x, y) ==
  LET t == Kind(x, y)
      a == To(t, x)   b == To(t, y)
      p == a.v.q      q == b.v.q
      sum == QAdd(p, IF op = "sub" THEN QNeg(q) ELSE q)
      bn == IF op = "sub" THEN ~b.v.neg ELSE b.v.neg
  IN CASE op \in {"add", "sub"} -> IF sum.n.s = 0 THEN Fl(t, Fnum(sum, p.n.s = 0 /\ a.v.neg /\ bn)) ELSE Rnd(t, sum)
       [] op \in {"mul", "div"} ->
            LET r == IF op = "mul" THEN QMul(p, q) ELSE QQuot(p, q)
                ng == a.v.neg # b.v.neg
            IN IF r.n.s = 0 THEN Fl(t, Fnum(r, ng)) ELSE Rnd(t, r)
ArithAll(op, x, y) == IF x.t = 0 /\ y.t = 0
                      THEN Ex(CASE op = "add" -> QAdd(x.v.q, y.v.q) [] op = "sub" -> QSub(x.v.q, y.v.q)
                                [] op = "mul" -> QMul(x.v.q, y.v.q) [] op = "div" -> QQuot(x.v.q, y.v.q))
                      ELSE Arith(op, x, y)
\* sqrt: enough bits and a sticky one that keeps the rounding right
Sqrt(t, q) == LET k == Prec[t] + 4 + (MBits(q.d) - MBits(q.n.m)) \div 2 + 1
                  x == Scaled(q.n.m, q.d, -2 * k)
                  s == MSqrt(x[1])
                  exact == x[2] = << >> /\ MMul(s, s) = x[1]
                  m == MAdd(MShl(s, 1), IF exact THEN << >> ELSE MOne)
              IN Rnd(t, QScaled(1, m, -k - 1))
Unary(op, x, k) ==
  LET q == x.v.q IN
  CASE op = "floor" -> Ex(QI(QFloor(q)))
    [] op = "ceil" -> Ex(QI(QCeil(q)))
    [] op = "trunc" -> Ex(QI(QTrunc(q)))
    [] op = "round" -> Ex(QI(QRound(q)))
    [] op = "exact" -> Ex(q)
    [] op = "move" -> x
    [] op = "neg" -> [x EXCEPT !.v.q = QNeg(q), !.v.neg = ~x.v.neg]
    [] op = "abs" -> [x EXCEPT !.v.q = IF q.n.s < 0 THEN QNeg(q) ELSE q, !.v.neg = FALSE]
    [] op = "sqr" -> ArithAll("mul", x, x)
    [] op = "to" -> To(k, x)
    [] op = "fpart" -> Rnd(x.t, QSub(q, QI(QTrunc(q))))
    [] op = "ipart" -> Rnd(x.t, QI(QTrunc(q)))
    [] op = "sqrt" -> Sqrt(x.t, q)
    [] op = "scale" -> Rnd(x.t, IF k >= 0 THEN QMul(q, QI(I(1, MPow2(k)))) ELSE QMul(q, [n |-> IOne, d |-> MPow2(-k)]))
Unaries == {"floor", "ceil", "trunc", "round", "exact", "move", "neg", "abs", "sqr", "to", "fpart", "ipart", "sqrt", "scale"}
\* numbers too large to follow
Heavy(x) == LET n == Len(x.v.q.n.m) + Len(x.v.q.d) IN n > 320 \/ (n > 120 /\ ~IsP2(x.v.q.d))
Out(st, r) == { [st |-> st, r |-> r, c |-> << >>] }
Free(st) == { [st |-> st, r |-> << >>, c |-> << >>, any |-> TRUE] }
Set(st, i, x) == Out([st EXCEPT ![i] = x], Rep(x))
\* results that are zero have a sign that only the library knows
Unsigned(op, x, k) == op \in {"fpart", "ipart", "scale", "sqrt"} /\ (x.v.q.n.s <= 0 \/ op # "sqrt")
                      /\ (x.v.q.n.s = 0 \/ (op # "sqrt" /\ Unary(op, x, k).v.q.n.s = 0))
Outcomes(st, op, a) ==
  CASE op = "set" -> Set(st, a[1], Ex(Given(a, 2)))
    [] op = "make" -> LET q == QScaled(a[3], Strip(SubSeq(a, 5, Len(a))), a[4]) IN Set(st, a[1], Rnd(a[2], q))
    [] op = "lit" -> Set(st, a[1], FromText(SubSeq(a, 2, Len(a)), -1))
    [] op \in {"add", "sub", "mul", "div"} ->
         LET x == st[a[2]]   y == st[a[3]] IN
         IF ~Num1(x) \/ ~Num1(y) \/ Heavy(x) \/ Heavy(y) THEN Free(st)
         ELSE IF op = "div" /\ y.v.q.n.s = 0 THEN (IF x.t = 0 /\ y.t = 0 THEN Out(st, ErrR) ELSE Free(st))
         ELSE IF x.t # y.t /\ 0 \in {x.v.q.n.s, y.v.q.n.s} THEN Free(st)
         ELSE IF x.t # y.t /\ (~Num1(To(Kind(x, y), x)) \/ ~Num1(To(Kind(x, y), y))) THEN Free(st)
         ELSE IF op = "div" /\ To(Kind(x, y), y).v.q.n.s = 0 THEN Free(st)
         ELSE Set(st, a[1], ArithAll(op, x, y))
    [] op \in Unaries ->
         LET x == st[a[2]] IN
         IF op \in {"move", "to"} /\ x.v.k = "inf" THEN Free(st)
         ELSE IF op = "abs" /\ x.v.q.n.s = 0 THEN Free(st)
         ELSE IF ~Num1(x) \/ Heavy(x) THEN Free(st)
         ELSE IF op \in {"fpart", "ipart", "sqrt", "scale"} /\ (x.t = 0 \/ Unsigned(op, x, a[3])) THEN Free(st)
         ELSE IF op = "sqrt" /\ x.v.q.n.s < 0 THEN Free(st)
         ELSE Set(st, a[1], Unary(op, x, a[3]))
    [] op = "cmp" -> LET x == st[a[1]]   y == st[a[2]]   c == QCmp(x.v.q, y.v.q) IN
         IF ~Num1(x) \/ ~Num1(y) \/ Heavy(x) \/ Heavy(y) \/ (x.t # y.t /\ 0 \in {x.t, y.t}) THEN Free(st)
         ELSE Out(st, << IF c < 0 THEN 1 ELSE 0, IF c <= 0 THEN 1 ELSE 0, IF c > 0 THEN 1 ELSE 0, IF c >= 0 THEN 1 ELSE 0,
                        IF c = 0 THEN 1 ELSE 0, IF c # 0 THEN 1 ELSE 0, 1 >>)
    [] op = "expo" -> LET x == st[a[1]] IN
         IF ~Num1(x) \/ x.t = 0 \/ x.v.q.n.s = 0 THEN Free(st)
         ELSE Out(st, <<MBits(x.v.q.n.m) - MBits(x.v.q.d)>>)
    \* the text printed (moved to the arguments) denotes the number
    [] op = "print" -> LET x == st[a[1]] IN
         IF ~Num1(x) \/ x.t = 0 \/ Heavy(x) THEN Free(st)
         ELSE LET y == FromText(SubSeq(a, 2, Len(a)), x.t) IN
              Out(st, <<IF y.v.q = x.v.q /\ y.v.k = "num" /\ (x.v.q.n.s = 0 \/ y.v.neg = x.v.neg) THEN 1 ELSE 0>>)
    [] op = "dump" -> Out(st, [i \in 1..NReg |-> Rep(st[i])])
VARIABLES tid, l, sts
INSTANCE Replay
=============================================================================
