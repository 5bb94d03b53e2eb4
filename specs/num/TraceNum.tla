------------------------------ MODULE TraceNum ------------------------------
(* Registers holding exact numbers, and what every message to them answers.  A number is reported as
   <<1, sign, class, digits of the magnitude>>, class 0 for a SmallInteger, 1 and 2 for the positive
   and negative large ones, or <<2, sign, 0, length, numerator, denominator>> for a fraction. *)
EXTENDS Num, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
NReg == 6
ErrR == <<-9999>>
InitOf(cfg) == { [i \in 1..NReg |-> QI(IZero)] }
\* SmallIntegers have 62 bits and a sign
Cls(n) == IF MBits(n.m) <= 62 \/ (n.s < 0 /\ MBits(IInv(n).m) <= 62) THEN 0 ELSE IF n.s > 0 THEN 1 ELSE 2
Rep(x) == IF IsInt(x) THEN <<1, x.n.s, Cls(x.n)>> \o x.n.m
          ELSE <<2, x.n.s, 0, Len(x.n.m)>> \o x.n.m \o x.d
Bool(b) == <<IF b THEN 1 ELSE 0>>
Given(a, i) == LET k == a[i + 1] IN Q(I(a[i], Strip(SubSeq(a, i + 2, i + 1 + k))), Strip(SubSeq(a, i + 2 + k, Len(a))))
Chars(ds) == [i \in 1..Len(ds) |-> IF ds[i] < 10 THEN 48 + ds[i] ELSE 55 + ds[i]]
Text(n, base) == IF n.s = 0 THEN <<48>> ELSE (IF n.s < 0 THEN <<45>> ELSE << >>) \o Chars(MDigits(n.m, base))
DigVal(c) == IF c >= 65 THEN c - 55 ELSE c - 48
RECURSIVE FactOf(_)
FactOf(n) == IF n = 0 THEN MOne ELSE MScale(FactOf(n - 1), n)
Floor2(x, y) == QFloor(QQuot(x, y))
\* the number of an arithmetic message, "zero" for a division by zero
Binary(op, x, y) ==
  CASE op = "add" -> QAdd(x, y)
    [] op = "sub" -> QSub(x, y)
    [] op = "mul" -> QMul(x, y)
    [] op = "div" -> QQuot(x, y)
    [] op = "idiv" -> QI(IF IsInt(x) /\ IsInt(y) THEN IDiv(x.n, y.n) ELSE Floor2(x, y))
    [] op = "imod" -> IF IsInt(x) /\ IsInt(y) THEN QI(IMod(x.n, y.n)) ELSE QSub(x, QMul(QI(Floor2(x, y)), y))
    [] op = "quo" -> QI(IF IsInt(x) /\ IsInt(y) THEN IQuo(x.n, y.n) ELSE QTrunc(QQuot(x, y)))
    [] op = "rem" -> IF IsInt(x) /\ IsInt(y) THEN QI(IRem(x.n, y.n)) ELSE QSub(x, QMul(QI(QTrunc(QQuot(x, y))), y))
    [] op = "divExact" -> QI(IQuo(x.n, y.n))
    [] op = "gcd" -> QI(IGcd(x.n, y.n))
    [] op = "lcm" -> IF x.n.s = 0 \/ y.n.s = 0 THEN QI(IZero) ELSE QI(IQuo(IAbs(IMul(x.n, y.n)), IGcd(x.n, y.n)))
    [] op = "and" -> QI(IBit("and", x.n, y.n))
    [] op = "or" -> QI(IBit("or", x.n, y.n))
    [] op = "xor" -> QI(IBit("xor", x.n, y.n))
    [] op = "clear" -> QI(IBit("and", x.n, IInv(y.n)))
    [] op = "max" -> IF QCmp(x, y) >= 0 THEN x ELSE y
    [] op = "min" -> IF QCmp(x, y) <= 0 THEN x ELSE y
Divides == {"div", "idiv", "imod", "quo", "rem", "divExact"}
Binaries == Divides \cup {"add", "sub", "mul", "gcd", "lcm", "and", "or", "xor", "clear", "max", "min"}
Unary(op, x, k) ==
  CASE op = "neg" -> QNeg(x)
    [] op = "abs" -> [x EXCEPT !.n = IAbs(x.n)]
    [] op = "inv" -> QI(IInv(x.n))
    [] op = "sqr" -> QMul(x, x)
    [] op = "pow" -> QPow(x, k)
    [] op = "shift" -> QI(IShift(x.n, k))
    [] op = "shr" -> QI(IShr(x.n, k))
    [] op = "floor" -> QI(QFloor(x))
    [] op = "ceil" -> QI(QCeil(x))
    [] op = "trunc" -> QI(QTrunc(x))
    [] op = "round" -> QI(QRound(x))
    [] op = "num" -> QI(x.n)
    [] op = "den" -> QI(I(1, x.d))
    [] op = "recip" -> QRecip(x)
    [] op = "move" -> x
    [] op = "setBit" -> QI(IBit("or", x.n, I(1, MPow2(k - 1))))
    [] op = "clearBit" -> QI(IBit("and", x.n, IInv(I(1, MPow2(k - 1)))))
    [] op = "truncTo" -> QI(IMul(IQuo(x.n, IInt(k)), IInt(k)))
    [] op = "small" -> QSub(QMul(QAdd(x, QI(IInt(k))), QI(IInt(k))), QI(IInt(k)))
    [] op = "smallDiv" -> QI(IAdd(IDiv(x.n, IInt(k)), IMod(x.n, IInt(k))))
    [] op = "fact" -> QI(I(1, FactOf(k)))
    [] op = "ofSmall" -> QI(IAdd(IMul(IInt(k), x.n), IDiv(IInt(k), x.n)))
Unaries == {"neg", "abs", "inv", "sqr", "pow", "shift", "shr", "floor", "ceil", "trunc", "round", "num", "den", "recip", "move", "setBit",
            "clearBit", "truncTo", "small", "smallDiv", "fact", "ofSmall"}
Zero(op, x, k) == (op = "pow" /\ k = 0 /\ x.n.s = 0) \/ (op = "recip" /\ x.n.s = 0) \/ (op = "smallDiv" /\ k = 0) \/ (op = "ofSmall" /\ x.n.s = 0)
Query(st, op, a) ==
  LET x == st[a[1]] IN
  CASE op = "cmp" -> LET c == QCmp(x, st[a[2]]) IN
                     << IF c < 0 THEN 1 ELSE 0, IF c <= 0 THEN 1 ELSE 0, IF c > 0 THEN 1 ELSE 0, IF c >= 0 THEN 1 ELSE 0,
                        IF c = 0 THEN 1 ELSE 0, IF c # 0 THEN 1 ELSE 0, 1, c + 2 >>
    [] op = "cmpSmall" -> LET c == QCmp(x, QI(IInt(a[2]))) IN
                     << IF c < 0 THEN 1 ELSE 0, IF c <= 0 THEN 1 ELSE 0, IF c > 0 THEN 1 ELSE 0, IF c >= 0 THEN 1 ELSE 0,
                        IF c = 0 THEN 1 ELSE 0, IF c # 0 THEN 1 ELSE 0, 1, c + 2 >>
    [] op = "signs" -> <<x.n.s, IF x.n.s < 0 THEN 1 ELSE 0, IF x.n.s >= 0 THEN 1 ELSE 0, IF x.n.s > 0 THEN 1 ELSE 0,
                        1 - (IF x.n.s = 0 THEN 0 ELSE MBit(x.n.m, 0)), IF x.n.s = 0 THEN 0 ELSE MBit(x.n.m, 0)>>
    [] op = "bitAt" -> <<IBitAt(x.n, a[2] - 1)>>
    [] op = "high" -> <<IHigh(x.n)>>
    [] op = "low" -> <<ILow(x.n)>>
    [] op = "print" -> Text(x.n, a[2])
    [] op = "radix" -> Text(IInt(a[2]), 10) \o <<114>> \o Text(x.n, a[2])
    [] op = "printQ" -> IF IsInt(x) THEN Text(x.n, 10) ELSE Text(x.n, 10) \o <<47>> \o Text(I(1, x.d), 10)
    [] op = "padded" -> LET t == Text(x.n, a[2])
                            w == [i \in 1..MaxOf(0, a[3] - Len(t)) |-> 48]
                        IN IF x.n.s < 0 THEN <<45>> \o w \o Tail(t) ELSE w \o t
    [] op = "floorLog" -> <<Len(MDigits(QFloor(x).m, a[2])) - 1>>
    [] op = "ceilLog" -> LET n == Len(MDigits(x.n.m, a[2])) - 1 IN <<IF MPow(MNat(a[2]), n) = x.n.m THEN n ELSE n + 1>>
    [] op = "dump" -> << Rep(st[1]), Rep(st[2]), Rep(st[3]), Rep(st[4]), Rep(st[5]), Rep(st[6]) >>
Out(st, r) == { [st |-> st, r |-> r, c |-> << >>] }
Set(st, i, x) == Out([st EXCEPT ![i] = x], Rep(x))
Outcomes(st, op, a) ==
  CASE op = "set" -> Set(st, a[1], Given(a, 2))
    [] op = "parse" -> Set(st, a[1], QI(I(1, MFrom([i \in 1..(Len(a) - 2) |-> DigVal(a[i + 2])], a[2]))))
    [] op = "reparse" -> Set(st, a[1], QI(st[a[2]].n))
    [] op \in Binaries -> IF op \in Divides /\ st[a[3]].n.s = 0 THEN Out(st, ErrR)
                          ELSE Set(st, a[1], Binary(op, st[a[2]], st[a[3]]))
    [] op \in Unaries -> IF Zero(op, st[a[2]], a[3]) THEN Out(st, ErrR) ELSE Set(st, a[1], Unary(op, st[a[2]], a[3]))
    [] OTHER -> Out(st, Query(st, op, a))
VARIABLES tid, l, sts
INSTANCE Replay
=============================================================================
