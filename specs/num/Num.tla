-------------------------------- MODULE Num ---------------------------------
(* Exact numbers.  A magnitude is the sequence of its digits to the base B,
   least significant first and without leading zeros; an integer is a record
   [s, m] with s \in {-1, 0, 1}; a rational is [n, d] with n an integer, d a
   magnitude and no common divisor.  Nothing here is bounded by the size of the
   numbers TLC computes with. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS B, LB                \* base of the digits, a power of two: B = 2^LB

RECURSIVE Strip(_)
Strip(s) == IF s = << >> THEN s ELSE IF s[Len(s)] # 0 THEN s ELSE Strip(SubSeq(s, 1, Len(s) - 1))
RECURSIVE Fold(_, _, _, _)
Fold(f(_, _), acc, i, n) == IF i > n THEN acc ELSE LET x == f(acc, i) IN Fold(f, TLCEval(x), i + 1, n)
Dig(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

RECURSIVE MNat(_)
MNat(n) == IF n = 0 THEN << >> ELSE <<n % B>> \o MNat(n \div B)     \* of a small natural number

RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i - 1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))

\* digits d[i] (non-negative, small) with carries propagated, then the rest
RECURSIVE Spill(_)
Spill(c) == IF c = 0 THEN << >> ELSE <<c % B>> \o Spill(c \div B)
Carry(d, n) == LET st == [q |-> << >>, c |-> 0]
                   f(acc, i) == LET x == d[i] + acc.c IN [q |-> Append(acc.q, x % B), c |-> x \div B]
                   r == Fold(f, st, 1, n)
               IN Strip(r.q \o Spill(r.c))
MAdd(a, b) == LET n == MaxOf(Len(a), Len(b)) IN Carry([i \in 1..n |-> Dig(a, i) + Dig(b, i)], n)
\* a >= b
MSub(a, b) == Carry([i \in 1..Len(a) |-> a[i] - Dig(b, i)], Len(a))
MScale(a, k) == Carry([i \in 1..Len(a) |-> a[i] * k], Len(a))
RECURSIVE SumOf(_, _, _, _, _)
SumOf(a, b, k, i, j) == IF i > j THEN 0 ELSE a[i] * b[k - i + 1] + SumOf(a, b, k, i + 1, j)
MMul(a, b) == IF a = << >> \/ b = << >> THEN << >>
              ELSE LET n == Len(a) + Len(b) - 1
                   IN Carry([k \in 1..n |-> SumOf(a, b, k, MaxOf(1, k - Len(b) + 1), MinOf(k, Len(a)))], n)
\* one step of long division: the largest q with q*b <= r, r < B*b
Digit(r, b) ==
  IF Len(r) < Len(b) THEN 0
  ELSE LET top == IF Len(r) > Len(b) THEN r[Len(r)] * B + r[Len(r) - 1] ELSE r[Len(r)]
           hi  == MinOf(B - 1, top \div b[Len(b)])
           lo  == MinOf(B - 1, top \div (b[Len(b)] + 1))
           RECURSIVE Down(_, _)
           Down(l, h) == IF l = h THEN l
                         ELSE LET m == (l + h + 1) \div 2
                              IN IF MCmp(MScale(b, m), r) <= 0 THEN Down(m, h) ELSE Down(l, m - 1)
       IN Down(lo, hi)
\* <<quotient, remainder>>, b # << >>
MDivMod(a, b) ==
  IF MCmp(a, b) < 0 THEN << << >>, a >>
  ELSE LET f(acc, i) == LET r == Strip(<<a[Len(a) + 1 - i]>> \o acc.r)
                            q == Digit(r, b)
                        IN [q |-> <<q>> \o acc.q, r |-> IF q = 0 THEN r ELSE MSub(r, MScale(b, q))]
           x == Fold(f, [q |-> << >>, r |-> << >>], 1, Len(a))
       IN <<Strip(x.q), x.r>>
RECURSIVE MGcd(_, _)
MGcd(a, b) == IF b = << >> THEN a ELSE MGcd(b, MDivMod(a, b)[2])
MOne == <<1>>
P2(k) == 2^k
\* 2^k, whatever k
MPow2(k) == [i \in 1..(k \div LB) |-> 0] \o <<P2(k % LB)>>
MShl(a, k) == IF a = << >> THEN a ELSE [i \in 1..(k \div LB) |-> 0] \o MScale(a, P2(k % LB))
MShr(a, k) == LET w == k \div LB   r == k % LB IN
              IF w >= Len(a) THEN << >>
              ELSE LET h == SubSeq(a, w + 1, Len(a))
                   IN Strip([i \in 1..Len(h) |-> (h[i] \div P2(r)) + (Dig(h, i + 1) % P2(r)) * P2(LB - r)])
RECURSIVE Bits(_)
Bits(d) == IF d = 0 THEN 0 ELSE 1 + Bits(d \div 2)
MBits(a) == IF a = << >> THEN 0 ELSE (Len(a) - 1) * LB + Bits(a[Len(a)])      \* length in bits
MBit(a, i) == (Dig(a, i \div LB + 1) \div P2(i % LB)) % 2                     \* bit i, the lowest being 0
\* the number with value less than 2^k left over by MShr(a, k)
MLow(a, k) == Strip([i \in 1..MinOf(Len(a), k \div LB + 1) |-> IF i <= k \div LB THEN a[i] ELSE a[i] % P2(k % LB)])
RECURSIVE MPow(_, _)
MPow(a, n) == IF n = 0 THEN MOne ELSE LET h == MPow(a, n \div 2) IN IF n % 2 = 0 THEN MMul(h, h) ELSE MMul(MMul(h, h), a)
\* digits to another base, most significant first
RECURSIVE MDigits(_, _)
MDigits(a, base) == IF a = << >> THEN << >>
                    ELSE LET qr == MDivMod(a, MNat(base))
                             r  == qr[2]
                             f(acc, i) == acc * B + r[Len(r) + 1 - i]
                         IN Append(MDigits(qr[1], base), Fold(f, 0, 1, Len(r)))
MFrom(ds, base) == LET f(acc, i) == MAdd(MScale(acc, base), MNat(ds[i])) IN Fold(f, << >>, 1, Len(ds))

\* ---- integers
I(s, m)   == [s |-> IF m = << >> THEN 0 ELSE s, m |-> m]
IZero == I(0, << >>)
IOne == I(1, MOne)
IInt(n) == I(IF n < 0 THEN -1 ELSE 1, MNat(IF n < 0 THEN -n ELSE n))          \* of a TLC integer
INeg(a) == I(-a.s, a.m)
IAbs(a) == I(1, a.m)
ICmp(a, b) == IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1) ELSE IF a.s >= 0 THEN MCmp(a.m, b.m) ELSE MCmp(b.m, a.m)
IAdd(a, b) == IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
              ELSE IF a.s = b.s THEN I(a.s, MAdd(a.m, b.m))
              ELSE LET c == MCmp(a.m, b.m) IN
                   IF c = 0 THEN IZero ELSE IF c > 0 THEN I(a.s, MSub(a.m, b.m)) ELSE I(b.s, MSub(b.m, a.m))
ISub(a, b) == IAdd(a, INeg(b))
IMul(a, b) == I(a.s * b.s, MMul(a.m, b.m))
\* quotient rounded to zero, and the remainder with the sign of a
IQuo(a, b) == I(a.s * b.s, MDivMod(a.m, b.m)[1])
IRem(a, b) == I(a.s, MDivMod(a.m, b.m)[2])
\* quotient rounded down, and the remainder with the sign of b
IDiv(a, b) == LET qr == MDivMod(a.m, b.m) IN
              IF a.s * b.s >= 0 THEN I(1, qr[1]) ELSE I(-1, IF qr[2] = << >> THEN qr[1] ELSE MAdd(qr[1], MOne))
IMod(a, b) == LET r == MDivMod(a.m, b.m)[2] IN
              IF r = << >> THEN IZero ELSE IF a.s = b.s THEN I(b.s, r) ELSE I(b.s, MSub(b.m, r))
IGcd(a, b) == I(1, MGcd(a.m, b.m))
IPow(a, n) == I(IF a.s >= 0 \/ n % 2 = 0 THEN 1 ELSE -1, MPow(a.m, n))
\* two's complement: -1 - a
IInv(a) == IAdd(IInt(-1), INeg(a))
IShl(a, k) == I(a.s, MShl(a.m, k))
IShr(a, k) == IF a.s >= 0 THEN I(1, MShr(a.m, k)) ELSE IInv(I(1, MShr(IInv(a).m, k)))
IShift(a, k) == IF k >= 0 THEN IShl(a, k) ELSE IShr(a, -k)
\* digit i of the infinite two's complement of a
TwoC(a, n) == IF a.s >= 0 THEN [i \in 1..n |-> Dig(a.m, i)]
              ELSE LET m == IInv(a).m IN [i \in 1..n |-> B - 1 - Dig(m, i)]
RECURSIVE BitOp(_, _, _, _)
BitOp(f, x, y, k) == IF k = 0 THEN 0
                     ELSE (LET p == x % 2   q == y % 2 IN
                           CASE f = "and" -> p * q [] f = "or" -> p + q - p * q [] f = "xor" -> (p + q) % 2)
                          + 2 * BitOp(f, x \div 2, y \div 2, k - 1)
IBit(f, a, b) ==
  LET n == MaxOf(Len(a.m), Len(b.m)) + 1
      x == TwoC(a, n)   y == TwoC(b, n)
      r == [i \in 1..n |-> BitOp(f, x[i], y[i], LB)]
  IN IF r[n] < B \div 2 THEN I(1, Strip(r))
     ELSE IInv(I(1, Strip([i \in 1..n |-> B - 1 - r[i]])))
IBitAt(a, i) == IF a.s >= 0 THEN MBit(a.m, i) ELSE 1 - MBit(IInv(a).m, i)
\* the number of the least significant bit that is set, counting from 1
RECURSIVE LowFrom(_, _)
LowFrom(a, i) == IF MBit(a.m, i) = 1 THEN i + 1 ELSE LowFrom(a, i + 1)
ILow(a) == IF a.s = 0 THEN 0 ELSE LowFrom(a, 0)
\* length of the two's complement without the sign
IHigh(a) == IF a.s >= 0 THEN MBits(a.m) ELSE MBits(IInv(a).m)
\* greatest r with r*r <= a
MSqrt(a) == LET k == (MBits(a) + 1) \div 2
                f(acc, i) == LET t == MAdd(acc, MPow2(k - i)) IN IF MCmp(MMul(t, t), a) <= 0 THEN t ELSE acc
            IN Fold(f, << >>, 1, k)

\* ---- rationals
\* a power of two, which makes the division a shift
IsP2(d) == LowFrom(I(1, d), 0) = MBits(d)
Q(n, d) == IF n.s = 0 THEN [n |-> n, d |-> MOne]
           ELSE IF IsP2(d) THEN LET z == MinOf(MBits(d), LowFrom(n, 0)) - 1 IN [n |-> I(n.s, MShr(n.m, z)), d |-> MShr(d, z)]
           ELSE LET g == MGcd(n.m, d) IN
           IF g = MOne THEN [n |-> n, d |-> d] ELSE [n |-> I(n.s, MDivMod(n.m, g)[1]), d |-> MDivMod(d, g)[1]]
QI(n) == [n |-> n, d |-> MOne]
IsInt(x) == x.d = MOne
QNeg(x) == [x EXCEPT !.n = INeg(x.n)]
QAdd(x, y) == IF IsInt(x) /\ IsInt(y) THEN QI(IAdd(x.n, y.n))
              ELSE Q(IAdd(IMul(x.n, I(1, y.d)), IMul(y.n, I(1, x.d))), MMul(x.d, y.d))
QSub(x, y) == QAdd(x, QNeg(y))
QMul(x, y) == IF IsInt(x) /\ IsInt(y) THEN QI(IMul(x.n, y.n)) ELSE Q(IMul(x.n, y.n), MMul(x.d, y.d))
QRecip(x) == [n |-> I(x.n.s, x.d), d |-> x.n.m]
QQuot(x, y) == Q(IMul(x.n, I(y.n.s, y.d)), MMul(x.d, y.n.m))
QCmp(x, y) == IF x.d = y.d THEN ICmp(x.n, y.n) ELSE ICmp(IMul(x.n, I(1, y.d)), IMul(y.n, I(1, x.d)))
QFloor(x) == IF IsInt(x) THEN x.n ELSE IDiv(x.n, I(1, x.d))
QTrunc(x) == IF IsInt(x) THEN x.n ELSE IQuo(x.n, I(1, x.d))
QCeil(x) == INeg(QFloor(QNeg(x)))
QPow(x, n) == [n |-> IPow(x.n, n), d |-> MPow(x.d, n)]
\* to the nearest integer, halves away from zero
QRound(x) == LET t == QFloor([n |-> IAdd(IShl(IAbs(x.n), 1), I(1, x.d)), d |-> MShl(x.d, 1)]) IN I(x.n.s, t.m)

\* ---- binary floating point: p bits of precision, least exponent emin, greatest emax.
\* A value is [k |-> "num", q, neg] (neg also tells the zeros apart), "inf" or "nan".
Fnum(q, neg) == [k |-> "num", q |-> q, neg |-> neg]
Finf(neg) == [k |-> "inf", q |-> QI(IZero), neg |-> neg]
Fnan == [k |-> "nan", q |-> QI(IZero), neg |-> FALSE]
\* n/d * 2^-e as <<quotient, remainder, divisor>>
Scaled(n, d, e) == IF IsP2(d)
                   THEN LET k == MBits(d) - 1 + e IN
                        IF k > 0 THEN <<MShr(n, k), MLow(n, k), MPow2(k)>> ELSE <<MShl(n, -k), << >>, MOne>>
                   ELSE
                   LET nn == IF e >= 0 THEN n ELSE MShl(n, -e)
                       dd == IF e >= 0 THEN MShl(d, e) ELSE d
                       qr == MDivMod(nn, dd)
                   IN <<qr[1], qr[2], dd>>
\* m * 2^e
QScaled(s, m, e) == IF e >= 0 THEN QI(I(s, MShl(m, e)))
                    ELSE LET z == MinOf(-e, LowFrom(I(1, m), 0) - 1)
                         IN [n |-> I(s, MShr(m, z)), d |-> MPow2(-e - z)]
\* the nearest representable value, ties to the even one
Round(x, p, emin, emax) ==
  IF x.n.s = 0 THEN Fnum(x, FALSE)
  ELSE LET e0 == MBits(x.n.m) - MBits(x.d) - p            \* the quotient has p or p + 1 bits
           a0 == Scaled(x.n.m, x.d, e0)
           e1 == IF MBits(a0[1]) > p THEN e0 + 1 ELSE e0
           e  == MaxOf(e1, emin)
           a  == IF e = e0 THEN a0 ELSE Scaled(x.n.m, x.d, e)
           h  == MCmp(MShl(a[2], 1), a[3])
           up == h > 0 \/ (h = 0 /\ MBit(a[1], 0) = 1)
           m  == IF up THEN MAdd(a[1], MOne) ELSE a[1]
       IN IF m = << >> THEN Fnum(QI(IZero), x.n.s < 0)
          ELSE IF MBits(m) + e > emax THEN Finf(x.n.s < 0)
          ELSE Fnum(QScaled(x.n.s, m, e), x.n.s < 0)
RoundE(x) == Round(x, 24, -149, 128)
RoundD(x) == Round(x, 53, -1074, 1024)
RoundQ(x) == Round(x, 64, -16445, 16384)
=============================================================================
