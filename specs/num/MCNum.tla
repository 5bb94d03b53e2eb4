------------------------------- MODULE MCNum --------------------------------
(* The arithmetic on digit sequences against TLC's own integers, for every pair of numbers up to Max and
   a base small enough for them to have many digits; and the laws that relate the operations. *)
EXTENDS Num
CONSTANT Max
VARIABLES a, b
Init == a \in -Max..Max /\ b = -Max
Next == UNCHANGED a /\ b' = IF b < Max THEN b + 1 ELSE b
Spec == Init /\ [][Next]_<<a, b>>
x == IInt(a)
y == IInt(b)
RECURSIVE V(_)
V(m) == IF m = << >> THEN 0 ELSE m[1] + B * V(Tail(m))
Val(i) == i.s * V(i.m)
OK(i) == i.m = Strip(i.m) /\ (i.s = 0) = (i.m = << >>) /\ \A k \in 1..Len(i.m) : i.m[k] \in 0..(B - 1)
Is(i, n) == OK(i) /\ Val(i) = n
Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE IF n = 0 THEN 0 ELSE 1
Cmp(m, n) == IF m < n THEN -1 ELSE IF m = n THEN 0 ELSE 1
Q2 == Abs(a) \div Abs(b)
Bitw(f, m, n) == LET RECURSIVE W(_, _, _)
                     W(p, q, k) == IF k = 0 THEN -(CASE f = "and" -> (p % 2) * (q % 2) [] f = "or" -> MaxOf(p % 2, q % 2) [] f = "xor" -> (p + q) % 2)
                                   ELSE (CASE f = "and" -> (p % 2) * (q % 2) [] f = "or" -> MaxOf(p % 2, q % 2) [] f = "xor" -> (p + q) % 2)
                                        + 2 * W(p \div 2, q \div 2, k - 1)
                 IN W(m, n, 12)
Agree ==
  /\ Is(x, a) /\ Is(INeg(x), -a) /\ Is(IAdd(x, y), a + b) /\ Is(ISub(x, y), a - b) /\ Is(IMul(x, y), a * b)
  /\ ICmp(x, y) = Cmp(a, b) /\ Is(IInv(x), -1 - a)
  /\ b # 0 => /\ Is(IQuo(x, y), Sgn(a) * Sgn(b) * Q2) /\ Is(IRem(x, y), a - b * Sgn(a) * Sgn(b) * Q2)
              /\ Val(IAdd(IMul(IDiv(x, y), y), IMod(x, y))) = a
              /\ (LET m == Val(IMod(x, y)) IN IF b > 0 THEN 0 <= m /\ m < b ELSE b < m /\ m <= 0)
              /\ OK(IDiv(x, y)) /\ OK(IMod(x, y))
              /\ (a # 0 => LET g == Val(IGcd(x, y)) IN a % g = 0 /\ Abs(b) % g = 0 /\ \A d \in (g + 1)..Abs(b) : ~(Abs(a) % d = 0 /\ Abs(b) % d = 0))
  /\ \A f \in {"and", "or", "xor"} : Is(IBit(f, x, y), Bitw(f, a, b))
  /\ \A k \in 0..7 : Is(IShl(x, k), a * 2^k) /\ Is(IShr(x, k), a \div 2^k) /\ IBitAt(x, k) = (a \div 2^k) % 2
                     /\ Is(I(1, MLow(x.m, k)), Abs(a) % 2^k) /\ Is(I(1, MPow2(k)), 2^k)
  /\ LET r == V(MSqrt(x.m)) IN r * r <= Abs(a) /\ (r + 1) * (r + 1) > Abs(a)
  /\ \A base \in {2, 3, 7} : MFrom(MDigits(x.m, base), base) = x.m
  /\ Is(IPow(x, 3), a * a * a) /\ MBits(x.m) = Bits(Abs(a))
  /\ (a # 0 => Abs(a) % 2^(ILow(x) - 1) = 0 /\ (Abs(a) \div 2^(ILow(x) - 1)) % 2 = 1)
  /\ b > 0 => LET q == Q(x, y.m) IN
              /\ Val(q.n) * b = a * V(q.d)
              /\ Val(QFloor(q)) = a \div b /\ Val(QCeil(q)) = -((-a) \div b)
              /\ Val(QTrunc(q)) = Sgn(a) * Q2
              /\ (LET r == Abs(Val(QRound(q))) IN 2 * Abs(a) < (2 * r + 1) * b /\ 2 * Abs(a) >= (2 * r - 1) * b)
              /\ QCmp(QAdd(q, QNeg(q)), QI(IZero)) = 0
              \* rounding to 3 bits: an error of at most half a unit, nothing nearer
              /\ LET f == Round(q, 3, -2, 5) IN
                 f.k = "inf" \/ (LET Err(z) == LET e == QSub(z, q) IN [n |-> IAbs(e.n), d |-> e.d]
                                     Reps == { QScaled(t, MNat(m), e) : t \in {1, -1}, m \in 1..7, e \in -2..2 } \cup {QI(IZero)}
                                 IN f.q \in Reps /\ \A z \in Reps : QCmp(Err(f.q), Err(z)) <= 0)
=============================================================================
