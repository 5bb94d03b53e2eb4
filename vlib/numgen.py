"""Histories over registers of exact numbers; the arithmetic here only keeps them in range, it judges nothing."""
from fractions import Fraction as F
import math

def to_bytes(n):
    n = abs(n); o = []
    while n:
        o.append(n & 255); n >>= 8
    return o

class N:
    def __init__(self, r, mode):
        self.r, self.mode = r, mode              # mode 0 integers, 1 also fractions
        self.v = [F(0)] * 7
        self.limit = r.choice([130, 260, 260, 600])

    def magnitude(self):
        r = self.r; x = r.random()
        if x < .12: return r.choice([0, 1, 1, r.randint(0, 20)])
        if x < .45:
            k = r.choice([0, 1, 7, 8, 15, 16, 29, 30, 31, 32, 33, 60, 61, 62, 63, 64, 65, 66, 90, 94, 126, 127, 128, 129, 130, 191, 192, 193, 255, 256])
            return max(0, (1 << k) + r.choice([-2, -1, -1, 0, 0, 1, 2]))
        if x < .8:                                # words that are zero, all ones, one, top bit only, random
            n = 0
            for _ in range(r.choice([1, 1, 2, 2, 3, 3, 4, 5])):
                w = r.choice([0, 0, (1 << 64) - 1, (1 << 64) - 1, 1, 1 << 63, (1 << 63) - 1, (1 << 32) - 1, 1 << 32, r.getrandbits(64), r.getrandbits(64), r.getrandbits(20)])
                n = n << 64 | w
            return n
        if x < .9: return r.getrandbits(r.choice([10, 40, 62, 63, 64, 100, 128, 200]))
        return r.choice([3, 5, 7, 10, 97]) ** r.randint(1, 40)

    def integer(self):
        m = self.magnitude()
        return -m if self.r.random() < .45 else m

    def regs(self, pred):
        return [i for i in range(1, 7) if pred(self.v[i])]

    def isint(self, i): return self.v[i].denominator == 1

    def put(self, d, x): self.v[d] = F(x)

    def fresh(self, d):
        r = self.r
        n = self.integer(); q = 1
        if self.mode and r.random() < .5: q = max(1, r.choice([2, 3, 4, 6, 10, 12, 1 << 40, 1 << 62, 1 << 70, self.magnitude() or 1]))
        if r.random() < .3:                        # related to another register: quotients that come out even, neighbours
            j = self.r.randint(1, 6)
            if self.isint(j) and abs(self.v[j]) < 1 << 140:
                m = self.v[j].numerator
                n = r.choice([m + 1, m - 1, -m, m * (self.magnitude() % (1 << 70)) + r.choice([0, 0, 1, -1]), m ^ 1, -m - 1])
        x = F(n, q)
        self.put(d, x)
        nb = to_bytes(x.numerator)
        return ("set", d, (x > 0) - (x < 0), len(nb), *nb, *to_bytes(x.denominator))

    def big(self, x): return max(abs(x.numerator).bit_length(), x.denominator.bit_length()) > self.limit

    def op(self):
        r = self.r
        for _ in range(50):
            o = self.try_op()
            if o: return o
        return ("dump", 0)

    def try_op(self):
        r = self.r; d = r.randint(1, 6); x = r.random()
        if x < .16: return self.fresh(d)
        if x < .58:                                # two operands
            op = r.choice(["add"] * 4 + ["sub"] * 5 + ["mul"] * 5 + ["div", "div", "idiv", "idiv", "idiv", "imod", "imod", "imod", "quo", "quo", "rem", "rem", "gcd", "gcd", "lcm",
                           "and", "and", "or", "or", "xor", "xor", "clear", "divExact", "max", "min"])
            i, j = r.randint(1, 6), r.randint(1, 6)
            a, b = self.v[i], self.v[j]
            ints = self.isint(i) and self.isint(j)
            if op in ("gcd", "lcm", "and", "or", "xor", "clear", "divExact") and not ints: return None
            if op == "divExact" and (b == 0 or a % b): return None
            if b == 0 and op in ("div", "idiv", "imod", "quo", "rem"): return (op, d, i, j)
            if not self.mode and op == "div" and a % b: return None
            ai, bi = a.numerator, b.numerator
            t = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b, "idiv": lambda: F(a // b), "imod": lambda: a % b,
                 "quo": lambda: F(math.trunc(a / b)), "rem": lambda: a - b * math.trunc(a / b), "gcd": lambda: F(math.gcd(ai, bi)),
                 "lcm": lambda: F(math.lcm(ai, bi)), "and": lambda: F(ai & bi), "or": lambda: F(ai | bi), "xor": lambda: F(ai ^ bi),
                 "clear": lambda: F(ai & ~bi), "divExact": lambda: a / b, "max": lambda: max(a, b), "min": lambda: min(a, b)}[op]()
            if self.big(t): return None
            self.put(d, t)
            return (op, d, i, j)
        if x < .8:
            op = r.choice(["neg", "abs", "inv", "sqr", "pow", "pow", "shift", "shift", "shift", "shr", "shr", "shr", "floor", "ceil", "trunc", "round", "num", "den", "recip",
                           "move", "setBit", "clearBit", "truncTo", "small", "small", "smallDiv", "smallDiv", "ofSmall", "fact", "parse", "reparse"])
            i = r.randint(1, 6); a = self.v[i]; k = 0
            if op in ("floor", "ceil", "trunc", "round", "num", "den", "recip") and (not self.mode or r.random() < .3) and op not in ("num", "floor"): return None
            if op in ("inv", "shift", "shr", "setBit", "clearBit", "truncTo", "smallDiv", "ofSmall", "reparse") and a.denominator > 1: return None
            if op == "pow": k = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 7, 10])
            if op == "pow" and k == 0 and a.denominator > 1: return None
            if op == "pow" and k == 0 and a == 0: return (op, d, i, k)
            if op in ("shift", "shr"): k = r.choice([0, 1, 2, 7, 8, 30, 31, 32, 33, 61, 62, 63, 64, 65, 70, 128, r.randint(0, 140)])
            if op == "shr" and r.random() < .1: k = 2000
            if op in ("setBit", "clearBit"): k = r.choice([1, 2, 31, 32, 62, 63, 64, 65, 100])
            if op == "clearBit" and k > 62: k = r.choice([1, 30, 61])
            if op == "truncTo": k = r.choice([1, 2, 3, 10, 1000])
            if op in ("small", "smallDiv", "ofSmall"): k = r.choice([1, -1, 2, -2, 3, -3, 10, -10, 255, 256, 65536, -65536, 1 << 29, (1 << 30) - 1, -(1 << 30)])
            if op == "smallDiv" and r.random() < .05: k = 0
            if op == "fact": k = r.randint(0, 40)
            ai = a.numerator
            if op == "parse":
                n = self.magnitude() or 1
                base = r.choice([2, 3, 8, 10, 10, 16, 36]); ds = []
                if n.bit_length() > self.limit: return None
                self.put(d, n)
                while n: ds.append(n % base); n //= base
                return ("parse", d, base, *[48 + c if c < 10 else 55 + c for c in reversed(ds)])
            if op == "reparse": self.put(d, a); return ("reparse", d, i, r.choice([2, 3, 7, 8, 10, 10, 16, 36]))
            if (op == "recip" and a == 0) or (op == "smallDiv" and k == 0) or (op == "ofSmall" and a == 0): return (op, d, i, k)
            t = {"neg": lambda: -a, "abs": lambda: abs(a), "inv": lambda: F(~ai), "sqr": lambda: a * a, "pow": lambda: a ** k,
                 "shift": lambda: F(ai << k), "shr": lambda: F(ai >> k), "floor": lambda: F(math.floor(a)), "ceil": lambda: F(math.ceil(a)),
                 "trunc": lambda: F(math.trunc(a)), "round": lambda: F(math.floor(a + F(1, 2))) if a >= 0 else F(-math.floor(-a + F(1, 2))), "num": lambda: F(ai), "den": lambda: F(a.denominator),
                 "recip": lambda: 1 / a, "move": lambda: a, "setBit": lambda: F(ai | 1 << (k - 1)), "clearBit": lambda: F(ai & ~(1 << (k - 1))),
                 "truncTo": lambda: F(math.trunc(a / k) * k), "small": lambda: (a + k) * k - k, "smallDiv": lambda: F(ai // k + ai % k),
                 "ofSmall": lambda: F(k * ai + k // ai), "fact": lambda: F(math.factorial(k))}[op]()
            if self.big(t): return None
            self.put(d, t)
            return (op, d, i, k)
        i, j = r.randint(1, 6), r.randint(1, 6); a = self.v[i]
        op = r.choice(["cmp"] * 6 + ["cmpSmall", "signs", "bitAt", "bitAt", "high", "low", "print", "print", "print", "radix", "printQ", "padded", "floorLog", "ceilLog", "dump"])
        if op == "cmp": return (op, i, j)
        if op == "cmpSmall": return (op, i, r.choice([0, 0, 1, -1, 1 << 29, -(1 << 30), r.randint(-9, 9)]))
        if op == "printQ": return (op, i)
        if op == "dump": return (op, 0)
        if a.denominator > 1 and op != "floorLog": return None
        if op == "bitAt": return (op, i, r.choice([1, 2, 30, 31, 32, 62, 63, 64, 65, 128, r.randint(1, 140)]))
        if op == "high": return (op, i) if a >= 0 else None
        if op in ("floorLog", "ceilLog"): return (op, i, r.choice([2, 10, 16, 3])) if a >= 1 else None
        if op in ("print", "radix"): return (op, i, r.choice([2, 3, 8, 10, 10, 16, 36]))
        if op == "padded": return (op, i, r.choice([2, 10, 16]), r.randint(0, 60))
        return (op, i)

def histories(r, count, steps):
    hs = []
    for i in range(count):
        g = N(r, int(r.random() < .4))
        ops = [g.fresh(k) for k in range(1, 7)]
        ops += [g.op() for _ in range(steps)] + [("dump", 0)]
        hs.append((i, [0], ops))
    return hs
