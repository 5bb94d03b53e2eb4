"""Histories over registers of floating-point numbers."""
import numgen

P = {1: 24, 2: 53, 3: 64}
EMIN = {1: -149, 2: -1074, 3: -16445}
EMAX = {1: 128, 2: 1024, 3: 16384}

class G:
    def __init__(self, r):
        self.r = r
        self.k = {i: 0 for i in range(1, 6)}          # the type held, as far as it is known
        self.types = r.choice([[2], [2], [1], [3], [1, 2], [2, 3], [1, 2, 3], [0, 2], [0, 1, 2, 3]])
        self.wide = r.random() < .2 and 3 not in self.types      # also the ends of the range
        self.n = numgen.N(r, 0)

    def t(self): return self.r.choice([t for t in self.types if t] or [2])

    def mant(self, p):
        r = self.r; x = r.random()
        if x < .3: return (1 << p) - r.choice([1, 2, 3]) if r.random() < .5 else (1 << (p - 1)) + r.choice([0, 1, 2])
        if x < .5: return r.randint(1, 50)
        if x < .6: return (1 << r.randint(0, p)) - 1 or 1
        if x < .7: return 10 ** r.randint(0, 15) % (1 << p) or 1
        return r.getrandbits(r.randint(1, p)) or 1

    def make(self, d):
        r = self.r; t = self.t()
        m = self.mant(P[t] + r.choice([0, 0, 0, 0, 1, 2, 10]))
        e = r.choice([0, 0, 0, -1, -2, -1, 1, -P[t], -P[t] + 1, -P[t] - 1, r.randint(-40, 40), r.randint(-70, 10)])
        if self.wide:
            e = r.choice([EMIN[t], EMIN[t] + 1, EMIN[t] - 1, EMIN[t] + r.randint(-60, 60), EMAX[t] - m.bit_length(), EMAX[t] - m.bit_length() + 1, e])
            if m.bit_length() > P[t] and e + m.bit_length() < EMIN[t] + P[t] + 2: m >>= m.bit_length() - P[t]      # no rounding twice
            e = max(e, -16500)
        self.k[d] = t
        return ("make", d, t, r.choice([1, 1, -1]), e, *numgen.to_bytes(m))

    def text(self):
        r = self.r; t = self.t()
        lim = {1: 30, 2: 40 if not self.wide else 300, 3: 60}[t]
        mark = {1: "e", 2: r.choice(["d", "d", ""]), 3: "q"}[t]
        def digs(lo, hi, base=10):
            s = "".join(r.choice("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[:base]) for _ in range(r.randint(lo, hi)))
            if r.random() < .3: s = s[0] + r.choice(["0", "9" if base == 10 else "1"]) * (len(s) - 1)
            elif r.random() < .1:                  # digits that are all ones in binary, or nearly
                n = (1 << r.choice([16, 31, 32, 53, 63, 64, 80, 96, 112, 128])) - r.choice([1, 1, 2, 1 << 15])
                s = ""
                while n: s = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[n % base] + s; n //= base
            if r.random() < .1 and len(s) > 2: s = s[:1] + "_" + s[1:]
            return s
        if r.random() < .25:
            base = r.choice([2, 3, 8, 16, 36, 7])
            s = "%dr%s%s" % (base, r.choice(["", "", "-"]), digs(1, r.choice([3, 12, 40]), base))
            if r.random() < .7: s += "." + digs(1, r.choice([2, 10]), base)
            else: mark = mark or "d"
            if base > 13: return s + "" if "." in s else s           # letters are digits there
            e = r.randint(-9, 9)
            return s + (mark + str(e) if mark else "")
        s = r.choice(["", "", "-"]) + digs(1, r.choice([1, 3, 8, 17, 25, 40]))
        if not mark or r.random() < .7: s += "." + digs(1, r.choice([1, 2, 10, 20, 30]))
        if mark:
            e = r.choice([0, 1, -1, 22, 23, -22, r.randint(-lim, lim), r.randint(-lim, lim)])
            e = max(-lim, min(lim - len(s) if t == 1 else lim, e))
            return s + mark + str(e)
        return s

    def op(self):
        r = self.r; d = r.randint(1, 5); x = r.random()
        if x < .17: return self.make(d)
        if x < .3:
            s = self.text()
            self.k[d] = 1
            return ("lit", d, *map(ord, s))
        if x < .36:
            f = self.n.fresh(d); self.k[d] = 0
            return ("set", *f[1:])
        i, j = r.randint(1, 5), r.randint(1, 5)
        if x < .55: return (r.choice(["add", "sub", "mul", "div"]), d, i, j)
        if x < .64: return ("cmp", i, j)
        if x < .78: return ("print", i)
        if x < .8: return ("expo", i)
        if x < .9: return (r.choice(["to"]), d, i, r.choice([1, 2, 3, 2]))
        op = r.choice(["floor", "ceil", "trunc", "round", "round", "exact", "neg", "abs", "sqr", "fpart", "ipart", "sqrt", "scale"])
        return (op, d, i, r.choice([1, -1, 3, -10, 30]) if op == "scale" else 0)

def histories(r, count, steps):
    hs = []
    for i in range(count):
        g = G(r)
        ops = [g.make(k) if r.random() < .7 else ("lit", k, *map(ord, g.text())) for k in range(1, 6)]
        ops += [g.op() for _ in range(steps)] + [("dump", 0)]
        hs.append((i, [0], ops))
    return hs

def decorate(t):
    for e in t["ev"]:
        if e["op"] == "print" and e["r"][:1] and isinstance(e["r"][0], int) and e["r"][0] > 0:
            e["a"] = e["a"] + e["r"]; e["r"] = [1]
