"""Random Smalltalk programs: abstract syntax for specs/lang/Lang.tla, and its source text.

Every program terminates: methods only send messages implemented by later ones, blocks kept in variables
only call blocks kept in earlier variables, and loops count."""
import random

UN, BIN, KEY = 1, 2, 3


# literals that are only looked at: what they show, and how they are written
OPAQUE = {"FloatD 0.0": ["0.0", "0d", "0.0d0"], "FloatD -0.0": ["-0.0"], "FloatD 1.5": ["1.5", "1.5d0", "15d-1"], "FloatE 1.5": ["1.5e0", "15e-1"], "FloatQ 1.5": ["1.5q0", "1.5q"],
          "FloatD 2.5": ["2.5"], "LargePositiveInteger 12345678901234567890": ["12345678901234567890", "16rAB54A98CEB1F0AD2", "12345678901_234567890"],
          "LargeNegativeInteger -12345678901234567890": ["-12345678901234567890"], "LargePositiveInteger 12345678901234567891": ["12345678901234567891"],
          "ScaledDecimal 1.50s2": ["1.5s2"], "ScaledDecimal 1.500s3": ["1.5s3"], "LargePositiveInteger 4611686018427387904": ["4611686018427387904"],
          "SmallInteger 4611686018427387903": ["4611686018427387903"], "ByteArray ByteArray (1 2 3 )": ["#[1 2 3]", "#[1 16r2 3]"], "ByteArray ByteArray (1 2 )": ["#[1 2]"], "ByteArray ByteArray (1 2 4 )": ["#[1 2 4]"]}
FAMILIES = [["FloatD 0.0", "FloatD -0.0"], ["FloatD 1.5", "FloatE 1.5", "FloatQ 1.5", "FloatD 2.5"], ["ScaledDecimal 1.50s2", "ScaledDecimal 1.500s3"],
            [k for k in OPAQUE if "Large" in k], [k for k in OPAQUE if "461168" in k], [k for k in OPAQUE if "Byte" in k]]


def kind(sel):
    return KEY if sel.endswith(":") else BIN if not sel[0].isalpha() else UN


def lit(*v): return ["lit", list(v)]
def I(n): return lit("i", n)
NIL, TRUE, FALSE = lit("nil"), lit("b", 1), lit("b", 0)
def var(n): return ["var", n]
def send(r, s, *a): return ["send", r, s, list(a)]
def blk(par, tmp, body): return ["blk", list(par), list(tmp), list(body)]
def asg(t, e): return ["asg", t, e]
def ret(e): return ["ret", e]
def log(e): return send(["self"], "vLog:", e)


class Text:
    """Source text of an abstract syntax tree."""

    def __init__(self, r, ivars, quirks=True, bang=False):
        self.bang = bang
        self.r, self.ivars, self.q = r, ivars, quirks

    def sp(self):
        if not self.q: return " "
        x = self.r.random()
        return " " if x < .9 else "\n\t" if x < .97 else ' "c: [ ^#( \'" '

    def num(self, n):
        r = self.r
        a = abs(n)
        x = r.random() if self.q else 1
        if x < .12:
            base = r.choice([2, 3, 8, 16, 36])
            s, d = "", "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
            y = a
            while True:
                s = d[y % base] + s
                y //= base
                if not y: break
            t = "%dr%s" % (base, s)
            return ("-" + t) if n < 0 and x < .06 else ("%dr-%s" % (base, s) if n < 0 else t)
        if x < .16 and a > 999:
            s = str(a)
            return ("-" if n < 0 else "") + s[:-3] + "_" + s[-3:]
        return str(n)

    def value(self, v, inarr=False):
        t = v[0]
        if t == "i": return self.num(v[1])
        if t == "f": return self.r.choice(OPAQUE[v[1]])
        if t == "nil": return "nil"
        if t == "b": return "true" if v[1] else "false"
        if t == "y":
            simple = v[1].replace(":", "").isalnum()
            x = self.r.random()
            if False: pass
            return "#" + v[1] if x < .7 or "'" in v[1] else "#'" + v[1] + "'"
        if t == "s": return "'" + v[1].replace("'", "''") + "'"
        if t == "c":
            return "$" + chr(v[1]) if self.r.random() < .7 else "##(%d asCharacter)" % v[1] if self.r.random() < .3 and not inarr else "$<%d>" % v[1]
        raise Exception(v)

    def larr(self, xs, inner=False):
        out = []
        for x in xs:
            out.append(self.larr(x[1], True) if x[0] == "larr" else self.value(x, True))
        return ("" if inner and self.r.random() < .5 else "#") + "(" + " ".join(out) + ")"

    def e(self, n, lim=9):
        """Text of n, in parentheses if it binds more loosely than LIM."""
        s, p = self.raw(n)
        return s if p <= lim and (p == 0 or not self.q or self.r.random() < .93) else "(" + s + ")"

    def msg(self, sel, args):
        k = kind(sel)
        if k == UN: return self.sp() + sel
        if k == BIN: return self.sp() + sel + " " + self.e(args[0], 1)
        parts = sel.split(":")[:-1]
        return "".join(self.sp() + p + ":" + (" " if self.r.random() < .8 or args[i][0] == "lit" else "") + self.e(args[i], 2) for i, p in enumerate(parts))

    def raw(self, n):
        t = n[0]
        if t == "lit":
            return self.value(n[1]), 0
        if t == "larr": return self.larr(n[1]), 0
        if t == "self": return "self", 0
        if t in ("var", "cvar"): return n[1], 0
        if t == "cls": return self.cls(n[1]), 0
        if t == "ivar": return self.ivars[n[1] - 1], 0
        if t == "asg": return self.raw(n[1])[0] + self.sp() + ":=" + self.sp() + self.e(n[2], 5), 5
        if t == "blk": return self.block(n), 0
        if t == "brace":
            return "{" + self.sp() + ("." + self.sp()).join(self.e(x) for x in n[1]) + ("." if n[1] and self.r.random() < .2 else "") + "}", 0
        if t == "send":
            k = kind(n[2])
            s = self.e(n[1], {UN: 1, BIN: 2, KEY: 2}[k])
            if n[1][0] == "lit" and n[1][1][0] == "i" and n[1][1][1] < 0 and k == UN: s = "(" + s + ")"
            return s + self.msg(n[2], n[3]), k
        if t == "ssend":
            return "super" + self.msg(n[1], n[2]), kind(n[1])
        if t == "casc":
            k = kind(n[2][0][0])
            s = self.e(n[1], {UN: 1, BIN: 2, KEY: 2}[k]) if n[1][0] != "super" else "super"
            return s + (";" + self.sp()).join(self.msg(m[0], m[1]) for m in n[2]), 4
        if t == "ret": return "^" + self.sp() + self.e(n[1]), 9
        raise Exception(n)

    def cls(self, c):
        return "SystemExceptions." + c if c in ("IndexOutOfRange", "BadReturn", "WrongArgumentCount") else c

    def stmts(self, body):
        s = ("." + self.sp()).join(self.e(x) if x[0] != "ret" else self.raw(x)[0] for x in body)
        if body and self.q and self.r.random() < .15: s += "."
        return s

    def block(self, n):
        s = "["
        for p in n[1]: s += ":" + p + " "
        if n[1]: s += "| " if n[3] or n[2] or self.r.random() < .5 else ""
        if n[2]: s += "| " + " ".join(n[2]) + " | "
        return s + self.stmts(n[3]) + self.sp() + "]"

    def method(self, sel, par, tmp, body):
        k = kind(sel)
        h = sel if k == UN else sel + " " + par[0] if k == BIN else " ".join(
            p + ": " + a for p, a in zip(sel.split(":"), par))
        return h, ("| " + " ".join(tmp) + " | " if tmp else "") + self.stmts(body)


INLINE1 = {"ifTrue:", "ifFalse:", "ifTrue:ifFalse:", "ifFalse:ifTrue:", "and:", "or:"}


class Gen:
    """mix: how often each kind of statement is made."""

    def __init__(self, r, mix):
        self.r, self.mix = r, mix
        self.n = 0

    def iv(self):
        """One of the instance variables; of very many, those at both ends and those whose numbers look alike."""
        r, n = self.r, len(self.ivn[self.c])
        if n < 20: return ["ivar", r.randint(1, n)]
        return ["ivar", r.choice([x for x in (1, 2, 3, 255, 256, 257, 258, 259, 513, 514, n - 1, n) if x <= n])]

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---- scopes: the variables in sight: (name, type, rank, capturable)
    def program(self):
        r = self.r
        self.cvnames = ["CvA", "CvB"][:r.randint(0, 2)]
        self.classes = []
        names = ["VA", "VB", "VC"][:r.choice([1, 2, 2, 3])]
        prev, nv = "Object", 0
        self.sup, self.niv, self.ivn = {}, {}, {}
        ivs = []
        for c in names:
            own = ["iv%d" % (len(ivs) + i) for i in range(r.choice([0, 1, 2, 3]) if c != "VA" or r.random() > self.mix.get("wide", 0) else r.choice([300, 260, 520]))]
            base = prev if prev != "Object" and r.random() < .8 else "Object"
            allv = (self.ivn[base] if base != "Object" else []) + own
            self.sup[c], self.niv[c], self.ivn[c] = base, len(allv), allv
            self.classes.append((c, base, own))
            ivs += own
            prev = c
        self.excs = []
        for c, b in (("VE", "Error"), ("VF", "VE"), ("VW", "Warning"), ("VX", "Exception")):
            if r.random() < self.mix.get("exc", .3) + .1 and (b != "VE" or "VE" in self.sup):
                self.sup[c], self.niv[c], self.ivn[c] = b, 0, []
                self.classes.append((c, b, []))
                self.excs.append(c)
        self.start = names[-1]
        self.names = names
        # selectors, in the order in which they may call each other
        sels = ["m%d" % i for i in range(r.randint(1, 3))] + ["k%d:" % i for i in range(r.randint(0, 2))] + \
               ["w%d:b:" % i for i in range(r.randint(0, 2))] + ([r.choice(["%%", "%", "~>", ",,"])] if r.random() < .3 else [])
        r.shuffle(sels)
        self.meth, self.cost, self.impl = {}, {}, {}
        self.ptypes = {s: [r.choice(["int", "int", "any", "blk", "blk1"]) for _ in range(s.count(":") if kind(s) == KEY else 1 if kind(s) == BIN else 0)] for s in sels}
        self.rtype = {s: r.choice(["int", "int", "bool", "any", "blk"]) for s in sels}
        self.later = []
        for s in reversed(sels):
            impls = [c for c in names if r.random() < .6] or [r.choice(names)]
            self.cost[s] = 0
            for c in impls:
                self.method(c, s, self.ptypes[s], self.rtype[s])
            self.impl[s] = set(impls)
            self.later.append(s)
        self.method(self.start, "main", [], "any", top=True)
        return dict(sup=self.sup, nivars=self.niv, meth=self.meth, cvnames=self.cvnames, start=self.start)

    def understands(self, c, s):
        while c in self.sup:
            if c in self.impl.get(s, ()): return True
            c = self.sup[c]
        return False

    def under(self, c, d):
        while c in self.sup and c != d: c = self.sup[c]
        return c == d

    def method(self, c, s, ptypes, rtype, top=False):
        self.n = 0
        self.c = c
        self.cv = self.cvnames if self.under(c, self.names[0]) else []
        self.spent, self.mult = 1, 1
        self.budget = 1500 if top else 250
        par = ["p%d" % i for i in range(len(ptypes))]
        self.noret = False
        self.rt = rtype
        sc = [[(p, t, i, True) for i, (p, t) in enumerate(zip(par, ptypes))]]
        tmp = []
        frame = []
        for _ in range(self.r.choice([1, 2, 3, 4, 6] if self.r.random() < .93 else [18, 40])):
            n = self.fresh("t")
            tmp.append(n)
            frame.append([n, "nil", len(frame) + 10, True])
        self.sc = sc + [frame]
        self.depth = 0
        self.inloop = False
        body = []
        # give every temporary a type and a value
        for f in frame:
            t = self.r.choice(["int", "int", "int", "any", "bool", "blk", "blk1", "arr", "obj"])
            if self.r.random() < .12: t = "nilv"
            else:
                e = self.expr(t, 2, rank=f[2])
                body.append(asg(var(f[0]), e))
            f[1] = t
        body += self.stmts(self.r.randint(2, 7) if top else self.r.randint(1, 4), 3)
        if top or self.r.random() < .8:
            body.append(ret(self.expr("int" if top else rtype, 2)))
        elif rtype != "any":
            body.append(ret(self.expr(rtype, 1)))
        used = tmp
        self.meth[c + ">>" + s] = dict(par=par, tmp=used, body=body)
        self.cost[s] = max(self.cost.get(s, 0), self.spent)

    def vars(self, typ, rank=10 ** 6, real=None):
        out = []
        for fr in self.sc:
            for v in fr:
                if v[1] == typ and v[2] < rank and (v[3] or self.depth == v[4]):
                    out.append(v[0])
        return out

    def spend(self, k):
        k *= self.mult
        if self.spent + k > self.budget: return False
        self.spent += k
        return True

    # ---- blocks
    def block(self, ptypes, body_fn, inline=False, loop=False, escapes=False):
        """A literal block; BODY_FN makes its statements."""
        r = self.r
        ps = [self.fresh("b") for _ in ptypes]
        save = (self.inloop, self.depth, self.noret)
        if not inline: self.depth += 1
        self.inloop = (self.inloop and inline) or loop
        cap = not (self.inloop and inline)
        frame = [(p, t, 5, cap, self.depth) for p, t in zip(ps, ptypes)]
        self.sc.append(frame)
        tmps, pre = [], []
        if r.random() < .25:
            n = self.fresh("x")
            tmps.append(n)
            t = r.choice(["int", "int", "any", "bool"])
            pre = [asg(var(n), self.expr(t, 1))]
            frame.append((n, t, 5, cap, self.depth))
        body = pre + body_fn()
        self.sc.pop()
        self.inloop, self.depth, self.noret = save
        return blk(ps, tmps, body)

    def fold(self, sel, e):
        """Sometimes make an expanded message a real one: its block passed through vId:."""
        return e

    # ---- expressions
    def expr(self, t, d, rank=10 ** 6):
        r = self.r
        if t == "nilv": return NIL
        if d <= 0 or not self.spend(1): return self.atom(t, rank)
        if t == "any":
            t = r.choice(["int", "int", "bool", "sym", "arr", "obj", "nil", "larr", "blk"])
        x = r.random()
        if x < .12 and self.mix.get("call"):
            c = self.call(t, d)
            if c: return c
        if x < .2 and t not in ("blk", "blk1"):
            return self.cond(t, d)
        if x < .26 and t not in ("blk", "blk1", "blk2"):
            return self.wrap(t, d)
        if x < .30:
            vs = [v for v in self.vars(t, rank) if v.startswith("t") or v.startswith("x")]
            if vs and t not in ("blk", "blk1"):
                return asg(var(r.choice(vs)), self.expr(t, d - 1))
        if x < .36: return log(self.expr(t, d - 1)) if t in ("int", "bool", "sym", "arr") else self.atom(t, rank)
        return getattr(self, "x_" + t, lambda d, rank: self.atom(t, rank))(d, rank)

    def x_int(self, d, rank):
        r = self.r
        op = r.choice(["+", "+", "-", "*", "//", "\\\\", "max:", "min:", "u", "numArgs", "size", "inject", "at", "rem:", "quo:", "casc", "blkval"])
        if op == "u": return send(self.expr("int", d - 1), r.choice(["abs", "negated", "yourself"]))
        if op in ("//", "\\\\", "rem:", "quo:"):
            return send(self.expr("int", d - 1), op, I(r.choice([1, 2, 3, 7, -2, -5])) if r.random() < .95 or op in ("rem:", "quo:") else self.expr("int", d - 1))
        if op == "*": return send(self.expr("int", d - 1), "*", I(r.randint(-3, 3)))
        if op == "numArgs": return send(self.expr(r.choice(["blk", "blk1"]), 1, rank), "numArgs")
        if op == "size": return send(self.expr("arr", d - 1), "size")
        if op == "at": return send(["brace", [self.expr("int", d - 1) for _ in range(3)]], "at:", I(r.randint(1, 3)))
        if op == "inject":
            return send(["brace", [self.expr("int", d - 2) for _ in range(r.randint(0, 3))]], "inject:into:", self.expr("int", 1),
                        self.block(["int", "int"], lambda: [self.expr("int", d - 1)]))
        if op == "casc":
            n = r.randint(1, 3)
            return ["casc", self.expr("int", d - 1), [[r.choice(["+", "-", "max:", "min:"]), [self.expr("int", d - 2)]] for _ in range(n)] + [r.choice([["yourself", []], ["negated", []], ["-", [I(3)]]])]]
        if op == "blkval": return self.callblk(d, rank, "int")
        return send(self.expr("int", d - 1), op, self.expr("int", d - 1))

    def callblk(self, d, rank, t):
        """Evaluate a block: a literal one, or one in a variable (its value may be anything: blocks answer integers here)."""
        r = self.r
        if not self.spend(4): return self.atom(t, rank)
        vs0, vs1 = self.vars("blk", rank), self.vars("blk1", rank)
        if t == "int" and (vs0 or vs1) and r.random() < .6:
            if not self.spend(25): return self.atom(t, rank)
            if vs0 and (not vs1 or r.random() < .5):
                v = var(r.choice(vs0))
                return send(v, "value") if r.random() < .8 else send(v, "valueWithArguments:", ["brace", []])
            v = var(r.choice(vs1))
            return send(v, r.choice(["value:", "value:", "cull:"]), self.expr("int", d - 1))
        n = r.choice([0, 1, 2, 3, 1, 2, 4, 5])
        b = self.block(["int"] * n, lambda: self.stmts(r.randint(0, 2), d - 1) + [self.expr(t, d - 1)])
        if n > 3: return send(b, "valueWithArguments:", ["brace", [self.expr("int", d - 2) for _ in range(n)]])
        sel = ["value", "value:", "value:value:", "value:value:value:"][n]
        return send(b, sel, *[self.expr("int", d - 2) for _ in range(n)])

    def x_bool(self, d, rank):
        r = self.r
        op = r.choice(["<", ">", "<=", ">=", "=", "==", "~=", "~~", "isNil", "notNil", "not", "and:", "or:", "and:", "or:", "even", "between", "&", "|", "xor:", "eqv:"])
        if op in ("<", ">", "<=", ">=", "=", "==", "~=", "~~"): return send(self.expr("int", d - 1), op, self.expr("int", d - 1))
        if op in ("isNil", "notNil"): return send(self.expr("any", d - 1), op)
        if op == "not": return send(self.expr("bool", d - 1), "not")
        if op in ("and:", "or:"):
            dyn = r.random() < .2
            b = self.block([], lambda: self.stmts(r.choice([0, 0, 1]), d - 1) + [self.expr("bool", d - 1)], inline=not dyn)
            return send(self.expr("bool", d - 1), op, self.dyn(b) if dyn else b)
        if op == "even": return send(self.expr("int", d - 1), r.choice(["even", "odd"]))
        if op == "between": return send(self.expr("int", d - 1), "between:and:", self.expr("int", d - 2), self.expr("int", d - 2))
        return send(self.expr("bool", d - 1), op, self.expr("bool", d - 1))

    def dyn(self, b):
        """The same block, but not a literal argument: nothing can be expanded."""
        x = self.r.random()
        if x < .5: return send(b, "yourself")
        if x < .8: return send(["brace", [b]], "first")
        return send(["self"], "vId:", blk([], [], [b]))

    def x_sym(self, d, rank): return self.atom("sym", rank)
    def x_nil(self, d, rank): return self.r.choice([NIL, send(["cls", self.r.choice(self.names)], "yourself"), NIL])
    def x_larr(self, d, rank): return self.atom("larr", rank)

    def x_arr(self, d, rank):
        r = self.r
        x = r.random()
        n = r.choice([0, 1, 2, 3, 5])
        if x < .5: return ["brace", [self.expr("int", d - 1) for _ in range(n)]]
        if x < .6 and n in (1, 2, 3): return send(["cls", "Array"], "with:" * n, *[self.expr("int", d - 1) for _ in range(n)])
        if x < .8: return send(self.expr("arr", d - 1), "collect:", self.block(["int"], lambda: [self.expr("int", d - 1)]))
        if x < .9: return send(self.expr("arr", d - 1), "reverse")
        return self.atom("arr", rank)

    def x_obj(self, d, rank):
        return send(["cls", self.r.choice(self.names)], "new")

    def x_blk(self, d, rank, n=0):
        save = self.sc, self.mult, self.spent
        # only variables of lower rank may be called from inside
        r = self.r
        self.mult *= 3
        keep = self.rankcap if hasattr(self, "rankcap") else None
        hidden = [[v for v in fr if v[1] not in ("blk", "blk1") or v[2] < rank] for fr in self.sc]
        self.sc = hidden
        b = self.block(["int"] * n, lambda: self.stmts(r.choice([0, 0, 1, 2]), d - 1) + [self.retOr("int", d - 1)], escapes=True)
        self.sc, self.mult = save[0], save[1]
        return b

    def x_blk1(self, d, rank): return self.x_blk(d, rank, 1)

    def retOr(self, t, d):
        if self.r.random() < self.mix.get("ret", .08): return ret(self.expr(self.rt, d))
        return self.expr(t, d)

    def atom(self, t, rank=10 ** 6):
        r = self.r
        if t == "any": t = r.choice(["int", "bool", "sym", "nil"])
        vs = self.vars(t, rank)
        if t == "int":
            ivs = []
            if vs and r.random() < .6: return var(r.choice(vs))
            return I(r.choice([0, 1, 2, 3, 5, -1, -7, 10, 100, 127, 128, 255, 256, 1000, 30000, 65535, 65536, 1000000]) if r.random() < .5 else r.randint(-9, 20))
        if t in ("blk", "blk1"):
            if vs and r.random() < .5: return var(r.choice(vs))
            ps = [self.fresh("b")] if t == "blk1" else []
            return blk(ps, [], [r.choice([I(r.randint(0, 9)), var(ps[0]) if ps else I(7)])])
        if t == "arr": return var(r.choice(vs)) if vs and r.random() < .6 else ["brace", [I(r.randint(0, 9)) for _ in range(r.randint(0, 3))]]
        if t == "obj": return var(r.choice(vs)) if vs and r.random() < .6 else send(["cls", r.choice(self.names)], "new")
        if t == "bool": return var(r.choice(vs)) if vs and r.random() < .5 else r.choice([TRUE, FALSE])
        if t == "sym" and r.random() < .3:
            if r.random() < .5 or not hasattr(self, "fam"): self.fam = r.choice(FAMILIES)
            return lit("f", r.choice(self.fam))
        if t == "sym": return lit("y", r.choice(["foo", "bar:", "a:b:", "+", "x1", "Sym"])) if r.random() < .6 else r.choice([lit("s", r.choice(["", "it's", "abc", "a b"])), lit("c", r.choice([97, 65, 48, 39]))])
        if t == "larr":
            old = getattr(self, "lasta", None)
            x = r.random()
            if old and x < .5:
                xs = list(old[1])
                k = r.choice(["add", "drop", "chg", "nest", "same"])
                if k == "add": xs.append(["i", r.randint(0, 3)])
                elif k == "drop": xs = xs[:-1]
                elif k == "chg" and xs:
                    j = r.randrange(len(xs))
                    xs[j] = self.near(xs[j])
                elif k == "nest": xs = [["larr", xs]] if len(str(xs)) < 120 else xs
                self.lasta = ["larr", xs]
            else: self.lasta = self.literalArray(2)
            return self.lasta
        return NIL

    def near(self, x):
        """A literal much like X."""
        r = self.r
        if x[0] == "i": return r.choice([["i", -x[1]], ["i", x[1] + 1], ["i", x[1] + 256], ["f", "FloatD 1.5"], ["s", "7"]])
        if x[0] == "f": return ["f", r.choice([f for f in FAMILIES if x[1] in f][0])]
        if x[0] == "y": return r.choice([["s", x[1]], ["y", "foo"]])
        if x[0] == "s": return r.choice([["y", "s"], ["s", "ss"], ["c", 115]])
        if x[0] == "c": return r.choice([["s", "a"], ["i", 97], ["c", 65]])
        if x[0] == "larr" and x[1]: return ["larr", x[1][:-1]]
        return r.choice([["nil"], ["b", 0], ["b", 1], ["larr", []]])

    def literalArray(self, d):
        r = self.r
        out = []
        for _ in range(r.randint(0, 4)):
            x = r.random()
            if x < .2 and d: out.append(self.literalArray(d - 1))
            else: out.append(r.choice([["i", r.randint(-300, 300)], ["nil"], ["b", 1], ["b", 0], ["y", r.choice(["foo", "bar:", "a:b:"])], ["s", "s"], ["c", 97],
                                     ["f", r.choice(list(OPAQUE))]]))
        return ["larr", out]

    def cond(self, t, d):
        r = self.r
        dyn = r.random() < .15
        body = lambda: self.stmts(r.choice([0, 0, 1, 2]), d - 1) + [self.retOr(t, d - 1)]
        x = r.random()
        if x < .75:
            c = self.expr("bool", d - 1)
            a = self.block([], body, inline=not dyn)
            b = self.block([], body, inline=not dyn)
            if dyn: a = self.dyn(a)
            return send(c, r.choice(["ifTrue:ifFalse:", "ifFalse:ifTrue:"]), a, b)
        v = self.expr(r.choice(["any", t]), d - 1)
        a = self.block([], body, inline=not dyn)
        b = self.block(["anyv"] if r.random() < .6 or dyn else [], body, inline=not dyn)
        if dyn: b = self.dyn(b)
        return send(v, "ifNil:ifNotNil:", a, b) if r.random() < .5 else send(v, "ifNotNil:ifNil:", b, a)

    def wrap(self, t, d):
        """The value of an expression, computed in a roundabout way."""
        r = self.r
        k = r.choice(["vDeep:", "vGC:", "vNew:", "vId:", "vCall:", "ensure:", "ifCurtailed:", "on:do:", "on:do:", "on:do:"])
        if not self.spend(5): return self.atom(t)
        if k.startswith("v"):
            return send(["self"], k, self.block([], lambda: self.stmts(r.choice([0, 1]), d - 1) + [self.retOr(t, d - 1)]))
        if k == "on:do:": return self.handler(t, d)
        b = self.block([], lambda: self.stmts(r.choice([0, 1, 2]), d - 1) + [self.retOr(t, d - 1)])
        c = self.block([], lambda: self.stmts(r.choice([1, 2]), d - 1) + ([ret(self.expr(self.rt, 1))] if r.random() < self.mix.get("ret", .08) / 2 else []))
        if r.random() < .08: return send(b, "ensure:", send(c, "yourself"))
        return send(b, k, c)

    ALLEXC = ["Error", "ZeroDivide", "Warning", "Exception", "MessageNotUnderstood", "ArithmeticError", "IndexOutOfRange", "BadReturn"]

    def excsel(self):
        r = self.r
        c = lambda: ["cls", r.choice(self.excs * 2 + self.ALLEXC)]
        return c() if r.random() < .85 else send(c(), ",", c())

    def handler(self, t, d):
        r = self.r
        if not self.spend(8): return self.atom(t)
        b = self.block([], lambda: self.stmts(r.choice([0, 1, 2]), d - 1) + [self.raiseOr(t, d - 1)])
        hs = []
        if r.random() < .12:
            return send(b, "on:do:on:do:", ["cls", "ZeroDivide"], self.hblock(t, d), ["cls", r.choice(["MessageNotUnderstood", "VE"] if "VE" in self.excs else ["Warning"])], self.hblock(t, d))
        return send(b, "on:do:", self.excsel(), self.hblock(t, d))

    def hblock(self, t, d):
        r = self.r

        def body():
            e = var(self.sc[-1][0][0]) if self.sc[-1] else None
            ss = self.stmts(r.choice([0, 1]), d - 2)
            if e is None: return ss + [self.retOr(t, d - 2)]
            x = r.random()
            if x < .15: ss.append(log(send(e, "class")))
            if x < .25: return ss + [send(e, "return:", self.expr(t, d - 2))]
            if x < .40: return ss + [send(e, "resume:", self.expr("int", d - 2))]
            if x < .45: return ss + [send(e, "return")]
            if x < .53: return ss + [send(e, "pass")]
            if x < .57: return ss + [log(send(e, "outer")), self.expr(t, d - 2)]
            if x < .64: return ss + [send(e, "messageText")]
            if x < .72:
                vs = [v for v in self.vars("int") if v[0] == "t"]
                if vs:
                    v = var(r.choice(vs))
                    # starts over at most a few times, whatever the program does to the variable
                    return ss + [send(send(["self"], "vCount"), "ifTrue:", blk([], [], [send(e, "retry")])), self.expr(t, d - 2)] if False else ss + [self.expr(t, d - 2)]
            return ss + [self.retOr(t, d - 2)]
        return self.block(["exc"] if r.random() < .85 else [], body)

    def raiseOr(self, t, d):
        r = self.r
        if r.random() < .6: return self.raising(d)
        return self.retOr(t, d)

    def raising(self, d):
        r = self.r
        x = r.random()
        if x < .2: return send(self.expr("int", 1), r.choice(["//", "\\\\"]), I(0))
        if x < .35: return send(self.expr("any", 1), "foo")
        if x < .45: return send(["brace", [I(1)]], r.choice(["at:"]), I(r.choice([0, 2, 5])))
        c = ["cls", r.choice(self.excs * 3 + ["Error", "Warning", "Exception", "ZeroDivide"])]
        if c[1] == "ZeroDivide": c = ["cls", "Error"]
        if x < .75: return send(c, "signal")
        if x < .9: return send(c, "signal:", lit("s", r.choice(["abc", "x"])))
        return send(send(c, "new"), r.choice(["signal"]))

    def call(self, t, d):
        """A message implemented by the program, or nil."""
        r = self.r
        c = [s for s in self.later if (self.rtype[s] == t)]
        r.shuffle(c)
        for s in c:
            owners = [k for k in self.names if self.understands(k, s)]
            if not owners or not self.spend(self.cost[s] + 2): continue
            args = [self.expr(p, d - 1) for p in self.ptypes[s]]
            x = r.random()
            sup = self.sup[self.c]
            if sup in self.sup and self.understands(sup, s) and x < .4: return ["ssend", s, args]
            if self.understands(self.c, s) and x < .6: return send(["self"], s, *args)
            return send(send(["cls", r.choice(owners)], "new"), s, *args)
        return None

    # ---- statements
    def stmts(self, n, d):
        out = []
        for _ in range(n):
            out.append(self.stmt(d))
            # what was just stored, or a variable whose number looks like its, read at once
            a = out[-1]
            if a[0] == "asg" and a[1][0] in ("ivar", "cvar") and self.r.random() < .5:
                vs = [v for v in self.vars("any") if v[0] in "tx"]
                k = a[1]
                if k[0] == "ivar":
                    k = ["ivar", self.r.choice([x for x in (k[1] - 512, k[1] - 256, k[1], k[1] + 256, k[1] + 512, k[1] + 1) if 0 < x <= len(self.ivn[self.c])])]
                if vs:
                    v = self.r.choice(vs)
                    out += [asg(var(v), k), log(var(v))]
        nv = len(self.ivn[self.c])
        if n and nv > 256 and self.r.random() < .3:
            vs = [v for v in self.vars("any") if v[0] in "tx"]
            a = self.r.choice([x for x in (1, 2, 3, 100, 256, 257) if x + 256 <= nv])
            v = ["ivar", a + self.r.choice([0, 256])]
            q = [asg(["ivar", a], I(self.r.randint(0, 99))), asg(["ivar", a + 256], I(self.r.randint(100, 199)))]
            self.r.shuffle(q)
            q += [asg(var(self.r.choice(vs)), v)] if vs else [asg(["ivar", 4], v)]
            out += q + [log(q[-1][1])]
        if n and self.depth < 3 and self.r.random() < self.mix.get("long", 0) / max(1, self.mult): out[self.r.randint(0, n):0] = self.padding()
        return out

    def padding(self):
        """Statements that do little, so that jumps over them are about 256 bytes long."""
        r = self.r
        vs = [v for v in self.vars("int") if v[0] in "tx"]
        if not vs: return []
        a, b = r.choice(vs), r.choice(vs)
        forms = [asg(var(a), var(b)), asg(var(a), send(var(b), "+", I(1))), asg(var(b), I(r.randint(0, 9))), asg(var(a), send(var(a), "max:", var(b)))]
        n = r.choice([10, 20, 24, 28, 32, 36, 40, 60])
        return [r.choice(forms[:r.randint(1, 4)]) for _ in range(n)]

    def target(self, t):
        r = self.r
        vs = [v for v in self.vars(t) if v[0] in "tx"]
        if vs and (r.random() < .7 or t != "any"): return var(r.choice(vs))
        ivs = self.ivn[self.c]
        x = r.random()
        if ivs and x < .6: return self.iv()
        if self.cv and x < .9: return ["cvar", r.choice(self.cv)]
        return var(r.choice(vs)) if vs else None

    def stmt(self, d):
        r = self.r
        if d <= 0 or not self.spend(2): return log(self.atom("any"))
        w = [("log", 5), ("asg", 5), ("iv", 3), ("if", 3), ("loop", self.mix.get("loop", 2)), ("call", 3), ("expr", 1), ("exc", self.mix.get("exc", .5) * 3),
             ("prot", self.mix.get("prot", 1)), ("each", 1), ("ret", self.mix.get("ret", .05) * 2)]
        k = r.choices([x[0] for x in w], [x[1] for x in w])[0]
        if k == "log":
            x = r.random()
            ivs = self.ivn[self.c]
            if x < .15 and ivs: return log(self.iv())
            if x < .25 and self.cv: return log(["cvar", r.choice(self.cv)])
            if x < .4:
                return log(["brace", [self.expr("any", d - 2) for _ in range(r.randint(0, 4))]])
            return log(self.expr(r.choice(["int", "bool", "any", "arr"]), d - 1))
        if k == "asg":
            t = r.choice(["int", "int", "bool", "any", "arr", "obj"])
            v = self.target(t)
            if v is None: return log(self.expr(t, d - 1))
            return asg(v, self.expr(t, d - 1) if r.random() < .8 or t in ("any",) else asg(self.target(t) or v, self.expr(t, d - 1)))
        if k == "iv":
            v = self.target("any")
            if v is None or v[0] == "var": return log(self.expr("any", d - 1))
            return asg(v, self.expr(r.choice(["int", "bool", "sym", "arr", "obj"]), d - 1))
        if k == "if":
            dyn = r.random() < .12
            f = lambda: self.stmts(r.choice([0, 1, 1, 2]), d - 1)
            if r.random() < .2:
                b = self.block(r.choice([[], ["anyv"]]), f, inline=not dyn)
                if b[1] or r.random() < .4:
                    return send(self.expr("any", d - 1), "ifNotNil:", b)
                return send(self.expr("any", d - 1), "ifNil:", b)
            b = self.block([], f, inline=not dyn)
            if dyn: b = self.dyn(b)
            if r.random() < .4: return send(self.expr("bool", d - 1), r.choice(["ifTrue:ifFalse:", "ifFalse:ifTrue:"]), b, self.block([], f, inline=not dyn))
            return send(self.expr("bool", d - 1), r.choice(["ifTrue:", "ifFalse:"]), b)
        if k == "loop": return self.loop(d)
        if k == "call": return self.call(r.choice(sorted(set(self.rtype.values()))), d) or log(self.expr("int", d - 1))
        if k == "expr": return self.expr("any", d - 1)
        if k == "exc":
            return log(self.handler("int", d)) if r.random() < .8 else self.raising(d)
        if k == "prot": return log(self.wrap("int", d)) if r.random() < .5 else self.wrap("int", d)
        if k == "each":
            m, self.mult = self.mult, self.mult * 3
            b = self.block(["int"], lambda: self.stmts(r.randint(1, 2), d - 1))
            self.mult = m
            return send(["brace", [self.expr("int", 1) for _ in range(r.randint(0, 3))]], "do:", b)
        if k == "ret":
            return send(self.expr("bool", d - 1), r.choice(["ifTrue:", "ifFalse:"]), blk([], [], [ret(self.expr(self.rt, d - 1))]))
        raise Exception(k)

    def loop(self, d):
        r = self.r
        if self.mult > 8: return log(self.expr("int", 1))
        k = r.choice(["to", "to", "to", "toby", "times", "while", "while", "until", "post", "repeat"])
        dyn = r.random() < .2
        m, self.mult = self.mult, self.mult * 4
        try:
            f = lambda: self.stmts(r.randint(1, 2), d - 1)
            if k in ("to", "toby"):
                b = self.block(["int"], f, inline=not dyn, loop=not dyn)
                if dyn: b = self.dyn(b)
                if k == "to":
                    a = r.randint(-2, 2)
                    lim = I(a + r.randint(-2, 3))
                    if r.random() < .25: lim = send(lim, "+", I(1))
                    return send(I(a), "to:do:", lim, b)
                s = r.choice([1, 2, 3, -1, -2])
                a = r.randint(-2, 4)
                return send(I(a) if r.random() < .7 else send(I(a - 1), "+", I(1)), "to:by:do:", I(a + s * r.randint(-1, 2) + (r.choice([0, 1, -1]) if abs(s) > 1 else 0)), I(s), b)
            if k == "times":
                b = self.block([], f, inline=False)
                return send(I(r.randint(0, 3)), "timesRepeat:", b)
            # counted loops over a variable nothing else touches
            n = self.fresh("n")
            lim = I(r.randint(0, 3))
            step = asg(var(n), send(var(n), "+", I(1)))
            self.sc.append([])
            if k == "while":
                c = self.block([], lambda: self.stmts(r.choice([0, 0, 1]), d - 2) + [send(var(n), "<", lim)], inline=not dyn, loop=not dyn)
                b = self.block([], lambda: f() + [step], inline=not dyn, loop=not dyn)
                w = send(c, "whileTrue:", self.dyn(b) if dyn else b)
            elif k == "until":
                c = self.block([], lambda: [send(var(n), ">=", lim)], inline=not dyn, loop=not dyn)
                b = self.block([], lambda: f() + [step], inline=not dyn, loop=not dyn)
                w = send(c if not dyn else self.dyn(c), "whileFalse:", b)
            elif k == "post":
                pos = r.random() < .5
                c = self.block([], lambda: f() + [step, send(var(n), "<" if pos else ">=", lim)], inline=not dyn, loop=not dyn)
                w = send(self.dyn(c) if dyn else c, "whileTrue" if pos else "whileFalse")
            else:
                self.sc.pop()
                n2 = n
                body = self.block([], lambda: f() + [step, send(send(var(n), ">", lim), "ifTrue:", blk([], [], [ret(self.expr(self.rt, 1))] if False else [send(var(n), "vStop")]))], inline=True, loop=True)
                # leaves by a return from a method of its own: vId: of a block cannot return, so use an exception
                body[3][-1] = send(send(var(n), ">", lim), "ifTrue:", blk([], [], [send(["cls", "Warning"], "signal:", lit("s", "stop"))]))
                w = send(blk([], [], [send(body, "repeat")]), "on:do:", ["cls", "Warning"], blk([self.fresh("b")], [], [NIL]))
                self.sc.append([])
            self.sc.pop()
            return send(blk([], [n], [asg(var(n), I(0)), w]), "value")
        finally:
            self.mult = m


def program(r, mix):
    g = Gen(r, mix)
    p = g.program()
    return p, g


def chunks(g, p, r, syntax):
    """Source files: lines for the driver (syntax 0) or class definitions (syntax 1)."""
    out = []
    if syntax == 0:
        for c, s, own in g.classes:
            out.append("C %s %s %s | %s" % (c, s, " ".join(own), " ".join(g.cvnames) if c == g.classes[0][0] else ""))
        for key, m in p["meth"].items():
            c, sel = key.split(">>")
            h, b = Text(r, g.ivn[c]).method(sel, m["par"], m["tmp"], m["body"])
            out += ["M " + c, h + " [\n    " + b + " ]", "%"]
        return "\n".join(out) + "\n", None
    src = []
    if syntax == 2:                     # chunks
        for c, s, own in g.classes:
            src.append("%s subclass: #%s instanceVariableNames: '%s' classVariableNames: '%s' poolDictionaries: '' category: 'V'!\n" % (
                s, c, " ".join(own), " ".join(g.cvnames) if c == g.classes[0][0] else ""))
        for c, s, own in g.classes:
            ms = [(k.split(">>")[1], m) for k, m in p["meth"].items() if k.split(">>")[0] == c]
            if not ms: continue
            src.append("!%s methodsFor: 'v'!\n" % c)
            for sel, m in ms:
                h, b = Text(r, g.ivn[c], bang=True).method(sel, m["par"], m["tmp"], m["body"])
                src.append("%s\n    %s\n!\n" % (h, b))
            src.append(" !\n")
        return None, "\n".join(src)
    for c, s, own in g.classes:
        src.append("%s subclass: %s [" % (s, c))
        if own: src.append("  | %s |" % " ".join(own))
        if c == g.classes[0][0]:
            for v in g.cvnames: src.append("  %s := nil." % v)
        for key, m in p["meth"].items():
            k, sel = key.split(">>")
            if k == c:
                h, b = Text(r, g.ivn[c]).method(sel, m["par"], m["tmp"], m["body"])
                src.append("  %s [\n    %s\n  ]" % (h, b))
        src.append("]\n")
    return None, "\n".join(src)
