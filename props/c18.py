"""C18: hashed collections behave as sets, bags and maps whatever the hash values."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import core

KINDS = [int(x) for x in os.environ.get("KINDS", "1 1 2 3 4 4 5 5 6 7 8 9 10 11 12").split()]
SETS, DICTS, IDENT = (1, 2, 7, 10), (4, 5, 6, 8, 9, 11, 12), (2, 6, 10, 11, 12)


class G:
    def __init__(self, r, kind, mode, nv):
        self.r, self.k, self.mode, self.nv = r, kind, mode, nv
        self.copies = mode in (0, 3, 5) or (mode in (2, 4, *range(6, 40)) and kind not in IDENT)

    def e(self):
        return self.r.randrange(self.nv) * 2 + (self.r.randint(0, 1) if self.copies else 0)

    def es(self, lo=0, hi=5): return [self.e() for _ in range(self.r.randint(lo, hi))]
    def v(self): return self.r.randint(1, 9)
    def kv(self, lo=0, hi=4):
        o = []
        for _ in range(self.r.randint(lo, hi)):
            o += [self.e(), self.v()]
        return o

    def many(self):
        r = self.r
        st = r.choice([1, 2, 3])
        n = r.choice([4, 9, 20, 40])
        return (r.randrange(0, 30), n, st)

    def setop(self):
        r, e = self.r, self.e
        return r.choice([("add", e())] * 8 + [("removeIfAbsent", e())] * 6 + [("remove", e())] * 2 + [
            ("addAll", *self.es()), ("removeAllIfAbsent", *self.es()), ("removeAll", *self.es(1, 2)),
            ("removeSuchThat", r.randint(0, 2)), ("addMany", *self.many()), ("removeMany", *self.many()), ("removeMany", *self.many()),
            ("rehash",), ("new", *self.es(0, 9))] + ([("empty",)] if r.random() < .2 else []))

    def setq(self):
        r, e = self.r, self.e
        c = [("includes", e())] * 5 + [("identityIncludes", e()), ("includesAll", *self.es(1, 3)), ("occurrencesOf", e()), ("size",),
             ("anyOne",), ("do",), ("select",), ("reject",), ("collect",), ("detect", r.randrange(self.nv + 1)), ("inject",),
             ("count",), ("asArray",), ("asOC",), ("sortedV",), ("copyWith", e()), ("copyWithout", e()),
             ("equals", *self.es(0, 4)), ("copyIndependent",)]
        if self.k == 1: c += [("asSet",), ("asBag",)]
        if self.k in (1, 2): c += [("deepCopySize",), ("intersect", *self.es(0, 6))]
        if self.k == 2: c = [x for x in c if x[0] != "sortedV"] + [("asArray",)]
        return r.choice(c)

    def bagop(self):
        r, e = self.r, self.e
        return r.choice([("add", e())] * 6 + [("addN", e(), r.randint(0, 4))] * 2 + [("removeIfAbsent", e())] * 8 + [("remove", e())] * 2 + [
            ("addAll", *self.es()), ("addMany", *self.many()), ("rehash",), ("removeAll", *self.es(1, 2)),
            ("new", *self.es(0, 9))] + ([("empty",)] if r.random() < .2 else []))

    def bagq(self):
        r, e = self.r, self.e
        return r.choice([("includes", e()), ("includesAll", *self.es(1, 3)), ("occurrencesOf", e()), ("occurrencesOf", e()), ("size",), ("anyOne",),
                         ("do",), ("select",), ("reject",), ("collect",), ("detect", r.randrange(self.nv + 1)), ("count",), ("asArray",), ("asOC",),
                         ("asBag",), ("asSet",), ("sortedV",), ("copyWith", e()), ("copyWithout", e()), ("equals", *self.es(0, 4)),
                         ("copyIndependent",), ("sortedByCount",)])

    def dictop(self):
        r, e = self.r, self.e
        return r.choice([("atPut", e(), self.v())] * 8 + [("removeKeyIfAbsent", e())] * 6 + [("removeKey", e())] * 2 + [
            ("addAssoc", e(), self.v()), ("addAll", *self.kv()), ("atIfAbsentPut", e(), self.v()), ("atIfAbsentPut", e(), self.v()),
            ("removeAssoc", e()), ("removeAllKeys", *self.es(0, 3)), ("removeKeysSuchThat", r.randint(0, 2)),
            ("addMany", *self.many()), ("removeMany", *self.many()), ("removeMany", *self.many()), ("rehash",),
            ("new", *self.kv(0, 8))] + ([("empty",)] if r.random() < .2 else []))

    def dictq(self):
        r, e = self.r, self.e
        return r.choice([("at", e()), ("at", e()), ("atIfAbsent", e()), ("atIfAbsent", e()), ("atIfPresent", e()), ("associationAt", e()), ("includesKey", e()),
                         ("includesKey", e()), ("includes", self.v()), ("includesAssoc", e(), self.v()), ("keyAtValue", self.v()), ("keyAtValueIfAbsent", self.v()),
                         ("size",), ("anyOne",), ("keys",), ("keysDo",), ("values",), ("do",), ("associations",), ("associationsDo",), ("select",), ("reject",),
                         ("collect",), ("detect", self.v()), ("inject",), ("count",), ("asArray",), ("asBag",), ("asSet",), ("equals", *self.kv(0, 3)),
                         ("copyIndependent",)])


def histories(c, count, steps):
    hs, r = [], c.rng
    for i in range(count):
        kind = KINDS[i % len(KINDS)]
        modes = [int(x) for x in os.environ['MODES'].split()] if 'MODES' in os.environ else [0, 0, 0, 1, 2, 3, 4, 5, *range(6, 29), 30, 31]
        if kind in (7, 8, 10, 11): modes = [0, 3, 5]
        mode = r.choice(modes)
        m = {0: r.choice([1, 2, 3, 7, 31, 1000]), 1: r.choice([1, 32, 64, 1024, 65536]), 4: r.choice([0, 3, 30])}.get(mode, 1)
        g = G(r, kind, mode, r.choice([3, 6, 12, 30]))
        op, q = (g.setop, g.setq) if kind in SETS else (g.bagop, g.bagq) if kind == 3 else (g.dictop, g.dictq)
        ops, last = [], []
        for _ in range(steps):
            o = op() if r.random() < .6 else q()
            if o[0] == "new" and r.random() < .7: o = q()
            if o[0] == "equals" and last and r.random() < .6: o = ("equals", *last)
            if o[0] == "new": last = list(o[1:])
            elif o[0] in ("add", "atPut", "addAssoc") : last = last + list(o[1:])
            ops.append(o)
        hs.append((i, [kind, mode, m, r.choice([1, 2, 4, 8, 32, 64])], ops))
    return hs


def run(c):
    c.model_check("hash/MCHashed", "SPECIFICATION Spec\nINVARIANT Laws\nCONSTANTS N = %d\n" % (5 if c.thorough else 4))
    c.conform("hash/TraceHashed", ["common.st", "hashed.st"], "VHashed", histories(c, int(450 * c.scale), 40))


core.main(run, "C18")
