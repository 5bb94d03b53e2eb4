"""C19: sequenceable collections behave as finite sequences."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import core

VAL = list(range(1, 7))


class Model:
    """Only tracks the length, so that most arguments are in range."""
    def __init__(self, rng, kind):
        self.r, self.k, self.n = rng, kind, 0

    def v(self): return self.r.choice(VAL)
    def vs(self, lo=0, hi=4): return [self.v() for _ in range(self.r.randint(lo, hi))]
    def idx(self): return self.r.randint(0, self.n + 1) if self.r.random() < .12 else self.r.randint(1, max(1, self.n))


def gen_query(m):
    r = m.r
    n = m.n
    i = m.idx()
    j = r.randint(i - 1, max(i - 1, n)) if r.random() < .9 else r.randint(0, n + 2)
    num = m.k != 5
    c = [("at", i), ("atIfAbsent", i), ("size",), ("isEmpty",), ("first",), ("last",), ("anyOne",), ("second",),
         ("indexOf", m.v()), ("indexOfFrom", m.v(), r.randint(1, n + 1)), ("indexOfLast", m.v()), ("includes", m.v()),
         ("includesAll", *m.vs(1, 3)), ("after", m.v()), ("before", m.v()), ("copyFromTo", i, j), ("copyFrom", i),
         ("allButFirst", r.randint(0, n)), ("allButLast", r.randint(0, n)), ("firstN", r.randint(0, n)),
         ("lastN", r.randint(0, n)), ("copyAfter", m.v()), ("copyAfterLast", m.v()), ("copyUpTo", m.v()),
         ("copyUpToLast", m.v()), ("indexOfSub", r.randint(1, n + 1), *m.vs(1, 3)), ("countSub", *m.vs(1, 2)),
         ("startsWith", *m.vs(0, 3)), ("endsWith", *m.vs(0, 3)), ("reverse",), ("do",), ("reverseDo",),
         ("doSeparatedBy",), ("doWithIndex",), ("keysAndValuesDo",), ("fromToDo", max(1, i), r.randint(max(1, i) - 1, max(n, max(1, i) - 1))),
         ("withDo", *[m.v() for _ in range(n)]), ("withDo", *m.vs()), ("withCollect", *[m.v() for _ in range(n)]),
         ("select",), ("reject",), ("collect",), ("detect", r.randint(0, 6)), ("detectFail", r.randint(0, 6)), ("inject",),
         ("count",), ("findFirst", r.randint(0, 6)), ("findLast", r.randint(0, 6)),
         ("atAll", *[m.idx() for _ in range(r.randint(0, 4))]), ("keys",), ("asArray",), ("asOC",), ("readStream",),
         ("copyIndependent",), ("sorted",), ("sortedBy",)]
    if m.k in (1, 2): c += [("gather",), ("join", *m.vs(0, 3))]
    if num:
        c += [("fold",), ("asBag",)]
    else:
        c += [("asBag",)]
    if m.k == 1: c = [x for x in c if x[0] != "readStream"]
    if m.k != 6:
        ns = r.randint(1, 2)
        c += [("copyWith", m.v()), ("copyWithout", m.v()), ("copyReplacing", m.v(), m.v()), ("concat", *m.vs()),
              ("copyReplaceAll", ns, *[m.v() for _ in range(ns)], *m.vs(0, 3)),
              ("copyReplaceFromTo", max(i, 1), r.randint(max(i, 1) - 1, max(max(i, 1) - 1, n)), *m.vs(0, 3)),
              ("copyReplaceFromToWithObject", max(1, i), r.randint(max(i, 1) - 1, max(max(i, 1) - 1, n)), m.v()),
              ("copyWithFirst", m.v()), ("equals", *m.vs(0, 3))]
    return r.choice(c)


def gen_inplace(m):
    r, n = m.r, m.n
    i, i2 = m.idx(), m.idx()
    lo = r.randint(1, n) if n else 1
    hi = r.randint(lo - 1, n)
    ln = hi - lo + 1
    pre = r.randint(0, 2)
    c = [("atPut", i, m.v()), ("sort",), ("sortBy",), ("swap", i, i2), ("atAllPut", m.v()),
         ("atAllPutKeys", m.v(), *[r.randint(1, n) for _ in range(r.randint(0, 3)) if n]),
         ("replaceAll", m.v(), m.v()), ("replaceFromToWithObject", lo, hi, m.v()),
         ("replaceFromToWith", lo, hi, *[m.v() for _ in range(ln)]),
         ("replaceFromToWithStart", lo, hi, pre + 1, *[m.v() for _ in range(ln + pre + r.randint(0, 2))])]
    if n:
        c.append(("replaceFromSelf", lo, hi, r.randint(1, n - ln + 1)))
        c.append(("atPut", m.idx(), m.v()))
    return r.choice(c)


def gen_extend(m):
    r, n = m.r, m.n
    k = r.random()
    if k < .55 or n > 60:
        if n > 60 or k < .22:
            op = r.choice([("removeFirst",), ("removeLast",), 
                           ("removeAtIndex", m.idx()), ("remove", m.v()), ("identityRemove", m.v()),
                           ("removeIfAbsent", m.v()), ("removeAll", *m.vs(0, 2)), ("removeAllSuchThat", r.randint(0, 2)), ("removeAtAll",)]
                          if r.random() < .6 else [("removeFirst",), ("removeLast",), ("removeAtIndex", m.idx())])
        else:
            op = r.choice([("add", m.v()), ("addLast", m.v()), ("addFirst", m.v()), ("addFirst", m.v()),
                           ("addAfterIndex", m.v(), r.randint(0, n)), ("addBeforeIndex", m.v(), r.randint(1, n + 1)),
                           ("addAfterIndex", m.v(), n + 1 + r.randint(0, 1)), ("addAfter", m.v(), m.v()), ("addBefore", m.v(), m.v())])
    else:
        op = r.choice([("addAll", *m.vs(0, 5)), ("addAllLast", *m.vs(0, 5)), ("addAllFirst", *m.vs(0, 9)),
                       ("addAllAfterIndex", r.randint(0, n), *m.vs(0, 5)), ("addAllBeforeIndex", r.randint(1, n + 1), *m.vs(0, 5)),
                       ("addAllAfter", m.v(), *m.vs(0, 3)), ("addAllBefore", m.v(), *m.vs(0, 3)),
                       ("addMany", r.choice([1, 5, 17, 33])), ("addManyFirst", r.choice([1, 5, 17, 33])), ("addAllAfterIndex", n + 1, 3)])
    return op


def approx_len(m, op):
    n, o = m.n, op[0]
    if o == "new": n = len(op) - 1
    elif o in ("add", "addLast", "addFirst", "addAfterIndex", "addBeforeIndex"): n += 1
    elif o in ("addAll", "addAllLast", "addAllFirst"): n += len(op) - 1
    elif o in ("addAllAfterIndex", "addAllBeforeIndex"): n += len(op) - 2
    elif o in ("addMany", "addManyFirst"): n += op[1]
    elif o in ("removeFirst", "removeLast", "removeAtIndex", "removeIndex", "remove", "identityRemove", "removeIfAbsent"): n = max(0, n - 1)
    elif o in ("removeFirstN", "removeLastN"): n = max(0, n - op[1])
    elif o == "removeAtAll": n = 0
    elif o == "removeAllSuchThat": n = n * 2 // 3
    m.n = n


def histories(c, count, steps):
    hs = []
    for i in range(count):
        kind = c.rng.choice([1, 1, 1, 2, 2, 4, 5, 6])
        m = Model(c.rng, kind)
        ops = []
        if kind != 1 and kind != 6:
            ops.append(("new", *m.vs(0, 12)))
            m.n = len(ops[0]) - 1
        if kind == 6:
            ops.append(newint(c.rng, m))
        for _ in range(steps):
            x = c.rng.random()
            if kind == 1:
                op = gen_extend(m) if x < .55 else gen_inplace(m) if x < .7 else gen_query(m)
            elif kind == 6:
                op = newint(c.rng, m) if x < .1 else gen_query(m)
            else:
                op = ("new", *m.vs(0, 40)) if x < .06 else gen_inplace(m) if x < .4 else gen_query(m)
            approx_len(m, op)
            ops.append(op)
        hs.append((i, [kind], ops))
    return hs


def newint(r, m):
    lo, st = r.randint(1, 9), r.choice([1, 1, 2, 3, -1, -2, -3])
    hi = max(0, min(60, lo + st * r.randint(-1, 9) + r.choice([0, 0, 1])))
    m.n = max(0, (hi - lo) // st + 1)
    return ("newInterval", lo, hi, st)


def run(c):
    c.model_check("seq/MCSeqs", "SPECIFICATION Spec\nINVARIANT Laws\nCONSTANTS Vals = {1, 2, 3}\n Max = %d\n" % (6 if c.thorough else 5))
    c.conform("seq/TraceSeqs", ["common.st", "seqs.st"], "VSeqs", histories(c, int(400 * c.scale), 40))


core.main(run, "C19")
