"""Histories for the object memory specification (specs/heap)."""
NR = 5
CFG = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nCONSTANT NR = 5\n"


def history(r, mix, steps):
    """mix: gc, weak or ident."""
    ops = []
    kinds = {"gc": [1, 1, 2, 2, 3, 4, 5, 6, 7, 8], "weak": [1, 2, 3, 3, 6, 10, 10, 10, 7], "ident": [1, 2, 2, 3, 4, 5, 6, 7, 8, 10]}[mix]
    v = lambda: r.randint(1, NR)
    idx = lambda: r.choice([1, 1, 2, 2, 3, 3, 4, 5, 0, 7])
    big = r.random() < .15
    ser = [0]

    def size(k):
        if k == 10: return r.choice([1, 2, 3])
        return r.choice([1, 2, 3, 4] + ([600, 3000] if big else [])) if k != 6 else r.choice([0, 1, 2])

    def new():
        k = r.choice(kinds)
        ops.append(("new", v(), k, size(k)))
        if r.random() < .7 and k in (1, 2, 3, 6):
            ser[0] += 1
            ops.append(("putint", ops[-1][1], 1, ser[0] % 900))

    gcs = {"gc": [("scavenge", 1)] * 5 + [("scavenge", 3), ("churn", 300), ("churn", 20000), ("incstep", 2), ("incstep", 20), ("fininc",), ("compact",), ("gc",), ("fullgc",)],
           "weak": [("scavenge", 1), ("churn", 500), ("gc",), ("gc",), ("fullgc",), ("compact",), ("incstep", 5)],
           "ident": [("scavenge", 1), ("scavenge", 2), ("churn", 500), ("gc",), ("compact",), ("fullgc",)]}[mix]
    def age(*vs):
        """Make what variables vs refer to old, one way or the other."""
        if r.random() < .5:
            for x in vs: ops.append(("tenure", x))
        else: ops.append(r.choice([("fullgc",), ("gc",), ("scavenge", 12)]))

    def scenario():
        """Steps whose order matters to a generational collector."""
        a, b, c = r.sample(range(1, NR + 1), 3)
        ser[0] += 3
        i, j = r.sample([1, 2, 3], 2)
        coll = lambda: r.choice([("scavenge", 1), ("scavenge", 3), ("churn", 3000), ("gc",), ("fullgc",), ("compact",), ("incstep", 3)])
        if mix == "weak" and r.random() < .6:
            # elements of a weak object that die together, or not
            ops.extend([("new", a, 10, 3), ("new", b, r.choice([1, 2]), 2), ("putint", b, 1, ser[0] % 900), ("new", c, r.choice([1, 2]), 2), ("putint", c, 1, (ser[0] + 1) % 900), ("put", a, b, i), ("put", a, c, j)])
            if r.random() < .4: age(a, b, c)
            for x in r.sample([b, c], r.choice([1, 2, 2])): ops.append(("drop", x))
            ops.extend([coll(), ("gc",), ("wdump", a), ("churn", 500), ("wdump", a)])
            return
        # something young or old behind something old
        # (usually a large one, so that no other object shares its card)
        if r.random() < .7:
            i, j = r.sample([500, 600, 700, 1100], 2)
            ops.append(("new", a, 1, 1200))
        else: ops.append(("new", a, r.choice([1, 2]), 3))
        ops.extend([("new", b, r.choice([1, 2, 4]), 3), ("putint", b, 1, ser[0] % 200), ("put", a, b, i)])
        age(a, b) if r.random() < .6 else age(a)
        if r.random() < .7: ops.append(("scavenge", r.choice([1, 3, 10])))
        ops.extend([("new", c, r.choice([1, 2, 5]), 3), ("putint", c, 1, (ser[0] + 1) % 200)])
        if mix != "gc" and r.random() < .7:
            if r.random() < .3: age(c)
            ops.append(r.choice([("become", c, b), ("become", b, c)] + [("forward", c, b), ("forward", b, c)] * (mix == "ident")))
        else: ops.append(("put", a, c, r.choice([i, j])))
        ops.extend([("drop", b), ("drop", c)])
        for _ in range(r.randint(1, 3)): ops.append(coll())
        if r.random() < .5: ops.append(("scavenge", 10))
        if r.random() < .5: ops.append(("churn", 5000))
        ops.extend([("get", a, i, b), ("get", a, j, c), ("dump",)])

    for _ in range(2): new()
    while len(ops) < steps:
        x = r.random()
        if r.random() < .035: scenario()
        elif x < .16: new()
        elif x < .36: ops.append(("put", v(), v(), idx()))
        elif x < .42: ops.append(("putint", v(), r.choice([1, 2, 2, 3, 4, 5]), r.choice([0, 1, 7, 99, 200, 255])))
        elif x < .50: ops.append(("get", v(), idx(), v()))
        elif x < .54: ops.append(("move", v(), v()))
        elif x < .62: ops.append(("drop", v()))
        elif x < .64: ops.append(("putnil", v(), idx()))
        elif x < .76: ops.append(r.choice(gcs))
        elif x < .82: ops.append(("dump",))
        elif mix == "gc":
            ops.append(r.choice([("same", v(), v()), ("size", v()), ("copy", v(), v()), ("tenure", v()), ("fix", v()), ("become", v(), v()), ("ro", v(), r.randint(0, 1)),
                                 ("fixed", v()), ("hash", v(), r.randint(1, 4)), ("samehash", v(), r.randint(1, 4)), ("neweph", v(), v(), v(), r.randint(1, 99))]))
        elif mix == "weak":
            ser[0] += 1
            ops.append(r.choice([("wdump", v())] * 4 + [("wget", v(), r.randint(1, 3), v())] * 2 + [("neweph", v(), v(), v(), ser[0] % 900)] * 3 + [
                ("eget", v(), r.randint(1, 3), v()), ("puteph", v(), v(), r.randint(1, 2)), ("register", v()), ("register", v()), ("register", v()), ("unregister", v()),
                ("become", v(), v()), ("tenure", v()), ("fix", v()), ("class", v())]))
        else:
            ops.append(r.choice([("become", v(), v())] * 4 + [("forward", v(), v())] * 2 + [("class", v()), ("ro", v(), 1), ("ro", v(), 0), ("same", v(), v()), ("same", v(), v()),
                ("hash", v(), r.randint(1, 4)), ("hash", v(), r.randint(1, 4)), ("samehash", v(), r.randint(1, 4)), ("samehash", v(), r.randint(1, 4)), ("copy", v(), v()), ("size", v()), ("tenure", v()), ("wdump", v())]))
    return ops + [("dump",), ("fullgc",), ("dump",)]


def histories(r, mix, count, steps=45):
    return [(i, [mix], history(r, mix, steps)) for i in range(count)]


def conform(c, mix, count):
    return c.conform("heap/TraceHeap", ["common.st", "heap.st"], "VHeap", histories(c.rng, mix, count), cfg=CFG, timeout=120)


def model(c):
    """The laws of the specification, on every history of 4 (thorough: 5) operations over two variables."""
    c.model_check("heap/MCHeap", "SPECIFICATION Spec\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANTS NR = 2\n Depth = %d\n" % (5 if c.thorough else 4), timeout=1500)
