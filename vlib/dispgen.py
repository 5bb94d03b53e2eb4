"""Histories for the dispatch specification (specs/dispatch)."""
CFG = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n"
ARITY = {1: 0, 2: 1, 3: 2, 4: 1, 5: 1, 6: 0, 7: 0, 8: 2}


def history(r, steps, reshape=None):
    if reshape is None: reshape = r.random() < .35
    ops, val = [], [0]
    c = lambda: r.choice([1, 1, 2, 2, 3, 4, 5, 6])
    i = lambda: r.choice([1, 2, 2, 3, 4, 5, 6])
    # a few selectors, so that the same places see different methods
    sels = r.sample(range(1, 9), 3)
    sel = lambda: r.choice(sels)
    sites = r.sample(range(1, 9), 2)

    def side(s):
        return 1 if s <= 4 and r.random() < .2 else 0

    def define(ck=None, s=None, sd=None):
        s = s or sel()
        val[0] += 1
        ops.append(("def", ck or c(), side(s) if sd is None else sd, s, r.choice([1, 1, 1, 2, 3]), 100 + val[0]))

    def args(s):
        if s == 5: return [r.choice([1, 2, 3, 3, 4, 0, -1])]
        if s == 8: return [r.choice([1, 2, 3, 4, 0]), r.randint(1, 9)]
        return [r.randint(1, 9) for _ in range(ARITY[s])]

    def send():
        s = sel()
        if s <= 4 and r.random() < .2:
            ops.append(("csend", r.choice(sites), c(), s, *args(s)))
        else:
            ops.append(("send", r.choice(sites), i(), s, *args(s)))

    for _ in range(4): define()
    while len(ops) < steps:
        x = r.random()
        if x < .50: send()
        elif x < .62: define()
        elif x < .70:
            s = sel(); ops.append(("rem", c(), side(s), s))
        elif x < .74: ops.append(("redef", r.randint(1, 6), r.randint(0, 6)) if reshape else (r.choice(["super", "redef"]), r.randint(1, 6), r.randint(0, 6)))
        elif x < .78: ops.append(("newi", r.randint(1, 6), r.randint(1, 6)))
        elif x < .82: ops.append(("addvar", r.randint(1, 6), len(ops)) if reshape else ("cc", r.randint(1, 6), r.randint(1, 6)))
        elif x < .86: ops.append(r.choice([("gc",), ("scavenge",), ("flood",), ("compileall", r.randint(1, 6))]))
        else:
            s = sel()
            ops.append(r.choice([("responds", i(), s), ("which", c(), side(s), s), ("includes", c(), side(s), s), ("inherits", r.randint(1, 6), r.randint(0, 6))]))
    return ops


def histories(r, count, steps=60):
    return [(i, [1], history(r, steps)) for i in range(count)]


def conform(c, count):
    return c.conform("dispatch/TraceDispatch", ["common.st", "dispatch.st"], "VDispatch", histories(c.rng, count), cfg=CFG, timeout=120)


def model(c):
    c.model_check("dispatch/MCDispatch", "SPECIFICATION Spec\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = %d\n" % (4 if c.thorough else 3), timeout=1500)
