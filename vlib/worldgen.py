"""Histories for specs/image/World."""


def history(r, steps):
    ops = []
    sleepy = [r.random() < .4]

    def spawn():
        k = r.choice([1, 1, 2, 3] + ([4] if sleepy[0] else []))
        n = r.randint(1, 5)
        ops.append(("spawn", n, 3 if n == 1 else 5, 3 if n == 1 else r.randint(1, 2), r.choice([1, 3]) if n == 1 else k))

    ops.append(("pw", r.randint(0, 1)))
    for _ in range(2): spawn()
    while len(ops) < steps:
        x = r.random()
        if x < .14: spawn()
        elif x < .30: ops.append(("sig", r.randint(1, 3), r.choice([1, 1, 2])))
        elif x < .37: ops.append(("idle",))
        elif x < .45: ops.append(("log",))
        elif x < .50: ops.append(("term", r.randint(1, 5)))
        elif x < .53: ops.append(("sleep",) if sleepy[0] and r.random() < .5 else ("events",))
        elif x < .62: ops.append(r.choice([("glob", r.randint(1, 3), r.randint(1, 99)), ("cvar", r.randint(1, 4), r.randint(1, 99)), ("sym", r.randint(1, 6)), ("obj", r.randint(1, 20)), ("obj", r.randint(1, 20))]))
        elif x < .78: ops.append(r.choice([("getglob", r.randint(1, 3)), ("getcvar", r.randint(1, 4)), ("symsame", r.randint(1, 6)), ("objok", r.randint(1, 20)), ("objok", r.randint(1, 20))]))
        elif x < .86: ops.append(("next", r.randint(1, 3)))
        elif x < .98: ops.append(r.choice([("adddep", r.randint(1, 2), r.randint(1, 3))] * 2 + [("remdep", r.randint(1, 2), r.randint(1, 3)), ("changed", r.randint(1, 2)), ("changed", r.randint(1, 2))]))
        elif x < .99: ops.append(r.choice([("pw", r.randint(0, 1)), ("pcheck",)]))
        else: ops.append(("ccall",))
    return ops
