"""Random sets of green-thread programs for the scheduler specification."""
import random


class Prog:
    """One process's program; numbers its instructions."""
    def __init__(self):
        self.k = 0

    def next(self):
        self.k += 1
        return self.k


class Gen:
    def __init__(self, rng, prof):
        self.r, self.p = rng, prof

    def history(self, hid):
        r, P = self.r, self.p
        np_ = r.randint(*P.get("np", (2, 4)))
        nm = r.randint(*P.get("mutex", (0, 1)))
        nf = r.randint(*P.get("sems", (1, 2)))
        ns = nm + nf
        self.np, self.ns = np_, ns
        self.mutex = list(range(1, nm + 1))
        self.locks = [m for m in self.mutex if r.random() < P.get("reclock", .4)]
        self.free = list(range(nm + 1, ns + 1))
        self.sems = [1] * nm + [r.choice([0, 0, 0, 1, 2]) for _ in range(nf)]
        self.prilist = P.get("prios", [4, 4, 5, 5, 6])
        mainprio = r.choice(P.get("mainprio", [5]))
        prios = [r.choice(self.prilist) for _ in range(np_)]
        started = [1 if r.random() < .7 else 0 for _ in range(np_)]
        progs = []
        for p in range(0, np_ + 1):
            self.pid = p
            self.pr = Prog()
            self.forks = [q for q in range(1, np_ + 1) if not started[q - 1]]
            n = r.randint(*P["mainlen"]) if p == 0 else r.randint(*P["len"])
            body = []
            if p == 0:
                order = [q for q in range(1, np_ + 1)]
                r.shuffle(order)
                for q in order:
                    if started[q - 1]:
                        body.append(("resume", self.pr.next(), q, 0))
                    elif r.random() < .85:
                        body.append(("fork", self.pr.next(), q, r.choice(self.prilist)))
                    if r.random() < .3:
                        body += self.block(1, 0, None, False)
            body += self.block(n, 0, None, False)
            progs.append(body)
        cfg = dict(np=np_, ns=ns, sems=self.sems, progs=progs, prios=prios, started=started,
                   mainprio=mainprio, mutex=self.mutex)
        lines = [("sems", *self.sems)]
        if self.locks:
            lines.append(("locks", *self.locks))
        for p in range(np_ + 1):
            lines.append(("proc", p, mainprio if p == 0 else prios[p - 1], 1 if p == 0 else started[p - 1]))
            emit(progs[p], lines)
        return (hid, [np_, ns, mainprio], lines), cfg

    def block(self, n, depth, scope, catch):
        out = []
        for _ in range(n):
            if self.r.random() < self.p.get("left", 0) and depth < 2:
                out.append(self.leave(depth))
            else:
                out.append(self.instr(depth, scope, catch))
        return out

    def leave(self, depth):
        """A guarded or protected block that is left by an exception or a return."""
        r = self.r
        out = r.choice(["catch", "scope"])
        k = self.pr.next()
        g = r.choice([x for x in ("crit", "lock", "lock", "ens", "curt")
                      if not (x == "lock" and not self.locks) and not (x == "crit" and len(self.locks) == len(self.mutex))])
        kg = self.pr.next()
        body = [self.instr(9, None, False) for _ in range(r.choice([0, 0, 1]))]
        body.append(("raise" if out == "catch" else "exit", self.pr.next(), 0 if out == "catch" else k, 0))
        if g in ("crit", "lock"):
            s = r.choice(self.locks if g == "lock" else [m for m in self.mutex if m not in self.locks])
            i = (g, kg, s, body)
        elif g == "ens":
            i = (g, kg, body, [])
        else:
            i = (g, kg, body)
        return (out, k, [i])

    def instr(self, depth, scope, catch):
        r, W = self.r, self.p["w"]
        main = self.pid == 0
        names = list(W)
        while True:
            o = r.choices(names, [W[x] for x in names])[0]
            if o in BLOCKS:
                if depth >= self.p.get("depth", 3):
                    continue
                if o == "crit" and not [m for m in self.mutex if m not in self.locks]:
                    continue
                if o == "lock" and not self.locks:
                    continue
            if o == "raise" and not catch or o == "exit" and scope is None:
                continue
            if main and o in ("wait", "wasig", "crit", "lock") and r.random() < .6:
                continue
            if o == "fork" and not self.forks:
                continue
            if o in ("sig", "asig", "wait", "notify", "notifyAll", "wasig", "semlock", "would") and not self.free:
                continue
            break
        k = self.pr.next()
        if o in BLOCKS:
            if o == "crit":
                s = r.choice([m for m in self.mutex if m not in self.locks])
            elif o == "lock":
                s = r.choice(self.locks)
            else:
                s = 0
            body = self.block(r.randint(0, 3), depth + 1, k if o == "scope" else scope, catch or o == "catch")
            if o in ("crit", "lock"):
                return (o, k, s, body)
            if o == "ens":
                cl = [("sigq", self.pr.next(), r.choice(self.free)) for _ in range(r.choice([0, 0, 1, 1, 2]) if self.free else 0)]
                return (o, k, body, cl)
            return (o, k, body)
        if o in ("sig", "asig", "wait", "notify", "notifyAll", "semlock", "would"):
            return (o, k, r.choice(self.free), 0)
        if o == "wasig":
            return (o, k, r.choice(self.free), r.choice(self.free))
        if o in ("yield", "raise"):
            return (o, k, 0, 0)
        if o == "exit":
            return (o, k, scope, 0)
        if o == "prio":
            return (o, k, r.choice([0] + list(range(1, self.np + 1))), r.choice(self.prilist))
        if o == "fork":
            return (o, k, r.choice(self.forks), r.choice(self.prilist))
        if o in ("suspend", "term"):
            return (o, k, r.choice([0] + list(range(1, self.np + 1)) * 3), 0)
        if o == "resume":
            return (o, k, r.choice([0] + list(range(1, self.np + 1)) * 3), 0)
        return (o, k, r.randint(0, self.np), 0)


BLOCKS = ("crit", "lock", "ens", "curt", "catch", "scope")


def emit(body, lines):
    for i in body:
        o = i[0]
        if o in BLOCKS:
            b = i[3] if o in ("crit", "lock") else i[2]
            lines.append(("begin", o, i[1], i[2] if o in ("crit", "lock") else 0))
            emit(b, lines)
            if o == "ens" and i[3]:
                lines.append(("cleanup",))
                emit(i[3], lines)
            lines.append(("end",))
        else:
            lines.append(("op", *i))


BASE = dict(sig=6, wait=6, notify=2, notifyAll=1, wasig=1.5, semlock=.5, would=1, status=2, fork=1.5)
BASE["yield"] = 4
CTL = dict(resume=2, suspend=2, prio=3)
UNW = dict(ens=3, curt=2, catch=2, scope=2, exit=2)
UNW["raise"] = 2

PROFILES = {
    "C01": dict(w={**BASE, **CTL, "yield": 5}, np=(2, 5), len=(3, 8), mainlen=(2, 8), mutex=(0, 1)),
    "C02": dict(w={**BASE, "sig": 8, "asig": 4, "wait": 10, "wasig": 4, "notify": 4, "notifyAll": 3, "suspend": .7, "resume": .7, "term": .6, "prio": 1},
                np=(2, 5), len=(3, 9), mainlen=(3, 10), sems=(1, 3), mutex=(0, 0)),
    "C03": dict(w={**BASE, **UNW, "crit": 12, "lock": 10, "suspend": 1, "resume": 1.5, "term": 2, "prio": 1.5},
                np=(2, 5), len=(2, 6), mainlen=(2, 7), mutex=(1, 2), sems=(1, 1), left=.2, reclock=.6),
    "C04": dict(w={**BASE, **UNW, "ens": 7, "curt": 4, "crit": 3, "lock": 2, "term": 5, "suspend": 1, "resume": 1, "prio": 1},
                np=(2, 4), len=(2, 5), mainlen=(3, 8), mutex=(0, 2), sems=(1, 2), left=.1),
}


def histories(rng, prof, count):
    g = Gen(rng, PROFILES[prof])
    hs, cfgs = [], {}
    for i in range(count):
        h, cfg = g.history(i)
        hs.append(h)
        cfgs[i] = cfg
    return hs, cfgs
