"""The checks of the green threads: C01 to C04 are one specification, driven
with different mixes of operations."""
import itertools
import schedgen

CFG = "SPECIFICATION TraceSpec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
ALPHA = {
    "C01": [("yield", 0, 0), ("wait", 1, 0), ("sig", 1, 0), ("notify", 1, 0), ("suspend", 2, 0), ("resume", 2, 0),
            ("prio", 1, 6), ("prio", 2, 4), ("fork", 3, 4), ("fork", 3, 5)],
    "C02": [("wait", 1, 0), ("sig", 1, 0), ("asig", 1, 0), ("wait", 2, 0), ("notifyAll", 1, 0), ("notify", 1, 0), ("wasig", 1, 2),
            ("wasig", 2, 1), ("wasig", 1, 1), ("semlock", 1, 0), ("resume", 1, 0)],
    "C03": [("lock", 1), ("crit", 2), ("yield", 0, 0), ("term", 1, 0), ("suspend", 1, 0), ("resume", 2, 0), ("sig", 3, 0), ("wait", 3, 0)],
    "C04": [("ens", 0), ("curt", 0), ("yield", 0, 0), ("term", 1, 0), ("term", 2, 0), ("wait", 3, 0), ("sig", 3, 0), ("crit", 1)],
}


def prog(w, n):
    if not w:
        return []
    i = w[0]
    if i[0] in ("lock", "crit"):
        return [(i[0], n, i[1], prog(w[1:], n + 1))]
    if i[0] == "ens":
        return [("ens", n, prog(w[1:], n + 1), [("sigq", n + 50, 3)])]
    if i[0] == "curt":
        return [("curt", n, prog(w[1:], n + 1))]
    return [(i[0], n, i[1], i[2])] + prog(w[1:], n + 1)


def words(al, n):
    for m in range(n + 1):
        yield from itertools.product(al, repeat=m)


def family(pid, l0, l1, l2, prios):
    """The same family of programs as MCSched's Init."""
    al = ALPHA[pid]
    for w0 in words(al, l0):
        for w1 in words(al, l1):
            for w2 in words(al, l2):
                for p1 in prios:
                    for p2 in prios:
                        yield w0, w1, w2, p1, p2


def instance(pid, hid, x):
    w0, w1, w2, p1, p2 = x
    sems = {"C03": [1, 1, 0], "C04": [1, 0, 0]}.get(pid, [0, 0, 0])
    mutex = {"C03": [1, 2], "C04": [1]}.get(pid, [])
    progs = [[("resume", 1, 1, 0), ("resume", 2, 2, 0)] + prog(w0, 3), prog(w1, 1), prog(w2, 1), [("sig", 1, 1, 0)]]
    cfg = dict(np=3, ns=3, sems=sems, progs=progs, prios=[p1, p2, 4], started=[1, 1, 0], mainprio=5, mutex=mutex)
    lines = [("sems", *sems)]
    if pid == "C03":
        lines.append(("locks", 1))
    for p in range(4):
        lines.append(("proc", p, 5 if p == 0 else cfg["prios"][p - 1], 1 if p == 0 else cfg["started"][p - 1]))
        schedgen.emit(progs[p], lines)
    return (hid, [3, 3, 5], lines), cfg


def run(c):
    lens, prios = ((1, 2, 1), (4, 5, 6)) if c.thorough else ((1, 1, 1), (4, 5, 6))
    # The design: every run of the family satisfies the invariants.
    c.model_check("sched/MCSched", "SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Family = \"%s\"\n"
                  " L0 = %d\n L1 = %d\n L2 = %d\n Prios = {%s}\n" % ((c.pid,) + lens + (", ".join(map(str, prios)),)),
                  name="MCSched " + c.pid, timeout=3000)
    hs, cfgs = schedgen.histories(c.rng, c.pid, int(900 * c.scale))
    # The same family, in the virtual machine: all of it, or a sample.
    fam = list(family(c.pid, *lens, prios))
    if not c.thorough:
        fam = c.rng.sample(fam, min(len(fam), 500))
    elif len(fam) > 20000:
        fam = c.rng.sample(fam, 20000)
    for x in fam:
        h, cfg = instance(c.pid, len(hs), x)
        hs.append(h)
        cfgs[h[0]] = cfg
    c.cov["family_instances_replayed"] = len(fam)

    def decorate(t):
        t["cfg"] = cfgs[t["id"]]
    c.conform("sched/TraceSched", ["common.st", "sched.st"], "VSched", hs, cfg=CFG, whole=True, decorate=decorate, name=c.pid, timeout=120)
