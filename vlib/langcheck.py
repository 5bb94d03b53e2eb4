"""Generates programs, runs them, and judges what they did by specs/lang/Lang.tla."""
import os, sys, re
import langgen

MIXES = {
    "C17": dict(wide=.12, long=.04, call=1, exc=.25, ret=.06, loop=3, prot=.5),
    "C08": dict(call=1, exc=.2, ret=.3, loop=1.5, prot=1.5),
    "C07": dict(call=1, exc=2, ret=.12, loop=.7, prot=1.5),
}


def programs(c, count, mixes, first=0):
    """[(history, program)]: the text is in files under the check's directory."""
    d = os.path.join(c.work, "progs")
    os.makedirs(d, exist_ok=True)
    hs, progs = [], {}
    for i in range(first, first + count):
        p, g = langgen.program(c.rng, c.rng.choice(mixes))
        syntax = i % 3
        a, b = langgen.chunks(g, p, c.rng, syntax)
        path = os.path.join(d, "p%d.%s" % (i, "st" if syntax else "txt"))
        with open(path, "w") as f:
            f.write(b if syntax else a)
        progs[i] = p
        hs.append((i, [], [("run", path, syntax, p["start"])]))
    return hs, progs


def tla(x):
    """X as TLC's ToString prints it."""
    if isinstance(x, list): return "<<" + ", ".join(tla(y) for y in x) + ">>"
    return '"%s"' % x if isinstance(x, str) else str(x)


def check(c, count, mixes, exhaustive=(), name="programs"):
    """COUNT random programs, and those whose body is in EXHAUSTIVE (terms of the small grammar)."""
    hs, progs = programs(c, count, mixes)
    d = os.path.join(c.work, "progs")
    for x in exhaustive:
        i = len(hs)
        p = small_program(x)
        syntax = i % 2
        a, b = langgen.chunks(SmallGen, p, c.rng, syntax)
        path = os.path.join(d, "p%d.%s" % (i, "st" if syntax else "txt"))
        with open(path, "w") as f:
            f.write(b if syntax else a)
        progs[i] = p
        hs.append((i, [], [("run", path, syntax, "VA")]))
    src = {h[0]: open(h[2][0][1]).read() for h in hs}

    def deco(t):
        t["cfg"] = progs[t["id"]]
        e = t["ev"][0]
        e["r"] = [tla(x) for x in e["r"]]
        e["a"] = [e["r"], e["c"]]

    nv = len(c.violations)
    c.conform("lang/TraceLang", ["common.st", "lang.st"], "VLang", hs, decorate=deco, name=name)
    for i in range(nv, len(c.violations)):
        k, desc, payload = c.violations[i]
        payload["source"] = src[payload["history"][0]]
        c.violations[i] = (payload["source"], desc, payload)


LAWS = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = %d\nINVARIANTS EnsureOnce CurtailedOnce AtMostOnce InnermostFirst Ends\n"


def laws(c):
    """The laws of the specification itself, for every program of the small grammar."""
    c.model_check("lang/MCLang", LAWS % (3 if c.thorough else 2), name="laws of unwinding and handling")


# ---- the small grammar of specs/lang/MCLang.tla -------------------------------------
def small(depth):
    """Every program of MCLang's grammar (the body of VA>>body)."""
    from langgen import I, blk, send, log, ret, var
    sig = lambda c: send(["cls", c], "signal")
    e = var("e")
    leaves = [I(7), ret(I(8)), sig("VE"), sig("VW")]
    hands = [[I(5)], [send(e, "return:", I(6))], [send(e, "resume:", I(4))], [send(e, "pass")], [ret(I(9))], [sig("VE")]]
    b0 = lambda *x: blk([], [], list(x))
    s = leaves
    for d in range(1, depth + 1):
        n = list(s)
        n += [send(b0(log(I(d)), x), "ensure:", b0(log(I(10 + d)), I(0))) for x in s]
        n += [send(b0(log(I(d)), x), "ensure:", b0(log(I(10 + d)), y)) for x in leaves for y in leaves]
        n += [send(b0(log(I(d)), x, log(I(40 + d))), "ifCurtailed:", b0(log(I(20 + d)))) for x in s if x[0] != "ret"]
        n += [send(b0(log(I(d)), x, log(I(40 + d))), "on:do:", ["cls", c], blk(["e"], [], [log(I(30 + d))] + h))
              for x in s if x[0] != "ret" for c in ("VE", "VW") for h in hands]
        n += [send(["self"], "run:", b0(x)) for x in s]
        s = n
    return [x for x in s if x[0] != "ret"]


class SmallGen:
    """What langgen.chunks wants to know of a generator."""
    classes = [("VA", "Object", []), ("VE", "Error", []), ("VW", "Warning", [])]
    ivn = {"VA": [], "VE": [], "VW": []}
    cvnames = []


def small_program(x):
    from langgen import I, send, log, ret, var
    m = {"VA>>main": dict(par=[], tmp=[], body=[log(send(["self"], "body")), ret(I(100))]),
         "VA>>body": dict(par=[], tmp=[], body=[x, log(I(99)), ret(I(98))]),
         "VA>>run:": dict(par=["b"], tmp=[], body=[send(send(var("b"), "value"), "yourself"), ret(I(97))])}
    return dict(sup=dict(VA="Object", VE="Error", VW="Warning"), nivars=dict(VA=0, VE=0, VW=0), meth=m, cvnames=[], start="VA")
