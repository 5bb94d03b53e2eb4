"""C12: saved images; histories of four specifications with saves and restarts, judged by specs/image."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import core, snapcheck, heapgen, dispgen, worldgen


def gen_of(n):
    src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py")).read()
    d = {"__file__": __file__, "__name__": n}
    exec(compile(src[:src.rindex("core.main(")], n, "exec"), d)
    return d


def make(c, what, count):
    r = c.rng
    hs = []
    if what == "heap":
        for i in range(count):
            mix = r.choice(["gc", "weak", "weak", "ident"])
            tail = lambda: [("dump",)] + [o for o in heapgen.history(r, mix, 18)]
            ops, br = snapcheck.cut(r, heapgen.history(r, mix, 28), tail, r.choice([1, 2]))
            hs.append((i, [mix], ops, br))
        return hs, "image/TraceImgHeap", ["common.st", "heap.st"], "VHeap", heapgen.CFG
    if what == "world":
        for i in range(count):
            tail = lambda: [("getglob", 1), ("events",)] + [("pcheck",)] * (r.random() < .7) + [("objok", k) for k in range(1, 21)] + [("symsame", k) for k in range(1, 7)] + worldgen.history(r, 20) + [("idle",), ("log",)] + [("sleep",)] * (r.random() < .3)
            ops, br = snapcheck.cut(r, [("obj", r.randint(1, 20)) for _ in range(5)] + [("sym", r.randint(1, 6)) for _ in range(3)] + worldgen.history(r, 35), tail, r.choice([1, 2]))
            hs.append((i, [1], ops, br))
        return hs, "image/TraceImgWorld", ["common.st", "world.st"], "VWorld", dispgen.CFG
    if what == "dispatch":
        for i in range(count):
            reshape = r.random() < .35
            whole = dispgen.history(r, 70, reshape)
            tail = lambda reshape=reshape: [o for o in dispgen.history(r, 24, reshape)]
            ops, br = snapcheck.cut(r, whole[:45], tail, r.choice([1, 2]))
            hs.append((i, [1], ops, br))
        return hs, "image/TraceImgDispatch", ["common.st", "dispatch.st"], "VDispatch", dispgen.CFG
    g = gen_of({"hashed": "c18", "seqs": "c19"}[what])
    for h in g["histories"](c, count, 40):
        k = [o for o in h[2]]
        tail = lambda: [k[r.randrange(len(k))] for _ in range(14)]
        ops, br = snapcheck.cut(r, k[:30], tail, r.choice([1, 2]))
        hs.append((h[0], h[1], ops, br))
    return hs, *{"hashed": ("image/TraceImgHashed", ["common.st", "hashed.st"], "VHashed", None),
                 "seqs": ("image/TraceImgSeqs", ["common.st", "seqs.st"], "VSeqs", None)}[what]


def run(c):
    c.model_check("image/MCImage", "SPECIFICATION Spec\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = %d\n" % (5 if c.thorough else 4), timeout=1500)
    for what, n in (("world", 120), ("heap", 120), ("dispatch", 60), ("hashed", 80), ("seqs", 40)):
        hs, spec, drivers, cls, cfg = make(c, what, int(n * c.scale))
        snapcheck.conform(c, spec, drivers, cls, hs, cfg, name=what)


core.main(run, "C12")
