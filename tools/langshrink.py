"""langshrink.py SEED MIX K [N]: regenerates program K of langcheck's programs and shrinks it while the
specification (or the virtual machine) still rejects it.  Debugging aid."""
import tempfile
from concurrent.futures import ThreadPoolExecutor
pool = ThreadPoolExecutor(8)
import sys, os, copy, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
seed, mix, K = int(sys.argv[1]), sys.argv[2], int(sys.argv[3])
sys.argv = ["x"]
import core, langgen, langcheck
KINDS = {"lit", "larr", "self", "var", "ivar", "cvar", "cls", "asg", "blk", "brace", "send", "ssend", "casc", "ret"}
isn = lambda x: isinstance(x, list) and x and isinstance(x[0], str) and x[0] in KINDS


def nodes(n, path=()):
    if isinstance(n, list):
        yield path, n
        if n and n[0] in ("larr", "lit"): return
        for i, x in enumerate(n): yield from nodes(x, path + (i,))


def getp(n, p):
    for i in p: n = n[i]
    return n


def setp(n, p, v):
    if not p: return v
    n = copy.deepcopy(n)
    getp(n, p[:-1])[p[-1]] = v
    return n


def cands(body):
    for p, n in list(nodes(body)):
        if isn(n):
            if n[0] in ("send", "casc", "asg", "ssend", "brace", "ret"):
                yield setp(body, p, ["lit", ["nil"]])
                yield setp(body, p, ["lit", ["i", 1]])
                subs = [x for x in n if isn(x)] + [y for x in n if isinstance(x, list) and not isn(x) for y in x if isn(y)]
                top = len(p) > 0 and not isn(getp(body, p[:-1])) and (len(p) == 1 or getp(body, p[:-2])[0] == "blk")
                subs = [s for s in subs if s[0] != "ret" or n[0] == "ret" or top]
                for s in subs:
                    yield setp(body, p, s)
                    if s[0] == "blk" and len(s[3]) == 1 and (top or s[3][0][0] != "ret"): yield setp(body, p, s[3][0])
        elif n and all(isn(x) for x in n) and (p == () or (isn(getp(body, p[:-1])) and getp(body, p[:-1])[0] in ("blk", "brace"))):
            for i in range(len(n)): yield setp(body, p, n[:i] + n[i + 1:])
            if len(n) > 3:
                yield setp(body, p, n[len(n) // 2:])
                yield setp(body, p, n[:len(n) // 2])


c = core.Check("C17")
c.rng.seed(seed)
for i in range(K + 1):
    p, g = langgen.program(c.rng, c.rng.choice([langcheck.MIXES[mix]]))
    langgen.chunks(g, p, c.rng, i % 3)


class Plain(langgen.Text):
    def __init__(s, r, iv, quirks=False, bang=False):
        super().__init__(random.Random(1), iv, os.environ.get("QUIRKS") == "1", bang)


langgen.Text = Plain
d = os.path.join(c.work, "s")
os.makedirs(d)


def run(ps, show=False):
    """Which of the programs PS are rejected."""
    hs = []
    for i, q in enumerate(ps):
        a, b = langgen.chunks(g, q, random.Random(1), 0)
        f = tempfile.mktemp(suffix=".txt", dir=d)
        open(f, "w").write(a)
        hs.append((i, [], [("run", f, 0, q["start"])]))
    ts, dead = c.record(["common.st", "lang.st"], "VLang", hs, 30)
    for t in ts:
        t["cfg"] = ps[t["id"]]
        e = t["ev"][0]
        e["r"] = [langcheck.tla(x) for x in e["r"]]
        e["a"] = [e["r"], e["c"]]
    ok = set()
    bad = {h[0] for h, _ in dead}
    try:
        rej = c.validate("lang/TraceLang", ts)
    except core.CheckError:
        if len(ps) == 1: return set()
        k = len(ps) // 2
        return run(ps[:k]) | {k + i for i in run(ps[k:])}
    if show:
        for h, how in dead: print("DEAD", how[-800:])
        for t, i, al in rej: print("got ", t["ev"][0]["r"], t["ev"][0]["c"], "\nwant", al.replace('\\"', '"').replace('\\"', '"'))
    if os.environ.get("DEADONLY"): return bad
    return bad | {t["id"] for t, _, _ in rej}


def size(q): return len(json.dumps(q["meth"]))


if not run([p], True): print("not rejected"); os._exit(1)
while True:
    cs = []
    for k in p["meth"]:
        if not k.endswith(">>main"):
            q = copy.deepcopy(p); del q["meth"][k]; cs.append(q)
        for b in cands(p["meth"][k]["body"]):
            q = copy.deepcopy(p); q["meth"][k]["body"] = b; cs.append(q)
    cs = sorted((q for q in cs if size(q) < size(p)), key=size)
    hit = False
    for i in range(0, len(cs), 400):
        part = cs[i:i + 400]
        rs = list(pool.map(lambda j: {j + k for k in run(part[j:j + 50])}, range(0, len(part), 50)))
        r = set().union(*rs)
        if r:
            p = part[min(r)]
            hit = True
            break
    print(size(p), flush=True)
    if not hit: break
print(langgen.chunks(g, p, random.Random(1), 0)[0])
run([p], True)
import shutil
shutil.rmtree(c.work)
os._exit(0)
