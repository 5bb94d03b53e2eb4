"""C13: saving is all or nothing; recorded file operations and restarts judged by specs/save."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import core, snapcheck

CFG = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n"


def scenario(r, ops):
    """Sessions: (the image it starts from, its commands, its fault); ops: what one save does to the files."""
    ss, v, have = [], 0, {1, 2}

    def fault(saves):
        x = r.random()
        if x < .3: return None
        n = max(ops, 4)
        k = r.choice([1, 2, 3, n - 2, n - 1, n, n, n, r.randint(1, n), r.randint(1, n)]) + (ops * r.randint(0, saves - 1))
        return "%d %s" % (max(1, k), r.choice(["kill", "kill", "part", "enospc", "enospc", "eio", "eio", "short"]))

    for s in range(r.randint(3, 6)):
        base = 0 if s == 0 else r.choice([1, 1, 1, 2, 0])
        cmds = []
        for _ in range(r.choice([1, 1, 2, 3])):
            v += 1
            cmds.append(("set", v))
            cmds.append(("save", r.choice([1, 1, 2])) if base == 0 or r.random() < .7 else ("self", base))
            if r.random() < .3: cmds.append(("get",))
        if r.random() < .3:
            v += 1
            cmds.insert(r.randrange(len(cmds)), ("set", v))
        saves = sum(c[0] in ("save", "self") for c in cmds)
        ss.append((base, cmds, fault(saves) if s else r.choice([None, fault(saves)])))
    return ss + [(1, [("get",)], None), (2, [("get",)], None)]


def play(c, hid, ss):
    """Run the sessions; answer the history, or why there is none."""
    d = os.path.realpath(tempfile.mkdtemp(prefix="save%d-" % hid, dir=c.work))
    os.mkdir(d + "/img")
    log = d + "/log"
    path = {1: d + "/img/one.im", 2: d + "/img/two.im"}
    ev, ids, inos, nxt = [], {"one.im": 1, "two.im": 2}, {}, [0]

    def nid(n): return ids.setdefault(n, len(ids) + 1)
    try:
        for base, cmds, fault in ss:
            if base and not os.path.exists(path[base]):
                base = 0
            open(log, "w").close()
            src = "v boot: %d.\n" % base
            for x in cmds:
                src += {"set": lambda: "v set: %d.\n" % x[1], "get": lambda: "v get.\n",
                        "save": lambda: "v save: %d in: '%s'.\n" % (x[1], path[x[1]]),
                        "self": lambda: "v save: %d in: %s.\n" % (x[1], "nil" if x[1] == base else "'%s'" % path[x[1]])}[x[0]]()
            prog = (["saves.st"] if not base else []) + ["Eval [ | v | v := VSaver on: '%s'.\n%sv ended ]\n" % (log, src)]
            env = {"LD_PRELOAD": snapcheck.shim(c, "files"), "SHIM_DIR": d + "/img", "SHIM_LOG": log}
            if fault: env["SHIM_FAULT"] = fault
            r = c.gst(prog, image=path[base] if base else None, env=env, timeout=60)
            lines = [l.split() for l in open(log)]
            killed, ended, evs = False, False, []
            for l in lines:
                if l[0] == "R":
                    if l[1] == "ended":
                        ended = True
                    else:
                        evs.append({"op": l[1], "a": [] if l[1] == "get" else [int(l[2])], "r": [int(l[3])], "c": []})
                    continue
                if l[1] == "kill":
                    killed = True
                    evs.append({"op": "killed", "a": [], "r": [1], "c": []})
                elif l[1] == "open":
                    n, new, i = nid(l[2]), int(l[4]), int(l[5])
                    if i >= 0:
                        if new or i not in inos:
                            nxt[0] += 1
                            inos[i] = nxt[0]
                        i = inos[i]
                    evs.append({"op": "sys", "a": ["open", [n, int(l[3]), new], i], "r": [1], "c": []})
                elif l[1] == "write":
                    evs.append({"op": "sys", "a": ["write", [inos[int(l[2])], int(l[3]), 0], int(l[4])], "r": [1], "c": []})
                elif l[1] == "trunc":
                    evs.append({"op": "sys", "a": ["trunc", [inos[int(l[2])], int(l[3])], int(l[4])], "r": [1], "c": []})
                elif l[1] == "close":
                    evs.append({"op": "sys", "a": ["close", [inos[int(l[2])]], int(l[3])], "r": [1], "c": []})
                elif l[1] == "unlink":
                    evs.append({"op": "sys", "a": ["unlink", [nid(l[2])], int(l[3])], "r": [1], "c": []})
                else:
                    evs.append({"op": "sys", "a": [l[1], [nid(l[2]), nid(l[3])], int(l[4])], "r": [1], "c": []})
            # a write completes a file if nothing is written to it afterwards and closing it succeeds
            for j, e in enumerate(evs):
                if e["op"] == "sys" and e["a"][0] == "write":
                    f, done, end = e["a"][1][0], 1, False
                    if e["a"][2] < 0: done = 0
                    for g in evs[j + 1:]:
                        if g["op"] != "sys": continue
                        b = g["a"]
                        if b[0] in ("write", "trunc") and b[1][0] == f: done = 0
                        if b[0] == "close" and b[1][0] == f: end = True
                        if b[0] == "close" and b[1][0] == f and b[2] < 0: done = 0
                        if b[0] == "close" and b[1][0] == f: break
                    if not end: done = 0
                    if done and e["a"][2] < e["a"][1][1]: done = 2      # it was cut short, and there was nothing more
                    e["a"][1][2] = done
            if evs and evs[0]["op"] != "boot" or not evs:
                return None, "a program did not start from image %d (%s): exit %s\n%s" % (base, os.path.getsize(path[base]) if base else "-", r.rc, r.out[-1500:])
            if not killed and not ended:
                return None, "a program did not get to its end: exit %s; %s\n%s" % (r.rc, evs[-3:], r.out[-1500:])
            ev += evs
            left = [f for f in os.listdir(d + "/img") if f not in ("one.im", "two.im")]
            if killed:
                for f in left:
                    os.unlink(d + "/img/" + f)
                    if f in ids: ev.append({"op": "sys", "a": ["unlink", [ids[f]], 0], "r": [1], "c": []})
            else:
                ev.append({"op": "ended", "a": [], "r": [len(left)], "c": []})
        return {"id": hid, "cfg": [1], "ev": ev}, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def key(ss): return " || ".join("%s: %s%s" % (b, "; ".join(" ".join(map(str, x)) for x in cm), " ! " + f if f else "") for b, cm, f in ss)


def run(c):
    cfg = "SPECIFICATION Spec\nINVARIANT Safe\nPROPERTY Keep\nCHECK_DEADLOCK FALSE\nCONSTANTS Design = \"%s\"\n Sessions = %d\n"
    c.model_check("save/MCSave", cfg % ("replace", 4 if c.thorough else 3))
    for d in ("inplace", "noclose", "overwrite"):       # the laws are able to fail
        r = c.tlc("save/MCSave", cfg % (d, 3), quiet=True)
        if "is violated" not in r["out"]:
            raise core.CheckError("the laws of saving accept the design " + d)
    first = [(0, [("set", 1), ("save", 1), ("set", 2), ("save", 1)], None), (1, [("get",)], None)]
    t, e = play(c, 0, first)
    if e:
        c.violation("dead " + key(first), e, {"history": first, "cls": "VSaver", "spec": "save"})
        return
    b = [i for i, x in enumerate(t["ev"]) if x["op"] == "begin"]
    ops = sum(x["op"] == "sys" for x in t["ev"][b[0]:b[1]])
    c.cov["operations_of_a_save"] = ops
    hs = [(0, first)] + [(i + 1, scenario(c.rng, ops)) for i in range(int(300 * c.scale))]
    res = list(c.pool.map(lambda h: play(c, *h), hs))
    traces = [t for t, e in res if t]
    by = dict(hs)
    rej = c.validate("save/TraceSave", traces, cfg=CFG)
    c.log("%d scenarios, %d sessions, %d events, %d faults, %d rejected, %d dead" % (
        len(traces), sum(len(h[1]) for h in hs), sum(len(t["ev"]) for t in traces), sum(1 for h in hs for s in h[1] if s[2]), len(rej), len(hs) - len(traces)))
    c.cov["faults"] = sum(1 for h in hs for s in h[1] if s[2])
    c.sample({"cfg": [1], "ev": [x for x in traces[0]["ev"] if x["op"] != "sys" or x["a"][0] != "write"][:12]})
    for h, (t, e) in zip(hs, res):
        if e and len(c.violations) < 3:
            t2, e2 = play(c, *h)
            if e2: c.violation("dead " + key(h[1]), e2, {"history": h, "cls": "VSaver", "spec": "save"})
    for t, i, al in rej[:6]:
        t2, e2 = play(c, t["id"], by[t["id"]])
        r2 = [] if e2 else c.validate("save/TraceSave", [t2], cfg=CFG)
        if r2 or e2:
            what = e2 or "event %d: observed %s; the specification allows only %s; events before it: %s" % (
                r2[0][1], json.dumps(t2["ev"][r2[0][1]]), r2[0][2], json.dumps([[x["op"], x["a"], x["r"]] for x in t2["ev"][max(0, r2[0][1] - 5):r2[0][1]]]))
            c.violation(key(by[t["id"]]), what, {"history": [t["id"], by[t["id"]]], "cls": "VSaver", "spec": "save"})
        else:
            c.log("a rejection was not repeated", t["id"], i)


core.main(run, "C13")
