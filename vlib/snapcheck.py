"""Histories that save images and restart from them (specs/image)."""
import json, os, subprocess, tempfile
import core


def shim(c, name):
    so = os.path.join(c.work, name + ".so")
    if not os.path.exists(so):
        tmp = tempfile.mktemp(dir=c.work)
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", tmp, os.path.join(core.VERIF, "vlib", "shim", name + ".c"), "-ldl"], check=True)
        os.rename(tmp, so)
    return so


def one(c, drivers, cls, h, gstkw=None, timeout=60):
    """h: (id, cfg, ops, branches): ops contain ("snap", k); branches: [(k, ops)].  The recorded
    history is the run itself and then every restart, in order."""
    hid, cfg, ops, branches = h
    base = tempfile.mktemp(prefix="snap%d-" % hid, dir=c.work)
    inp, outp = base + ".in", base + ".out"
    core.write_histories(inp, [(hid, cfg, ops)])
    made = []
    try:
        r = c.gst(list(drivers) + ["Eval [ (%s new runFile: '%s' to: '%s') == #ended ifTrue: [ 'DRIVER-DONE' displayNl ] ]\n" % (cls, inp, outp)], timeout=timeout)
        line = open(outp, encoding="latin-1").read() if os.path.exists(outp) else ""
        if not line.endswith("]}\n") or "DRIVER-DONE" not in r.out:
            return None, "the program that saves died: %s %s\n%s" % (r.rc, line[-600:], r.out[-1500:])
        t = json.loads(line)
        where = {o[1]: outp + ".%d.im" % o[1] for o in ops if o[0] == "snap"}
        made += where.values()
        for n, (k, bops) in enumerate(branches):
            bi, bo = base + ".b%d.in" % n, base + ".b%d.out" % n
            with open(bi, "w") as f:
                for op in bops:
                    f.write(" ".join(str(x) for x in op) + "\n")
            if k not in where or not os.path.exists(where[k]):
                return None, "no image %d was saved" % k
            r = c.gst(["Eval [ ((Smalltalk at: #VSnap) resume: %d from: '%s' to: '%s') == #ended ifTrue: [ 'DRIVER-DONE' displayNl ] ]\n" % (k, bi, bo)],
                      image=where[k], timeout=timeout,
                      env={"LD_PRELOAD": shim(c, "moved")} if (hid + n) % 2 else None)   # every other restart finds its address space taken
            line = open(bo, encoding="latin-1").read() if os.path.exists(bo) else ""
            if not line.endswith("]\n") or "DRIVER-DONE" not in r.out:
                return None, "the program restarted from image %d died: %s %s\n%s" % (k, r.rc, line[-600:], r.out[-1500:])
            t["ev"] += json.loads(line)
            new = {o[1]: bo + ".%d.im" % o[1] for o in bops if o[0] == "snap"}
            where.update(new)
            made += new.values()
        return t, None
    finally:
        for f in [inp, outp] + list(made):
            if os.path.exists(f):
                os.unlink(f)


def cut(r, ops, tail, snaps):
    """Insert saves in OPS and make branches: restarts, some of which save again."""
    ops = list(ops)
    ks = list(range(1, snaps + 1))
    for k in ks:
        ops.insert(r.randint(len(ops) // 3, len(ops)), ("snap", 0))
    n = 0
    for i, o in enumerate(ops):
        if o[0] == "snap":
            n += 1
            ops[i] = ("snap", n)
    branches = []
    for k in r.sample(ks, len(ks)):
        branches.append((k, tail()))
    if r.random() < .6:
        b = branches[0][1]
        b.insert(r.randint(0, len(b)), ("snap", 90))
        branches.append((90, tail()))
    if r.random() < .3:
        branches.append((branches[0][0], tail()))
    return ops, branches


def conform(c, spec, drivers, cls, hs, cfg=None, name="h"):
    kw = {"cfg": cfg} if cfg else {}
    res = list(c.pool.map(lambda h: one(c, drivers, cls, h), hs))
    byid = {h[0]: h for h in hs}
    traces = [t for t, e in res if t]
    key = lambda h: "%s || %s" % (core.hist_key(h), " || ".join("%d: %s" % (k, "; ".join(" ".join(map(str, o)) for o in b)) for k, b in h[3]))
    n = 0
    for h, (t, e) in zip(hs, res):
        if t is None:
            t2, e2 = one(c, drivers, cls, h)
            if e2 and n < 6:
                n += 1
                c.violation("dead " + key(h), e2[:3000], {"history": h, "cls": cls, "spec": spec})
    rej = c.validate(spec, traces, **kw)
    c.log("%s: %d histories, %d events, %d restarts, %d rejected, %d dead" % (name, len(traces), sum(len(t["ev"]) for t in traces), sum(len(h[3]) for h in hs), len(rej), len(hs) - len(traces)))
    c.cov["restarts"] = c.cov.get("restarts", 0) + sum(len(h[3]) for h in hs)
    if traces:
        c.sample({"cfg": traces[0]["cfg"], "ev": [e for e in traces[0]["ev"] if e["op"] in ("snap", "resume")][:6]})
    for t, i, allowed in rej[:8]:
        h = byid[t["id"]]
        t2, e2 = one(c, drivers, cls, h)
        if e2:
            c.violation("dead " + key(h), e2[:3000], {"history": h, "cls": cls, "spec": spec})
            continue
        r2 = c.validate(spec, [t2], **kw)
        if r2:
            tt, ii, al = r2[0]
            c.violation(key(h), "event %d: observed %s; the specification allows only %s" % (ii, json.dumps(tt["ev"][ii]), al), {"history": h, "cls": cls, "spec": spec})
        else:
            c.log("a rejection was not repeated: history", h[0], "event", i, t["ev"][i], allowed)
