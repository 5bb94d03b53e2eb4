"""What every check shares: running gst on a driver, running TLC on a
specification (exhaustively, or over recorded histories), deciding, evidence."""
import argparse, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "vlib"))
import build as _build

TLA = "/opt/veriftools/tla/"
CP = TLA + "tla2tools.jar:" + TLA + "CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The machinery failed: neither a pass nor a violation."""


class GstResult:
    def __init__(self, rc, out, timed_out):
        self.rc, self.out, self.timed_out = rc, out, timed_out

    @property
    def crashed(self):
        return self.timed_out or self.rc != 0 or "error class: " in self.out \
            or "GNU Smalltalk Aborting" in self.out or "Aborted" in self.out


class Check:
    def __init__(self, pid, level="model_checking", stars=(), modules=()):
        self.pid, self.level = pid, level
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        ap.add_argument("--scale", type=float, default=None)
        ap.add_argument("--replay", default=None)
        ap.add_argument("--keep", action="store_true")
        a, _ = ap.parse_known_args()
        self.tier, self.seed, self.args = a.tier, a.seed, a
        self.thorough = self.tier == "thorough"
        self.scale = a.scale if a.scale is not None else (12.0 if self.thorough else 1.0)
        self.rng = random.Random(self.seed * 7919 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "model_runs": [], "events_validated": 0}
        self.assumptions = []
        self.violations = []          # (key, description, payload)
        self.known = load_known(pid)
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.build = _build.ensure(stars, modules)
        self.pool = ThreadPoolExecutor(NCPU)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- the implementation -------------------------------------------------
    def gst(self, files, args=(), timeout=60, cwd=None, image=None, env=None, stdin=None, extra=()):
        """Run the built gst on FILES (concatenated into one program)."""
        cwd = cwd or self.work
        fd, prog = tempfile.mkstemp(suffix=".st", dir=self.work)
        with os.fdopen(fd, "w") as f:
            for x in files:
                if "\n" in x:
                    f.write(x + "\n")
                else:
                    p = x if x.startswith("/") else os.path.join(VERIF, "drivers", x)
                    f.write(open(p, encoding="latin-1").read() + "\n")
        e = dict(_build.ENV)
        e["LD_LIBRARY_PATH"] = self.build + "/libgst/.libs"
        e["HOME"] = self.work
        e.update(env or {})
        cmd = [self.build + "/.libs/gst", "-I", image or (self.build + "/gst.im"),
               "--no-user-files", "--kernel-directory", self.build + "/kernel"] + list(extra) + ["-f", prog] + [str(x) for x in args]
        try:
            p = subprocess.run(cmd, cwd=cwd, env=e, stdin=stdin or subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            return GstResult(p.returncode, p.stdout.decode("latin-1"), False)
        except subprocess.TimeoutExpired as x:
            return GstResult(-999, (x.stdout or b"").decode("latin-1"), True)

    def record(self, drivers, cls, histories, timeout=60, name="h", gstkw=None):
        """Drive the real code through HISTORIES ([(id, cfg, [(op, args..)..])..]);
        answer the recorded traces and [(history, how it died)].  A history that
        kills or hangs the VM is isolated and the rest goes on."""
        traces, dead = [], []
        todo = list(histories)
        while todo:
            inp = tempfile.mktemp(prefix=name, suffix=".in", dir=self.work)
            outp = inp[:-3] + ".out"
            write_histories(inp, todo)
            r = self.gst(list(drivers) + ["Eval [ (%s new runFile: '%s' to: '%s') == #ended ifTrue: [ 'DRIVER-DONE' displayNl ] ]\n" % (cls, inp, outp)],
                         timeout=timeout, **(gstkw or {}))
            got = []
            tail = ""
            if os.path.exists(outp):
                for line in open(outp, encoding="latin-1"):
                    if line.endswith("]}\n"):
                        try:
                            got.append(json.loads(line))
                            continue
                        except ValueError:
                            pass
                    tail = line
            traces += got
            done = {t["id"] for t in got}
            rest = [h for h in todo if h[0] not in done]
            if not rest:
                if "DRIVER-DONE" not in r.out and r.crashed:
                    dead.append((todo[-1], "the virtual machine died after the last history: " + r.out[-600:]))
                break
            if "DRIVER-DONE" in r.out:
                raise CheckError("driver lost histories: " + tail[-500:] + "\n" + r.out[-1500:])
            if not got and not tail and not r.timed_out and r.rc >= 0 and not r.crashed:
                raise CheckError("driver did not start: " + r.out[-3000:])
            dead.append((rest[0], ("timed out" if r.timed_out else "exit status %d" % r.rc)
                         + " while performing this history; partial record: " + tail[-600:]
                         + "\noutput: " + r.out[-1200:]))
            todo = rest[1:]
            if r.timed_out:
                timeout = max(20, timeout / 3)
            if len(dead) > 6 or sum("timed out" in x[1][:9] for x in dead) >= 2 or self.late():
                break
        return traces, dead

    def late(self):
        """Whether there is already enough to report and much time has passed."""
        return time.time() - self.t0 > (20000 if self.thorough else 400)

    # ---- the specification --------------------------------------------------
    def tlc(self, spec, cfg, env=None, workers=None, timeout=600, extra=(), mem="4g", quiet=False):
        """Run TLC on specs/SPEC.tla with the configuration text CFG."""
        module = os.path.basename(spec)
        sdir = os.path.join(VERIF, "specs", os.path.dirname(spec))
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        for src in [os.path.join(VERIF, "specs", x) for x in sorted(os.listdir(os.path.join(VERIF, "specs")))] + [sdir]:
            for f in os.listdir(src):
                if f.endswith(".tla"):
                    shutil.copy(os.path.join(src, f), d)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers or NCPU), "-metadir", os.path.join(d, "st"),
               "-config", module + ".cfg"] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            out, rc = p.stdout.decode(errors="replace"), p.returncode
        except subprocess.TimeoutExpired as x:
            raise CheckError("TLC timed out on %s: %s" % (spec, (x.stdout or b"").decode(errors="replace")[-1500:]))
        shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
        gen = dist = 0
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            gen, dist = int(m.group(1)), int(m.group(2))
        for m in re.finditer(r"The number of states generated: (\d+)", out):
            gen = int(m.group(1))
        return dict(rc=rc, out=out, generated=gen, distinct=dist, dir=d)

    def model_check(self, spec, cfg, name=None, timeout=600, extra=(), expect_ok=True, env=None, **kw):
        """Exhaustive check of a design-level configuration. A failure here is a
        failure of the specification, not of the code: an error of the check."""
        t = time.time()
        r = self.tlc(spec, cfg, timeout=timeout, extra=extra, env=env, **kw)
        if r["rc"] != 0:
            raise CheckError("model %s does not satisfy its properties:\n%s" % (spec, r["out"][-4000:]))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["model_runs"].append({"spec": spec + ".tla", "name": name or spec, "distinct_states": r["distinct"],
                                       "states_generated": r["generated"], "wall_s": round(time.time() - t, 1)})
        self.log("model", name or spec, r["distinct"], "distinct states")
        return r

    def validate(self, spec, traces, cfg="SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n", chunk=None, timeout=800, env=None):
        """Check recorded TRACES against specs/SPEC.tla; answer the rejections
        [(trace, event index, what the specification allows there)]."""
        if not traces:
            return []
        n = max(1, min(4, len(traces) // 8)) if chunk is None else max(1, (len(traces) + chunk - 1) // chunk)
        parts = [traces[i::n] for i in range(n)]
        res = list(self.pool.map(lambda p: self._validate1(spec, p, cfg, timeout, env), parts))
        out = []
        for rej, r in res:
            out += rej
            self.cov["states"] += r["distinct"]
            self.cov["transitions"] += r["generated"]
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["events_validated"] += sum(len(t["ev"]) for t in traces)
        return out

    def _validate1(self, spec, traces, cfg, timeout, env):
        f = tempfile.mktemp(prefix="trace", suffix=".ndjson", dir=self.work)
        with open(f, "w") as h:
            for t in traces:
                h.write(json.dumps(t) + "\n")
        e = {"TRACE": f}
        e.update(env or {})
        r = self.tlc(spec, cfg, env=e, workers=2, timeout=timeout, quiet=True)
        rej = []
        for m in re.finditer(r'^"?REJECT (\d+) (\d+) (.*?)"?$', r["out"], re.M):
            rej.append((traces[int(m.group(1)) - 1], int(m.group(2)) - 1, m.group(3)[:1500]))
        acc = {int(m.group(1)) for m in re.finditer(r'^"?ACCEPT (\d+)"?$', r["out"], re.M)}
        self.cov["left_open"] = self.cov.get("left_open", 0) + len(re.findall(r'^"?FREE ', r["out"], re.M))
        if r["rc"] != 0:
            raise CheckError("TLC failed on recorded traces (%s):\n%s" % (spec, r["out"][:600] + "\n...\n" + r["out"][-3000:]))
        rejids = {t["id"] for t, _, _ in rej}
        for i, t in enumerate(traces):
            if i + 1 not in acc and t["id"] not in rejids:
                raise CheckError("trace %s neither accepted nor rejected (%s):\n%s" % (t["id"], spec, r["out"][-3000:]))
        return rej, r

    # ---- verdicts -----------------------------------------------------------
    def sample(self, x):
        if len(self.cov["samples"]) < 4:
            s = json.dumps(x)
            self.cov["samples"].append(x if len(s) < 1500 else s[:1500] + "...")

    def violation(self, key, desc, payload):
        self.violations.append((key, desc, payload))

    def conform(self, spec, drivers, cls, histories, timeout=40, cfg=None, name="h", env=None, gstkw=None, batches=None,
                whole=False, decorate=None):
        """record + validate + confirm every rejection by a second, separate run."""
        n = batches or max(1, min(NCPU, len(histories) // 20))
        parts = [histories[i::n] for i in range(n)]
        kw = {}
        if cfg:
            kw["cfg"] = cfg
        if env:
            kw["env"] = env
        traces, dead = [], []
        for t, d in self.pool.map(lambda p: self.record(drivers, cls, p, timeout, name, gstkw), parts):
            traces += t
            dead += d
        if decorate:
            for t in traces:
                decorate(t)
        rej = self.validate(spec, traces, **kw)
        if traces:
            t = traces[0]
            self.sample({"cfg": t["cfg"] if not decorate else list(t["cfg"]), "ev": t["ev"][:6]})
        self.log("%s: %d histories, %d events, %d rejected, %d dead" % (
            name, len(traces), sum(len(t["ev"]) for t in traces), len(rej), len(dead)))
        byid = {h[0]: h for h in histories}
        for h, how in dead[:5]:
            if len(self.violations) >= 3:
                break
            t2, d2 = self.record(drivers, cls, [h], min(timeout, 40), name, gstkw)
            if d2:
                self.violation("dead %s" % hist_key(h), "the virtual machine did not survive: " + d2[0][1][:3000],
                               {"history": h, "cls": cls, "spec": spec})
            else:
                self.log("a death was not repeated:", how[:300])
        picked, per = [], {}
        for x in sorted(rej, key=lambda x: x[1]):
            op = x[0]["ev"][x[1]]["op"]
            per[op] = per.get(op, 0) + 1
            if os.environ.get("VERIF_DEBUG") and per[op] <= 6:
                self.log("  ", " ".join(map(str, x[0]["ev"][x[1]]["a"])), x[0]["ev"][x[1]], "ALLOWED", x[2][:300])
            if per[op] <= 2:
                picked.append(x)
        if per:
            self.log("rejected by operation:", per)
        for t, i, allowed in picked[:10]:
            h = byid[t["id"]]
            h2 = h if whole else (h[0], h[1], list(h[2])[:i + 1])
            if len(self.violations) >= 4:
                break
            t2, d2 = self.record(drivers, cls, [h2], min(timeout, 40), name, gstkw)
            bad = None
            if d2:
                bad = d2[0][1]
            elif t2:
                if decorate:
                    decorate(t2[0])
                saved = (self.cov["traces_validated_against_impl"], self.cov["events_validated"])
                r2 = self.validate(spec, t2, **kw)
                self.cov["traces_validated_against_impl"], self.cov["events_validated"] = saved
                if r2:
                    tt, ii, al = r2[0]
                    bad = "event %d: observed %s; the specification allows only %s" % (
                        ii, json.dumps(tt["ev"][ii]), al)
                    if not whole:
                        h2 = (h2[0], h2[1], h2[2][:ii + 1])
                    else:
                        bad += "; events before it: " + json.dumps([[e["op"], e["a"], e["r"]] for e in tt["ev"][max(0, ii - 12):ii]])
            if bad:
                self.violation(hist_key(h2), bad, {"history": h2, "cls": cls, "spec": spec})
            else:
                self.log("a rejection was not repeated: history", h[0], "event", i, t["ev"][i], allowed)
                self.cov.setdefault("unrepeated_rejections", 0)
                self.cov["unrepeated_rejections"] += 1
        return traces

    def finish(self):
        new, seen = [], set()
        for key, desc, payload in self.violations:
            k = next((k for k in self.known if known_match(k, key, desc)), None)
            if k is not None:
                if k["key"] not in seen:
                    seen.add(k["key"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
            else:
                new.append((key, desc, payload))
        for k in self.known:
            if k["key"] not in seen and k.get("always_print", True):
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        self.cov["known_findings_seen"] = len(seen)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.args.keep:
            shutil.rmtree(self.work, ignore_errors=True)
        if new:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            shown = 0
            for key, desc, payload in new:
                p = os.path.join(rd, "%s-%s.json" % (self.pid, hashlib.md5(key.encode()).hexdigest()[:10]))
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "key": key, "what": desc, "payload": payload,
                               "seed": self.seed, "tier": self.tier}, f, indent=1)
                if shown < 8:
                    self.log("violation:", desc[:1500])
                    print("   input:", key[:1500])
                    print("VIOLATION property=%s replay=%s" % (self.pid, p))
                shown += 1
            sys.stdout.flush()
            os._exit(1)
        self.log("ok")
        sys.stdout.flush()
        os._exit(0)


def hist_key(h):
    return " ".join(str(x) for x in h[1]) + " | " + "; ".join(" ".join(str(x) for x in op) for op in h[2])


def write_histories(path, hs):
    with open(path, "w") as f:
        for hid, cfg, ops in hs:
            f.write("T %d %s\n" % (hid, " ".join(str(x) for x in cfg)))
            for op in ops:
                f.write(" ".join(str(x) for x in op) + "\n")


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("property") == pid and k.get("status") == "known":
                    out.append(k)
    return out


def known_match(k, key, desc):
    return k["key"] == key


def main(fn, pid, **kw):
    """Run a check; anything but a verdict is exit status 2."""
    try:
        c = Check(pid, **kw)
        fn(c)
        c.finish()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        if not isinstance(e, CheckError):
            traceback.print_exc()
        print("CHECK-ERROR %s: %s" % (pid, e))
        sys.stdout.flush()
        os._exit(2)
