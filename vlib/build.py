"""Builds /repo's current working tree in a private copy and answers where it is.

A build directory is keyed by a hash of the sources it was made from, so runs on
the same tree share it and a changed tree never sees stale objects.  The copy
starts from /repo's own (ignored) build products when they are there: only what
differs from the pinned base (or is newer than its object) is compiled again."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.join(VERIF, ".build")
SRC_DIRS = ["kernel", "libgst", "lib-src", "snprintfv", "lightning", "packages",
            "scripts", "build-aux", "tests"]
SRC_TOP = ["main.c", "gst-tool.c", "packages.xml", "configure.ac", "Makefile.am",
           "config.h", "libc.la.in"]
SRC_EXT = (".c", ".h", ".st", ".def", ".inl", ".y", ".l", ".xml", ".am", ".gperf",
           ".frag", ".ac", ".in", ".sed", ".awk", ".ok")
GENERATED = {"libgst/" + x for x in (
    "vm.inl", "prims.inl", "match.h", "builtins.inl", "genbc-decl.c", "genbc-decl.h",
    "genbc-impl.c", "genbc-impl.h", "genbc-scan.c", "genpr-parse.c", "genpr-parse.h",
    "genpr-scan.c", "genvm-parse.c", "genvm-parse.h", "genvm-scan.c")}

ENV = dict(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           HOME=os.environ.get("HOME", "/root"), LANG="C", TZ="UTC", SHELL="/bin/bash",
           CC="gcc", CXX="g++", TERM="dumb", TMPDIR="/tmp")


def _sources():
    out = []
    for t in SRC_TOP:
        if os.path.exists(os.path.join(REPO, t)):
            out.append(t)
    for d in SRC_DIRS:
        for base, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = [x for x in dirs if x not in (".libs", ".deps", "testsuite.dir", "autom4te.cache")]
            for f in files:
                if f.endswith(SRC_EXT) and f not in ("Makefile.in", "testsuite"):
                    out.append(os.path.relpath(os.path.join(base, f), REPO))
    return sorted(out)


PRODUCT_DIRS = ["libgst", "libgst/.libs", "lib-src", "lib-src/.libs", "snprintfv/snprintfv",
                "snprintfv/snprintfv/.libs", ".", ".libs"]


def _products(root):
    """Checksums of the compiled files that a pristine sandbox has."""
    out = {}
    for d in PRODUCT_DIRS:
        p = os.path.join(root, d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                q = os.path.join(p, f)
                if f.endswith((".o", ".a", ".so", ".7.1.3", ".stamp")) and os.path.isfile(q):
                    out[os.path.normpath(os.path.join(d, f))] = _sha(q)
    return out


def _sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def fingerprint():
    srcs = _sources()
    sums = {s: _sha(os.path.join(REPO, s)) for s in srcs}
    h = hashlib.sha256()
    for s in srcs:
        h.update(("%s %s\n" % (s, sums[s])).encode())
    h.update(_sha(os.path.abspath(__file__)).encode())
    return h.hexdigest()[:16], sums


def _run(cmd, cwd, log, env=None, check=True):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=env or ENV,
                       stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    with open(log, "ab") as f:
        f.write(("$ %s  (%d)\n" % (cmd, p.returncode)).encode() + p.stdout)
    if check and p.returncode:
        sys.stderr.write(p.stdout.decode(errors="replace")[-4000:])
        raise BuildError("build failed: %s" % cmd)
    return p.stdout.decode(errors="replace")


class BuildError(Exception):
    pass


def _do_build(d, sums):
    log = os.path.join(os.path.dirname(d), os.path.basename(d) + ".log")
    if os.path.exists(log):
        os.unlink(log)
    os.makedirs(d)
    _run("tar -C %s --exclude=./.git --exclude=./doc --exclude=./tests/testsuite.dir -cf - . | tar -C %s -xf -"
         % (REPO, d), "/", log)
    # Sources that are not those of the pinned base are newer than any object.
    pristine, base = False, {}
    for which in ("base", "head"):
        with open(os.path.join(VERIF, "vlib", which + "_products.json")) as f:
            made = json.load(f)
        if all(os.path.exists(os.path.join(d, p)) and _sha(os.path.join(d, p)) == h for p, h in made.items()):
            pristine = True
            with open(os.path.join(VERIF, "vlib", which + "_sources.json")) as f:
                base = json.load(f)
    changed = [s for s in sums if base.get(s) != sums[s] and s not in GENERATED] if pristine else []
    if pristine:
        # Every object is one that build.sh makes of a known tree: a source with
        # the content it has there is up to date whatever its mtime.
        old = 1577836800
        for b, dirs, files in os.walk(d):
            for f in files:
                q = os.path.join(b, f)
                if not os.path.islink(q):
                    r = os.path.relpath(q, d)
                    if not f.endswith((".o", ".lo", ".a", ".la", ".so", ".7.1.3", ".stamp", ".star", ".lai")) \
                            and r not in ("gst", "gst-tool", ".libs/gst", ".libs/gst-tool", "libgst/genbc",
                                          "libgst/genprims", "libgst/genvm"):
                        os.utime(q, (old, old))
    else:
        for s in sums:
            os.utime(os.path.join(d, s))
    for s in changed:
        os.utime(os.path.join(d, s))
    # The build system itself is never remade: its inputs count as old, what
    # was made from them as new, in the order of their dependencies.
    auto = [[], [], [], [], []]
    for b, dirs, files in os.walk(d):
        for f in files:
            q = os.path.join(b, f)
            if os.path.islink(q):
                continue
            if f.endswith((".am", ".ac", ".m4", ".frag", ".in")) or f in ("packages.xml", "package.xml"):
                k = 1 if f == "aclocal.m4" else 2 if f in ("Makefile.in", "config.h.in") else 0
            elif f == "configure":
                k = 2
            elif f == "config.status":
                k = 3
            elif f in ("Makefile", "config.h", "libtool") or f.startswith("stamp-h"):
                k = 4
            else:
                continue
            auto[k].append(q)
    t = 1577836800 - 10 if pristine else time.time() - 1000
    for k, l in enumerate(auto):
        for q in l:
            os.utime(q, (t + k, t + k))
    fresh = not (os.path.exists(d + "/config.status") and os.path.exists(d + "/Makefile"))
    # Tracked files that make would rewrite because of mtimes only.
    _run("find packages -name Makefile.frag -exec touch {} + ; touch kernel/Makefile.frag; "
         "[ -f tests/package.m4 ] && touch tests/package.m4; true", d, log)
    if not pristine:
        os.utime(d + "/libgst/builtins.inl")
    for stamp, pre in (("match.stamp", ("genbc",)), ("prims.stamp", ("genpr", "prims.def")),
                       ("vm.stamp", ("genvm", "vm.def"))):
        if any(s.startswith("libgst/") and s[7:].startswith(pre) for s in changed):
            p = os.path.join(d, "libgst", stamp)
            if os.path.exists(p):
                os.unlink(p)
    if any(s.startswith("libgst/") and s.endswith(".def") for s in changed):
        for stamp in ("match.stamp", "prims.stamp", "vm.stamp"):
            p = os.path.join(d, "libgst", stamp)
            if os.path.exists(p):
                os.unlink(p)
    gperf = os.path.join(VERIF, "vlib", "gperf.sh")
    mk = "make --no-print-directory GPERF=%s " % gperf
    if fresh:
        if not os.path.exists(d + "/configure"):
            _run("autoreconf -vi", d, log)
        _run("./configure --without-emacs --enable-gtk=no", d, log)
    else:
        # The libtool wrappers and makefiles name the directory they were made in.
        _run("grep -rlI --include=Makefile --include=gst --include=gst-tool --include=config.status "
             "--include=libtool --include='*.la' --include='*.lai' -e '/repo' . | xargs -r -d '\\n' perl -pi.ts -e 's#/repo\\b#%s#g'" % d
             + "; find . -name '*.ts' | while read f; do touch -r \"$f\" \"${f%.ts}\"; rm -f \"$f\"; done", d, log)
    _run(mk + "Makefile config.h", d, log)
    _run(mk + "-C lib-src -j8", d, log)
    _run(mk + "-C lightning", d, log)
    _run(mk + "-C snprintfv -j8", d, log)
    _run(mk + "-C libgst genbc-decl.c genbc-impl.c genbc-scan.c genpr-parse.c genpr-scan.c "
         "genvm-parse.c genvm-scan.c", d, log)
    _run(mk + "-C libgst prims.inl match.h vm.inl builtins.inl", d, log)
    _run(mk + "-C libgst -j8", d, log)
    _run(mk + "-j8 gst gst-tool", d, log)
    if os.path.exists(d + "/gst.im"):
        os.unlink(d + "/gst.im")
    out = _run(mk + "gst.im", d, log)
    if not os.path.exists(d + "/gst.im"):
        raise BuildError("no gst.im")
    import re
    if re.search(r"(?m)(^|/)kernel/[A-Za-z0-9_]+\.st:[0-9]+: ", out):
        sys.stderr.write(out)
        raise BuildError("errors in kernel/*.st")


def _pkg(d, stars):
    """Build the named .star files (always from the tree's current files)."""
    log = d + ".log"
    mk = "make --no-print-directory "
    todo = [s for s in stars if not os.path.exists(os.path.join(d, ".vstar-" + s))]
    if not todo:
        return
    for s in todo:
        p = os.path.join(d, s)
        if os.path.exists(p):
            os.unlink(p)
    _run(mk + "-j4 " + " ".join(todo), d, log)
    for s in todo:
        open(os.path.join(d, ".vstar-" + s), "w").close()


def _module(d, subdirs):
    for s in subdirs:
        mark = os.path.join(d, ".vmod-" + s.replace("/", "_"))
        if os.path.exists(mark):
            continue
        _run("make --no-print-directory -C %s" % s, d, d + ".log")
        open(mark, "w").close()


def ensure(stars=(), modules=()):
    """Answer the directory of a complete build of REPO's current tree."""
    os.makedirs(ROOT, exist_ok=True)
    fp, sums = fingerprint()
    d = os.path.join(ROOT, fp)
    with open(os.path.join(ROOT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(d + ".ok"):
            if os.path.exists(d):
                shutil.rmtree(d)
            _prune(keep=3)
            _do_build(d, sums)
            open(d + ".ok", "w").close()
        os.utime(d + ".ok")
        if modules:
            _module(d, modules)
        if stars:
            _pkg(d, stars)
    return d


def _prune(keep):
    oks = [os.path.join(ROOT, f) for f in os.listdir(ROOT) if f.endswith(".ok")]
    oks.sort(key=os.path.getmtime)
    for ok in oks[:-keep]:
        if time.time() - os.path.getmtime(ok) < 1800:
            continue
        base = ok[:-3]
        os.unlink(ok)
        shutil.rmtree(base, ignore_errors=True)
        for x in (base + ".log",):
            if os.path.exists(x):
                os.unlink(x)


if __name__ == "__main__":
    if sys.argv[1:2] == ["--record"]:
        _, sums = fingerprint()
        which = sys.argv[2]
        json.dump(_products(REPO), open(os.path.join(VERIF, "vlib", which + "_products.json"), "w"),
                  indent=0, sort_keys=True)
        json.dump({k: v for k, v in sums.items()}, open(os.path.join(VERIF, "vlib", which + "_sources.json"), "w"),
                  indent=0, sort_keys=True)
    else:
        t = time.time()
        print(ensure(sys.argv[1:]), "%.1fs" % (time.time() - t))
