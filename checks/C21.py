"""Race freedom and termination of parallel searches."""
import C22
from C22 import *
PROP, LEVEL = "C21", "exploration"
CASES = {"quick": 420, "thorough": 9000}
RULE = ("Searches of random trees (early stop, errors, -exec, several outputs, low descriptor limits) run under ThreadSanitizer with both I/O back ends, and under "
        "injected delays, CPU pinning, ring faults and thread-creation failures; the I/O queue is also driven on its own under ThreadSanitizer. Each run must end, "
        "without a race report, with the result of a one-thread run. Distinct non-trivial: distinct (tree, command, thread count, perturbation).")
TECHNIQUE = ("race detection (ThreadSanitizer on whole searches and on a queue driver) plus stress with injected delays, faults and a deadlock watchdog; "
             "results compared with a sequential run of the same tree")
VARIANTS = ("plain", "nouring", "tsan", "tsannouring")

def setup(env):
    env.data["shim"] = env.cc("shim.so", ["shim.c"], ["-ldl", "-lpthread"], shared=True)
    build_drivers(env, ("tsan", "tsannouring"))

TS = {"TSAN_OPTIONS": "exitcode=0:halt_on_error=0"}

def search(c):
    rng = c.rng
    os.chdir(c.dir)
    mktree(c, rng.choice([15, 40, 120, 300]), maxdepth=rng.choice([3, 6, 20]), special=False)
    files, _ = walk([b"t"])
    dirs = [f.path for f in files if f.type == "d" and f.depth > 0]
    for p in rng.sample(dirs, min(len(dirs), rng.choice([0, 0, 1, 3]))):
        os.chmod(p, rng.choice([0, 0o311]))
    h = hash(tuple(f.path for f in files))
    for _ in range(3):
        follow = rng.choice([[], [], ["-L"]])
        kind = rng.choice(["all", "all", "stat", "quit", "limit", "exec", "outs", "unique", "prune"])
        expr = {
            "all": ["-printf", "%p\\0"],
            "stat": ["-size", "+0", "-printf", "%i %p\\0", "-o", "-printf", "%p\\0"],
            "quit": ["-printf", "%p\\0", "-name", rng.choice(["*a*", "*b*", "*", "*1"]), "-quit"],
            "limit": ["-printf", "%p\\0", "-limit", str(rng.randrange(1, 12))],
            "exec": ["-type", "d", "-exec", "/bin/true", "{}", "+", "-printf", "%p\\0", "-o", "-printf", "%p\\0"],
            "outs": ["-fprint", "/dev/null", "-printf", "%p\\0", "-type", "f", "-fls", "/dev/null"],
            "unique": ["-unique", "-printf", "%i\\0"],
            "prune": ["-name", "*a*", "-prune", "-printf", "%p\\0", "-o", "-printf", "%p\\0"],
        }[kind]
        cfg = Cfg(c, rng, j=rng.choice([2, 2, 3, 4, 8, 16]), low=rng.random() < .4)
        if kind == "limit" or kind == "quit" or kind == "prune" or kind == "unique":
            cfg.globals, cfg.post = [], False
            cfg.flags = [f for f in cfg.flags if f != "-d"]
        if "VP_DTUNK" in cfg.env: del cfg.env["VP_DTUNK"]
        env = dict(cfg.env)
        tsan = rng.random() < .6
        variant = rng.choice(["tsan", "tsannouring"]) if tsan else rng.choice(["plain", "plain", "nouring"])
        threadfail = False
        prefix = ()
        if not tsan:
            if rng.random() < .5:
                env["LD_PRELOAD"] = c.env.data["shim"]
                f = rng.choice(["submit:0/2:4", "submit:1/3:11", "uring:2/1:12", "submit:0/4:16", "thread:%d:11" % rng.randrange(cfg.j), ""])
                threadfail = f.startswith("thread")
                if f: env["VP_FAIL"] = f
            if rng.random() < .4: prefix = ("/usr/bin/taskset", "-c", str(rng.randrange(os.cpu_count() or 1)))
        base = c.bfs(["-S" + cfg.strategy, "-j1"] + follow + [b"t"] + cfg.globals + expr)
        env.update(TS)
        r = c.bfs([f for f in cfg.flags] + follow + [b"t"] + cfg.globals + expr, variant=variant, prefix=prefix, env=env, crash_ok=tsan, timeout=90, **cfg.kw)
        if b"FATAL: ThreadSanitizer" in r.err:
            c.count("sanitizer runtime could not start")
            continue
        c.check_crash(r, variant)
        got, want = split0(r.out), split0(base.out)
        what = "%s %r" % (shq(r.argv), env)
        if threadfail and r.rc != 0:
            if not r.err: raise Violation("silent", "failed without a diagnostic when a thread could not be created: " + what)
            if kind not in ("quit", "limit") and collections.Counter(got) - collections.Counter(want): raise Violation("results", "spurious results: " + what)
            c.count("thread creation failures")
            continue
        if kind in ("quit",):
            # any order is allowed, but nothing twice and nothing that does not exist
            allp = {f.path for f in files} if not follow else None
            if len(set(got)) != len(got) or (allp is not None and not set(got) <= allp) or (not got) != (not want):
                raise Violation("results", "results of a stopped search: " + what)
        elif kind == "limit":
            if len(got) != len(want): raise Violation("results", "%d results instead of %d: %s" % (len(got), len(want), what))
        elif kind == "unique" and follow:
            if sorted(set(got)) != sorted(set(want)) or len(got) != len(set(got)): raise Violation("results", "unique results differ: " + what)
        else:
            diff_multiset(want, got, r.argv, "results")
        if kind not in ("quit", "limit") and (r.rc != base.rc):
            raise Violation("status", "exit status %d, sequentially %d: %s stderr=%r" % (r.rc, base.rc, what, r.err[:300]))
        c.count("searches:" + variant); c.count("results", len(got)); c.count("kind:" + kind)
        c.seen(h, kind, cfg.key(), variant, env.get("VP_FAIL"), bool(prefix))

def case(c):
    h = c.env.data["h"]
    if h and c.idx % 3 == 2:
        v = sorted(h)[c.idx // 3 % len(h)]
        drive(c, v, h[v], c.rng.choice((300, 2000, 4000)))
    else:
        search(c)
