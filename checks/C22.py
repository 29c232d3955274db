"""Request/response histories of the asynchronous I/O layer."""
import os, re
import vlib
from trav import *
PROP, LEVEL = "C22", "exploration"
CASES = {"quick": 600, "thorough": 12000}
RULE = ("A driver linked with the tree's I/O queue submits random requests (no-op, close, opendir, closedir, stat on good and bad paths) at random depths, "
        "thread counts and submit/pop patterns, on the kernel ring and on threads, with delays, transient ring errors, short submissions, ring and thread creation "
        "failures and cancellation injected; every response is matched against the recorded requests and the synchronous result. Distinct non-trivial: distinct "
        "(build, history signature) with at least one response.")
TECHNIQUE = ("history monitoring: recorded request/response log of the real queue checked for exactly-once, identity, synchronous-equivalent results, "
             "capacity accounting, cancellation rules and descriptor conservation, under ASan/UBSan and fault injection")
ASSUMPTIONS = ["one submitting thread, as in bfs itself"]
VARIANTS = ("asan", "nouring", "release", "plain")
WRAP = ["-Wl," + ",".join("--wrap=" + w for w in
        "pthread_mutex_lock pthread_mutex_unlock pthread_cond_broadcast pthread_cond_wait bfs_stat bfs_opendir bfs_closedir bfs_polldir xclose "
        "pthread_create io_uring_queue_init_params io_uring_submit_and_wait".split())]

def build_drivers(env, variants):
    env.data["h"] = {}
    for v in variants:
        h = env.harness("h_ioq_" + v, "h_ioq.c", v, WRAP)
        if h: env.data["h"][v] = h

def setup(env):
    env.data["shim"] = env.cc("shim.so", ["shim.c"], ["-ldl", "-lpthread"], shared=True)
    build_drivers(env, VARIANTS[:3])

def drive(c, variant, h, steps):
    seed = c.rng.getrandbits(60)
    d = os.path.join(c.dir, "q")
    os.mkdir(d); os.chown(d, vlib.UID, vlib.GID)
    argv = [h, d, str(seed), str(steps)]
    c.evals += 1
    try:
        r = vlib.run(argv, cwd=c.dir, timeout=150, nofile=8000, env={"TSAN_OPTIONS": "exitcode=0", "UBSAN_OPTIONS": "print_stacktrace=1"})
    except vlib.Hang as e:
        if e.verdict in ("deadlock", "spin"):
            raise Violation("hang", "the queue never answered (%s): %s" % (e.verdict, shq(argv)), threads=e.info)
        raise vlib.Inconclusive("watchdog: " + shq(argv))
    if b"FATAL: ThreadSanitizer" in r.err:
        raise vlib.Inconclusive("sanitizer runtime: %r" % r.err[:200])
    c.check_crash(r, variant)
    out = r.out.decode("utf8", "replace")
    if r.rc != 0:
        raise Violation("history", "%s build, seed %d: %s" % (variant, seed, (out.strip()[-400:] or r.err.decode("utf8", "replace")[-800:])))
    st = {k: int(v) for k, v in re.findall(r"(\w+)=(\d+)", out)}
    for k, v in st.items(): c.count(k, v)
    if st.get("responses"): c.seen(variant, tuple(sorted(st.items())))
    c.sample("%s: %s" % (variant, out.strip()))

def program(c):
    """Whole searches that depend on every request being answered."""
    rng = c.rng
    os.chdir(c.dir)
    mktree(c, rng.choice([20, 60, 150]), maxdepth=rng.choice([3, 6, 20]), special=False)
    files, _ = walk([b"t"])
    cfg = Cfg(c, rng, j=rng.choice([2, 3, 8, 16]))
    if rng.random() < .5:
        cfg.env["LD_PRELOAD"] = c.env.data["shim"]
        cfg.env["VP_FAIL"] = rng.choice(["submit:0/2:4", "submit:1/3:11", "uring:2/1:12", "submit:0/5:16"])
    r = c.bfs(cfg.flags + [b"t"] + cfg.globals + ["-printf", "%s %p\\0"], variant=rng.choice(["plain", "nouring"]), env=cfg.env, **cfg.kw)
    want = [b"%d %s" % (os.lstat(f.path).st_size, f.path) for f in files]
    diff_multiset(want, split0(r.out), r.argv)
    if r.rc: raise Violation("status", "search failed (rc=%d): %r: %s %r" % (r.rc, r.err[:300], shq(r.argv), cfg.env))
    c.count("searches"); c.count("searched files", len(want))
    c.seen("search", hash(tuple(want)), cfg.key())

def case(c):
    h = c.env.data["h"]
    if h and c.idx % 6:
        v = sorted(h)[c.idx % len(h)]
        drive(c, v, h[v], c.rng.choice((300, 2000, 6000)))
    else:
        program(c)
