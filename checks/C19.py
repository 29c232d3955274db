"""C19: results do not depend on descriptor limits; descriptors do not leak."""
from trav import *
import trav
PROP, LEVEL = "C19", "exploration"
CASES = {"quick": 300, "thorough": 12000}
RULE = ("each distinct (tree shape, expression, configuration, limit and number of inherited descriptors, way of ending) counts once")
TECHNIQUE = ("runtime monitoring: descriptor tables recorded at program start and end and an open/close event log (preloaded monitor), searches under descriptor limits "
             "down to the minimum and with inherited descriptors, compared with an unlimited run; injected errors and early stops")
NOTE = "Descriptors opened by io_uring are seen in the tables, not in the event log; the growth comparison therefore uses the thread-only back end."
VARIANTS = ("plain", "nouring", "release")

def setup(env):
    trav.setup(env)
    env.data["fdexec"] = env.cc("fdexec", ["fdexec.c"])

# expression, extra descriptors it may need at a time besides the two the search needs, kind
def expressions(rng):
    return rng.choice([
        (["-printf", "%p\\0"], 0, "print"), (["-printf", "%p\\0"], 0, "print"),
        (["-printf", "%i %s %p\\0"], 0, "stat"),
        (["-empty", "-printf", "e%p\\0", "-o", "-printf", "%p\\0"], 1, "empty"),
        (["-exec", "/bin/true", ";", "-printf", "%p\\0"], 3, "exec"),
        (["-name", "*[1-5]", "-exec", "/bin/true", "{}", ";", "-printf", "x\\0", "-o", "-printf", "%p\\0"], 3, "exec"),
        (["-execdir", "/bin/true", "{}", ";", "-printf", "%p\\0"], 4, "execdir"),
        (["-execdir", "/bin/true", "{}", "+", "-printf", "%p\\0"], 4, "execdir+"),
        (["-exec", "/bin/true", "{}", "+", "-printf", "%p\\0"], 3, "exec+"),
        (["-fprint", "o1", "-printf", "%p\\0"], 1, "fprint"),
        (["-fprint", "o1", "-fprint0", "o2", "-fprintf", "o3", "%f", "-fls", "o4", "-printf", "%p\\0"], 6, "fprint"),
        (["-xattr", "-o", "-printf", "%p\\0"], 1, "xattr"),
        (["-acl", "-o", "-printf", "%p\\0"], 1, "acl"),
        (["-capable", "-o", "-printf", "%p\\0"], 1, "capable"),
        (["-printf", "%u %g %p\\0"], 3, "user"), (["-printf", "%u %g %p\\0"], 3, "user"),
        (["-ls"], 3, "ls"),
        (["-nouser", "-o", "-nogroup", "-o", "-printf", "%p\\0"], 3, "nouser"),
        (["-printf", "%F %p\\0"], 2, "fstype"),
        (["-readable", "-printf", "%p\\0"], 0, "access"),
        (["-printf", "%l %y %Y %p\\0"], 0, "link"),
        (["-newer", "t", "-o", "-samefile", "t", "-o", "-printf", "%p\\0"], 0, "newer"),
        (["-unique", "-printf", "%i\\0"], 0, "unique"),
        (["-name", "*2", "-prune", "-o", "-printf", "%p\\0"], 0, "prune"),
        (["-exclude", "-name", "*3", "-printf", "%p\\0"], 0, "exclude"),
        (["-mindepth", "2", "-maxdepth", "9", "-printf", "%p\\0"], 0, "depths"),
    ])

def build(c, rng):
    os.chdir(c.dir)
    shape = rng.choice(["deep", "wide", "comb", "random", "deeper", "twin"])
    os.mkdir("t"); os.chmod("t", 0o755)
    if shape == "deeper":
        p = b"t"
        for i in range(rng.choice([30, 120])):
            p += b"/d%d" % (i % 10); os.mkdir(p)
            if rng.random() < .4: open(p + b"/f%d" % i, "w").close()
            if rng.random() < .3: os.mkdir(p + b"/side%d" % i)
            if rng.random() < .2: os.makedirs(p + b"/s%d/x/y/z" % i)
    elif shape == "twin":
        for k in range(rng.choice([3, 8])):
            p = b"t/%d" % k; os.mkdir(p)
            for i in range(rng.choice([5, 20])):
                p += b"/n%d" % (i % 7); os.mkdir(p); open(p + b"/f", "w").close()
    else:
        sh = T.gen_shape(rng, rng.choice([20, 60, 200]), shape, names=rng.choice(["mixed", "num"]), maxdepth=rng.choice([6, 60]))
        T.populate(rng, b"t", sh, special=False)
    if rng.random() < .3:
        dirs = [d for d, _, _ in os.walk(b"t")]
        for i in range(3): os.symlink(os.path.relpath(rng.choice(dirs), b"t"), b"t/link%d" % i)
    if rng.random() < .6:
        # owners that first show up deep in the tree
        for d, ds, fs in os.walk(b"t"):
            for n in fs:
                if rng.random() < .3: os.chown(d + b"/" + n, rng.choice(T.IDS + list(range(1, 11))), rng.choice(T.IDS + list(range(1, 11))), follow_symlinks=False)
    return shape

def diag(r):
    """Diagnostics, in any order, without the program's name."""
    return sorted(re.sub(rb"^bfs[-a-z]*: ", b"", l) for l in r.err.splitlines())

def table(log, tag):
    return {int(e[2]): e[3] for e in log if e[0] == "F" and e[1] == tag}

def run_logged(c, args, env=None, **kw):
    p = S.newlog(os.path.join(c.dir, "log"), 8 << 20)
    e = dict(env or {})
    e.update(LD_PRELOAD=c.env.data["shim"], VP_LOG=p, VP_LOGFD="1")
    r = c.bfs(args, env=e, **kw)
    return r, S.readlog(p)

def check_tables(c, r, log, env=None):
    s, e = table(log, "s"), table(log, "e")
    if not s:
        raise HarnessError("no descriptor table recorded")
    if not any(x[0] == "F" and x[1] == "e" for x in log):
        return False    # did not end normally
    for fd in e:
        if fd not in s:
            raise Violation("leak", "descriptor %d (%r) is still open at the end: %s %r" % (fd, S.unhex(e[fd]), shq(r.argv), env))
    c.count("descriptor tables compared")
    return True

def extra_fds(rng):
    n = rng.choice([0, 0, 0, 1, 2, 5, 12])
    fds = []
    for _ in range(n):
        fds.append(os.open(rng.choice(["/dev/null", "/", "t"]), os.O_RDONLY))
    return fds

FOLLOW = [[], [], [], ["-L"], ["-H"]]

def limits(c):
    """Same results with few descriptors as without a limit."""
    rng = c.rng
    shape = build(c, rng)
    for p in ("o1", "o2", "o3", "o4"):
        open(p, "w").close(); os.chmod(p, 0o666)
    for _ in range(3):
        expr, need, kind = expressions(rng)
        follow = rng.choice(FOLLOW)
        if kind == "unique": follow = []
        cfg = Cfg(c, rng, perturb=False, low=False)
        if kind in ("prune",):
            cfg.globals, cfg.flags = [], [f for f in cfg.flags if f != "-d"]
        roots = [b"t"] * rng.choice([1, 1, 1, 2])
        base = c.bfs(cfg.flags + follow + roots + cfg.globals + expr)
        for _ in range(3):
            fds = extra_fds(rng)
            recs = split0 if kind != "ls" else (lambda o: o.split(b"\n"))
            try:
                # 3 standard descriptors, the inherited ones, 2 for the search itself, what the expression needs
                lim = 3 + 2 + need + rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 10, 20])
                inherited, hard = len(fds), rng.random() < .7
                variant = rng.choice(["plain", "plain", "nouring", "release"])
                r = launch(c, cfg.flags + follow + roots + cfg.globals + expr, variant, fds, lim + inherited, None if hard else lim + inherited + rng.choice([0, 1, 7, 100]))
            finally:
                for fd in fds: os.close(fd)
            what = "%s with at most %d descriptors, %d inherited" % (shq(r.argv), lim + inherited, inherited)
            if r.rc != base.rc or diag(r) != diag(base):
                raise Violation("status", "exit status %d instead of %d, diagnostics %r: %s" % (r.rc, base.rc, r.err[:300], what))
            diff_multiset(recs(base.out), recs(r.out), what.split(" "), "results")
            c.count("limited runs"); c.count("results compared", len(recs(r.out)))
            c.seen(shape, kind, cfg.key(), min(lim - 5 - need, 8), inherited > 0, hard, variant, bool(follow))

def launch(c, args, variant, fds, soft, hardlim):
    """Run bfs with exactly the descriptors 0-2 plus the given ones packed from 3 upwards."""
    argv = [c.env.data["fdexec"], str(soft), str(hardlim or soft), str(len(fds))] + [str(f) for f in fds] + [c.env.bins[variant]] + list(args)
    c.evals += 1
    try:
        r = run(argv, cwd=c.dir, pass_fds=fds, timeout=120)
    except Hang as h:
        if h.verdict in ("deadlock", "spin"): raise Violation("hang", "bfs did not terminate (%s): %s" % (h.verdict, shq(argv)))
        raise Inconclusive("watchdog: " + shq(argv))
    r.argv = [c.env.bins[variant]] + list(args)
    c.check_crash(r, variant)
    return r

def leaks(c):
    """Nothing stays open, however the search ends."""
    rng = c.rng
    shape = build(c, rng)
    files, _ = walk([b"t"])
    dirs = [f.path for f in files if f.type == "d" and f.depth > 0]
    for p in rng.sample(dirs, min(len(dirs), rng.choice([0, 0, 1, 3]))): os.chmod(p, rng.choice([0, 0o311]))
    for p in ("o1", "o2", "o3", "o4"):
        open(p, "w").close(); os.chmod(p, 0o666)
    for _ in range(5):
        expr, need, kind = expressions(rng)
        end = rng.choice(["normal", "normal", "quit", "exit", "limit", "error", "error", "missing", "delete"])
        if end == "quit": expr = expr + ["-name", rng.choice(["*a*", "*1*", "f*", "*"]), "-quit"]
        elif end == "exit": expr = expr + ["-name", "*", "-exit", "3"]
        elif end == "limit": expr = expr + ["-limit", str(rng.randrange(1, 20))]
        elif end == "missing": expr = ["missing"] + expr
        cfg = Cfg(c, rng, perturb=True, low=False)
        if kind == "prune" or end in ("limit",):
            cfg.globals, cfg.flags = [], [f for f in cfg.flags if f != "-d"]
        env = dict(cfg.env)
        if end == "error":
            op = rng.choice(["opendir", "getdents", "stat", "open", "close", "submit", "uring", "spawn", "readlink", "fchdir", "pipe", "access", "thread"])
            env["VP_FAIL"] = S.fail((op, rng.choice(["1", "2", "5", "1/3", "0/2", "4/7"]), rng.choice([5, 12, 13, 20, 2, 24, 11])))
            if rng.random() < .5: env["VP_NOURING"] = "1"
        kw = {}
        if rng.random() < .3: kw["nofile"] = rng.choice([14, 20, 30, 64])
        variant = rng.choice(["plain", "plain", "release"])
        args = cfg.flags + rng.choice(FOLLOW) + ["t"] + cfg.globals + expr
        r, log = run_logged(c, args, env, variant=variant, **kw)
        env.pop("LD_PRELOAD", None)
        if check_tables(c, r, log, env):
            c.seen("leak", shape, kind, end, env.get("VP_FAIL", "").split(":")[0], cfg.strategy, min(cfg.j, 3), "VP_NOURING" in env)
            c.count("ending: " + end)
        if "VP_NOURING" in env: events(c, r, log)

def events(c, r, log):
    """Every directory opened is closed exactly once, nothing unopened is closed."""
    fds = set(table(log, "s"))
    for e in log:
        if e[0] == "E" and e[1] == "close" and int(e[3]) == 9:
            raise Violation("badclose", "closed descriptor %s, which was not open: %s" % (e[2], shq(r.argv)))
    c.count("event logs")
    c.count("descriptor events", sum(e[0] in "OX" for e in log))

def peak(log):
    """Largest number of descriptors simultaneously open, beyond those at the start (opens and closes in log order)."""
    cur, best, openfds = 0, 0, set()
    for e in log:
        if e[0] == "O" and int(e[1]) >= 0: openfds.add(int(e[1]))
        elif e[0] == "X": openfds.discard(int(e[1]))
        best = max(best, len(openfds))
    return best

def growth(c):
    """More files, same descriptors."""
    rng = c.rng
    os.chdir(c.dir)
    expr, need, kind = expressions(rng)
    for p in ("o1", "o2", "o3", "o4"):
        open(p, "w").close(); os.chmod(p, 0o666)
    cfg = Cfg(c, rng, perturb=False, low=False, j=1)
    if kind == "prune": cfg.globals, cfg.flags = [], [f for f in cfg.flags if f != "-d"]
    fault = rng.choice([None, None, "stat", "readlink", "access", "spawn"])
    res = []
    nd = rng.choice([1, 3])
    n0 = rng.choice([6, 10])
    for n in (n0, n0 * 5):
        os.mkdir("g%d" % n); os.symlink("g%d" % n, "t") if not os.path.lexists("t") else None
        for d in range(nd):
            os.mkdir("g%d/d%d" % (n, d))
            for i in range(n):
                p = "g%d/d%d/f%d" % (n, d, i)
                r = i % 3
                if r == 0: open(p, "w").close()
                elif r == 1: os.symlink("f0", p)
                else:
                    with open(p, "w") as f: f.write("x")
        env = {"VP_NOURING": "1"}
        if fault: env["VP_FAIL"] = S.fail((fault, "0/2", 5))
        args = cfg.flags + ["g%d" % n] + cfg.globals + expr
        r, log = run_logged(c, args, env)
        check_tables(c, r, log, env); events(c, r, log)
        res.append(peak(log))
    if res[1] > res[0]:
        raise Violation("growth", "with %d files per directory %d descriptors are open at a time, with %d files %d: %s" % (n0, res[0], n0 * 5, res[1], shq(r.argv)))
    c.seen("growth", kind, cfg.key(), fault, nd)
    c.count("growth comparisons")

def case(c):
    k = c.idx % 6
    if k < 3: limits(c)
    elif k < 5: leaks(c)
    else: growth(c)
