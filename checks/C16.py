"""C16: the environment of executed commands."""
from execs import *
import ctypes, fcntl, signal
PROP, LEVEL = "C16", "exploration"
CASES = {"quick": 400, "thorough": 8000}
RULE = "each run with at least one command counts once by (action, inherited state, options)"
TECHNIQUE = "runtime monitoring: recorder program logs its descriptors, limits, signal state, environment and siblings; compared with the same program started directly"
SIGS = [signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGQUIT, signal.SIGPIPE, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGWINCH, signal.SIGTSTP, signal.SIGCONT]

def case(c):
    rng = c.rng
    w, roots = small_world(c, rng.choice([5, 15, 40]), names="plain")
    for _ in range(3): one(c, rng, roots)

def one(c, rng, roots):
    log = newreclog(c)
    env = {"REC_LOG": log, "TERM": rng.choice(["xterm", "dumb", ""]), "WEIRD": "a=b\n\xff\t", "EMPTY": "", "LS_COLORS": "di=01;34", "PWD": rng.choice(["/nowhere", c.dir])}
    for i in range(rng.randrange(0, 6)): env["V%d" % i] = "x" * rng.randrange(200)
    kw = {}
    ign = rng.sample(SIGS, rng.choice([0, 1, 2, 5]))
    blk = rng.sample(SIGS, rng.choice([0, 0, 1, 3]))
    soft = rng.choice([None, None, (20, 20), (24, 64), (32, 4096), (256, 1024), (64, 64), (1024, 20000)])
    hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
    if soft and hard != resource.RLIM_INFINITY: soft = (min(soft[0], hard), min(soft[1], hard))
    if soft: kw["nofile"] = soft
    leak = rng.random() < .3
    fds = []
    fd = os.open("/dev/null", os.O_RDONLY)
    if leak: fds = [fcntl.fcntl(fd, fcntl.F_DUPFD, rng.choice([3, 9, 15])) for _ in range(rng.choice([1, 2]))]
    os.close(fd)
    def pre():
        for s in SIGS: signal.signal(s, signal.SIG_DFL)
        for s in ign: signal.signal(s, signal.SIG_IGN)
        signal.pthread_sigmask(signal.SIG_SETMASK, blk)
    kw["preexec"] = pre; kw["pass_fds"] = fds
    umask = kw["umask"] = rng.choice([0o022, 0o077, 0o002])
    rec = c.env.data["rec"]
    # what the program sees when started directly with the same inherited state
    base = run([rec, "0:e", "x"], cwd=c.dir, env=env, **kw)
    b = readrec(log)
    if len(b) != 1: raise RuntimeError("baseline: %r" % base.err)
    want = norm(b[0].state)
    os.truncate(log, 0)
    extra, flags = [], []
    flags += ["-j%d" % rng.choice([1, 2, 4, 8])]
    if rng.random() < .5: flags += ["-S", rng.choice(["bfs", "dfs", "ids", "eds"])]
    stdin = b""
    opts, sinks = [], []
    if rng.random() < .3:
        with open("f0", "wb") as f: f.write(b"\0".join(roots) + b"\0")
        opts = ["-files0-from", "f0"]; rr = []
    else: rr = roots
    for i in range(rng.choice([0, 0, 1, 3])):
        p = c.dir + "/o%d" % i
        with open(p, "w"): pass
        os.chmod(p, 0o666)
        extra += ["-fprint", p]
    if rng.random() < .3: extra += ["-empty", "-o"]
    if rng.random() < .2: opts += ["-depth"]
    act = rng.choice(["exec", "exec", "exec+", "execdir", "execdir+", "ok"])
    tail = ["-" + act.rstrip("+"), rec, "0:e" + rng.choice(["", "x1", "h2"]), "{}", "+" if act.endswith("+") else ";"]
    if act == "ok": stdin = b"y\n" * 500
    lim = []
    if rng.random() < .15: lim = rng.choice([["-limit", "3"], [",", "-name", "*a*", "-quit"]])
    shimenv = {}
    if rng.random() < .5:
        slog = S.newlog(c.dir + "/slog", 1 << 18)
        shimenv = {"LD_PRELOAD": c.env.data["shim"], "VP_DELAY": "%d:100:50" % rng.randrange(1, 1 << 30), "VP_LOG": slog}
        if rng.random() < .4: shimenv["VP_NOURING"] = "1"
    argv = flags + rr + opts + extra + tail + lim
    e2 = dict(env); e2.update(shimenv)
    try:
        r = c.bfs(argv, env=e2, stdin=stdin, **kw)
    finally:
        for x in fds: os.close(x)
    what = shq(r.argv)[:700] + " (nofile=%r, ignored=%r, blocked=%r, fds=%r)" % (soft, [int(s) for s in ign], [int(s) for s in blk], fds)
    recs = readrec(log)
    cwd = os.stat(c.dir)
    for x in recs:
        have = norm(x.state)
        for k in want:
            if k == "env":
                d1, d2 = have[k], sorted(want[k] + [os.fsencode("%s=%s" % kv) for kv in shimenv.items()])
                if d1 != d2: raise Violation("environ", "environment changed: %r vs %r: %s" % ([v for v in d1 if v not in d2], [v for v in d2 if v not in d1], what))
            elif k == "fd":
                h, w_ = have[k], want[k]
                if sorted(h) != sorted(w_):
                    raise Violation("fds", "descriptors in the command: %r, expected only %r: %s" % (sorted(set(h) - set(w_)), sorted(set(w_) - set(h)), what))
            elif k in ("kids", "sid", "pg"): pass
            elif have[k] != want[k]:
                raise Violation("state", "%s is %r in the command, originally %r: %s" % (k, have[k], want[k], what))
        if have["kids"] != ["1"]: raise Violation("zombie", "bfs has %s children while one command runs: %s" % (have["kids"][0], what))
        if have["sid"] != ["1"] or have["pg"] != ["1"]: raise Violation("group", "the command is in another session or process group: %s" % what)
        if not act.startswith("execdir") and x.cwd != (cwd.st_dev, cwd.st_ino): raise Violation("cwd", "working directory changed: %s" % what)
        c.count("commands"); c.count("descriptors inspected", len(have["fd"]))
    if shimenv:
        for x in S.readlog(slog):
            if x[0] == "Z": raise Violation("zombie", "a child was never waited for: %s" % what)
    if recs: c.seen(act, sorted(map(int, ign)), sorted(map(int, blk)), soft, leak, bool(shimenv), len(extra), flags)
    c.sample(what[:250] + " -> %d commands" % len(recs))

def norm(state):
    d = {}
    for s in state:
        k, _, v = s.partition("=")
        if k == "fd":
            n, t, cl, fl = v.split(":")
            # pipes and files of the standard streams differ between runs; what matters is which are open
            d.setdefault("fd", []).append((int(n), "std" if int(n) < 3 else S.unhex(t)))
        elif k == "env": d.setdefault("env", []).append(S.unhex(v))
        elif k == "st": n, _, w = v.partition(":"); d["st:" + n] = w
        elif k == "rl": n, _, w = v.partition(":"); d["rl:" + n] = w
        else: d.setdefault(k, []).append(v)
    d["env"] = sorted(d.get("env", [])); d.setdefault("fd", [])
    return d
