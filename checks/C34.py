"""C34: diagnostics and informational requests never change what bfs does."""
import trav, C05, pty
from trav import *
PROP, LEVEL = "C34", "exploration"
CASES = {"quick": 600, "thorough": 15000}
RULE = "each (added options, expression shape, strategy, threads) whose output was not empty counts once, and each informational request in a distinct command line"
TECHNIQUE = ("runtime monitoring, metamorphic: the same search runs with and without debugging, warning and compatibility options (plain and ASan+UBSan builds); output, files written, commands run "
             "and status must be the same and whatever is added goes to standard error; informational requests placed anywhere in a command line with dangerous actions must do nothing else")
VARIANTS = ("plain", "asan", "nouring")
DBG = ["cost", "exec", "opt", "rates", "search", "stat", "tree", "all"]

def extras(rng):
    """(flags before the paths, options in the expression)"""
    f, g = [], []
    k = rng.random()
    if k < .75:
        n = rng.choice([1, 1, 2, 3, 8])
        v = ",".join(rng.choice(DBG) for _ in range(n))
        f += rng.choice([["-D", v], ["-D" + v]])
        if rng.random() < .1: f += ["-D", rng.choice(DBG)]
    if rng.random() < .3: g.append("-warn")
    if rng.random() < .2: g.append("-nowarn")
    if rng.random() < .2: g.append("-noleaf")
    if rng.random() < .2: g.append("-nocolor")
    if rng.random() < .1: g.append("-status")
    if rng.random() < .1: f.append("-O%d" % rng.randrange(4))
    if not f and not g: f = ["-Dall"]
    return f, g

def case(c):
    rng = c.rng
    os.chdir(c.dir)
    if rng.random() < .2: return info(c, rng)
    follow = rng.choice("PPPHL")
    w, roots = small_world(c, n=rng.choice([4, 10, 30]), follow=follow, special=rng.random() < .5)
    if rng.random() < .2:
        for f in w.files:
            if f.type == "d" and f.depth and rng.random() < .2: os.chmod(f.path, 0o311)
    if rng.random() < .3: roots = roots + rng.choice([[b"t/no such file"], [b"./t"], [rng.choice([f.path for f in w.files if not f.path.startswith(b"-")])]])
    for k in range(4): one(c, rng, w, roots, follow, k)

def one(c, rng, w, roots, follow, k):
    tests = C05.corr_tests(rng, w)
    st = {"n": 0}
    nact = rng.choice([0, 1, 2, 3])
    def leaf():
        r = rng.random()
        if r < .3 and st["n"] < nact:
            i = st["n"]; st["n"] += 1
            k = rng.random()
            if k < .6: return Act(["-printf", "%d:%%p\\0" % i], i)
            if k < .75: return Act(["-exec", "printf", "%s\\0", "e%d" % i, "{}", ";"], i)
            if k < .85: return Act(["-exec", "printf", "%s\\0", "p{}", ";"], i)
            if k < .92: return Act(["-execdir", "printf", "%s\\0", "{}", "+"], i)
            return Act(["-fprintf", "@o%d" % i, "%p\\0"], i)
        if r < .34: return Act(["-prune"], None, fn=lambda f, ctl: True)
        return tests()
    e = gen_expr(rng, leaf, rng.choice([1, 2, 3, 5, 8, 12]))
    toks = list(e.tokens(rng))
    g = []
    if rng.random() < .15: g += ["-maxdepth", str(rng.randrange(4))]
    if rng.random() < .1: g += ["-mindepth", str(rng.randrange(3))]
    if rng.random() < .1: g += ["-exclude", "-name", "*a*"]
    if rng.random() < .1: g += ["-xdev"]
    cfg = Cfg(c, rng, perturb=rng.random() < .5)
    if rng.random() < .2 and cfg.j == 1: g += ["-unique"]         # (otherwise which of several links counts is up to chance)
    xf, xg = extras(rng)
    variant = rng.choice(["plain", "plain", "asan", "nouring"])
    env = dict(cfg.env)
    if variant == "asan": env.pop("LD_PRELOAD", None); cfg.kw.pop("nofile", None)
    res = []
    for i, (f, gg) in enumerate((([], []), (xf, xg))):
        d = os.path.join(c.dir, "o%d" % i)
        shutil.rmtree(d, ignore_errors=True); os.mkdir(d); os.chown(d, UID, GID)
        pl = [os.path.join(d, os.fsdecode(t)[1:]) if os.fsdecode(t)[:2] == "@o" else t for t in toks]
        r = c.bfs(cfg.flags + f + (["-" + follow] if follow != "P" else []) + roots + cfg.globals + g + gg + ["("] + pl + [")"], variant=variant, env=env, **cfg.kw)
        files = {n: collections.Counter(open(os.path.join(d, n), "rb").read().split(b"\0")) for n in os.listdir(d)}
        res.append((r, files))
    (a, fa), (b, fb) = res
    exact = cfg.j == 1 and not any(isinstance(t, str) and t.startswith("-execdir") for t in map(os.fsdecode, toks))
    what = shq(b.argv)
    ca, cb = collections.Counter(a.out.split(b"\0")), collections.Counter(b.out.split(b"\0"))
    if b"\n" in a.out and st["n"] == 0:
        ca, cb = collections.Counter(a.out.split(b"\n")), collections.Counter(b.out.split(b"\n"))
    if ca != cb: raise Violation("output", "only without %r: %r; only with: %r: %s" % (xf + xg, list((ca - cb).items())[:3], list((cb - ca).items())[:3], what))
    if exact and a.out != b.out: raise Violation("order", "the order of the output changes with %r: %s" % (xf + xg, what))
    if fa != fb: raise Violation("files", "files written differ with %r: %s" % (xf + xg, what))
    if a.rc != b.rc: raise Violation("status", "status %d becomes %d (%r) with %r: %s" % (a.rc, b.rc, b.err[-300:], xf + xg, what))
    # diagnostics are only ever added, on standard error
    ea, eb = collections.Counter(a.err.split(b"\n")), collections.Counter(b.err.split(b"\n"))
    if ea - eb and not xf: raise Violation("stderr", "diagnostics lost with %r: %r: %s" % (xf + xg, list((ea - eb).items())[:3], what))
    c.count("compared searches"); c.count("records", sum(ca.values())); c.count("debug bytes", len(b.err))
    for x in ",".join(t for t in xf if not t.startswith("-O")).replace("-D", "").split(","):
        if x: c.count("-D " + x)
    for x in xg: c.count(x)
    if b.out: c.seen(tuple(xf + xg), tuple(toks)[:8], cfg.key(), variant)
    c.sample(what + " -> %d bytes of diagnostics" % len(b.err))

INFO = [["--help"], ["-help"], ["--version"], ["-version"], ["-D", "help"], ["-Dhelp"], ["-S", "help"], ["-regextype", "help"]]
TEXT = {"--help": rb"Usage", "-help": rb"Usage", "--version": rb"\d+\.\d+", "-version": rb"\d+\.\d+", "-D": rb"debug flags", "-Dhelp": rb"debug flags", "-S": rb"bfs.*dfs|strateg", "-regextype": rb"posix-extended"}

def info(c, rng):
    """Informational requests: printed on standard output, status 0, and nothing else happens."""
    mktree(c, rng.choice([3, 10]), special=False)
    subprocess.run(["chown", "-hR", "%d:%d" % (UID, GID), "t"], check=True)
    os.chown(c.dir, UID, GID)
    before = snapshot(b"t")
    for _ in range(5):
        req = rng.choice(INFO)
        parts = [[b"t"]] + [rng.choice([["-delete"], ["-exec", "touch", "marked", ";"], ["-print0"], ["-name", "*"], ["-type", "f"], ["-exec", "rm", "-rf", "{}", "+"], ["-printf", "X%p\\n"], ["-not"] , ["-o"]]) for _ in range(rng.randrange(0, 4))]
        parts = [p for p in parts if p not in (["-not"], ["-o"])]
        parts.insert(rng.randrange(len(parts) + 1), req)
        flat = [x for p in parts for x in p]
        variant = rng.choice(["plain", "asan"])
        tty_ = rng.random() < .25
        env = {}
        if tty_:
            # on a terminal --help goes through a pager
            env = {"PAGER": rng.choice(["cat", "/bin/cat", "no-such-pager"]), "TERM": "dumb"}
            m, s = os.openpty(); os.fchmod(s, 0o666)
            import threading, select
            data, stop = [], threading.Event()
            def pump():
                while True:
                    if select.select([m], [], [], .02)[0]:
                        try: data.append(os.read(m, 65536))
                        except OSError: return
                    elif stop.is_set(): return
            t = threading.Thread(target=pump); t.start()
            try: r = c.bfs(flat, variant=variant, env=env, stdout=s)
            finally: stop.set(); t.join(); os.close(s); os.close(m)
            out = re.sub(rb"\x1b\[[0-9;]*[mK]", b"", b"".join(data))
        else:
            r = c.bfs(flat, variant=variant)
            out = r.out
        what = "%s%s" % (shq(r.argv), " on a terminal %r" % env if tty_ else "")
        if r.rc != 0: raise Violation("info-status", "status %d, stderr %r: %s" % (r.rc, r.err[:200], what))
        if snapshot(b"t") != before or os.path.exists("marked"): raise Violation("info-effects", "an informational request changed files: %s" % what)
        if not re.search(TEXT[req[0]], out): raise Violation("info-text", "no %s text: %r: %s" % (req[0], out[:200], what))
        if re.search(rb"^X?t(/|$|\0)", out, re.M): raise Violation("info-effects", "an informational request went on to search: %r: %s" % (out[:300], what))
        c.count("informational requests"); c.count("info:" + req[0]); c.count("on a terminal", tty_)
        c.seen("info", tuple(map(str, flat)), tty_)
