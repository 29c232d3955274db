"""C15: -execdir and -okdir."""
from execs import *
PROP, LEVEL = "C15", "exploration"
CASES = {"quick": 600, "thorough": 12000}
RULE = "each run whose commands ran in at least two directories counts once (tree x starting paths x action x strategy)"
TECHNIQUE = "runtime monitoring: recorder program logs working directory and the identity of each argument as seen from there; offline checker"

def parent_of(path):
    p = path.rstrip(b"/")
    if not p: return b"/"
    d = p[:p.rfind(b"/") + 1] if b"/" in p else b""
    return d or b"."

def case(c):
    rng = c.rng
    w, roots = small_world(c, rng.choice([5, 12, 25, 60]), names=rng.choice(["mixed", "plain"]), loops=rng.random() < .5)
    if rng.random() < .2:
        # many directories, to recycle cached descriptors
        for i in range(rng.choice([20, 60])):
            os.makedirs("t/dd%d/x" % i); open("t/dd%d/f" % i, "w").close()
    for _ in range(3): one(c, rng, w)

def one(c, rng, w):
    os.chdir(c.dir)
    files = w.files
    roots = gen_roots(rng, b"t", files)
    if rng.random() < .25:
        # several starting paths in the same (unreadable?) directory
        ds = [f.path for f in files if f.type == "d" and os.listdir(f.path)]
        d = rng.choice(ds) if ds else b"t"
        roots = [d + b"/" + n for n in os.listdir(d)[:4]]
    roots = [r for r in roots if not r.startswith(b"-")] or [b"t"]
    if rng.random() < .03: roots = [rng.choice([b"/", b"//", b"/.", b"/tmp/..", b"..", b"../..", b"/etc/.."])]
    cwd = c.dir
    g = []
    if not roots[0].startswith(b"t") and roots[0].strip(b"/.") in (b"", b"tmp", b"etc") and roots[0] != b".":
        if roots[0][:1] == b"/" or roots[0].startswith(b".."): g = ["-maxdepth", "0"]
    log = newreclog(c)
    seq = c.dir + "/seq"
    with open(seq, "wb"): pass
    os.chmod(seq, 0o666)
    cfg = Cfg(c, rng)
    env = dict(cfg.env); env["REC_LOG"] = log
    multi = rng.random() < .5
    ok = not multi and rng.random() < .1
    modes = rng.choice(["s", "s", "sh2", "sx1"])
    cmd = c.env.data["rec"]
    if rng.random() < .2: cmd = "rec"; env["PATH"] = c.env.bindir + ":/usr/bin"
    e2big = multi and rng.random() < .3
    if e2big:
        # room for a few files only, which bfs learns from E2BIG
        env["LD_PRELOAD"] = c.env.data["shim"]
        one = max([len(os.path.basename(f.path.rstrip(b"/"))) for f in files] + [len(x) for x in roots] + [4]) + 2 + 9
        env["VP_E2BIG"] = str(sum(len(x) + 9 for x in (cmd, "0:" + modes)) + one * rng.choice([1, 1, 2, 3, 6]))
    follow = rng.choice("PPHL")
    if follow == "L" and (g or any(f.type == "l" and os.path.isdir(f.path) for f in files) or walk(roots, "L")[1]): follow = "P"
    cond = rng.choice([[], [], ["-type", "f"], ["-name", "*1*"], ["-type", "d"], ["!", "-name", "*a*"]])
    tail = ["-fprintf", seq, "%p\\0", "-okdir" if ok else "-execdir", cmd, "0:" + modes, "{}"]
    if not multi and rng.random() < .3: tail += ["pre{}"]
    extra = len(tail) - 7
    tail += ["+"] if multi else [";"]
    tail += ["-printf", "%p\\0"]
    perm = None
    if rng.random() < .3 and len(roots) > 1 and all(b"/" in r.strip(b"/") for r in roots):
        d = parent_of(roots[0])
        if parent_of(roots[1]) == d and d.rstrip(b"/") not in (b"t", b".", b"..", c.dir.encode()) and d.startswith(b"t/"):
            perm = (d, os.stat(d).st_mode); os.chmod(d, 0o711)
    # (prepare: relative starting paths searched from the case directory)
    argv = {"P": [], "H": ["-H"], "L": ["-L"]}[follow] + cfg.flags + roots + cfg.globals + g + cond + tail
    try:
        r = c.bfs(argv, env=env, stdin=b"y\n" * 2000 if ok else b"", **cfg.kw)
    finally:
        if perm: os.chmod(perm[0], stat.S_IMODE(perm[1]))
    what = shq(r.argv)[:1200] + " %r %r" % ({a: b for a, b in env.items() if a.startswith("VP_")}, cfg.kw)
    want = split0(open(seq, "rb").read())
    true = collections.Counter(split0(r.out))
    recs = readrec(log)
    if perm: return restricted(c, r, want, recs, what)
    if r.rc == 1 and cfg.kw and b"Too many open files" in r.err: raise Inconclusive("descriptor limit too low: " + what)
    fails = sum(1 for x in recs if x.status)
    if (r.rc != 0) != (multi and fails > 0): raise Violation("status", "rc=%d with %d failed commands (stderr %r): %s" % (r.rc, fails, r.err[:300], what))
    if r.err and not ok: raise Violation("noise", "stderr %r: %s" % (r.err[:300], what))
    got = [(x, i, a) for x in recs for i, a in enumerate(x.args) if not (extra and i == 1)]
    if len(got) != len(want):
        raise Violation("conservation", "%d files evaluated, %d passed: %s" % (len(want), len(got), what))
    # one directory at a time: batches may be flushed at any time, but the files' order within a directory is kept
    for (x, i, a), p in zip(got, want):
        base = p.rstrip(b"/")
        base = base[base.rfind(b"/") + 1:]
        wantarg = b"./" + base if base else None
        if wantarg and a.rstrip(b"/") != wantarg: raise Violation("argument", "{} was %r for %r, expected %r: %s" % (a, p, wantarg, what))
        if not wantarg and a.strip(b"/"): raise Violation("argument", "{} was %r for %r: %s" % (a, p, what))
        pd = os.stat(parent_of(p))
        if x.cwd != (pd.st_dev, pd.st_ino): raise Violation("cwd", "the command for %r ran elsewhere: %s" % (p, what))
        if x.ids[i] is None or x.ids[i] != ident_of(p): raise Violation("identity", "argument %r does not name %r from the working directory: %s" % (a, p, what))
        if extra and x.args[1] != b"pre" + a: raise Violation("argument", "second substitution %r: %s" % (x.args[1], what))
    exp = collections.Counter()
    if multi: exp = collections.Counter(want)
    else:
        for (x, i, a), p in zip(got, want):
            if x.status == 0: exp[p] += 1
    if exp != true: raise Violation("truth", "truth value wrong for %r: %s" % (list(((exp - true) + (true - exp)).items())[:3], what))
    if multi and len(recs) > 1 and not e2big:
        # batched: consecutive files of one directory share an invocation
        runs = 1 + sum(1 for a, b in zip(want, want[1:]) if parent_of(a) != parent_of(b))
        if len(recs) > 2 * runs + 2: raise Violation("batching", "%d invocations for %d directory changes: %s" % (len(recs), runs, what))
    if e2big: c.count("runs with E2BIG", len(recs))
    nd = len({x.cwd for x in recs})
    c.count("commands", len(recs)); c.count("files passed", len(got)); c.count("directories", nd)
    if nd > 1: c.seen(argv, len(files))
    c.sample(shq(r.argv[1:])[:200] + " -> %d commands in %d directories" % (len(recs), nd))

def restricted(c, r, want, recs, what):
    """The parent can be searched but not read: either it works or each failure is reported."""
    n = sum(len(x.args) for x in recs)
    if n < len(want) and (r.rc == 0 or not r.err): raise Violation("silent", "%d of %d files passed, rc=%d: %s" % (n, len(want), r.rc, what))
    c.count("unreadable parents"); c.count("unreadable parents, failures reported", r.rc != 0)
