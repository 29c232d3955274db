"""C14: -exec ... {} +."""
from execs import *
PROP, LEVEL = "C14", "exploration"
CASES = {"quick": 350, "thorough": 8000}
RULE = "each run with at least one batch counts once by (number of batches, limits, faults, expression, tree size)"
TECHNIQUE = "runtime monitoring: recorder program logs every batch; offline conservation/order checker against the evaluation log; injected E2BIG, spawn and exit failures"

def grow(c, rng, n):
    os.chdir(c.dir); os.mkdir("t")
    dirs = [b"t"]
    ln = rng.choice([2, 8, 40, 120, 250])
    for i in range(n):
        d = rng.choice(dirs)
        nm = b"%d" % i
        if rng.random() < .7: nm += bytes(rng.choice(b"abcXYZ0189 _-'\n\"\\$\xc3\xff") for _ in range(rng.randrange(0, max(1, ln - len(nm)))))
        p = d + b"/" + nm
        if rng.random() < .1 and len(p) < 1500: os.mkdir(p); dirs.append(p)
        else: open(p, "w").close()

def case(c):
    rng = c.rng
    n = rng.choice([3, 10, 30, 100, 300, 1000] if rng.random() < .95 else [4000])
    grow(c, rng, n)
    for _ in range(3 if n <= 300 else 1): one(c, rng, n)

def one(c, rng, n):
    log = newreclog(c)
    slog = S.newlog(c.dir + "/slog", 1 << 20)
    env = {"REC_LOG": log, "LD_PRELOAD": c.env.data["shim"], "VP_LOG": slog}
    kw = {}
    k = rng.choice([1, 1, 2, 3])
    seqs, acts = [], []
    cap = None
    mode = rng.choice(["none", "none", "stack", "e2big", "e2big", "e2big", "spawn"])
    if rng.random() < .3: cap = "stack"; kw["stack"] = rng.choice([1 << 19, 1 << 20])
    if mode == "stack":
        kw["stack"] = rng.choice([1 << 18, 1 << 19, 600000])
        env["PADDING"] = "p" * rng.choice([60000, 100000, 118000, 122000])
    if mode == "e2big":
        env["VP_E2BIG"] = str(rng.choice([60, 100, 150, 300, 500, 1000, 3000, 8000, 20000, 60000]))
    if mode == "spawn":
        env["VP_FAIL"] = S.fail(("spawn", rng.choice([str(rng.randrange(3)), "%d/2" % rng.randrange(2)]), errno.EAGAIN))
    for i in range(k):
        seq = c.dir + "/seq%d" % i
        with open(seq, "wb"): pass
        os.chmod(seq, 0o666)
        fixed = [rng.choice([b"a", b"", b"-x", b"x y", b"$z", b"l" * 200, b"{", b"+", b"\xff"]) for _ in range(rng.choice([0, 0, 1, 3]))]
        modes = rng.choice(["", "", "h2", "h5", "x1", "k9"])
        cond = rng.choice([[], [], ["-type", "f"], ["-name", "*1*"], ["!", "-name", "*[ab]*"], ["-false"]])
        seqs.append((seq, fixed, modes))
        acts += cond + ["-fprintf", seq, "%p\\0", "-exec", c.env.data["rec"], "%d:%s" % (i, modes)] + fixed + ["{}", "+"]
        # the action itself is always true
        acts += ["-printf", "%d:%%p\\0" % i]
        if i + 1 < k: acts += [","]
    if rng.random() < .1: acts += [",", "-name", "*%d" % rng.randrange(10), "-quit"]
    argv = ["-j%d" % rng.choice([1, 2, 4])] + rng.choice([[], ["-S", "dfs"], ["-S", "ids"], ["-s"]]) + rng.choice([["t"], ["t"], ["."], [c.dir + "/t"]]) + rng.choice([[], [], ["-depth"]]) + ["-mindepth", "1"] + acts
    if "." in argv:
        kw["cwd"] = c.dir + "/t"
    r = c.bfs(argv, env=env, **kw)
    what = shq(r.argv)[:1500] + " %r %r" % ({a: b[:40] for a, b in env.items() if a.startswith(("VP_", "PAD"))}, kw)
    recs = readrec(log)
    ev = S.readlog(slog)
    nb = sum(1 for x in ev if x[0] == "B"); nf = sum(1 for x in ev if x[0] == "F")
    truth = collections.Counter(split0(r.out))
    anyfail, lost = False, 0
    for i, (seq, fixed, modes) in enumerate(seqs):
        want = split0(open(seq, "rb").read())
        for p in set(want):
            if truth[b"%d:" % i + p] != want.count(p) and want.count(p) == 1: raise Violation("truth", "-exec ... + was not true for %r: %s" % (p, what))
        mine = [x for x in recs if int(x.id) == i]
        got = []
        for x in mine:
            if x.args[:len(fixed)] != fixed or x.argv[0] != c.env.data["rec"].encode(): raise Violation("fixed", "fixed arguments changed to %r: %s" % (x.argv[:2 + len(fixed)], what))
            if len(x.args) == len(fixed): raise Violation("empty", "an invocation without files: %s" % what)
            if x.status != 0: anyfail = True
            got += x.args[len(fixed):]
        # files that cannot fit even alone, or batches whose process could not be created, are the only ones that may be missing
        def alone(p):
            if mode != "e2big": return True
            v = [c.env.data["rec"].encode(), b"%d:%s" % (i, modes.encode())] + fixed + [p]
            return sum(len(a) + 9 for a in v) <= int(env["VP_E2BIG"])
        if mode == "spawn" and nf:
            it = iter(want)
            if not all(p in it for p in got): raise Violation("order", "batch %d: files out of order or made up: %s" % (i, what))
            lost += len(want) - len(got)
        else:
            must = [p for p in want if alone(p)]
            lost += len(want) - len(must)
            if must != got:
                a, b = collections.Counter(must), collections.Counter(got)
                raise Violation("conservation", "%d files were evaluated but %d passed (action %d): missing=%r extra=%r%s: %s" % (
                    len(must), len(got), i, list((a - b).items())[:3], list((b - a).items())[:3], " (order)" if a == b else "", what))
        if mode == "none" and sum(len(p) + 9 for p in want) < 30000 and len(mine) > 1:
            raise Violation("batching", "%d invocations for %d files: %s" % (len(mine), len(want), what))
        if mode != "spawn" and len(mine) > 8 and mode in ("none", "stack"):
            avg = sum(sum(len(p) + 9 for p in x.args) for x in mine) / len(mine)
            if avg < 400: raise Violation("batching", "%d invocations for %d files (average size %d): %s" % (len(mine), len(want), avg, what))
        c.count("batches", len(mine)); c.count("files passed", len(got))
        if want: c.seen(i, len(mine), mode, env.get("VP_E2BIG"), len(want), argv[:6])
    bad = anyfail or lost
    if bad and r.rc == 0: raise Violation("status", "exit status 0 although %s: %s" % ("an invocation failed" if anyfail else "files could not be passed", what))
    if not bad and r.rc != 0: raise Violation("status", "exit status %d without failure (stderr %r): %s" % (r.rc, r.err[:300], what))
    if lost and not r.err: raise Violation("silent", "files that could not be passed were not reported: %s" % what)
    if not bad and r.err: raise Violation("noise", "stderr %r: %s" % (r.err[:300], what))
    c.count("E2BIG rejections", nb); c.count("spawn failures", nf); c.count("files that never fit", lost)
    c.sample("%s -> %d batches, %d rejections" % (shq(r.argv[1:])[:200], len(recs), nb))
