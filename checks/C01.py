from trav import *
PROP, LEVEL = "C01", "exploration"
CASES = {"quick": 700, "thorough": 12000}
RULE = ("Random trees (narrow/deep/wide/bushy, hostile names, all file types, paths beyond PATH_MAX, directories of thousands of entries), random starting "
        "path spellings, every strategy x -j x -s x -depth x descriptor limit x I/O back end, with injected delays and tiny getdents "
        "buffers; printed paths are compared as a multiset with an independent walk. Distinct non-trivial: (shape hash, configuration) with >=2 directories.")

def deep_tree(c, depth, name, extra):
    """A chain deeper than PATH_MAX; returns the expected relative paths."""
    cwd = os.open(".", os.O_RDONLY)
    os.mkdir(b"t"); os.chdir(b"t")
    exp, path = [b"t"], b"t"
    for i in range(depth):
        for e in extra:
            open(e + b"%d" % (i % 10), "w").close()
            exp.append(path + b"/" + e + b"%d" % (i % 10))
        os.mkdir(name)
        os.chdir(name)
        path += b"/" + name
        exp.append(path)
    os.fchdir(cwd); os.close(cwd)
    return exp

def case(c):
    rng = c.rng
    os.chdir(c.dir)
    r = rng.random()
    if r < .04:
        name = b"n" * rng.choice([50, 100, 200, 255])
        exp = deep_tree(c, 5000 // len(name) + rng.randrange(10, 60), name, rng.choice([[], [b"f"], [b"f", b"g"]]))
        for _ in range(3):
            go(c, [b"t"], exp, ("deep", len(name), len(exp)), [])
        return
    if r < .10:
        # many levels, short names: deeper than any small-integer or fixed-table assumption
        depth = rng.choice([62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 520])
        exp = deep_tree(c, depth, rng.choice([b"a", b"dd", b"xyz"]), rng.choice([[], [], [b"f"]]))
        for st in rng.sample(["bfs", "dfs", "ids", "eds"] if depth < 300 else ["bfs", "dfs", "eds"], 2) + ["ids" if depth < 300 else "eds"]:
            go(c, [b"t"], exp, ("levels", depth, len(exp)), [], st)
        return
    if r < .13:
        os.mkdir(b"t")
        n = rng.choice([1500, 4000])
        kind = rng.choice(["short", "long", "dirs"])
        for i in range(n):
            if kind == "dirs" and i % 3 == 0: os.mkdir(b"t/d%d" % i)
            else: open(b"t/" + (b"x" * rng.randrange(0, 240) if kind == "long" else b"f") + b"%d" % i, "w").close()
        files = [f.path for f in walk([b"t"])[0]]
        for _ in range(3):
            go(c, [b"t"], files, ("wide", kind, n), [])
        return
    n = rng.choice([0, 1, 3, 10, 30, 80, 200])
    mktree(c, n, maxdepth=rng.choice([3, 8, 40, 200]), meta=False)
    files, _ = walk([b"t"])
    h = hash(tuple(f.path for f in files))
    for _ in range(6):
        roots = gen_roots(rng, b"t", files)
        exp = [f.path for f in walk(roots)[0]]
        go(c, roots, exp, h, files)

def go(c, roots, exp, h, files, strategy=None):
    rng = c.rng
    cfg = Cfg(c, rng) if not strategy else Cfg(c, rng, strategies=(strategy,), perturb=rng.random() < .2)
    act = rng.choice([["-print0"], ["-printf", "%p\\0"], ["-true", "-print0"]])
    argv = cfg.flags + roots + cfg.globals + act
    r = c.bfs(argv, env=cfg.env, **cfg.kw)
    if r.rc != 0 or r.err:
        raise Violation("status", "search of a readable tree failed (rc=%d): %r: %s nofile=%r" % (r.rc, r.err[:400], shq(r.argv), cfg.kw))
    got = split0(r.out)
    diff_multiset(exp, got, r.argv)
    c.count("visits", len(got)); c.count("cfg " + cfg.perturb); c.count("strategy " + cfg.strategy)
    if len(exp) > 2: c.seen(h, cfg.key())
    c.sample("%s %r -> %d files" % (shq(argv), cfg.env.get("VP_DELAY", ""), len(got)))
