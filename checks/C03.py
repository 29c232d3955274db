from trav import *
PROP, LEVEL = "C03", "exploration"
CASES = {"quick": 700, "thorough": 12000}
RULE = ("Random trees searched with -s under every strategy, with and without -depth, 1-16 threads, both I/O back ends, injected delays, tiny getdents "
        "buffers and low descriptor limits; the whole output must equal the order the strategy defines over sorted directories. "
        "Distinct non-trivial: (tree, configuration) with >= 3 files.")

def case(c):
    rng = c.rng
    os.chdir(c.dir)
    n = rng.choice([2, 6, 15, 40, 120])
    mktree(c, n, maxdepth=rng.choice([2, 5, 20]), special=False)
    files, _ = walk([b"t"])
    h = hash(tuple(f.path for f in files))
    for _ in range(3):
        roots = gen_roots(rng, b"t", files)
        strat, post = rng.choice(["bfs", "dfs", "ids", "eds"]), rng.random() < .35
        exp = sim_order(roots, strat, post)
        for _ in range(3):
            cfg = Cfg(c, rng, strategies=[strat], sort=True, post=post)
            r = c.bfs(cfg.flags + roots + cfg.globals + ["-print0"], env=cfg.env, **cfg.kw)
            if r.rc != 0 or r.err:
                raise Violation("status", "search failed (rc=%d): %r: %s" % (r.rc, r.err[:400], shq(r.argv)))
            got = split0(r.out)
            if got != exp:
                i = next((i for i, (a, b) in enumerate(zip(exp, got)) if a != b), min(len(exp), len(got)))
                raise Violation("order", "-s order differs at %d: expected %r, got %r: %s %r" % (i, exp[i:i + 3], got[i:i + 3], shq(r.argv), cfg.env))
            c.count("positions", len(got)); c.count("%s%s" % (strat, " -depth" if post else ""))
            if len(got) >= 3: c.seen(h, cfg.key(), tuple(roots))
            c.sample(shq(r.argv[1:]) + " -> %d in order" % len(got))
