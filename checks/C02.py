from trav import *
PROP, LEVEL = "C02", "exploration"
CASES = {"quick": 600, "thorough": 12000}
RULE = ("Random trees searched with every strategy, -depth, 1-16 threads, both I/O back ends, injected delays, tiny getdents buffers and low descriptor limits; "
        "an online checker reads the visit sequence (depth, path) and checks the ordering rules. Distinct non-trivial: (tree, configuration) with >= 3 levels.")

def case(c):
    rng = c.rng
    os.chdir(c.dir)
    if rng.random() < .06:
        # many levels: a trunk with a few side branches
        p = b"t"
        os.mkdir(p)
        for i in range(rng.choice([63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300])):
            if rng.random() < .1:
                os.mkdir(p + b"/s"); open(p + b"/s/f", "w").close()
            if rng.random() < .1: open(p + b"/g", "w").close()
            p += b"/d"
            os.mkdir(p)
    else:
        mktree(c, rng.choice([3, 8, 20, 60, 150]), maxdepth=rng.choice([3, 6, 20, 60]), special=False)
    files, _ = walk([b"t"])
    h = hash(tuple(f.path for f in files))
    dirs = {f.path for f in files if f.type == "d"}
    for _ in range(8):
        cfg = Cfg(c, rng, sort=False if rng.random() < .8 else True)
        # disjoint starting paths
        roots = [b"t"]
        kids = [f.path for f in files if f.depth == 1 and not f.path.startswith(b"-")]
        if len(kids) > 1 and rng.random() < .4:
            roots = rng.sample(kids, rng.randrange(2, min(len(kids), 4) + 1))
        extra = rng.choice([[], [], ["-type", "d", "-o"], ["-size", "-1c", ","], ["-newermt", "1970-01-01", ","]])
        pre = ["("] + extra + ["-true", ")"] if extra else []
        r = c.bfs(cfg.flags + roots + cfg.globals + pre + ["-printf", "%d %p\\0"], env=cfg.env, **cfg.kw)
        if r.rc != 0 or r.err:
            raise Violation("status", "search failed (rc=%d): %r: %s" % (r.rc, r.err[:400], shq(r.argv)))
        seq = []
        for rec in split0(r.out):
            d, p = rec.split(b" ", 1)
            seq.append((int(d), p))
        check(c, cfg, roots, seq, dirs, r)
        maxd = max((d for d, _ in seq), default=0)
        c.count("visits", len(seq))
        if maxd >= 2: c.seen(h, cfg.key())
        c.sample(shq(r.argv[1:]) + " -> %d visits, depth %d" % (len(seq), maxd))

def check(c, cfg, roots, seq, dirs, r):
    def bad(key, msg):
        raise Violation(key, "%s: %s %r" % (msg, shq(r.argv), cfg.env))
    # 1. parents before children / after them with -depth
    done = set()
    rootset = set(roots)
    for d, p in seq:
        if p in rootset: par = None
        else: par = p[:p.rindex(b"/")]
        if cfg.post:
            if par is not None and par in done: bad("parent", "%r visited after its parent with -depth" % p)
        else:
            if par is not None and par not in done: bad("parent", "%r visited before its parent" % p)
        done.add(p)
    c.count("parent pairs", len(seq))
    one = cfg.j == 1 or "-nofile" in cfg.perturb and False
    depths = [d for d, _ in seq]
    # 2. breadth-first order with one thread; iterative deepening always
    if cfg.strategy == "ids" or (cfg.strategy == "bfs" and (cfg.j == 1 or cfg.sort) and not cfg.post):
        it = depths if not cfg.post else depths[::-1]
        for a, b in zip(it, it[1:]):
            if a > b: bad("levels", "depth goes from %d to %d" % ((a, b) if not cfg.post else (b, a)))
        c.count("level-ordered searches")
    # 3. exponential deepening: ranges 0-1, 1-2, 2-4, ... in order
    if cfg.strategy == "eds":
        band = [d.bit_length() for d, p in seq if not cfg.post or p not in dirs]
        if band != sorted(band): bad("bands", "depth ranges out of order: %r" % depths[:200])
        c.count("band-ordered searches")
    # 4. depth-first with one thread (or -s): every subtree contiguous
    if cfg.strategy == "dfs" and (cfg.j == 1 or cfg.sort):
        open_, closed = [], set()
        for d, p in (seq if not cfg.post else seq[::-1]):
            while open_ and not p.startswith(open_[-1] + b"/"):
                closed.add(open_.pop())
            par = None if p in rootset else p[:p.rindex(b"/")]
            if par is not None and (not open_ or open_[-1] != par):
                bad("subtree", "%r is visited outside its parent's contiguous subtree" % p)
            open_.append(p)
        c.count("depth-first searches")
