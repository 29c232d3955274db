from common import *
PROP, LEVEL = "C05", "exploration"
CASES = {"quick": 750, "thorough": 15000}
RULE = ("Random expressions whose tests are drawn from few values so that they contradict, imply and repeat each other, with "
        "record-emitting actions, -prune/-quit/-exit/-limit, -exclude and depth limits, run at -O0..-O3 (sorted, one order); byte output and status "
        "must agree between levels and with the independent model. Non-trivial: distinct expression with >=3 leaves.")

def corr_tests(rng, w):
    """Correlated tests: a few values per property so data flow facts interact."""
    files = w.files
    s0 = rng.choice(w.sizes); l0 = rng.choice(w.links); u0 = rng.choice(w.uids); g0 = rng.choice(w.gids); d0 = rng.choice(w.depths)
    i0 = rng.choice(w.inos); m0 = rng.choice(w.modes)
    def ints(name, v, get):
        def gen():
            s = sgn(rng); n = max(0, v + rng.choice([-2, -1, 0, 0, 1, 2]))
            return Test([name, "%s%d" % (s, n)], lambda f: cmp(s, get(f), n))
        return gen
    def size():
        u = rng.choice(["", "c", "c", "k", "k", "M", "w"]); un = UNITS[u]; s = sgn(rng)
        n = max(0, -(-s0 // un) + rng.choice([-1, 0, 0, 1]))
        return Test(["-size", "%s%d%s" % (s, n, u)], lambda f: cmp(s, -(-f.st.st_size // un), n))
    # (symbolic links and what they point to)
    letters = [rng.choice(["l", "l", "f", "d", "l,f", "l,d", "f,d", "p", "f,p"]) for _ in range(2)]
    def types():
        if rng.random() < .4: return t_type(rng, w)
        l, x = rng.choice(letters + ["l"]), rng.random() < .5
        return Test(["-xtype" if x else "-type", l], (lambda f: f.xtype() in l.split(",")) if x else (lambda f: f.type in l.split(",")))
    def access():
        m, o, bit = rng.choice([(os.R_OK, "-readable", 4), (os.W_OK, "-writable", 2), (os.X_OK, "-executable", 1)])
        return Test([o], lambda f: user_access(f, bit))
    pool = [lambda: t_const(rng, w), types, types, types, types, types, size, size, size, lambda: t_empty(rng, w), lambda: t_empty(rng, w),
            ints("-links", l0, lambda f: f.st.st_nlink), ints("-links", l0, lambda f: f.st.st_nlink),
            ints("-uid", u0, lambda f: f.st.st_uid), ints("-gid", g0, lambda f: f.st.st_gid), ints("-uid", u0, lambda f: f.st.st_uid),
            ints("-inum", i0, lambda f: f.st.st_ino), ints("-depth", d0, lambda f: f.depth), ints("-depth", d0, lambda f: f.depth),
            ints("-depth", d0 + 1, lambda f: f.depth),
            lambda: t_user(rng, w), lambda: t_group(rng, w), lambda: t_nouser(rng, w), lambda: t_nouser(rng, w),
            lambda: t_samefile(rng, w), lambda: t_lname(rng, w), lambda: t_name(rng, w), lambda: t_hidden(rng, w), lambda: t_hidden(rng, w),
            lambda: t_sparse(rng, w), lambda: t_perm(rng, w), lambda: t_newer(rng, w), access, access]
    sub = rng.sample(pool, min(len(pool), rng.choice([2, 3, 5, 8, 30])))
    if rng.random() < .55:
        # tests that tell about the same property in different words
        L, U, G, D = (ints("-links", l0, lambda f: f.st.st_nlink), ints("-uid", u0, lambda f: f.st.st_uid), ints("-gid", g0, lambda f: f.st.st_gid), ints("-depth", d0, lambda f: f.depth))
        def lname():
            if rng.random() < .3: return t_lname(rng, w)
            pat = rng.choice([b"*", b"*", b"*" + rng.choice(w.targets)[-1:].replace(b"\\", b"?").replace(b"[", b"?"), b"?*", b"/*"])
            return Test(["-lname", pat], lambda f: f.type == "l" and pmatch(pat, f.target(), False))
        sub = rng.choice([[types], [types], [types, lname], [types, lname], [types, lname], [types, lname, L], [types, L], [types, types, L], [types, L, lambda: t_samefile(rng, w)], [types, lambda: t_empty(rng, w), size],
                          [types, lambda: t_empty(rng, w)], [U, lambda: t_user(rng, w), lambda: t_nouser(rng, w)], [G, lambda: t_group(rng, w), lambda: t_nouser(rng, w)],
                          [D, types], [lambda: t_perm(rng, w), access, types], [size, lambda: t_sparse(rng, w), types], [types, lambda: t_perm(rng, w)],
                          [ints("-inum", i0, lambda f: f.st.st_ino), lambda: t_samefile(rng, w)], [lambda: t_name(rng, w), lambda: t_hidden(rng, w)]])
    cache = []
    def leaf():
        if cache and rng.random() < .25:
            return rng.choice(cache)
        t = rng.choice(sub)()
        cache.append(t)
        return t
    return leaf

def flat_expr(rng, leaf, size, f0=None):
    """One long chain, mostly negated or mostly not (De Morgan's laws apply in either direction).
    With a witness file f0, a conjunction is true and a disjunction false of f0, so that any wrong
    conclusion of the data flow analysis about the later tests shows."""
    pn = rng.choice([0, 0, .2, .5, .8, 1])
    op = rng.choice(["and", "and", "or"])
    def one():
        neg = rng.random() < pn
        for _ in range(8):
            x = leaf()
            if f0 is None or isinstance(x, Act): break
            try:
                if (x.ev(f0, Ctl()) != neg) == (op == "and"): break
            except (StatError, OSError):
                break
        return Not(x) if neg else x
    e = one()
    for _ in range(size - 1): e = Bin(op, e, one())
    return Not(e) if rng.random() < .2 else e

def witness(rng, w):
    kinds = collections.defaultdict(list)
    for f in w.files:
        try: kinds[f.type, f.xtype() if f.type == "l" else f.st.st_nlink > 1].append(f)
        except (StatError, OSError): pass
    if not kinds: return None
    return rng.choice(rng.choice(list(kinds.values())))

def user_access(f, bit):
    """access(2) for the unprivileged user (no groups beyond GID)."""
    try:
        st = os.stat(f.path)
    except OSError:
        return False
    m = st.st_mode
    if st.st_uid == UID: m >>= 6
    elif st.st_gid == GID: m >>= 3
    return bool(m & bit)

def case(c):
    rng = c.rng
    follow = rng.choice("PPPHL")
    w, roots = small_world(c, n=rng.choice([4, 10, 20]), follow=follow, special=rng.random() < .5)
    if rng.random() < .6:
        # more symbolic links
        files = walk([b"t"], "P")[0]
        for i in range(rng.choice([1, 2, 4])):
            to = rng.choice(files)
            if follow == "L" and to.type == "d": continue
            os.symlink(os.path.join(os.getcwdb(), to.path), b"t/link%d" % i)
            if rng.random() < .3: os.link(b"t/link%d" % i, b"t/twin%d" % i, follow_symlinks=False)
        w = World(walk([b"t"], follow)[0]); w.follow = follow
    if rng.random() < .3:
        # owners next to others that exist or do not
        for f in walk([b"t"], "P")[0]:
            if f.type != "d": os.chown(f.path, rng.choice([65533, 65534, 65535, 999, 998, 10, 11, -1]), rng.choice([65533, 65534, 65535, 1000, 1001, 998, 997, -1]), follow_symlinks=False)
        w = World(walk([b"t"], follow)[0]); w.follow = follow
    if rng.random() < .3:
        files = walk([b"t"], "P")[0]
        roots = [rng.choice(files).path]
        r2 = rng.choice(files).path
        if not (r2 + b"/").startswith(roots[0] + b"/") and not roots[0].startswith(r2 + b"/"):
            roots.append(r2)
    for _ in range(5):
        one(c, w, roots, follow)
    for _ in range(2):
        one(c, w, roots, follow, wide=True)

def one(c, w, roots, follow, wide=False):
    rng = c.rng
    tests = corr_tests(rng, w)
    st = {"n": 0, "ctl": 0, "x": 0}
    nact = rng.choice([0, 1, 2, 3])
    def leaf():
        r = rng.random()
        if r < .3 and st["n"] < nact:
            i = st["n"]; st["n"] += 1
            return Act(["-printf", "%d:%%p\\0" % i], i)
        if r < .34:
            def fn(f, ctl): ctl.prune = True; return True
            return Act(["-prune"], None, fn=fn)
        if r < .36 and not st["ctl"]:
            st["ctl"] = 1
            if rng.random() < .5:
                def fn(f, ctl): ctl.stop = True; return True
                return Act(["-quit"], None, fn=fn)
            k = rng.randrange(0, 5)
            def fn(f, ctl): ctl.stop = True; ctl.exit = k; return True
            return Act(["-exit", str(k)], "exit", fn=fn)
        if r < .38 and st["x"] < 2:
            st["x"] += 1
            v = rng.random() < .5
            def fn(f, ctl): return v
            return Act(["-exec", "true" if v else "false", ";"], None, fn=fn)
        return tests()
    if wide:
        # many independent short chains in one command line
        e = None
        for i in range(25):
            tests = corr_tests(rng, w)
            x = Bin("and", flat_expr(rng, tests, rng.choice([2, 2, 2, 3]), witness(rng, w)), Act(["-printf", "%d:%%p\\0" % i], i))
            e = Bin("comma", e, x) if e else x
    elif rng.random() < .55:
        e = flat_expr(rng, leaf, rng.choice([2, 2, 3, 4]), witness(rng, w) if rng.random() < .85 else None)
    else:
        e = gen_expr(rng, leaf, rng.choice([2, 3, 4, 5, 6, 8]))
    toks = e.tokens(rng)
    pre, post = [b"-" + follow.encode()] if follow != "P" or rng.random() < .2 else [], False
    strat = rng.choice([None, None, "bfs", "dfs", "ids", "eds"])
    if strat: pre += [b"-S", strat.encode()]
    g, mk = [], {}
    if rng.random() < .12: g += [b"-mindepth", b"%d" % rng.randrange(4)]; mk["mindepth"] = int(g[-1])
    if rng.random() < .12: g += [b"-maxdepth", b"%d" % rng.randrange(4)]; mk["maxdepth"] = int(g[-1])
    if rng.random() < .1: g += [b"-depth"]; post = True
    if rng.random() < .15:
        x = gen_expr(rng, tests, rng.choice([1, 1, 2]))
        g += [b"-exclude", b"("] + x.tokens() + [b")"]
        mk["exclude"] = lambda f: x.ev(f, Ctl())
    res = []
    for lvl in (0, rng.choice([1, 2]), 3):
        r = c.bfs([b"-O%d" % lvl, b"-s", b"-j1"] + pre + list(roots) + g + [b"("] + toks + [b")"])
        res.append(r)
        if r.err:
            raise Violation("stderr", "unexpected diagnostics at -O%d: %r: %s" % (lvl, r.err[:300], shq(r.argv)))
    for r in res[1:]:
        if (r.out, r.rc) != (res[0].out, res[0].rc):
            raise Violation("differ", "-O levels disagree: %s\n -O0: rc=%d %r\n this: rc=%d %r" % (
                shq(r.argv), res[0].rc, res[0].out[:400], r.rc, r.out[:400]))
    c.count("expressions")
    if not st["ctl"]:
        try:
            per, implicit, errs, files = model_run(roots, e, follow, post=post, **mk)
        except StatError:
            return
        if not errs:
            if len(set(roots)) == len(roots):
                compare_events(c, res[0], per, implicit)
            c.count("model-checked")
    if sum(1 for x in e.walk() if isinstance(x, (Test, Act))) >= 3:
        c.seen(toks)
    c.sample(shq(res[2].argv[1:]))
