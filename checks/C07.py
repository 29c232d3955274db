from trav import *
PROP, LEVEL = "C07", "exploration"
CASES = {"quick": 1200, "thorough": 10000}
RULE = ("Trees with random modes, owners, sizes (up to sparse exabyte files), hard links and all creatable types; batches of metadata tests with boundary arguments under "
        "-P/-H/-L, every matched set compared with Python's own lstat/stat results. Distinct non-trivial: distinct test that matches some but not all files.")
umasks = [0o022, 0, 0o077, 0o027, 0o777]

def big(c, rng):
    """Sparse files with extreme sizes."""
    for i in range(rng.choice([1, 2, 3])):
        p = b"t/big%d" % i
        n = rng.choice([1 << 32, (1 << 32) - 1, (1 << 40) + 1, (1 << 43), (1 << 44) - 4096, 1 << 31, (1 << 30) + 1, (1 << 20) - 1,
                        (1 << 62) + 5, (1 << 63) - 1, (1 << 63) - 512])
        with open(p, "wb") as f:
            try: f.truncate(n)
            except OSError: pass
            if rng.random() < .5: f.write(b"z")

def t_perm2(umask):
    def gen(rng, w):
        r = rng.random()
        if r < .5: return t_perm(rng, w)
        pre = rng.choice(["", "-", "/", "+"])
        if pre == "+":
            m = rng.choice(w.modes) & rng.choice([0o7777, 0o111, 0o6000, 0o222])
            text, dm, fm = "%o" % m, m, m
        else:
            for _ in range(40):
                text, comp = perm_symbolic(rng, umask)
                dm, fm = comp(True), comp(False)
                hit = [(m == t if pre == "" else m & t == t if pre == "-" else m & t != 0 or not t)
                       for m, t in ((stat.S_IMODE(f.st.st_mode), dm if f.type == "d" else fm) for f in w.files[:40])]
                if any(hit) and not all(hit) and (dm != fm or rng.random() < .3): break
        def fn(f):
            mode, t = stat.S_IMODE(f.st.st_mode), dm if f.type == "d" else fm
            if pre == "": return mode == t
            if pre == "-": return mode & t == t
            return (mode & t) != 0 if t else True
        if pre == "" and text[0] in "-/+" : pre2 = None
        # a leading operator would be read as the prefix
        if pre == "" and text[0] in "+-": return t_perm(rng, w)
        return Test(["-perm", pre + text], fn)
    return gen

def fake(rng, files):
    """Metadata no scratch file system can produce, substituted in statx() results."""
    BIG = [0, 1, 2, 127, 128, 255, 256, 300, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 2]
    for f in rng.sample(files, min(len(files), rng.choice([1, 3, 8]))):
        ino, o = f.lst.st_ino, {}
        for k in rng.sample(["st_ino", "st_nlink", "st_uid", "st_gid", "st_dev", "st_blocks", "st_size"], rng.choice([1, 2, 3])):
            if k in ("st_ino", "st_dev") and f.type == "d": continue     # would look like a loop
            if k == "st_ino": o[k] = rng.choice([rng.choice(files).st.st_ino, rng.choice(BIG), (1 << 32) + rng.choice(BIG), (1 << 62) + 1, (1 << 63) - 4])
            elif k == "st_dev": o[k] = rng.choice([1, 2, 3])
            elif k in ("st_size", "st_blocks"):
                if f.type != "f": continue
                o[k] = rng.choice(BIG + [(1 << 40) + 1, 1 << 50, 3 << 50, (1 << 63) - 1] if k == "st_size" else BIG)
            else: o[k] = rng.choice(BIG)
        if o: FAKE[ino] = o

def case(c):
    FAKE.clear()
    try: case1(c)
    finally: FAKE.clear()

def case1(c):
    rng = c.rng
    os.chdir(c.dir)
    mktree(c, rng.choice([4, 12, 25, 50]), meta=True, loops=False)
    if rng.random() < .3: big(c, rng)
    for i in range(rng.choice([0, 0, 3])):
        # directory links and hidden corner cases
        try: os.symlink(rng.choice([b".", b"..", b"nowhere", b"/dev/null", b"big0", b"t"]), b"t/ln%d" % i)
        except OSError: pass
    if rng.random() < .05:
        os.mkdir(b"t/many")
        open(b"t/many/0", "w").close()
        for i in range(1, rng.choice([255, 256, 257, 300])): os.link(b"t/many/0", b"t/many/%d" % i)
    if rng.random() < .4:
        fake(rng, walk([b"t"])[0])
    for _ in range(4):
        follow = rng.choice("PPHL")
        roots = [b"t"]
        files, errs = walk(roots, follow)
        if errs or any(f.err for f in files):
            follow = "P"; files, errs = walk(roots, follow)
        rt = [f.path for f in files if not f.path.startswith(b"-") and f.depth == 1]
        if rng.random() < .2 and rt and follow == "H":
            roots = rng.sample(rt, min(3, len(rt)))
            files, errs = walk(roots, follow)
            if errs or any(f.err for f in files): continue
        w = World(files); w.follow = follow
        umask = rng.choice(umasks)
        kinds = [t_size, t_size, t_size, t_links, t_inum, t_uid, t_gid, t_user, t_group, t_nouser, t_empty, t_sparse, t_perm2(umask), t_perm2(umask), t_samefile, t_type, t_depthn]
        batch = [gen_test(rng, w, kinds) for _ in range(rng.choice([1, 1, 6, 20, 40]))]
        toks = []
        for i, t in enumerate(batch):
            if i: toks.append(b",")
            toks += t.tokens(rng) + [b"-printf", b"%d:%%p\\0" % i]
        cfg = Cfg(c, rng)
        if FAKE:
            cfg.env.update(LD_PRELOAD=c.env.data["shim"], VP_NOURING="1", VP_FAKESTAT=fakeenv())
            if rng.random() < .3: cfg.env.update(old(rng))
            c.count("substituted metadata")
        if "VP_OLD" in cfg.env: c.count("searches on an old system")
        flag = {"P": rng.choice([["-P"], []]), "H": ["-H"], "L": ["-L"]}[follow]
        r = c.bfs(flag + cfg.flags + roots + cfg.globals + toks, env=cfg.env, umask=umask, **cfg.kw)
        if r.rc != 0 or r.err:
            raise Violation("status", "unexpected failure (rc=%d, stderr=%r): %s" % (r.rc, r.err[:500], shq(r.argv)))
        got = [collections.Counter() for _ in batch]
        for rec in split0(r.out):
            i, p = rec.split(b":", 1)
            got[int(i)][p] += 1
        for i, t in enumerate(batch):
            want = collections.Counter(f.path for f in files if t.ev(f, None))
            if want != got[i]:
                m, x = list((want - got[i]).items())[:3], list((got[i] - want).items())[:3]
                ex = (m + x)[0][0]
                raise Violation("meta", "%s: missing %r, unexpected %r (%r %r) umask=%o: %s" % (shq(t.toks), m, x, ex, os.lstat(ex), umask, shq(r.argv)))
            c.count("test " + t.toks[0].decode()); c.count("decisions", len(files))
            if 0 < len(want) < len(files): c.seen(t.toks, follow)
        c.sample(shq(r.argv[1:])[:300])
