from trav import *
PROP, LEVEL = "C10", "exploration"
CASES = {"quick": 1200, "thorough": 10000}
RULE = ("Trees with links to files, directories, ancestors (loops), themselves, each other, nowhere and outside, searched from plain, linked and slash-terminated starting paths with "
        "-P/-H/-L/-follow/-unique under every strategy and perturbation; visited paths, reported types (%y %Y, -type, -xtype, %l) and loop errors are compared with a model "
        "using lstat/stat. Distinct non-trivial: (tree, mode, configuration) with at least one link.")

def mk(c, rng):
    os.chdir(c.dir)
    os.makedirs(b"out/o1/o2"); open(b"out/o1/f", "w").close(); open(b"out/f", "w").close()
    mktree(c, rng.choice([4, 10, 25]), maxdepth=5, links=True)
    files = [f for f in walk([b"t"])[0]]
    dirs = [f.path for f in files if f.type == "d"]
    regs = [f.path for f in files if f.type == "f"] or [b"out/f"]
    links = []
    for i in range(rng.choice([1, 2, 4, 6])):
        d = rng.choice(dirs)
        p = d + b"/L%d" % i
        k = rng.randrange(10)
        if k < 4: t = os.path.relpath(rng.choice(dirs), d)
        elif k == 4: t = os.path.abspath(rng.choice(dirs))
        elif k == 5: t = b"L%d" % i                      # self loop
        elif k == 6: t = os.path.relpath(rng.choice(links), d) if links else b"."
        elif k == 7: t = os.path.relpath(rng.choice([b"out", b"out/o1", b"out/f"]), d)
        elif k == 8: t = rng.choice([b"nowhere", b"nowhere/x", os.path.relpath(rng.choice(regs), d) + b"/x"])
        else: t = os.path.relpath(rng.choice(regs), d)
        os.symlink(t, p); links.append(p)
    return files, links

def letter(path, follow):
    try: return typ(os.stat(path) if follow else os.lstat(path))
    except OSError as e:
        return {errno.ELOOP: "L", errno.ENOENT: "N", errno.ENOTDIR: "N"}.get(e.errno, "?")

def case(c):
    rng = c.rng
    if c.idx == 0:
        return known_probe(c)
    _, links = mk(c, rng)
    allf = walk([b"t"])[0]
    h = hash(tuple(f.path for f in allf))
    for _ in range(6):
        mode = rng.choice(["P", "P", "H", "H", "L", "L", "L", "follow"])
        unique = rng.random() < .3
        follow = "L" if mode == "follow" else mode
        roots = [b"t"]
        if rng.random() < .5:
            roots = [rng.choice(links + [f.path for f in allf]) for _ in range(rng.choice([1, 1, 2]))]
            roots = [r + rng.choice([b"", b"", b"/", b"/."]) for r in roots]
            roots = [r for r in roots if os.path.lexists(r) and not r.startswith(b"-")] or [b"t"]
        try:
            files, errs = walk_capped(roots, follow, unique)
        except OverflowError:
            continue
        cfg = Cfg(c, rng)
        if unique and len(roots) > 1 and cfg.strategy in ("ids", "eds"):
            continue      # see known-findings.txt; probed in case 0
        flags = [] if mode in ("follow",) or (mode == "P" and rng.random() < .5) else ["-" + mode]
        if flags and rng.random() < .2: flags = [rng.choice(["-P", "-H", "-L"])] + flags   # the last one wins
        g = (["-follow"] if mode == "follow" else []) + (["-unique"] if unique else [])
        # -type/-xtype results next to the printed letters
        test = rng.random() < .4
        fmt = "%y%Y%d %p\\0"
        expr = ["-printf", fmt]
        if test:
            x = rng.choice("fdlps"); o = rng.choice(["-type", "-xtype"])
            expr = [o, x] + expr
        r = c.bfs(flags + cfg.flags + roots + cfg.globals + g + expr, env=cfg.env, **cfg.kw)
        argv = shq(r.argv) + " %r" % cfg.env
        got, roots_got = [], set()
        for rec in split0(r.out):
            k, p = rec.split(b" ", 1)
            got.append((k.decode(), p))
        def want(f):
            # a looping link is an error only when it has to be followed
            y = f.type
            Y = letter(f.path, True) if y == "l" else y
            return (y + Y + str(f.depth), f.path)
        sel = files
        if test:
            def m(f):
                if o == "-type": return f.type == x
                if f.followed: t = typ(f.lst)
                else:
                    t = letter(f.path, True)
                    if t in "LN": t = "l"
                return t == x
            sel = [f for f in files if m(f)]
        exp = [want(f) for f in sel]
        if unique:
            # any representative of each identity will do
            ids = lambda ps: collections.Counter((lambda s: (s.st_dev, s.st_ino))(ident(p, follow, k[2:] == "0")) for k, p in ps)
            a, b = ids(exp), ids(got)
            if max(b.values(), default=0) > 1: raise Violation("unique", "a file was visited twice with -unique: %s" % argv)
            if not test and set(a) != set(b):
                raise Violation("unique", "files visited with -unique differ: missing %d extra %d: %s" % (len(set(a) - set(b)), len(set(b) - set(a)), argv))
        else:
            a, b = collections.Counter(exp), collections.Counter(got)
            if a != b:
                raise Violation("links", "visited/typed files differ: missing=%r extra=%r: %s" % (list((a - b).items())[:3], list((b - a).items())[:3], argv))
        nerr = r.err.count(b"error:")
        if errs and not unique:
            if r.rc != 1: raise Violation("looperr", "exit status %d despite %d loops/errors: %s" % (r.rc, len(errs), argv))
            for kind, p in errs:
                if quoted_in(p, r.err) is False:
                    raise Violation("looperr", "no diagnostic for %s %r: %r: %s" % (kind, p, r.err[:400], argv))
            if nerr < len(set(errs)): raise Violation("looperr", "%d diagnostics for %d errors: %s" % (nerr, len(errs), argv))
        elif not errs:
            if r.rc != 0 or r.err: raise Violation("status", "rc=%d stderr=%r without any loop: %s" % (r.rc, r.err[:300], argv))
        c.count("mode " + mode + (" unique" if unique else "")); c.count("visits", len(got)); c.count("loops", sum(1 for k, _ in errs if k == "loop"))
        c.seen(h, mode, unique, cfg.key(), tuple(roots))
        c.sample(shq(r.argv[1:]) + " -> %d files, %d loops" % (len(got), len(errs)))

def ident(p, follow, isroot):
    if follow == "L" or (follow == "H" and isroot):
        try: return os.stat(p)
        except OSError: pass
    return os.lstat(p)

def walk_capped(roots, follow, unique):
    n = [0]
    def visit(f):
        n[0] += 1
        if n[0] > 1500: raise OverflowError
        return True
    return walk(roots, follow, None, visit, unique=unique)

def quoted_in(p, err):
    """Is the (plain ASCII) path mentioned?  None if it would be quoted in an escaped form."""
    if all(32 < b < 127 and chr(b) not in "'\\" for b in p):
        return p in err
    return None

def known_probe(c):
    """The recorded defect: a path seen again with -unique is remembered as pruned, which also hides the starting path of the same name."""
    os.chdir(c.dir); os.makedirs(b"d"); open(b"d/a", "w").close(); open(b"d/b", "w").close()
    lost = []
    for s in ("bfs", "dfs", "ids", "eds"):
        for roots in ([b".", b"./d"], [b"d", b"d"]):
            r = c.bfs(["-S", s, "-unique"] + roots + ["-print0"])
            got = {os.path.basename(p) for p in split0(r.out)}
            if not {b"a", b"b"} <= got:
                lost.append((s, roots))
    bad = [x for x in lost if x[0] not in ("ids", "eds") or x[1] != [b"d", b"d"]]
    if bad: raise Violation("unique-roots", "files lost with -unique: %r" % bad)
    if lost: raise Violation("ids-unique-overlapping-roots", "files lost with -unique: %r" % lost)
