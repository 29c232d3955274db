"""C32: access, attribute and ownership tests reflect the system's answer."""
from trav import *
import trav, errno, struct, pickle, pwd, grp
PROP, LEVEL = "C32", "exploration"
CASES = {"quick": 4000, "thorough": 25000}
RULE = ("each distinct (tests, identity of the invoking user, symlink mode, strategy and perturbation, classes of files found true and false) counts once")
TECHNIQUE = ("runtime monitoring: random trees with every mode, owner, ACL, capability and extended attribute; what bfs matched is compared, file by file, with the kernel's own answers "
             "to a process of the same identity; system-call interposition supplies attributes of symbolic links where making them takes privileges")
ASSUMPTIONS = ["A capability attribute holding no capability at all is not generated; bfs and libcap differ from version to version on it."]
VARIANTS = ("plain", "nouring", "asan")
ABSENT = {errno.ENODATA, errno.ENOTSUP, errno.EINVAL}
U32 = 0xffffffff

def setup(env):
    trav.setup(env)

def identities():
    """name -> function that assumes it."""
    def user(groups=()):
        os.setgroups(list(groups)); os.setresgid(GID, GID, GID); os.setresuid(UID, UID, UID)
    def other():
        os.setgroups([4]); os.setresgid(1, 1, 1); os.setresuid(1, 1, 1)
    def real():           # privileged effective identity, ordinary real one
        os.setgroups([]); os.setresgid(GID, 0, 0); os.setresuid(UID, 0, 0)
    def eff():            # ordinary effective identity, different real one
        os.setgroups([]); os.setresgid(2, GID, GID); os.setresuid(2, UID, UID)
    return {"user": user, "groups": lambda: user([4, 1000, 54321]), "other": other, "real": real, "eff": eff, "root": lambda: None}

def assume(ident, fn):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            identities()[ident]()
            try: res = (True, fn())
            except BaseException: res = (False, traceback.format_exc())
            with os.fdopen(wr, "wb") as f: pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f: data = f.read()
    os.waitpid(pid, 0)
    ok, res = pickle.loads(data)
    if not ok: raise RuntimeError(res)
    return res

def acl(*e):
    return struct.pack("<I", 2) + b"".join(struct.pack("<HHI", *x) for x in e)

def rand_acl(rng, minimal=False, isdir=False):
    p = lambda: rng.randrange(8) | 5 * isdir
    e = [(1, p(), U32)]
    if not minimal:
        for u in sorted(rng.sample([UID, 1, 2, 4242], rng.choice([0, 1, 2]))): e.append((2, p(), u))
    e.append((4, p(), U32))
    if not minimal:
        for g in sorted(rng.sample([GID, 4, 1000, 4242], rng.choice([0, 1, 2]))): e.append((8, p(), g))
        e.append((16, p(), U32))
    e.append((32, p(), U32))
    return acl(*e)

NAMES = ["user.a", "user.mime_type", "user.a.b", "user.A", "user." + "n" * 200, "user.\u00e9", "trusted.t", "security.vp", "user.a "]

def setx(c, p, name, val, **kw):
    try:
        os.setxattr(p, name, val, **kw)
        c.count("attributes set"); return True
    except OSError as e:
        c.count("attribute not settable"); return False

def decorate(c, rng, p, k, fake):
    st = os.lstat(p)
    if k == "l":
        r = rng.random()
        if r < .25: setx(c, p, rng.choice(["trusted.t", "security.vp"]), b"v", follow_symlinks=False)
        elif r < .6: fake.append((os.path.basename(p), rng.choice(["trusted.t", "security.vp"])))
        return
    if rng.random() < .3: setx(c, p, rng.choice(NAMES), rng.choice([b"", b"v", b"x" * 100]))
    if rng.random() < .1: setx(c, p, rng.choice(NAMES), b"2")
    if rng.random() < .25: setx(c, p, "system.posix_acl_access", rand_acl(rng, rng.random() < .3, k == "d"))
    if k == "d":
        if rng.random() < .25: setx(c, p, "system.posix_acl_default", rand_acl(rng, rng.random() < .5))
    elif k == "f" and rng.random() < .2:
        bit = rng.randrange(41)
        lo, hi = (1 << bit) & U32, (1 << bit) >> 32
        which = rng.randrange(3)
        perm, inh = which != 1, which != 0
        setx(c, p, "security.capability", struct.pack("<5I", 0x02000000 | (rng.random() < .5), lo * perm, lo * inh, hi * perm, hi * inh))

def query(f, what, arg=None):
    """The system's answer: True, False or an errno (int, as ('err', n))."""
    link = stat.S_ISLNK(f.st.st_mode)
    if what in "rwx":
        return os.access(f.path, {"r": os.R_OK, "w": os.W_OK, "x": os.X_OK}[what])
    try:
        if what == "xattr":
            return bool(os.listxattr(f.path, follow_symlinks=not link))
        if what == "xattrname":
            os.getxattr(f.path, arg, follow_symlinks=not link)
            return True
        if link: return False
        if what == "cap":
            return len(os.getxattr(f.path, "security.capability")) > 0
    except OSError as e:
        return False if e.errno in ABSENT else ("err", e.errno)
    if what == "acl":
        for t in ["access"] + ["default"] * stat.S_ISDIR(f.st.st_mode):
            try: v = os.getxattr(f.path, "system.posix_acl_" + t)
            except OSError as e:
                if e.errno in ABSENT: continue
                return ("err", e.errno)
            n = (len(v) - 4) // 8
            tags = {struct.unpack_from("<H", v, 4 + 8 * i)[0] for i in range(n)}
            if t == "default" and n: return True
            if tags - {1, 4, 32}: return True
        return False

def tests_for(rng, only_access, fake, ident):
    """[(tokens, fn(f) -> answer)]"""
    out = []
    def known(get):
        def fn(i):
            try: get(i); return True
            except KeyError: return False
        return fn
    ku, kg = known(pwd.getpwuid), known(grp.getgrgid)
    for _ in range(rng.choice([1, 2, 3, 4])):
        r = rng.random()
        if only_access or r < .4:
            w = rng.choice("rwx")
            out.append((["-" + {"r": "readable", "w": "writable", "x": "executable"}[w]], lambda f, w=w: query(f, w), w))
        elif r < .5:
            out.append((["-xattr"], lambda f: query(f, "xattr"), "xattr"))
        elif r < .65:
            n = rng.choice(NAMES + ["user.a", "user.a.b", "user.mime_type", "trusted.t", "security.vp"] + ["user.b", "user", "nosuch.ns", "system.posix_acl_access", "security.capability"])
            out.append((["-xattrname", n.encode()], lambda f, n=n: query(f, "xattrname", n), "xattrname"))
        elif r < .75:
            out.append((["-acl"], lambda f: query(f, "acl"), "acl"))
        elif r < .85:
            out.append((["-capable"], lambda f: query(f, "cap"), "cap"))
        elif r < .9:
            out.append((["-nouser"], lambda f: not ku(f.st.st_uid), "nouser"))
        elif r < .95:
            out.append((["-nogroup"], lambda f: not kg(f.st.st_gid), "nogroup"))
        else:
            u = rng.choice(["root", "bin", "nobody"])
            out.append((["-user", u], lambda f, u=u: f.st.st_uid == pwd.getpwnam(u).pw_uid, "user"))
    return out

def deep(c):
    """Attributes of files whose path is too long for a single system call."""
    rng = c.rng
    os.chdir(c.dir)
    want = set()
    levels = rng.choice([5, 18, 24, 40])
    path = b"t"
    os.mkdir(path); os.chdir(path)
    def mk(name, isdir):
        p = path + b"/" + name
        if isdir: os.mkdir(name)
        else: open(name, "w").close()
        os.chmod(name, 0o755 if isdir else 0o400)
        if rng.random() < .4 and setx(c, name, "user.a", b"1"): want.update([(0, p), (1, p)])
        if rng.random() < .3 and setx(c, name, "system.posix_acl_access", acl((1, 7, U32), (2, 5, UID), (4, 5, U32), (16, 5, U32), (32, 5, U32))):
            want.update([(0, p), (2, p), (3, p)])
        elif isdir: want.add((3, p))
        if not isdir and rng.random() < .3 and setx(c, name, "security.capability", struct.pack("<5I", 0x02000001, 8, 0, 0, 0)): want.update([(0, p), (4, p)])
    want.add((3, b"t"))
    for i in range(levels):
        for k in range(rng.choice([0, 1, 2])): mk(b"f%d" % k, False)
        d = b"%02d" % i + b"d" * rng.choice([20, 200, 240])
        mk(d, True)
        os.chdir(d); path += b"/" + d
    os.chdir(c.dir)
    cfg = Cfg(c, rng, perturb=rng.random() < .5)
    argv = cfg.flags + [b"t"] + cfg.globals
    for i, t in enumerate([["-xattr"], ["-xattrname", "user.a"], ["-acl"], ["-readable"], ["-capable"]]):
        argv += ([","] if i else []) + ["("] + t + ["-printf", "%d:%%p\\0" % i, ")"]
    r = c.bfs(argv, env=cfg.env, variant=rng.choice(["plain", "nouring"]), **cfg.kw)
    # user.a of a file the user cannot read is not visible to them
    err = {p for i, p in want if i == 1 and (3, p) not in want}
    for p in list(err): want.discard((1, p))
    got = collections.Counter(parse_events(r.out, False))
    w = collections.Counter(want)
    if w != got:
        raise Violation("deep", "%s\n missing=%r extra=%r stderr=%r" % (shq(r.argv), list((w - got).items())[:3], list((got - w).items())[:3], r.err[:300]))
    c.count("deep trees"); c.count("answers compared", sum(w.values()))
    c.seen(("deep", levels, cfg.key()))

def names(c):
    """Users and groups of any name: a name is looked up before it is taken for a number."""
    rng = c.rng
    os.chdir(c.dir); os.mkdir(b"t")
    ids = rng.sample([0, 1, 3, 5, 7, 8, 10, 42, 99, 1000, 1001, 4321, 54321, 65534, 100000, 4294967294], rng.choice([3, 6]))
    pool = ["5", "+5", "-5", "7", "007", "-7", "+0", "joe", "joe2", "jo", "1000", "+1000", "-1000", "x7", "8x", "a.b-c", "n" * 200, "Joe", "0", "42", "-42"]
    db = {}
    for kind in "ug":
        nm, i2 = rng.sample(pool, rng.choice([0, 2, 5, 9])), rng.sample(range(len(pool)), len(pool))
        for n, k in zip(nm, i2): db[kind, n] = (ids + [11, 12, 13, 14, 15, 16, 17, 18, 19])[k % (len(ids) + 9)] if rng.random() < .3 else rng.choice(ids)
        # one name per number
        used = set()
        for n in nm:
            if db[kind, n] in used: del db[kind, n]
            else: used.add(db[kind, n])
    files = {b"t": None}
    for i in range(rng.choice([4, 10, 25])):
        p = b"t/f%d" % i
        open(p, "w").close(); os.chown(p, rng.choice(ids), rng.choice(ids)); files[p] = None
    for p in files: files[p] = os.lstat(p)
    def real(kind, x):
        try: return (pwd.getpwnam(x).pw_uid if kind == "u" else grp.getgrnam(x).gr_gid)
        except KeyError: return None
    def name(kind, i):
        for (k, n), v in db.items():
            if k == kind and v == i: return n
        try: return pwd.getpwuid(i).pw_name if kind == "u" else grp.getgrgid(i).gr_name
        except KeyError: return None
    attr = {"u": "st_uid", "g": "st_gid"}
    ts = []
    for _ in range(rng.choice([2, 4])):
        kind = rng.choice("ug")
        if rng.random() < .15:
            ts.append((["-nouser" if kind == "u" else "-nogroup"], lambda st, kind=kind: name(kind, getattr(st, attr[kind])) is None)); continue
        x = rng.choice([n for k, n in db if k == kind] * 2 + ["5", "+5", "-7", "42", "1000", "root", "+0", "99"])
        v = db.get((kind, x), real(kind, x))
        if v is not None: fn = lambda st, kind=kind, v=v: getattr(st, attr[kind]) == v
        elif re.match(r"[-+]?\d+$", x):
            n = int(x.lstrip("+-"))
            fn = lambda st, kind=kind, n=n, s=x[0]: getattr(st, attr[kind]) > n if s == "+" else getattr(st, attr[kind]) < n if s == "-" else getattr(st, attr[kind]) == n
        else: continue
        ts.append((["-user" if kind == "u" else "-group", x], fn))
    cfg = Cfg(c, rng)
    env = dict(cfg.env, LD_PRELOAD=c.env.data["shim"], VP_NAMES=",".join("%s%s=%d" % (k, n, v) for (k, n), v in db.items()))
    expr = []
    for i, (toks, fn) in enumerate(ts): expr += ["("] + toks + ["-printf", "%d:%%p\\0" % i, ")", ","]
    expr += ["-printf", "%u %g %p\\0"]
    r = c.bfs(cfg.flags + [b"t"] + cfg.globals + expr, env=env, **cfg.kw)
    what = "%s with users and groups %s" % (shq(r.argv), env["VP_NAMES"])
    if r.rc or r.err: raise Violation("names", "rc=%d stderr=%r: %s" % (r.rc, r.err[:400], what))
    want = collections.Counter(b"%d:%s" % (i, p) for i, (toks, fn) in enumerate(ts) for p, st in files.items() if fn(st))
    for p, st in files.items(): want[b"%s %s %s" % ((name("u", st.st_uid) or str(st.st_uid)).encode(), (name("g", st.st_gid) or str(st.st_gid)).encode(), p)] += 1
    got = collections.Counter(split0(r.out))
    if want != got: raise Violation("names", "missing=%r extra=%r: %s" % (list((want - got).items())[:5], list((got - want).items())[:5], what))
    c.count("user databases"); c.count("owners named", len(files))
    c.seen("names", tuple(sorted(db)), tuple(tuple(t) for t, _ in ts), cfg.key())

def case(c):
    rng = c.rng
    set_locale("C.UTF-8")
    if rng.random() < .08: return names(c)
    if rng.random() < .06: return deep(c)
    if rng.random() < .3 and c.env.scratch.shm:
        d = os.path.join(c.env.scratch.shm, "c%d" % c.idx)
        os.makedirs(d); os.chmod(d, 0o755); c.dir = d
        c.count("trees on tmpfs")
    n = rng.choice([5, 12, 30])
    out = mktree(c, n, names=rng.choice(["plain", "mixed"]), meta=True, loops=rng.random() < .5)
    ident = rng.choice(["user", "user", "groups", "other", "root", "real", "eff"])
    fake = []
    for p, k in [(b"t", "d")] + out:
        k = "f" if k == "h" else k
        if os.path.islink(p): k = "l"
        decorate(c, rng, p, k, fake)
        # the walk itself has to be possible, except through the leaf directories below
        if k == "d":
            for m in (0o555,):
                st = os.lstat(p); os.chmod(p, stat.S_IMODE(st.st_mode) | m)
    follow = rng.choice("PPPHL")
    only_access = False
    if rng.random() < .25 and follow == "P" and ident in ("user", "groups", "other"):
        # a directory that can be listed but not searched
        only_access = True
        d = b"t/zz-unsearchable"
        os.mkdir(d)
        for i in range(4): open(d + b"/f%d" % i, "w").close()
        os.chmod(d, rng.choice([0o444, 0o644, 0o744]))
        os.chown(d, rng.choice([0, 1, UID]), GID)
    ts = tests_for(rng, only_access, fake, ident)
    cfg = Cfg(c, rng, perturb=ident not in ("real", "eff"), low=not only_access)
    if only_access: cfg.env.pop("VP_DTUNK", None)
    env = dict(cfg.env)
    # pretended attributes: only when the monitor can be loaded
    usefake = bool(fake) and ident not in ("real", "eff") and any(t[2] in ("xattr", "xattrname") for t in ts)
    if usefake:
        env["LD_PRELOAD"] = c.env.data["shim"]
        env["VP_FAKEX"] = ",".join("%s:%s" % (b.hex(), a) for b, a in fake)
    expr = []
    for i, (toks, fn, kind) in enumerate(ts):
        if i: expr += [","]
        neg = rng.random() < .2
        expr += ["("] + (["!"] if neg else []) + list(toks) + ["-printf", "%d:%%p\\0" % i, ")"]
        ts[i] = (toks, fn, kind, neg)
    roots = [b"t"]
    if rng.random() < .3:
        roots.append(rng.choice(out)[0]) if out else None
        if roots[-1].startswith(b"-"): roots.pop()
    follow_f = [] if follow == "P" and rng.random() < .7 else ["-" + follow]
    argv = follow_f + cfg.flags + roots + cfg.globals + expr

    fakeset = collections.defaultdict(set)
    for b, a in fake: fakeset[b].add(a)
    def answers():
        files, errs = walk(roots, follow)
        res, bad = [], []
        for f in files:
            for i, (toks, fn, kind, neg) in enumerate(ts):
                v = fn(f)
                if usefake and kind in ("xattr", "xattrname") and stat.S_ISLNK(f.st.st_mode):
                    attrs = fakeset.get(os.path.basename(f.path))
                    if attrs: v = True if kind == "xattr" else toks[1].decode() in attrs
                if isinstance(v, tuple):
                    bad.append(f.path); v = False
                if v != neg: res.append((i, f.path))
                kinds[kind, "l" if stat.S_ISLNK(f.st.st_mode) else "d" if stat.S_ISDIR(f.st.st_mode) else "f", v] += 1
        return res, bad, errs, len(files), dict(kinds)
    if only_access:
        # the model cannot stat what is in the unsearchable directory
        def answers():
            res = []
            seen = []
            for root in roots:
                stack = [root]
                while stack:
                    p = stack.pop(); seen.append(p)
                    try: isdir = stat.S_ISDIR(os.lstat(p).st_mode)
                    except PermissionError: isdir = False
                    if isdir:
                        try: stack += [p + b"/" + n for n in os.listdir(p)]
                        except OSError: bads.append(p)
            class P: pass
            for p in seen:
                f = P(); f.path = p; f.st = os.stat("/")
                for i, (toks, fn, kind, neg) in enumerate(ts):
                    v = fn(f)
                    if v != neg: res.append((i, p))
                    kinds[kind, "?", v] += 1
            return res, [], bads, len(seen), dict(kinds)
        bads = []
    kinds = collections.Counter()
    want, bad, errs, nfiles, kinds = assume(ident, answers)
    if ident in ("real", "eff"): env.pop("LD_PRELOAD", None)
    r = c.bfs(argv, variant=rng.choice(["plain", "plain", "nouring", "asan" if ident not in ("real", "eff") else "plain"]) if not env.get("LD_PRELOAD") else rng.choice(["plain", "nouring"]),
              env=env, user=False, preexec=identities()[ident], **cfg.kw)
    got = parse_events(r.out, False)
    if only_access:
        # whether such entries can be looked at at all is a matter of what the search needs; none of them is accessible
        inside = lambda p: b"zz-unsearchable/" in p
        for i, p in got:
            if inside(p) and (i, p) not in want:
                raise Violation("answer", "as %s: %r cannot be reached but matches %s: %s" % (ident, p, ts[i][0], shq(r.argv)))
        want, got = [x for x in want if not inside(x[1])], [x for x in got if not inside(x[1])]
        errs = errs or r.rc
    w, g = collections.Counter(want), collections.Counter(got)
    if w != g:
        raise Violation("answer", "as %s: %s\n missing=%r extra=%r stderr=%r" % (ident, shq(r.argv), list((w - g).items())[:6], list((g - w).items())[:6], r.err[:600]),
                        env={k: v for k, v in env.items()})
    if not bad and not errs:
        if r.rc or r.err: raise Violation("status", "as %s: failed (rc=%d, stderr=%r): %s" % (ident, r.rc, r.err[:500], shq(r.argv)))
    else:
        if r.rc == 0 or not r.err: raise Violation("status", "as %s: queries failed for %r but bfs reports success: %s" % (ident, (bad or errs)[:3], shq(r.argv)))
        for p in bad:
            if quoted_in(p, r.err) is False: raise Violation("diagnostic", "as %s: the query for %r fails but no diagnostic names it: %s stderr=%r" % (ident, p, shq(r.argv), r.err[:500]))
        c.count("failing queries", len(bad))
    c.count("answers compared", nfiles * len(ts))
    for (k, t, v), m in kinds.items(): c.count("%s is %s" % (k, str(v).lower()), m)
    c.seen((tuple(sorted(t[2] for t in ts)), ident, follow, cfg.strategy, cfg.perturb, tuple(sorted(kinds))))
    if nfiles > 3: c.sample({"argv": shq(r.argv), "identity": ident, "files": nfiles, "true": len(want)})
