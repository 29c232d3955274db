"""C17: failures are reported and contained."""
from trav import *
PROP, LEVEL = "C17", "exploration"
CASES = {"quick": 900, "thorough": 20000}
RULE = "each run with at least one failure counts once by (failing operations, error numbers, options, tree)"
TECHNIQUE = "runtime monitoring: permission failures, loops, missing files and injected system-call errors; diagnostics, visited files and exit status checked against the reference model"

def case(c):
    rng = c.rng
    set_locale("C.UTF-8")
    if rng.random() < .55: natural(c, rng)
    else: injected(c, rng)

def uniq_tree(c, rng, n):
    """Plain, globally unique base names."""
    os.chdir(c.dir); os.mkdir("t")
    dirs, out = [b"t"], []
    for i in range(n):
        d = rng.choice(dirs[-6:] if rng.random() < .5 else dirs)
        p = d + b"/" + b"%s%d" % (rng.choice([b"a", b"file", b"x.y", b"Dir", b"z-"]), i)
        r = rng.random()
        if r < .4: os.mkdir(p); dirs.append(p)
        elif r < .8: open(p, "w").write("x" * (i % 5))
        elif r < .9: os.symlink(rng.choice([b"nowhere", b".", b"..", b"/etc/passwd", p + b"x", b"zz%d" % i]), p)
        else: os.symlink(b"zz%d" % i, p); os.symlink(os.path.basename(p), d + b"/zz%d" % i); out.append(d + b"/zz%d" % i)
        out.append(p)
    for p in [b"t"] + out:
        os.lchown(p, UID, GID)
        T.freeze_atime(p) if os.path.islink(p) or os.path.isdir(p) else None
    return out

def xwalk(roots, follow, needstat):
    """Like walk(), but from what readdir() tells; returns (visited, errors, failed tests, not examinable).
    What cannot be examined need not be visited, but then must be reported."""
    visited, errors, nostat, bad = [], [], [], []
    def rec(path, depth, ent, anc):
        fo = follow == "L" or (follow == "H" and depth == 0)
        t = None
        if ent is not None and not (fo and ent.is_symlink()):
            t = "l" if ent.is_symlink() else "d" if ent.is_dir(follow_symlinks=False) else "f"
        try:
            st = lst = os.lstat(path)
            if fo and stat.S_ISLNK(lst.st_mode):
                try: st = os.stat(path)
                except OSError as e:
                    if e.errno not in (errno.ENOENT, errno.ENOTDIR): raise
            t = typ(st)
        except OSError as e:
            if t is None:
                errors.append(path); return
            st = None
            bad.append(path)
        if st is not None and t == "d" and fo and (st.st_dev, st.st_ino) in anc:
            errors.append(path); return
        visited.append(path)
        if st is None and needstat: nostat.append(path); errors.append(path)
        if t != "d": return
        try: ents = list(os.scandir(path))
        except OSError: errors.append(path); return
        for e in ents: rec(join(path, e.name), depth + 1, e, anc + ((st.st_dev, st.st_ino),) if st else anc)
    for r in roots: rec(r, 0, None, ())
    return visited, errors, nostat, bad

def parse_errors(err, what):
    """Paths named by the diagnostics (names are plain, so they appear verbatim)."""
    out = []
    for l in err.split(b"\n")[:-1]:
        m = re.match(rb"bfs-\w+: error: ([^:]*): (.*)$", l)
        if not m: raise Violation("diagnostic", "unexpected diagnostic %r: %s" % (l, what))
        out.append(m.group(1))
    if err and not err.endswith(b"\n"): raise Violation("diagnostic", "truncated diagnostic: %s" % what)
    return out

def check(c, r, visited, errors, what, noerror, bad):
    got = split0(r.out)
    recs = collections.Counter(x[2:] for x in got if x[:2] == b"0:")
    skipped = {p for p in bad if p not in recs}
    diff_multiset([p for p in visited if p not in skipped], recs.elements(), [what], "visited")
    errors = set(errors) | skipped
    if noerror:
        if r.rc != 0 or r.err: raise Violation("noerror", "rc=%d stderr=%r with -noerror: %s" % (r.rc, r.err[:300], what))
        return
    named = set(parse_errors(r.err, what))
    if named != set(errors):
        raise Violation("report", "failures %r not reported, %r reported without failure (stderr %r): %s" % (sorted(set(errors) - named)[:4], sorted(named - set(errors))[:4], r.err[:400], what))
    if (r.rc != 0) != bool(errors): raise Violation("status", "rc=%d with %d failures: %s" % (r.rc, len(errors), what))
    if r.rc not in (0, 1): raise Violation("status", "rc=%d: %s" % (r.rc, what))

def natural(c, rng):
    all_ = uniq_tree(c, rng, rng.choice([6, 15, 40]))
    dirs = [p for p in all_ if os.path.isdir(p) and not os.path.islink(p)]
    roots = [b"t"]
    if rng.random() < .4:
        roots = [rng.choice([b"t"] + all_) for _ in range(rng.choice([1, 2]))] + rng.sample([b"missing", b"t/none", b"missing/x", b"t/missing/"], rng.choice([0, 1, 2]))
        rng.shuffle(roots)
    for d in rng.sample(dirs, min(len(dirs), rng.choice([0, 1, 2, 4]))): os.chmod(d, rng.choice([0, 0o111, 0o444, 0o300, 0o100, 0o400, 0o600]))
    try:
        for _ in range(2):
            cfg = Cfg(c, rng, low=False)
            dt = "VP_DTUNK" in cfg.env
            follow = rng.choice("PPHL")
            need = rng.random() < .4
            noerr = rng.random() < .1
            race = rng.random() < .25      # (it never excuses a missing starting point)
            visited, errors, nostat, bad = as_user(lambda: xwalk(roots, follow, need))
            argv = {"P": [], "H": ["-H"], "L": ["-L"]}[follow] + cfg.flags + roots + cfg.globals
            if noerr: argv += ["-noerror"]
            if race: argv += ["-ignore_readdir_race"]
            argv += ["-printf", "0:%p\\0"]
            if need: argv += ["-size", "-1000", "-printf", "1:%p\\0"]
            if dt:
                # without d_type, what cannot be examined cannot be visited either
                visited2, errors2, n2, bad = as_user(lambda: xwalk(roots, follow, True))
                visited, errors = [p for p in visited2 if p not in n2], errors2
                # ... nor can anything beneath
                visited = [p for p in visited if not any(p.startswith(q + b"/") for q in n2)]
                errors = [p for p in errors if not any(p.startswith(q + b"/") for q in n2)]
            r = c.bfs(argv, env=cfg.env)
            what = shq(r.argv) + " %r" % cfg.env
            check(c, r, visited, errors, what, noerr, bad)
            if need:
                ones = collections.Counter(x[2:] for x in split0(r.out) if x[:2] == b"1:")
                diff_multiset([p for p in visited if p not in nostat and p not in bad], ones.elements(), r.argv, "truth")
            c.count("files visited", len(visited)); c.count("failures", len(errors)); c.count("runs without failure", not errors)
            if errors: c.seen("n", follow, cfg.key(), len(visited), len(errors), need, noerr)
            c.sample(what[:250] + " -> %d visited, %d failures" % (len(visited), len(errors)))
    finally:
        subprocess_chmod(dirs)

def subprocess_chmod(dirs):
    for d in dirs:
        try: os.chmod(d, 0o755)
        except OSError: pass

def injected(c, rng):
    all_ = uniq_tree(c, rng, rng.choice([6, 15, 40]))
    dirs = [p for p in all_ if os.path.isdir(p) and not os.path.islink(p)]
    links = [p for p in all_ if os.path.islink(p)]
    for _ in range(2):
        cfg = Cfg(c, rng, low=False)
        env = dict(cfg.env); env["LD_PRELOAD"] = c.env.data["shim"]; env["VP_NOURING"] = "1"
        env.pop("VP_DTUNK", None)
        slog = env["VP_LOG"] = S.newlog(c.dir + "/slog", 1 << 18)
        ops = []
        if dirs: ops += ["opendir", "getdents", "empty-opendir", "empty-getdents"]
        if links: ops += ["readlink"]
        ops += ["stat", "stat", "dtunk-stat"]
        op = rng.choice(ops)
        kind = op.split("-")[-1]
        x = rng.choice(dirs if kind in ("opendir", "getdents") else links if kind == "readlink" else [p for p in all_])
        err = rng.choice([errno.EIO, errno.EACCES, errno.ENOMEM, errno.ESTALE, errno.EPERM, errno.ENOENT, errno.ENOTDIR, errno.ELOOP, errno.ETIMEDOUT])
        if kind == "stat" and err in (errno.EPERM,): err = errno.EIO    # (fallback to another system call)
        noerr, race = rng.random() < .1, rng.random() < .3
        env["VP_FAIL"] = S.fail((kind, os.path.basename(x), err))
        argv = cfg.flags + ["t"] + cfg.globals + (["-noerror"] if noerr else []) + (["-ignore_readdir_race"] if race else [])
        full, e0, _, _ = as_user(lambda: xwalk([b"t"], "P", False))
        below = [p for p in full if p.startswith(x + b"/")]
        exact, must_hit = True, True
        if op == "readlink":
            argv += ["-printf", "0:%p\\0"] + rng.choice([["-printf", "%l\\0"], ["-lname", rng.choice(["*", "x*", "nowhere"]), "-printf", "1:%p\\0"], ["-ilname", "*Z*", "-printf", "1:%p\\0"], ["!", "-lname", "*", "-printf", "1:%p\\0"]])
        elif op == "stat":
            argv += ["-printf", "0:%p\\0", "-size", "-1000", "-printf", "1:%p\\0"]
        elif op == "dtunk-stat":
            env["VP_DTUNK"] = "1"; argv += ["-printf", "0:%p\\0"]
        elif op.startswith("empty"):
            argv += ["-printf", "0:%p\\0", "-empty", "-printf", "1:%p\\0"]
        else:
            argv += ["-printf", "0:%p\\0"]
        r = c.bfs(argv, env=env)
        ev = S.readlog(slog)
        hits = sum(1 for y in ev if y[0] == "F")
        what = shq(r.argv) + " %r (fault on %r: %s)" % ({k: v for k, v in env.items() if k.startswith("VP_") and k != "VP_LOG"}, x, errno.errorcode[err])
        got = collections.Counter(y[2:] for y in split0(r.out) if y[:2] == b"0:")
        visited = [p for p in full if p not in below]
        if kind == "stat" and (op == "dtunk-stat" or not got[x]): visited.remove(x)
        rest = collections.Counter({p: n for p, n in got.items() if not p.startswith(x + b"/")})
        diff_multiset(visited, rest.elements(), [what], "containment")
        for p in below:
            if got[p] > 1: raise Violation("containment", "%r visited %d times: %s" % (p, got[p], what))
            if kind == "opendir" and got[p]: raise Violation("containment", "%r visited although its directory cannot be opened: %s" % (p, what))
        if set(got) - set(full): raise Violation("containment", "made-up files %r: %s" % (sorted(set(got) - set(full))[:3], what))
        ignored = race and err in (errno.ENOENT, errno.ENOTDIR)
        if not hits: raise RuntimeError("fault not reached: " + what)
        if noerr or ignored:
            if r.rc or r.err: raise Violation("noerror" if noerr else "race", "rc=%d stderr=%r: %s" % (r.rc, r.err[:300], what))
        else:
            named = parse_errors(r.err, what)
            if x not in named or set(named) - {x}: raise Violation("report", "the failure of %r was not reported (or others were): %r: %s" % (x, r.err[:300], what))
            if r.rc != 1: raise Violation("status", "rc=%d: %s" % (r.rc, what))
        if op in ("stat",):
            ones = collections.Counter(y[2:] for y in split0(r.out) if y[:2] == b"1:")
            for p in visited:
                if p != x and ones[p] != 1: raise Violation("containment", "%r not evaluated: %s" % (p, what))
        c.count("injected faults", hits); c.count("injected " + op)
        c.seen("i", op, err, cfg.key(), noerr, race, len(full))
        c.sample(what[:250])
