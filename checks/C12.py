from trav import *
import traceback
PROP, LEVEL = "C12", "exploration"
CASES = {"quick": 900, "thorough": 15000}
TECHNIQUE = "runtime monitoring: LD_PRELOAD log of every unlinkat() plus end-state comparison with a reference deletion on a copy, with injected unlink failures"
RULE = ("Random trees (links to outside canaries, hard links, read-only, sticky and unreadable directories, foreign owners) deleted through random expressions, strategies, threads, "
        "-P/-H/-L, starting path spellings and injected unlink faults; bfs runs unprivileged. The tree afterwards, per-file truth values, exit status and diagnostics must equal those of "
        "the same expression executed by a Python model on a copy, and every successful unlinkat must be for a file the model removed. "
        "Distinct non-trivial: (expression, configuration) that deletes some but not all files.")
ASSUMPTIONS = ["Concurrent hostile renames are outside the property: docs/SECURITY.md documents that bfs does not guard against them."]

def build_tree(c, rng):
    os.chdir(c.dir)
    os.mkdir(b"w"); os.chdir(b"w")
    for d in (b"out/o1/o2", b"canary/k"): os.makedirs(d)
    for p in (b"out/f", b"out/o1/f", b"out/o1/o2/g", b"canary/k/f", b"canary/.x"): open(p, "w").close()
    os.mkdir(b"t")
    sh = T.gen_shape(rng, rng.choice([3, 8, 20, 50]), maxdepth=rng.choice([3, 8]))
    T.populate(rng, b"t", sh)
    dirs = [b"t"] + [b"t/" + p for p, d in sh if d]
    pool = [rng.choice([b"out", b"out/o1"]), rng.choice([b"canary", b"canary/k"]), b"out/f"]   # each directory reachable once
    for i, tgt in enumerate(rng.sample(pool, rng.choice([0, 1, 3]))):
        d = rng.choice(dirs)
        os.symlink(os.path.relpath(tgt, d), d + b"/ln%d" % i)
    for _ in range(rng.choice([0, 0, 1])):
        os.symlink(b"t", b"lnk")
    subprocess.run(["chown", "-Rh", "%d:%d" % (UID, GID), "."], check=True)
    # obstacles
    for d in rng.sample(dirs, min(len(dirs), rng.choice([0, 0, 1, 2]))):
        k = rng.choice(["ro", "sticky", "none", "rootro"])
        if k == "ro": os.chmod(d, 0o555)
        elif k == "none": os.chmod(d, 0)
        elif k == "rootro": os.chown(d, 0, 0)
        else:
            os.chown(d, 0, 0); os.chmod(d, 0o1777)
            for n in os.listdir(d):
                if rng.random() < .5: os.chown(d + b"/" + n, 0, 0, follow_symlinks=False)
    os.chdir(c.dir)

class Sim:
    def __init__(self): self.errs, self.gone = [], []

def simulate(roots, e, follow, mindepth, maxdepth, exclude, fault):
    sim, per = Sim(), collections.OrderedDict()
    SIM[:] = [sim]
    def evaluate(f):
        if f.depth < mindepth or (maxdepth is not None and f.depth > maxdepth): return
        ctl = Ctl(); ctl.sim = sim; ctl.fault = fault
        e.ev(f, ctl)
        if ctl.events: per.setdefault(f.path, []).extend(i for i, _ in ctl.events)
    def rec(f, anc):
        if f.err is not None:
            sim.errs.append(("stat", f.path)); return
        if exclude is not None and exclude.ev(f, None): return
        if f.type == "d" and not (maxdepth is not None and f.depth >= maxdepth):
            id_ = (f.st.st_dev, f.st.st_ino)
            if follow == "L" and id_ in anc:
                sim.errs.append(("loop", f.path)); return
            try: names = os.listdir(f.path)
            except OSError as x:
                sim.errs.append(("open", f.path)); names = []
            for n in names:
                rec(F(join(f.path, n), f.depth + 1, f.root, follow == "L"), anc + (id_,))
        evaluate(f)
    for r in roots:
        rec(F(r, 0, r, follow in "HL"), ())
    return sim.errs, sim.gone, per

def do_delete(f, ctl):
    if f.path == b".": return True
    try:
        if ctl.fault is not None and os.path.basename(f.path) == ctl.fault: raise OSError(errno.EIO, "injected")
        (os.rmdir if stat.S_ISDIR(f.lst.st_mode) else os.unlink)(f.path)
        ctl.sim.gone.append(f.path)
        return True
    except OSError as x:
        ctl.sim.errs.append(("delete", f.path, x.errno))
        return False

def case(c):
    rng = c.rng
    set_locale("C.UTF-8")
    build_tree(c, rng)
    os.chdir(c.dir + "/w")
    files, errs = walk([b"t"])
    h = hash(tuple(f.path for f in files))
    lf, le = walk([b"t"], "L")
    ids = [(f.st.st_dev, f.st.st_ino) for f in lf if f.type == "d"]
    once = not le and len(ids) == len(set(ids))      # with -L every directory is reached by one path
    for rep in range(4):
        os.chdir(c.dir)
        for d in ("x", "y"):
            rmtree(c.dir + "/" + d)
            subprocess.run(["cp", "-a", "w", d], check=True, stderr=subprocess.PIPE)
            os.chown(d, UID, GID)
        os.chdir(c.dir + "/w")
        follow = rng.choice("PPPHHL") if once else rng.choice("PPH")
        w = World(files); w.follow = follow
        kinds = [t_name, t_path, t_hidden, t_depthn, t_const]
        if follow != "L": kinds += [lambda r, w: typetest(r), t_perm, empty, empty, t_user]
        st = {"d": 0, "n": 0}
        def leaf():
            r = rng.random()
            if r < .3 and st["d"] < 2:
                st["d"] += 1
                return Act(["-delete"], None, fn=do_delete)
            if r < .5 and st["n"] < 5:
                st["n"] += 1
                return Act(["-printf", "%d:%%p\\0" % st["n"]], st["n"])
            return gen_test(rng, w, kinds if not st["d"] else [t_name, t_path, t_hidden, t_depthn, t_const])
        if rng.random() < .3:
            e = Act(["-delete"], None, fn=do_delete)
            if rng.random() < .5: e = Bin("and", gen_test(rng, w, kinds), e)
            st["d"] = 1
        else:
            e = gen_expr(rng, leaf, rng.choice([2, 3, 4, 6]))
        if not st["d"]: e = Bin("and", e, Act(["-delete"], None, fn=do_delete))
        if rng.random() < .5: e = Bin("or", Bin("and", e, Act(["-printf", "100:%p\\0"], 100)), Act(["-printf", "101:%p\\0"], 101))
        roots = [rng.choice([b"t", b"t", b"t", b"./t", b"t/", b"t/.", b"t//", b"."])]
        if os.path.lexists(b"lnk") and rng.random() < .5: roots = [rng.choice([b"lnk", b"lnk/"])]
        elif rng.random() < .2:
            roots = [f.path for f in rng.sample(files, min(2, len(files))) if f.depth == 1 and not f.path.startswith(b"-")] or roots
        if b"." in roots and not os.stat("t").st_mode & 0o100: roots = [b"t"]
        if b"." in roots: cwdsub = b"/t" if rng.random() < .7 or follow == "L" else b""
        else: cwdsub = b""
        g, mind, maxd, ex = [], 0, None, None
        if rng.random() < .25: mind = rng.choice([1, 2]); g += ["-mindepth", str(mind)]
        if rng.random() < .2: maxd = rng.choice([0, 1, 2, 3]); g += ["-maxdepth", str(maxd)]
        if rng.random() < .15:
            ex = gen_test(rng, w, [t_name, t_hidden]); g += ["-exclude"] + ex.tokens()
        fault = None
        cfg = Cfg(c, rng, post=rng.random() < .5)
        env = dict(cfg.env)
        env["LD_PRELOAD"] = c.env.data["shim"]
        if rng.random() < .3:
            fault = os.path.basename(rng.choice(files).path)
            env["VP_FAIL"] = S.fail(("unlink", fault, errno.EIO))
        log = env["VP_LOG"] = S.newlog(c.dir + "/log", 1 << 20)
        argv = {"P": [], "H": ["-H"], "L": ["-L"]}[follow] + cfg.flags + roots + cfg.globals + g + [b"("] + e.tokens(rng) + [b")"]
        def model():
            os.chdir((c.dir + "/y").encode() + cwdsub)
            return simulate(roots, e, follow, mind, maxd, ex, fault)
        errs, gone, per = as_user(model)
        cwd = (c.dir + "/x").encode() + cwdsub
        def forbidden(): pass
        try:
            r = c.bfs(argv, env=env, cwd=cwd, **cfg.kw)
        finally:
            os.chdir(c.dir)
        what = shq(r.argv) + " %r (in %s)" % ({k: v for k, v in env.items() if k not in ("VP_LOG",)}, cwd)
        a, b = snapshot(b"y"), snapshot(b"x")
        if a != b:
            lost, kept = sorted(set(a) - set(b)), sorted(set(b) - set(a))
            raise Violation("endstate", "-delete left a different tree: wrongly removed %r, wrongly kept %r: %s stderr=%r" % (lost[:4], kept[:4], what, r.err[:300]))
        ev = S.readlog(log)
        ok = collections.Counter()
        base = c.dir.encode() + b"/x"
        for x in ev:
            if x[0] == "U" and x[1] == "0":
                d, n = S.unhex(x[3]), S.unhex(x[4])
                full = d + b"/" + n
                if not (full + b"/").startswith(base + b"/"): raise Violation("escape", "removed %r outside the tree: %s" % (full, what))
                ok[full] += 1
        if sum(ok.values()) != len(gone): raise Violation("unlinks", "%d successful removals, expected %d: %s" % (sum(ok.values()), len(gone), what))
        if any(x.toks[0] == b"-printf" for x in e.walk() if isinstance(x, Act)):
            compare_events(c, r, per, False, "truth")
        if errs:
            if r.rc != 1: raise Violation("status", "exit status %d despite failures %r: %s" % (r.rc, errs[:3], what))
            for x in errs:
                if quoted_in(x[1], r.err) is False: raise Violation("silent", "no diagnostic for %r: %r: %s" % (x, r.err[:300], what))
        elif r.rc != 0 or r.err:
            raise Violation("status", "rc=%d stderr=%r without any failure: %s" % (r.rc, r.err[:300], what))
        c.count("removed", len(gone)); c.count("failed", len(errs)); c.count("unlink events", len([1 for x in ev if x[0] == "U"]))
        if fault and any(x[0] == "F" for x in ev): c.count("injected faults hit")
        if 0 < len(gone) < len(files): c.seen(h, argv)
        c.sample(shq(r.argv[1:])[:250] + " -> removed %d, failed %d" % (len(gone), len(errs)))

SIM = []
def empty(rng, w):
    def fn(f):
        try: return is_empty(f)
        except OSError:
            SIM[0].errs.append(("empty", f.path)); return False
    return Test(["-empty"], fn)

def typetest(rng):
    l = rng.sample("dflps", rng.choice([1, 1, 2]))
    return Test(["-type", ",".join(l)], lambda f: f.type in l)
