"""C11: filesystem boundaries are respected."""
from trav import *
import trav, ctypes, pickle, model, re
PROP, LEVEL = "C11", "exploration"
CASES = {"quick": 1500, "thorough": 40000}
RULE = ("each distinct (arrangement kind: real mounts in a private namespace, links between filesystems, simulated devices, the system's own mounts; options; strategy and perturbation; "
        "number and kinds of boundaries) counts once")
TECHNIQUE = ("runtime monitoring: searches over trees with real mount points (tmpfs, ramfs, bind mounts of directories and files, stacked and nested, in a private mount namespace), with links "
             "between filesystems and with device numbers changed by system-call interposition; an oracle walking the same tree decides which paths may be visited, and mountinfo names each file's filesystem")
NOTE = "Where private mount namespaces are not permitted, real mount points are limited to the system's own (/dev, /proc, ...)."
VARIANTS = ("plain", "nouring", "asan")
NEWNS, NEWUSER = 0x20000, 0x10000000
MS_BIND = 4096
libc = ctypes.CDLL(None, use_errno=True)

def setup(env):
    trav.setup(env)
    env.data["mounts"] = in_ns_ok()

def mount(src, dst, typ=None, flags=0):
    r = libc.mount(src, dst, typ, flags, None)
    if r: raise OSError(ctypes.get_errno(), "mount")

def enter_ns():
    os.unshare(NEWUSER | NEWNS)
    for f, s in (("setgroups", "deny"), ("uid_map", "0 0 1"), ("gid_map", "0 0 1")):
        with open("/proc/self/" + f, "w") as h: h.write(s)

def child(fn):
    """Run fn in a forked child; pickled result."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try: res = ("ok", fn())
            except Violation as v: res = ("violation", (v.key, v.msg, v.detail))
            except Inconclusive as e: res = ("inconclusive", str(e))
            except BaseException: res = ("error", traceback.format_exc())
            with os.fdopen(wr, "wb") as f: pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f: data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("error", "child died")

def in_ns_ok():
    import tempfile
    d = tempfile.mkdtemp(prefix="vp-ns-").encode()
    def fn():
        enter_ns()
        mount(b"vp", d, b"tmpfs")
        os.mkdir(d + b"/a"); open(d + b"/b", "w").close(); open(d + b"/c", "w").close()
        mount(d + b"/b", d + b"/c", None, MS_BIND)
        return True
    res = child(fn)
    os.rmdir(d)
    return res == ("ok", True)

def unoct(b):
    return re.sub(rb"\\([0-7]{3})", lambda m: bytes([int(m.group(1), 8)]), b)

class Mounts:
    def __init__(self):
        self.by_id = {}
        with open("/proc/self/mountinfo", "rb") as f:
            for l in f:
                a, b = l.rstrip(b"\n").split(b" - ", 1) if l.count(b" - ") == 1 else l.rstrip(b"\n").rsplit(b" - ", 1)
                self.by_id[int(a.split(b" ")[0])] = b.split(b" ")[0]
    def type(self, f):
        fl = os.O_PATH | (os.O_NOFOLLOW if stat.S_ISLNK(f.st.st_mode) else 0)
        fd = os.open(f.path, fl)
        try:
            with open("/proc/self/fdinfo/%d" % fd, "rb") as h: t = h.read()
        finally: os.close(fd)
        return self.by_id.get(int(re.search(rb"mnt_id:\s*(\d+)", t).group(1)), b"unknown")

def populate_small(rng, d, depth=2):
    out = []
    for i in range(rng.choice([0, 1, 3])):
        p = d + b"/m%d" % rng.randrange(10**6)
        if depth and rng.random() < .5:
            os.mkdir(p); out.append((p, "d")); out += populate_small(rng, p, depth - 1)
        else:
            open(p, "w").close(); out.append((p, "f"))
    return out

def do_mounts(c, rng, nodes):
    kinds = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        dirs = [b"t"] * (rng.random() < .1) + [p for p, k in nodes if k == "d" and os.path.isdir(p) and not os.path.islink(p)]
        files = [p for p, k in nodes if k != "d" and os.path.lexists(p) and not os.path.islink(p) and not os.path.isdir(p)]
        k = rng.choice(["tmpfs", "tmpfs", "ramfs", "bind", "bindfile", "bindfile"])
        try:
            if k in ("tmpfs", "ramfs") and dirs:
                d = rng.choice(dirs)
                mount(b"vp x", d, k.encode())
                nodes += populate_small(rng, d)
            elif k == "bind" and dirs:
                a, b = rng.choice(dirs), rng.choice(dirs)
                mount(a, b, None, MS_BIND)
            elif k == "bindfile" and len(files) > 1:
                a, b = rng.sample(files, 2)
                mount(a, b, None, MS_BIND)
            else: continue
        except OSError as e:
            c.count("mount refused %d" % e.errno); continue
        kinds.append(k); c.count("real mounts")
    return tuple(sorted(kinds))

def check(c, rng, mode, roots, tag, base_env=None, user=True, maxdepth=None, fstype=True, noall=False, forcefollow=None):
    opt = rng.choice(["-xdev", "-xdev", "-mount", "-mount", None]) if not noall else rng.choice(["-xdev", "-mount"])
    follow = forcefollow or rng.choice("PPHL")
    cfg = Cfg(c, rng, perturb=not base_env)
    env = dict(cfg.env); env.update(base_env or {})
    if mode == "fake": env.pop("VP_DTUNK", None) if rng.random() < .5 else None
    mo = Mounts()
    fmt = "%y %F %p\\0" if fstype else "%y - %p\\0"
    expr = ["-printf", fmt]
    want_type = None
    if fstype and rng.random() < .4:
        want_type = rng.choice([b"tmpfs", b"ramfs", b"ext4", b"nonesuch", b"tmp", mo.by_id[rng.choice(list(mo.by_id))]])
        neg = rng.random() < .3
        expr = (["!"] if neg else []) + ["-fstype", want_type] + expr
    glob = ([opt] if opt else []) + cfg.globals
    if opt == "-mount" and rng.random() < .2: glob = rng.choice([["-xdev"] + glob, glob + ["-xdev"], glob + ["-mount"]])
    if maxdepth is not None: glob += ["-maxdepth", str(maxdepth)]
    rng.shuffle(glob) if maxdepth is None else None
    argv = (["-" + follow] if follow != "P" or rng.random() < .3 else []) + cfg.flags + roots + glob + expr
    crossings = [0]
    def visit(f):
        return maxdepth is None or f.depth < maxdepth
    files, errs = walk(roots, follow, {"-xdev": "xdev", "-mount": "mount"}.get(opt), visit)
    if mode == "fake" and rng.random() < .3 and not errs and len({(f.st.st_dev, f.st.st_ino) for f in files}) == len(files):
        argv = argv[:len(argv) - len(expr)] + ["-unique"] + expr; c.count("searches with -unique")
    want = collections.Counter()
    devs = set()
    for f in files:
        devs.add(f.st.st_dev)
        t = mo.type(f) if fstype else b"-"
        if want_type is not None and (t == want_type) == neg: continue
        want[f.type.encode() + b" " + t + b" " + f.path] += 1
    variant = rng.choice(["plain", "plain", "nouring", "asan"]) if not env.get("LD_PRELOAD") else rng.choice(["plain", "nouring"])
    if not user and variant == "asan": variant = "plain"
    r = c.bfs(argv, variant=variant, env=env, user=user, **cfg.kw)
    got = collections.Counter(split0(r.out))
    if want != got:
        raise Violation(mode, "%s (%s)\n missing=%r extra=%r stderr=%r" % (shq(r.argv), tag, list((want - got).items())[:5], list((got - want).items())[:5], r.err[:300]),
                        mounts=open("/proc/self/mountinfo").read()[-3000:])
    if bool(errs) != bool(r.rc) or (r.err and not errs):
        raise Violation("status", "expected errors %r, got rc=%d stderr=%r: %s" % (errs[:3], r.rc, r.err[:300], shq(r.argv)))
    c.count("files judged", len(files)); c.count("searches with %s" % (opt or "neither"))
    c.count("searches that met several filesystems", len(devs) > 1)
    c.seen((mode, tag, opt, follow, cfg.key(), len(devs), maxdepth, want_type))
    if len(devs) > 1: c.sample({"argv": shq(r.argv), "mode": mode, "arrangement": str(tag), "files": len(files), "devices": len(devs)})

def case(c):
    rng = c.rng
    set_locale("C.UTF-8")
    model.FAKE.clear()
    modes = ["fake", "fake", "links", "system"] + ["real"] * 4 * c.env.data["mounts"]
    mode = rng.choice(modes)
    if mode == "system":
        os.chdir(c.dir)
        r = rng.choice([(b"/", 1), (b"/dev", 1), (b"/sys/fs", 1), (b"/sys", 1)])
        c.count("system mount points")
        roots = [r[0]]
        if rng.random() < .5: roots.append(rng.choice([b"/dev", b"/proc", b"/sys/fs/cgroup"]) if r[1] == 1 else b"/")
        roots = [x for x in roots if os.path.isdir(x)]
        return check(c, rng, mode, roots, tuple(roots), maxdepth=rng.choice([0, r[1]]) if b"/proc" not in roots else 0, noall=True, forcefollow="P")
    out = mktree(c, rng.choice([8, 20, 50]), names=rng.choice(["plain", "mixed"]), maxdepth=6, loops=rng.random() < .3)
    if mode == "fake":
        # any set of subtrees belongs to other devices
        dirs = [b"t"] + [p for p, k in out if k == "d"]
        allp = [b"t"] + [p for p, k in out]
        dev = os.lstat(b"t").st_dev
        devs = [dev + 256, dev + 1, dev, dev ^ (1 << 8), os.makedev(os.major(dev) + 1, os.minor(dev))]
        of = {}
        for top in sorted(rng.sample(allp, min(len(allp), rng.choice([1, 2, 4, 8])))):
            d = rng.choice(devs)
            for q in allp:
                if q == top or q.startswith(top + b"/"): of[q] = d
        for q, d in of.items():
            st = os.lstat(q)
            if st.st_nlink > 1 and not stat.S_ISDIR(st.st_mode): continue
            model.FAKE[st.st_ino] = {"st_dev": d}
        if rng.random() < .6:
            # the same inode number on different devices (each pair still names one file)
            ids = {p: (of.get(p, dev), os.lstat(p).st_ino) for p in allp}
            pairs = collections.Counter(ids.values())
            for q in of:
                st = os.lstat(q)
                if st.st_ino not in model.FAKE or pairs[ids[q]] > 1 or rng.random() < .5: continue
                anc = [a for a in allp if q.startswith(a + b"/")]
                i = ids[rng.choice(anc if anc and rng.random() < .7 else allp)][1]
                if (of[q], i) in pairs or st.st_ino == i: continue
                pairs[of[q], i] += 1
                model.FAKE[st.st_ino]["st_ino"] = i
                c.count("inode numbers shared between devices")
        env = {"LD_PRELOAD": c.env.data["shim"], "VP_NOURING": "1", "VP_FAKESTAT": fakeenv()}
        if rng.random() < .3: env["VP_DTUNK"] = "1"
        if rng.random() < .3: env.update(old(rng))
        if rng.random() < .4: env["VP_DELAY"] = "%d:100:100" % rng.randrange(1, 1 << 30)
        files = [p for p in allp if not p.startswith(b"-")]
        roots = [b"t"] + [rng.choice(files) for _ in range(rng.choice([0, 0, 1, 2]))]
        try: check(c, rng, mode, roots, len(of), base_env=env, fstype=False)
        finally: model.FAKE.clear()
        return
    if mode == "links":
        if not c.env.scratch.shm: return
        other = os.path.join(c.env.scratch.shm, "c%d" % c.idx).encode()
        os.makedirs(other); os.chmod(other, 0o755)
        nodes = populate_small(rng, other, 3)
        dirs = [b"t"] + [p for p, k in out if k == "d"]
        odirs = [other] + [p for p, k in nodes if k == "d"]
        for i in range(rng.choice([1, 2, 4])):
            try: os.symlink(rng.choice([other] + [p for p, k in nodes]), rng.choice(dirs) + b"/link%d" % i)
            except OSError: pass
        for i in range(rng.choice([0, 1, 2])):
            try: os.symlink(os.path.abspath(rng.choice(dirs)), rng.choice(odirs) + b"/back%d" % i)
            except OSError: pass
        roots = rng.choice([[b"t"], [b"t"], [b"t", other], [other]])
        return check(c, rng, mode, roots, len(nodes), forcefollow=rng.choice("PHLLLL"))
    # real mounts in a namespace of our own (relative links could lead out of the tree once bound elsewhere)
    n0 = list(out)
    for p, k in n0:
        if os.path.islink(p) and b".." in os.readlink(p).split(b"/"):
            to = os.path.abspath(os.path.join(os.path.dirname(p), os.readlink(p)))
            os.unlink(p); os.symlink(to, p)
    def go():
        enter_ns()
        kinds = do_mounts(c, rng, n0)
        for _ in range(2):
            roots = [b"t"]
            cand = [p for p, k in n0 if os.path.lexists(p) and not p.startswith(b"-")]
            if cand and rng.random() < .4: roots.append(rng.choice(cand))
            check(c, rng, mode, roots, kinds, user=False)
        return c.counts, c.distinct, c.samples, c.evals
    st, info = child(go)
    if st == "violation": raise Violation(*info[:2], **(info[2] or {}))
    if st == "inconclusive": raise Inconclusive(info)
    if st == "error": raise RuntimeError(info)
    c.counts, c.distinct, c.samples, c.evals = info
