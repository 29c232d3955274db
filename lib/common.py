"""Shared pieces of the checks."""
import re, os, random, stat, sys, collections, itertools
from vlib import *
from model import *
import tree as T
from tests import *

def mktree(c, n=20, shape=None, base=None, **kw):
    """A random tree in c.dir/base; the worker's cwd becomes c.dir."""
    rng = c.rng
    os.chdir(c.dir)
    base = base or b"t"
    os.mkdir(base)
    sh = T.gen_shape(rng, n, shape, names=kw.pop("names", "mixed"), maxdepth=kw.pop("maxdepth", 12))
    return T.populate(rng, base, sh, **kw)

def small_world(c, n=20, follow="P", **kw):
    set_locale("C.UTF-8")
    kw.setdefault("meta", True)
    mktree(c, n, **kw)
    files, errs = walk([b"t"], follow)
    w = World([f for f in files])
    w.follow = follow
    return w, [b"t"]

def traversal_opts(rng, strategies=True, depth=.15, maxmin=False):
    """Random flags that must not matter for what is evaluated per file."""
    a, o = [], {"post": False}
    if rng.random() < .6: a += ["-j%d" % rng.choice([1, 1, 2, 3, 8])]
    if strategies and rng.random() < .6:
        s = rng.choice(["bfs", "dfs", "ids", "eds"]); a += ["-S", s]; o["strategy"] = s
    if rng.random() < .3: a += ["-s"]; o["sort"] = True
    if rng.random() < .4: a += ["-O%d" % rng.choice([0, 1, 2, 3])]
    if rng.random() < depth:
        a += ["-d"]; o["post"] = True
    rng.shuffle(a) if not any(x == "-S" for x in a) else None
    return a, o

def roots_and_expr(rng, roots, toks):
    """Place starting paths before (usually) or after the expression."""
    if rng.random() < .85 or any(r.startswith(b"-") for r in roots):
        return list(roots) + list(toks)
    return list(toks) + list(roots)

def leaf_gen(rng, w, nact, prune=False, vals=False, kinds=None):
    """Leaves: tests plus at most nact record-emitting actions."""
    state = {"n": 0}
    def leaf():
        r = rng.random()
        if state["n"] < nact and r < .35:
            i = state["n"]; state["n"] += 1
            return Act(["-printf", "%d:%%p\\0" % i], i)
        if prune and r > .95:
            def fn(f, ctl):
                ctl.prune = True
                return True
            return Act(["-prune"], None, fn=fn)
        return gen_test(rng, w, kinds)
    leaf.state = state
    return leaf

def has_print(e):
    return any(isinstance(x, Act) and x.tag not in ("-prune", "-quit", "-limit") for x in e.walk())

def model_run(roots, e, follow="P", post=False, mindepth=0, maxdepth=None, exclude=None, xdev=None):
    """Per-file event sequences expected for expression e (None: implicit print only).
    Implicit print records as action 'print'."""
    implicit = e is None or not has_print(e)
    per, ctlg = collections.OrderedDict(), Ctl()
    def visit(f):
        if exclude is not None and exclude(f):
            return False
        ctl = Ctl()
        inrange = f.depth >= mindepth and (maxdepth is None or f.depth <= maxdepth)
        if inrange:
            v = e.ev(f, ctl) if e is not None else True
            if implicit and v:
                ctl.events.append(("print", f.path))
            if ctl.events:
                per.setdefault(f.path, []).extend(i for i, _ in ctl.events)
        if maxdepth is not None and f.depth >= maxdepth:
            return False
        if ctl.prune and not post and inrange:
            return False
        return True
    files, errs = walk(roots, follow, xdev, visit)
    return per, implicit, errs, files

def parse_events(out, implicit):
    """stdout of NUL-terminated 'id:path' records (or -print0-less implicit print: newline terminated)."""
    ev = []
    if implicit:
        return None
    for rec in out.split(b"\0")[:-1]:
        i, _, p = rec.partition(b":")
        ev.append((int(i), p))
    if out and not out.endswith(b"\0"):
        ev.append(("garbage", out[out.rfind(b"\0") + 1:]))
    return ev

def check_expr(c, w, roots, e, argv, opts, **mk):
    per, implicit, errs, files = model_run(roots, e, w.follow, post=opts.get("post", False), **mk)
    r = c.bfs(argv)
    if r.rc != 0 or r.err:
        raise Violation("status", "unexpected failure (rc=%d, stderr=%r): %s" % (r.rc, r.err[:500], shq(r.argv)))
    compare_events(c, r, per, implicit)
    return per, r

def compare_events(c, r, per, implicit, what="events"):
    if implicit:
        # newline-terminated paths; names may contain newlines, so compare as multisets of lines
        want = collections.Counter(b"".join(p + b"\n" for p in per).split(b"\n"))
        got = collections.Counter(r.out.split(b"\n"))
        if want != got:
            raise Violation(what, "printed files differ: %s\n missing=%r extra=%r" % (
                shq(r.argv), list((want - got).items())[:5], list((got - want).items())[:5]))
        c.count("paths", len(per))
        return
    got = collections.OrderedDict()
    for i, p in parse_events(r.out, implicit):
        got.setdefault(p, []).append(i)
    for p in per:
        if got.get(p) != per[p]:
            raise Violation(what, "events for %r: expected %r, got %r: %s" % (p, per[p], got.get(p), shq(r.argv)))
    for p in got:
        if p not in per:
            raise Violation(what, "unexpected events for %r: %r: %s" % (p, got[p], shq(r.argv)))
    c.count("events", sum(map(len, per.values())))

def as_user(fn):
    """Run fn() in a forked child with the unprivileged identity; returns its result."""
    import pickle
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            os.setgroups([]); os.setresgid(GID, GID, GID); os.setresuid(UID, UID, UID)
            try: res = (True, fn())
            except BaseException as e: res = (False, traceback.format_exc())
            with os.fdopen(wr, "wb") as f: pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f: data = f.read()
    os.waitpid(pid, 0)
    ok, res = pickle.loads(data)
    if not ok: raise RuntimeError(res)
    return res

def quoted_in(p, err):
    """Is the (plain ASCII) path mentioned?  None if it would be quoted in an escaped form."""
    if p and all(32 < b < 127 and chr(b) not in "'\\\"`$!()[]{}*?;&|<>~#=%^," for b in p):
        return p in err
    return None

def snapshot(root):
    """What is in a directory tree: {relpath: (type, size or target)}."""
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = d + b"/" + n
            st = os.lstat(p)
            out[p[len(root):]] = (typ(st), os.readlink(p) if stat.S_ISLNK(st.st_mode) else st.st_size if stat.S_ISREG(st.st_mode) else 0, stat.S_IMODE(st.st_mode))
    return out
