"""Traversal workloads shared by the traversal checks."""
from common import *
import shim as S

def setup(env):
    env.data["shim"] = env.cc("shim.so", ["shim.c"], ["-ldl", "-lpthread"], shared=True)

def old(rng):
    """A system without some of the newer system calls."""
    o = "".join(x for x in "sSpam" if rng.random() < .6)
    return {"VP_OLD": o, "VP_NOURING": "1"} if "s" in o.lower() else {"VP_OLD": o}

class Cfg:
    """A random way to run a search: nothing here may change which files are visited."""
    def __init__(self, c, rng, strategies=("bfs", "dfs", "ids", "eds"), sort=None, post=None, perturb=True, j=None, low=True):
        self.strategy = rng.choice(list(strategies))
        self.j = j or rng.choice([1, 1, 2, 2, 3, 4, 8, 16])
        self.sort = (rng.random() < .3) if sort is None else sort
        self.post = (rng.random() < .3) if post is None else post
        self.flags = []
        if self.strategy != "bfs" or rng.random() < .5:
            self.flags += rng.choice([["-S", self.strategy], ["-S" + self.strategy]])
        self.flags += ["-j%d" % self.j]
        if self.sort: self.flags += ["-s"]
        if rng.random() < .3: self.flags += ["-O%d" % rng.randrange(4)]
        self.globals = []
        if self.post:
            if rng.random() < .3: self.flags += ["-d"]
            else: self.globals += ["-depth"]
        self.env, self.kw = {}, {}
        r = rng.random()
        self.perturb = "none"
        if perturb and r < .6:
            self.env["LD_PRELOAD"] = c.env.data["shim"]
            if rng.random() < .5: self.env["VP_NOURING"] = "1"
            if rng.random() < .7:
                self.env["VP_DELAY"] = "%d:%d:%d" % (rng.randrange(1, 1 << 30), rng.choice([20, 100, 300]), rng.choice([5, 50, 300]))
            if rng.random() < .4: self.env["VP_DENTS"] = str(rng.choice([300, 400, 600, 1024, 4096]))
            if rng.random() < .25: self.env["VP_DTUNK"] = "1"
            if rng.random() < .25: self.env.update(old(rng))
            self.perturb = "shim" + ("-dtunk" if "VP_DTUNK" in self.env else "") + ("-nouring" if "VP_NOURING" in self.env else "") + ("-old" if "VP_OLD" in self.env else "")
        if low and rng.random() < .25:
            n = rng.choice([8, 9, 10, 12, 16, 20, 24, 32, 64])
            self.kw["nofile"] = n if rng.random() < .7 else (n, 2 * n)
            self.perturb += "-nofile"
    def key(self):
        return (self.strategy, min(self.j, 4), self.sort, self.post, self.perturb)

def spellings(rng, rel):
    """Equivalent spellings of a starting path."""
    r = rng.random()
    if r < .5: return rel
    if r < .6: return b"./" + rel
    if r < .7: return rel + b"/"
    if r < .75: return rel + b"//"
    if r < .8: return rel + b"/."
    if r < .85: return os.getcwdb() + b"/" + rel
    if r < .9: return b"t/../" + rel
    return b".//" + rel

def gen_roots(rng, base=b"t", files=None):
    """1-3 starting paths inside the tree (possibly overlapping or repeated)."""
    out = []
    for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
        rel = base
        if files and rng.random() < .3:
            rel = rng.choice(files).path
        p = spellings(rng, rel)
        if p != rel and not os.path.lexists(p):
            p = rel
        if not p.startswith(b"-"):
            out.append(p)
    if rng.random() < .05:
        out = [b"."]
    return out or [base]

def split0(out):
    if out and not out.endswith(b"\0"):
        raise Violation("truncated", "output does not end with NUL: %r" % out[-200:])
    return out.split(b"\0")[:-1]

def diff_multiset(want, got, argv, key="visited"):
    a, b = collections.Counter(want), collections.Counter(got)
    if a != b:
        raise Violation(key, "visited files differ: %s\n missing=%r\n extra=%r" % (
            shq(argv), list((a - b).items())[:4], list((b - a).items())[:4]))

# ---- the order each strategy defines over sorted directories
class N:
    __slots__ = ("path", "depth", "isdir", "kids", "parent", "refs")
    def __init__(self, path, depth, parent):
        self.path, self.depth, self.parent = path, depth, parent
        self.isdir = stat.S_ISDIR(os.lstat(path).st_mode)
        self.kids = None
    def load(self):
        if self.kids is None:
            self.kids = [N(join(self.path, n), self.depth + 1, self) for n in sorted(os.listdir(self.path))] if self.isdir else []
        return self.kids

def preorder(roots):
    stack = list(reversed(roots))
    while stack:
        n = stack.pop()
        yield n
        stack.extend(reversed(n.load()))

def sim_order(rootpaths, strategy, post=False):
    # -s sorts the starting paths too (by their spelling; stable)
    rootpaths = sorted(rootpaths)
    roots = [N(p, 0, None) for p in rootpaths]
    out = []
    if strategy == "bfs":
        def emit_done(n):
            # n finished: release its parent
            while n is not None:
                if n.isdir and post: out.append(n.path)
                p = n.parent
                if p is None: return
                p.refs -= 1
                if p.refs: return
                n = p
        files, dirs = collections.deque(roots), collections.deque()
        while files or dirs:
            if files:
                n = files.popleft()
                if not (post and n.isdir): out.append(n.path)
                if n.isdir: dirs.append(n)
                elif post: emit_done(n)
            else:
                d = dirs.popleft()
                k = d.load()
                d.refs = len(k)
                files.extend(k)
                if not k and post: emit_done(d)
        return out
    pre = list(preorder(roots))
    maxd = max((n.depth for n in pre), default=0)
    if strategy == "dfs":
        if not post:
            return [n.path for n in pre]
        def rec(r):
            stack = [(r, iter(r.load()))]
            while stack:
                n, it = stack[-1]
                k = next(it, None)
                if k is None:
                    out.append(n.path); stack.pop()
                else:
                    stack.append((k, iter(k.load())))
        for r in roots: rec(r)
        return out
    lo, hi, first = 0, 1, []
    while lo <= maxd:
        first += [n for n in pre if lo <= n.depth < hi]
        if strategy == "ids": lo, hi = lo + 1, hi + 1
        else: lo, hi = hi, hi * 2
    if not post:
        return [n.path for n in first]
    if strategy == "ids":
        for d in range(maxd, -1, -1):
            out += [n.path for n in pre if n.depth == d]
    else:
        out = [n.path for n in first if not n.isdir]
        out += [p for p in sim_order(rootpaths, "dfs", True) if stat.S_ISDIR(os.lstat(p).st_mode)]
    return out
