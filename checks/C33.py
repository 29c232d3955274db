"""C33: bfs is a drop-in replacement for GNU find."""
from trav import *
import tests, time
PROP, LEVEL = "C33", "exploration"
CASES = {"quick": 600, "thorough": 30000}
RULE = "each distinct (command line shape: primaries, options, follow mode; configuration) whose result is neither empty nor everything counts once"
TECHNIQUE = ("runtime monitoring, differential: the same command line runs under bfs (any strategy, threads, perturbation) and under the installed GNU find on the same "
             "tree; output records, files written, commands executed, the tree afterwards and the exit status must agree as multisets")
ASSUMPTIONS = ["GNU find 4.9 as installed is the reference; primaries and corners where bfs documents other semantics (-mount, -perm without who, -size of T/P, default regex syntax, the order of results, trailing slashes; also the comma operator below the top level, which GNU find 4.9 misoptimizes) are not generated."]
VARIANTS = ("plain", "nouring", "release")
FIND = "/usr/bin/find"
OKPERM = re.compile(r"^[-/]?[0-7]+$")

def targs(t):
    return [x.decode() if all(32 < b < 127 for b in x) else x for x in t.toks]

def known(t):
    """Is this a test GNU find has, with the same meaning?"""
    a = targs(t)
    n = a[0]
    if n in ("-hidden", "-sparse", "-depth"): return False
    if n in ("-type", "-xtype") and "D" in a[1]: return False
    if n == "-size" and a[1][-1] in "TP": return False
    if n == "-perm" and not OKPERM.match(a[1]) and re.search("[stX]", a[1]): return False    # '=' and special bits: see DESIGN.md
    if n in ("-user", "-group") and a[1][0] in "+-": return False
    if n.endswith("since"): return False
    if n == "-size" and len(a[1].strip("+-bcwkMG")) > 18: return False
    return True

def gen(rng, w):
    for _ in range(200):
        if rng.random() < .08 and w.utf8: t = regex(rng, w)
        elif rng.random() < .06: t = access(rng)
        elif rng.random() < .15: t = times(rng, w)
        else: t = gen_test(rng, w)
        if known(t): return t

def regex(rng, w):
    p = rng.choice(w.paths)
    out = b""
    for c in p:
        ch = bytes([c])
        r = rng.random()
        if c >= 128 or c < 32 or r < .1: out += b"."
        elif r < .15: out += b".*"
        elif ch in b".[]*^$+?{}()|\\/-!,": out += b"[" + ch + b"]" if ch not in b"^]\\[" else b"."
        elif r < .2: out += b"[" + ch + b"0-9]"
        elif r < .24: out += b"(" + ch + b"|zz)"
        else: out += ch
    return Test(["-regextype", rng.choice(["posix-extended", "posix-egrep", "egrep"]), rng.choice(["-regex", "-iregex"]), out], None)

def times(rng, w):
    k = rng.random()
    x = rng.choice("am")
    s = rng.choice(["", "+", "-"])
    # (GNU find and bfs round ages differently at zero and for exact minutes)
    if k < .35: return Test(["-%stime" % x, "%s%d" % (s, rng.choice([1, 2, 3, 10, 29, 30, 31]))], None)
    if k < .6: return Test(["-%smin" % x, "%s%d" % (rng.choice("+-"), rng.choice([3, 4, 10, 58, 62, 1439, 1441]))], None)
    if k < .7: return Test(["-newer%st" % x, "@%d" % (time.time() - rng.choice([-3600, 5, 3000, 100000, 10**6, 10**7]))], None)
    if k < .9: return Test(["-newer%st" % x, time.strftime(rng.choice(["%Y-%m-%d", "%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%SZ", "%Y-%m-%d %H:%M", "%Y-%m-%dT%H:%M:%S+05:30"]), time.gmtime(time.time() - rng.choice([-7200, 5, 3000, 100000, 10**6, 10**7])))], None)
    return Test([rng.choice(["-nouser", "-nogroup"])], None)

def age(rng, files):
    """Access and modification times well inside minutes and days, so that the instant of the run does not matter."""
    now = int(time.time())
    for f in files:
        if rng.random() < .7:
            t = [(now - rng.choice([0, 1, 1, 2, 3, 10, 30, 31]) * 86400 - 43230 if rng.random() < .5 else now - rng.choice([0, 1, 2, 5, 59, 60, 61, 1440]) * 60 - 30) * 10**9 + rng.randrange(10**9) for _ in "am"]
            if stat.S_ISREG(f.lst.st_mode): os.utime(f.path, ns=tuple(t), follow_symlinks=False)
            else: os.utime(f.path, ns=(f.lst.st_atime_ns, t[1]), follow_symlinks=False) if stat.S_ISDIR(f.lst.st_mode) is False else None

def access(rng): return Test([rng.choice(["-readable", "-writable", "-executable"])], None)

FMT = ["%p", "%P", "%f", "%h", "%H", "%d", "%m", "%#m", "%M", "%i", "%n", "%s", "%b", "%k", "%U", "%G", "%u", "%g", "%y", "%Y", "%l", "%D", "%F",
       "%t", "%c", "%a", "%A@", "%AY", "%A+", "%T@", "%S", "%Ta", "%Td", "%Te", "%TF", "%Tg", "%TI", "%Tk", "%Tl", "%Tp", "%Tr", "%TR", "%Ts", "%Tu", "%TU", "%TV", "%Tw", "%TW", "%Tx", "%Ty", "%Tz", "%TD", "%Tc", "%TB", "%Th", "%TG", "%TC", "%TY-%Tm-%Td", "%TT", "%T+", "%C@", "%TH:%TM:%TS", "%Tj", "%TZ", "%Tb", "%TA", "%%",
       "%10s", "%-10s|", "%5d", "%-5d|", "%.3f", "%20p", "%-20f|", "%05m", "%3y|"]
def fmt(rng):
    out = ""
    for _ in range(rng.choice([1, 2, 3, 5])):
        out += rng.choice(FMT) + rng.choice([" ", ":", "\\t", "\\n", "\\\\", "\\101", "x", ""])
    return out + "\\0"

def plain(p): return all(32 < b < 127 and b not in b"\\\"'" for b in p)

class G:
    """Expression builder for find syntax."""
    def __init__(self, c, rng, w, tag):
        self.c, self.rng, self.w, self.n = c, rng, w, 0
        self.exec = 0
        self.quit = False
        self.acts = []
    def act(self):
        rng = self.rng
        k = rng.choice(["printf", "printf", "print0", "fprintf", "fprint0", "exec", "execplus", "execdir", "prune", "prune", "fprint", "ls", "ok", "quit"])
        if k == "ls" and not self.w.plain: k = "print0"
        if k == "execdir" and self.w.locked: k = "exec"      # (GNU find gives up there)
        if k.startswith("exec") or k == "ok":
            self.exec += 1
            if self.exec > 2 or k == "ok" and k in self.acts: k = "print0"       # (bfs wants at most one -ok)
        self.n += 1
        self.acts.append(k)
        if k == "printf": return ["-printf", "%d:" % self.n + fmt(rng)]
        if k == "print0": return ["-print0"]
        if k == "fprintf": return ["-fprintf", "@o%d" % rng.randrange(3), "%d:" % self.n + fmt(rng)]
        if k == "fprint0": return ["-fprint0", "@o%d" % rng.randrange(3)]
        if k == "fprint": return ["-fprintf", "@o%d" % rng.randrange(3), "%p\\0"]
        if k == "prune": return ["-prune"]
        if k == "quit":
            self.quit = True
            return ["-print0", "-quit"]
        if k == "ls": return ["-fls", "@ols"]
        if k == "ok": return [rng.choice(["-ok", "-ok", "-okdir"] if not self.w.locked else ["-ok"]), "printf", "%s\\0", "k", "{}", ";"]
        if k == "exec":
            if rng.random() < .4: return ["-exec", rng.choice(["test", "/usr/bin/test"]), rng.choice(["-f", "-d", "-s"]), "{}", ";"]
            return ["-exec", "printf", "%s\\0", "e%d" % self.n, rng.choice(["{}", "x{}y", "{}{}"]), ";"]
        if k == "execdir": return ["-execdir", "printf", "%s\\0", "{}", "d", ";"]
        return ["-exec", "printf", "%s\\0", "{}", "+"]
    def leaf(self, acts=False):
        return targs(gen(self.rng, self.w))
    def whole(self, n):
        """pure expression, then actions; alternatives.  (GNU find 4.9 moves tests past actions in less regular expressions.)"""
        rng = self.rng
        out = []
        for i in range(rng.choice([1, 1, 1, 2, 3])):
            if out: out += [rng.choice(["-o", "-or"])]
            if rng.random() < .9: out += self.paren(self.expr(rng.randrange(1, n + 1), False))
            for _ in range(rng.choice([1, 1, 2, 3])): out += rng.choice([[], ["-a"]] if out and out[-1] not in ("-o", "-or") else [[]]) + self.act()
        return out
    def expr(self, n, acts=True):
        rng = self.rng
        if n <= 1: return self.leaf(acts)
        k = rng.random()
        if k < .15: return [rng.choice(["!", "-not"])] + self.paren(self.expr(n - 1, acts))
        l = rng.randrange(1, n)
        a, b = self.expr(l, acts), self.expr(n - l, acts)
        op = rng.choice([[], ["-a"], ["-and"], ["-o"], ["-or"]])
        return self.paren(a) + op + self.paren(b)
    def paren(self, t):
        if len(t) == 1 or self.rng.random() < .7: return ["("] + t + [")"]
        return t

def place(toks, d):
    return [os.path.join(d, t[1:]) if isinstance(t, str) and t.startswith("@o") else t for t in toks]

def recs(b): return collections.Counter(b.split(b"\0"))

def outputs(d):
    out = {}
    for n in sorted(os.listdir(d)):
        b = open(os.path.join(d, n), "rb").read()
        out[n] = collections.Counter(b" ".join(l.split()) for l in b.split(b"\n")) if n == "ols" else recs(b)
    return out

def diff(a, b):
    return "only GNU find: %r; only bfs: %r" % (list((a - b).items())[:4], list((b - a).items())[:4])

def case(c):
    rng = c.rng
    set_locale("C.UTF-8")
    os.chdir(c.dir)
    mktree(c, rng.choice([6, 15, 40, 90]), meta=True, loops=rng.random() < .4, names=rng.choice(["mixed", "mixed", "plain"]))
    follow = rng.choice(["P", "P", "P", "H", "L"])
    files, _ = walk([b"t"], follow)
    files = [f for f in files if f.err is None]
    age(rng, walk([b"t"], "P")[0])
    files = [f for f in walk([b"t"], follow)[0] if f.err is None]
    dirs = [f.path for f in files if f.type == "d" and f.depth > 0]
    locked = rng.random() < .3 and follow == "P"
    if locked:
        for p in rng.sample(dirs, min(len(dirs), 2)): os.chmod(p, rng.choice([0, 0o311]))
    w = World(files); w.follow, w.locked = follow, locked
    # (what '.' does with invalid multibyte characters depends on the regex engine)
    w.utf8 = all(f.path.decode("utf8", "ignore").encode() == f.path for f in walk([b"t"], "P")[0])
    w.plain = all(plain(f.path) and (f.type != "l" or plain(f.target())) for f in files)
    w.refs = [r for r in w.refs if as_plain_ref(r)] or [b"t"]
    for k in range(5):
        if k == 4 and rng.random() < .6 and follow != "L": deletion(c, rng, follow)
        else: compare(c, rng, w, files, follow)

def as_plain_ref(r):
    try:
        return stat.S_ISREG(os.stat(r).st_mode) or stat.S_ISDIR(os.stat(r).st_mode)      # GNU find opens them
    except OSError:
        return False

def options(rng, follow):
    opts, glob = [], []
    if follow != "P" or rng.random() < .2: opts = ["-" + follow]
    if follow == "L" and rng.random() < .2: opts, glob = [], ["-follow"]
    if rng.random() < .25: glob += ["-mindepth", str(rng.randrange(0, 3))]
    if rng.random() < .3: glob += ["-maxdepth", str(rng.randrange(0, 5))]
    if rng.random() < .2: glob += ["-xdev"]
    if rng.random() < .1: glob += ["-noleaf"]
    if rng.random() < .1: glob += ["-ignore_readdir_race"]
    if rng.random() < .15: glob += ["-daystart"]
    if rng.random() < .3: glob += ["-depth"]
    rng.shuffle(glob) if not {"-mindepth", "-maxdepth"} & set(glob) else None
    return opts, glob

def compare(c, rng, w, files, follow):
    opts, glob = options(rng, follow)
    g = G(c, rng, w, "")
    if rng.random() < .3:
        # many independent short chains of tests in one command line
        toks = []
        for i in range(20):
            chain = []
            for _ in range(rng.choice([1, 2, 2, 2, 3])): chain += (["!"] if rng.random() < .2 else []) + g.leaf()
            toks += ([","] if toks else []) + chain + ["-printf", "%d:%%p\\0" % i]
        g.acts.append("printf") if isinstance(g.acts, list) else g.acts.add("printf")
        c.count("wide command lines")
    else:
        toks = g.whole(rng.choice([1, 1, 2, 3, 5, 8]))
    if set(g.acts) == {"prune"}: toks += ["-o", "-print0"]
    roots = gen_roots(rng, b"t", [f for f in files if not f.path.startswith(b"-")])
    # GNU find and bfs differ in how they spell results for starting paths with a trailing slash
    roots = [r for r in roots if r != b"." and not r.endswith(b"/")] or [b"t"]
    if rng.random() < .1: roots.append(b"t/missing file")
    cfg = Cfg(c, rng, post=False)
    cfg.kw.pop("nofile", None)
    cfg.env.pop("VP_DTUNK", None)
    o1, o2 = os.path.join(c.dir, "o1"), os.path.join(c.dir, "o2")
    for d in (o1, o2):
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d); os.chown(d, UID, GID)
    if g.quit:
        roots, glob = roots[:1], ["-maxdepth", "0"]        # the order of files is each program's own
    stdin = rng.choice([b"", b"y\n", b"n\n", b"yes\n", b"\n", b"Y\n"]) * 400
    src = list(roots)
    if not g.quit and rng.random() < .1 and not {"-ok", "-okdir"} & set(toks):
        with open("list0", "wb") as f: f.write(b"\0".join(roots) + rng.choice([b"", b"\0"]))
        os.chmod("list0", 0o644)
        src, glob = [], ["-files0-from", "list0"] + glob
    env = {"TZ": rng.choice(["UTC0", "America/New_York", "Asia/Kolkata", "XXX-3:30"])}
    a = run([FIND] + opts + src + glob + place(toks, o1), cwd=c.dir, env=env, stdin=stdin)
    env2 = dict(cfg.env); env2.update(env)
    b = c.bfs(cfg.flags + opts + src + glob + place(toks, o2), env=env2, stdin=stdin, variant=rng.choice(["plain", "plain", "nouring", "release"]), **cfg.kw)
    what = "%s" % shq([str(x) if not isinstance(x, bytes) else x for x in b.argv])
    if b"unknown predicate" in a.err or b"invalid" in a.err or b"Invalid" in a.err or b"usage" in a.err.lower():
        c.count("not comparable"); return
    ra, rb = recs(a.out), recs(b.out)
    if ra != rb: raise Violation("output", "%s: %s\n find: %r bfs: %r" % (diff(ra, rb), what, a.err[:200], b.err[:200]))
    fa, fb = outputs(o1), outputs(o2)
    if fa != fb:
        k = [k for k in set(fa) | set(fb) if fa.get(k) != fb.get(k)][0]
        raise Violation("files", "output file %s: %s: %s" % (k, diff(fa.get(k) or collections.Counter(), fb.get(k) or collections.Counter()), what))
    # (which tests are evaluated at all, and so fail, is up to the optimizers)
    if (a.rc != 0) != (b.rc != 0) and not (w.locked and re.search(r"-empty|-xtype|%-?[0-9]*Y", " ".join(t for t in toks if isinstance(t, str)))): raise Violation("status", "GNU find exits with %d (%r), bfs with %d (%r): %s" % (a.rc, a.err[:200], b.rc, b.err[:200], what))
    n = sum(ra.values()) + sum(sum(x.values()) for x in fa.values())
    c.count("compared command lines"); c.count("records", n)
    if a.rc: c.count("with errors")
    for k in g.acts: c.count("action:" + k)
    for t in toks:
        if isinstance(t, str) and t.startswith("-") and t[1:2].isalpha(): c.count("primary:" + t)
    if n > 1: c.seen(tuple(t if isinstance(t, str) else b"?" for t in toks), tuple(opts + glob), cfg.key())
    c.sample("%s: %d records" % (what, n))

def deletion(c, rng, follow):
    os.chdir(c.dir)
    d1, d2 = os.path.join(c.dir, "x1"), os.path.join(c.dir, "x2")
    for d in (d1, d2):
        os.mkdir(d)
        subprocess.run(["cp", "-a", "t", d + "/t"], check=True)
        subprocess.run(["chown", "-hR", "%d:%d" % (UID, GID), d], check=True)
    files, _ = walk([b"t"], "P")
    w = World(files)
    tests = []
    for _ in range(rng.choice([1, 1, 2])):
        t = rng.choice([t_type, t_name, t_name, t_path, t_empty, t_size, t_const])(rng, w)
        if known(t) and t.tag != "-xtype": tests += targs(t)     # (its answer would depend on the order of deletion)
    opts = ["-" + follow] if follow != "P" else []
    cfg = Cfg(c, rng, post=False)
    cfg.kw.pop("nofile", None); cfg.env.pop("VP_DTUNK", None)
    glob = ["-mindepth", str(rng.randrange(3))] if rng.random() < .4 else []
    act = ["-delete"] + (["-print0"] if rng.random() < .7 else [])
    a = run([FIND] + opts + [b"t"] + glob + tests + act, cwd=d1)
    b = c.bfs(cfg.flags + opts + [b"t"] + glob + tests + act, cwd=d2, env=cfg.env, **cfg.kw)
    s1, s2 = snapshot(d1.encode()), snapshot(d2.encode())
    what = shq(b.argv)
    if s1 != s2: raise Violation("deleted", "after -delete: only with GNU find %r; only with bfs %r: %s" % (sorted(set(s1) - set(s2))[:4], sorted(set(s2) - set(s1))[:4], what))
    if recs(a.out) != recs(b.out): raise Violation("output", "%s: %s" % (diff(recs(a.out), recs(b.out)), what))
    if (a.rc != 0) != (b.rc != 0): raise Violation("status", "GNU find exits with %d (%r), bfs with %d (%r): %s" % (a.rc, a.err[:200], b.rc, b.err[:200], what))
    c.count("deletions"); c.count("deleted files", len(files) - len(s1))
    shutil.rmtree(d1, ignore_errors=True); shutil.rmtree(d2, ignore_errors=True)
    c.seen("delete", tuple(t if isinstance(t, str) else b"?" for t in tests), cfg.key())
