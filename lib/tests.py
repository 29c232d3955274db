"""Generators of individual find tests paired with a Python predicate."""
import os, re, stat, time
from model import *

class World:
    """What the generators draw arguments from: the files of a tree."""
    def __init__(self, files, now=None, extra_refs=(), maxdepth=6):
        self.files = files
        st = [f.st for f in files] or [os.stat(".")]
        self.sizes = sorted({s.st_size for s in st}) + [0, 1, 511, 512, 513, 1024, 1 << 20]
        self.inos = [s.st_ino for s in st]
        self.links = [s.st_nlink for s in st]
        self.uids = [s.st_uid for s in st] + [0, 1]
        self.gids = [s.st_gid for s in st] + [0, 1]
        self.modes = [stat.S_IMODE(s.st_mode) for s in st]
        self.names = [f.name for f in files]
        self.paths = [f.path for f in files]
        self.targets = [f.target() for f in files if stat.S_ISLNK(f.lst.st_mode)] + [b"nowhere"]
        self.refs = [f.path for f in files if f.err is None and not f.path.startswith(b"-")]
        self.depths = [f.depth for f in files]
        self.maxdepth = maxdepth
        self.follow = "P"
        self.now = now

def t_const(rng, w):
    v = rng.random() < .5
    return Test(["-true" if v else "-false"], lambda f: v)

def t_type(rng, w, opt=None):
    x = rng.random() < .4
    letters = rng.sample("dfl", rng.choice([1, 1, 2])) if rng.random() < .5 else rng.sample("dflpsbcD", rng.choice([1, 1, 1, 2, 3]))
    arg = ",".join(letters)
    return Test(["-xtype" if x else "-type", arg], (lambda f: f.xtype() in letters) if x else (lambda f: f.type in letters))

def t_size(rng, w):
    u = rng.choice(["", "b", "c", "c", "w", "k", "k", "M", "G", "T", "P"])
    s = sgn(rng)
    un = UNITS[u]
    n = min((1 << 63) - 1, max(0, -(-rng.choice(w.sizes) // un) + rng.choice([-1, 0, 0, 1])))
    return Test(["-size", "%s%d%s" % (s, n, u)], lambda f: cmp(s, -(-f.st.st_size // un), n))

def _int(name, vals, get):
    def gen(rng, w):
        s = sgn(rng)
        n = near(rng, getattr(w, vals))
        return Test([name, "%s%d" % (s, n)], lambda f: cmp(s, get(f), n))
    return gen

t_links = _int("-links", "links", lambda f: f.st.st_nlink)
t_inum = _int("-inum", "inos", lambda f: f.st.st_ino)
t_uid = _int("-uid", "uids", lambda f: f.st.st_uid)
t_gid = _int("-gid", "gids", lambda f: f.st.st_gid)
t_depthn = _int("-depth", "depths", lambda f: f.depth)

def t_user(rng, w):
    uid = rng.choice(w.uids)
    nm = uname(uid)
    if nm and rng.random() < .7:
        return Test(["-user", nm], lambda f: f.st.st_uid == uid)
    s = sgn(rng)
    return Test(["-user", "%s%d" % (s, uid)], lambda f: cmp(s, f.st.st_uid, uid))

def t_group(rng, w):
    gid = rng.choice(w.gids)
    nm = gname(gid)
    if nm and rng.random() < .7:
        return Test(["-group", nm], lambda f: f.st.st_gid == gid)
    s = sgn(rng)
    return Test(["-group", "%s%d" % (s, gid)], lambda f: cmp(s, f.st.st_gid, gid))

def t_nouser(rng, w):
    if rng.random() < .5:
        return Test(["-nouser"], lambda f: uname(f.st.st_uid) is None)
    return Test(["-nogroup"], lambda f: gname(f.st.st_gid) is None)

def t_empty(rng, w):
    return Test(["-empty"], is_empty)

def t_sparse(rng, w):
    return Test(["-sparse"], lambda f: f.st.st_blocks < -(-f.st.st_size // 512))

def t_perm(rng, w):
    pre = rng.choice(["", "-", "/"])
    def match(mode, t): return mode == t if pre == "" else mode & t == t if pre == "-" else (mode & t) != 0 or not t
    if rng.random() < .6:
        m = rng.choice(w.modes)
        for _ in range(rng.choice([0, 0, 1, 2])):
            m ^= 1 << rng.randrange(12)
        if pre and rng.random() < .6:
            m &= rng.choice([0o111, 0o222, 0o444, 0o7000, 0o700, 0o070, 0o007, 0o4000, 0o6000, 1 << rng.randrange(12)])
        text = rng.choice(["%o", "%03o", "%04o"]) % m
        dm = fm = m
        if pre == "/" and rng.random() < .3:
            pass
    else:
        # prefer one that tells the files apart
        for _ in range(30):
            text, comp = perm_symbolic(rng)
            dm, fm = comp(True), comp(False)
            hit = [match(stat.S_IMODE(f.st.st_mode), dm if f.type == "d" else fm) for f in w.files[:40]]
            if any(hit) and not all(hit): break
    def fn(f):
        return match(stat.S_IMODE(f.st.st_mode), dm if f.type == "d" else fm)
    return Test(["-perm", pre + text], fn)

def t_samefile(rng, w):
    ref = rng.choice(w.refs)
    return Test(["-samefile", ref], _samefile(ref, w.follow))
def _samefile(ref, follow):
    r = F(ref, 0, ref, follow in "HL").st
    return lambda f: (f.st.st_dev, f.st.st_ino) == (r.st_dev, r.st_ino)

def t_newer(rng, w):
    ref = rng.choice(w.refs)
    r = F(ref, 0, ref, w.follow in "HL").st
    k = rng.randrange(5)
    A = {"a": "st_atime_ns", "c": "st_ctime_ns", "m": "st_mtime_ns"}
    if k == 0:
        return Test(["-newer", ref], lambda f: f.st.st_mtime_ns > r.st_mtime_ns)
    if k == 1:
        x = rng.choice("acm")
        return Test(["-%snewer" % x, ref], lambda f: getattr(f.st, A[x]) > r.st_mtime_ns)
    if k == 2 and rng.random() < .5:
        x = rng.choice("acm")
        t = (r.st_mtime_ns // 10**9) + rng.choice([-1, 0, 1])
        return Test([rng.choice(["-newer%st" % x, "-%ssince" % x]), "@%d" % t], lambda f: getattr(f.st, A[x]) > t * 10**9)
    x, y = rng.choice("acm"), rng.choice("acm")
    return Test(["-newer%s%s" % (x, y), ref], lambda f: getattr(f.st, A[x]) > getattr(r, A[y]))

def globify(rng, s, literal_ok=True):
    """A shell pattern derived from the byte string s."""
    out = b""
    i = 0
    while i < len(s):
        r = rng.random()
        c = s[i:i + 1]
        if r < .08:
            out += b"?"; i += 1
        elif r < .16:
            out += b"*"; i += rng.randrange(0, 4)
        elif r < .22 and c[0] < 128 and c not in b"]^!-\\[":
            k = rng.randrange(4)
            if k == 0: out += b"[" + c + b"x]"
            elif k == 1: out += b"[!" + c + b"]"
            elif k == 2: out += b"[" + bytes([max(33, c[0] - 1) if c[0] > 33 else c[0]]) + b"-" + bytes([min(126, c[0] + 1)]) + b"]" if c[0] > 48 else b"?"
            else: out += b"[[:alpha:]]"
            i += 1
        elif c in b"*?[\\":
            out += rng.choice([b"\\" + c, c]); i += 1
        elif r < .27:
            out += b"\\" + c; i += 1
        else:
            out += c; i += 1
    r = rng.random()
    if r < .15: out = b"*" + out
    elif r < .3: out += b"*"
    elif r < .34: out += b"\\"
    elif r < .38: out = out.swapcase()
    elif r < .41: out += b"["
    return out

def bad_escape(p):
    """An unescaped trailing backslash never matches."""
    n = len(p) - len(p.rstrip(b"\\"))
    return n % 2 == 1

def pmatch(pat, s, icase):
    if bad_escape(pat):
        return False
    return fnmatch(pat, s, icase)

def t_name(rng, w):
    i = rng.random() < .35
    base = rng.choice(w.names)
    pat = base if rng.random() < .2 else globify(rng, base)
    if i and rng.random() < .5: pat = pat.swapcase()
    return Test(["-iname" if i else "-name", pat], lambda f: pmatch(pat, f.name, i))

def t_path(rng, w):
    i = rng.random() < .35
    base = rng.choice(w.paths)
    pat = base if rng.random() < .2 else globify(rng, base)
    if i and rng.random() < .5: pat = pat.swapcase()
    opt = rng.choice(["-ipath", "-iwholename"] if i else ["-path", "-wholename"])
    return Test([opt, pat], lambda f: pmatch(pat, f.path, i))

def t_lname(rng, w):
    i = rng.random() < .35
    base = rng.choice(w.targets)
    pat = base if rng.random() < .3 else globify(rng, base)
    if i and rng.random() < .5: pat = pat.swapcase()
    return Test(["-ilname" if i else "-lname", pat], lambda f: f.type == "l" and pmatch(pat, f.target(), i))

def t_hidden(rng, w):
    return Test(["-hidden"], lambda f: f.name.startswith(b".") and f.name not in (b".", b".."))

def t_time(rng, w):
    """-[acm]{time,min}; w.now must be the (fake) time of the run in ns."""
    x = rng.choice("acm")
    A = {"a": "st_atime_ns", "c": "st_ctime_ns", "m": "st_mtime_ns"}[x]
    kind = rng.choice(["time", "min"])
    s = sgn(rng)
    unit = 86400 if kind == "time" else 60
    suffix = ""
    f0 = rng.choice(w.files)
    diff = (w.now - getattr(f0.st, A)) // 10**9
    n = abs(diff) // unit + rng.choice([-1, 0, 0, 1])
    n = max(0, n)
    def fn(f):
        d = (w.now - getattr(f.st, A)) // 10**9      # floor to seconds
        q = abs(d) // unit * (1 if d >= 0 else -1)    # truncate toward zero
        return cmp(s, q, n)
    return Test(["-%s%s" % (x, kind), "%s%d%s" % (s, n, suffix)], fn)

CHEAP = [t_const, t_type, t_type, t_name, t_name, t_path, t_lname, t_hidden, t_depthn]
META = [t_size, t_size, t_links, t_inum, t_uid, t_gid, t_user, t_group, t_nouser, t_empty, t_sparse, t_perm, t_perm, t_samefile, t_newer]

def gen_test(rng, w, kinds=None):
    return rng.choice(kinds or (CHEAP + META))(rng, w)

# argument values that are unambiguous as argv elements: find never re-parses them
