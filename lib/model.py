"""Reference model: an independent walker and evaluator of find expressions, using
only direct system queries from Python."""
import ctypes, errno, functools, grp, os, pwd, stat, time

libc = ctypes.CDLL(None, use_errno=True)
FNM_NOESCAPE, FNM_PATHNAME, FNM_PERIOD, FNM_CASEFOLD = 2, 1, 4, 16

def set_locale(name):
    libc.setlocale.restype = ctypes.c_char_p
    return libc.setlocale(6, name.encode())

def fnmatch(pat, s, icase=False):
    return libc.fnmatch(pat, s, FNM_CASEFOLD if icase else 0) == 0

TYPES = [(stat.S_ISDIR, "d"), (stat.S_ISREG, "f"), (stat.S_ISLNK, "l"), (stat.S_ISFIFO, "p"), (stat.S_ISSOCK, "s"),
         (stat.S_ISCHR, "c"), (stat.S_ISBLK, "b")]

def typ(st):
    for fn, c in TYPES:
        if fn(st.st_mode):
            return c
    return "U"

def basename(path):
    p = path.rstrip(b"/")
    if not p:
        return b"/"
    return p[p.rfind(b"/") + 1:]

class StatError(Exception):
    pass

FAKE = {}     # inode -> {attribute: value}: metadata overridden by the shim (VP_FAKESTAT)
FAKEKEY = {"st_ino": "i", "st_nlink": "n", "st_uid": "u", "st_gid": "g", "st_size": "s", "st_blocks": "b", "st_dev": "d", "st_rdev": "r", "st_mode": "m",
           "st_atime_ns": "A", "st_mtime_ns": "M", "st_ctime_ns": "C", "st_birthtime_ns": "B"}
class FakeStat:
    def __init__(self, st, over):
        self._st = st
        self.__dict__.update(over)
    def __getattr__(self, k):
        return getattr(self._st, k)
def faked(st):
    return FakeStat(st, FAKE[st.st_ino]) if st.st_ino in FAKE else st
def fakeenv():
    out = []
    for ino, over in FAKE.items():
        for k, v in over.items():
            out.append("%d:%s:%d.%d" % (ino, FAKEKEY[k], *((v // 10**9, v % 10**9) if k.endswith("_ns") else (v, 0))))
    return ",".join(out)

class F:
    """One encountered file."""
    __slots__ = ("path", "name", "depth", "root", "lst", "st", "err", "followed", "rawname")
    def __init__(self, path, depth, root, follow, rawname=None):
        self.path, self.depth, self.root = path, depth, root
        self.name = basename(path)
        self.rawname = rawname
        self.followed = follow
        self.lst = self.st = self.err = None
        try:
            self.lst = self.st = faked(os.lstat(path))
            if stat.S_ISLNK(self.lst.st_mode) and follow:
                try:
                    self.st = faked(os.stat(path))
                except OSError as e:
                    if e.errno not in (errno.ENOENT, errno.ENOTDIR):
                        self.err = e
        except OSError as e:
            self.err = e
    @property
    def type(self):
        return typ(self.st)
    def xtype(self):
        if self.followed:
            return typ(self.lst)
        try:
            return typ(faked(os.stat(self.path)))
        except OSError as e:
            if e.errno in (errno.ENOENT, errno.ENOTDIR):
                return typ(self.lst)
            raise StatError(e)
    def target(self):
        return os.readlink(self.path)

def join(parent, name):
    return parent + name if parent.endswith(b"/") else parent + b"/" + name

def walk(roots, follow="P", xdev=None, visit=None, can_descend=None, unique=False):
    """Pre-order walk.  visit(f) returns False to prune.  Returns (files, errors)
    where errors is a list of (kind, path)."""
    files, errors, seen = [], [], set()
    for root in roots:
        f = F(root, 0, root, follow in "HL")
        stack = [(f, ())]
        rootdev = None
        while stack:
            f, anc = stack.pop()
            if f.err is not None:
                errors.append(("stat", f.path))
                continue
            if f.depth == 0:
                rootdev = f.st.st_dev
            mounted = xdev and f.depth > 0 and f.st.st_dev != rootdev
            if mounted and xdev == "mount":
                continue
            ident = (f.st.st_dev, f.st.st_ino)
            isdir = stat.S_ISDIR(f.st.st_mode)
            if isdir and not unique and f.followed and ident in anc:
                errors.append(("loop", f.path))
                continue
            if unique:
                if ident in seen:
                    continue
                seen.add(ident)
            files.append(f)
            go = True
            if visit is not None:
                go = visit(f)
            if not isdir or mounted or go is False:
                continue
            if can_descend and not can_descend(f):
                errors.append(("open", f.path))
                continue
            try:
                names = os.listdir(f.path)
            except OSError:
                errors.append(("open", f.path))
                continue
            for n in sorted(names, reverse=True):
                stack.append((F(join(f.path, n), f.depth + 1, root, follow == "L", n), anc + (ident,)))
    return files, errors

# ------------------------------------------------------------ expressions
class Ctl:
    """Evaluation context for one run of the model."""
    def __init__(self):
        self.events = []      # (action id, path)
        self.prune = False
        self.stop = False
        self.exit = None
        self.limit = {}
        self.errors = 0

class Node:
    def tokens(self, rng=None, prec=0): raise NotImplementedError

class Test(Node):
    def __init__(self, toks, fn, pure=True, tag=None):
        self.toks, self.fn, self.tag = [t if isinstance(t, bytes) else t.encode() for t in toks], fn, tag or toks[0]
    def ev(self, f, ctl):
        return bool(self.fn(f))
    def tokens(self, rng=None, prec=0):
        return list(self.toks)
    def walk(self): yield self

class Act(Node):
    """An action that emits a record and returns a value."""
    def __init__(self, toks, ident, value=True, fn=None, tag=None):
        self.toks, self.ident, self.value, self.fn, self.tag = [t if isinstance(t, bytes) else t.encode() for t in toks], ident, value, fn, tag or toks[0]
    def ev(self, f, ctl):
        if self.fn:
            return self.fn(f, ctl)
        ctl.events.append((self.ident, f.path))
        return self.value
    def tokens(self, rng=None, prec=0):
        return list(self.toks)
    def walk(self): yield self

class Not(Node):
    def __init__(self, e): self.e = e
    def ev(self, f, ctl): return not self.e.ev(f, ctl)
    def tokens(self, rng=None, prec=0):
        op = b"!" if rng is None else rng.choice([b"!", b"-not"])
        return [op] + self.e.tokens(rng, 3)
    def walk(self):
        yield self
        yield from self.e.walk()

class Bin(Node):
    PREC = {"and": 2, "or": 1, "comma": 0}
    OPS = {"and": [b"-a", b"-and", None, None], "or": [b"-o", b"-or"], "comma": [b","]}
    def __init__(self, op, l, r): self.op, self.l, self.r = op, l, r
    def ev(self, f, ctl):
        v = self.l.ev(f, ctl)
        if ctl.stop:
            return v
        if self.op == "and":
            return v and self.r.ev(f, ctl)
        if self.op == "or":
            return v or self.r.ev(f, ctl)
        return self.r.ev(f, ctl)
    def tokens(self, rng=None, prec=0):
        p = self.PREC[self.op]
        op = self.OPS[self.op][0] if rng is None else rng.choice(self.OPS[self.op])
        # left associative: the right operand needs parentheses at equal precedence
        t = self.l.tokens(rng, p) + ([op] if op else []) + self.r.tokens(rng, p + 1)
        if p < prec or (rng is not None and rng.random() < .12):
            t = [b"("] + t + [b")"]
        return t
    def walk(self):
        yield self
        yield from self.l.walk()
        yield from self.r.walk()

def gen_expr(rng, leaf, size):
    """Random expression with about `size` leaves from leaf()."""
    if size <= 1:
        e = leaf()
        return Not(e) if rng.random() < .15 else e
    k = rng.randrange(1, size)
    op = rng.choices(["and", "or", "comma"], [50, 40, 10])[0]
    e = Bin(op, gen_expr(rng, leaf, k), gen_expr(rng, leaf, size - k))
    return Not(e) if rng.random() < .12 else e

# ------------------------------------------------------------ tests
def cmp(sign, x, n):
    return x < n if sign == "-" else x > n if sign == "+" else x == n

UNITS = {"": 512, "b": 512, "c": 1, "w": 2, "k": 1 << 10, "M": 1 << 20, "G": 1 << 30, "T": 1 << 40, "P": 1 << 50}

@functools.lru_cache(None)
def uname(uid):
    try: return pwd.getpwuid(uid).pw_name
    except KeyError: return None
@functools.lru_cache(None)
def gname(gid):
    try: return grp.getgrgid(gid).gr_name
    except KeyError: return None

def is_empty(f):
    if f.type == "d":
        return not os.listdir(f.path)
    return f.type == "f" and f.st.st_size == 0

def near(rng, vals):
    v = rng.choice(vals)
    return max(0, v + rng.choice([-1, 0, 0, 0, 1, 2]))

def sgn(rng):
    return rng.choice(["", "+", "-"])

def perm_symbolic(rng, umask=None):
    """A symbolic mode (with explicit WHO unless the umask is given); returns (text, function dir->mode)."""
    clauses = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        who = "".join(sorted(set(rng.choice("ugoa") for _ in range(rng.choice([1, 1, 2])))))
        if umask is not None and rng.random() < .3: who = ""
        acts = []
        for _ in range(rng.choice([1, 1, 2])):
            op = rng.choice("+-=")
            if rng.random() < .15:
                acts.append((op, rng.choice("ugo")))
            else:
                pool = "rwX" if rng.random() < .3 else "rwxXst" if rng.random() < .3 else "rwxst"
                acts.append((op, "".join(sorted(set(rng.choice(pool) for _ in range(rng.randrange(0, 4)))))))
        clauses.append((who, acts))
    text = ",".join(w + "".join(o + p for o, p in a) for w, a in clauses)
    def compute(isdir):
        m = 0
        for who, acts in clauses:
            whos = "ugo" if "a" in who or not who else who
            wm = 0
            for w in whos:
                wm |= {"u": 0o700, "g": 0o070, "o": 0o007}[w]
            rw = wm if who else wm & ~umask
            for op, perms in acts:
                if perms and perms in "ugo":
                    bits = (m >> {"u": 6, "g": 3, "o": 0}[perms]) & 7
                    bits = (bits << 6 | bits << 3 | bits) & rw
                else:
                    bits = 0
                    for c in perms:
                        if c == "r": bits |= 0o444 & rw
                        if c == "w": bits |= 0o222 & rw
                        if c == "x": bits |= 0o111 & rw
                        if c == "X" and isdir: bits |= 0o111 & rw
                        if c == "s": bits |= (0o4000 if "u" in whos else 0) | (0o2000 if "g" in whos else 0)
                        if c == "t" and "o" in whos: bits |= 0o1000
                if op == "+": m |= bits
                elif op == "-": m &= ~bits
                else: m = (m & ~wm) | bits
        return m
    return text, compute
