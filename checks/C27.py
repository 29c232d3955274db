"""C27: colors are chosen as LS_COLORS dictates."""
from colors import *
import struct, socket
PROP, LEVEL = "C27", "exploration"
CASES = {"quick": 1500, "thorough": 40000}
RULE = "each (rendering, file kind, color chosen, way it was chosen) counts once"
TECHNIQUE = "runtime monitoring: the byte stream of real colored runs is decoded into (byte, color) pairs and compared with an independent model of LS_COLORS parsing and file classification"

SUFF = [b".txt", b".TXT", b".Txt", b".gz", b".tar.gz", b".TAR.GZ", b"gz", b"z", b"~", b".x", b"a", b"README", b"readme", b".a b", b".\xc3\xa9", b".\xc3\x89", b"=x", b":y", b".b" * 140, b".\x07", b"\x08\x0b", b"\x0c.n", b".\r\t", b".a[", b".a{", b".A[", b".@x", b".`x", b"\x7f", b"^c", b"\\d", b""]
CODES = [b"31", b"32", b"33", b"01;34", b"38;5;208", b"4", b"00", b"0", b"", b"48;2;1;2;3", b"7"]
KEYS = ["no", "fi", "mh", "ex", "sg", "su", "di", "st", "ow", "tw", "ln", "or", "mi", "bd", "cd", "do", "pi", "so", "ca"]

def esc_bytes(rng, b, stop):
    """Spell a byte string in dircolors syntax, escaping at random."""
    out = b""
    for i, x in enumerate(b):
        ch = bytes([x])
        nxt = b[i + 1:i + 2]
        must = ch in (b"\\", b"^") or ch in stop or x == 0
        opts = []
        if not must: opts += [ch] * 6
        if nxt not in [b"%d" % k for k in range(8)]: opts += [b"\\%03o" % x]
        if not re.match(rb"[0-9a-fA-F]", nxt): opts += [b"\\x%02x" % x, b"\\X%X" % x]
        named = {7: b"a", 8: b"b", 27: b"e", 12: b"f", 10: b"n", 13: b"r", 9: b"t", 11: b"v", 127: b"?", 32: b"_"}
        if x in named: opts += [b"\\" + named[x]] * 2
        if x == 127: opts += [b"^?"]
        if 1 <= x < 27: opts += [b"^" + bytes([x + 64]), b"^" + bytes([x + 96])]
        if x == 27: opts += [b"^["]
        if ch not in b"abefnrtv?_01234567xX" and x: opts += [b"\\" + ch]
        if not opts: opts = [b"\\%03o" % x]
        if must: opts = [o for o in opts if o != ch]
        o = rng.choice(opts)
        # a following literal digit would extend the numeric escape
        out += o
    return out

class Spec:
    """Random color settings, as text and as a Scheme."""
    def __init__(self, rng):
        self.sc = Scheme()
        self.texts = [self.gen(rng) for _ in range(2)]
        if rng.random() < .5: self.texts[1] = None
        elif rng.random() < .3: self.texts[0] = None
        for t in self.texts:
            if t is None: continue
            for kind, k, v, _ in t:
                if kind == "ext":
                    self.sc.ext.append((k, v))
                elif kind == "key" and k in self.sc.c:
                    self.sc.c[k] = v if k in ("rs", "lc", "rc", "ec") or v.strip(b"0") else None
        self.sc.finish()
    def gen(self, rng):
        out = []
        for _ in range(rng.choice([0, 1, 3, 6, 12])):
            r = rng.random()
            v = rng.choice(CODES)
            if r < .45:
                k = rng.choice(SUFF)
                if rng.random() < .04:
                    # no file name contains this
                    k = rng.choice([b"\0" + k, k + b"\0", k[:1] + b"\0" + k[1:]])
                    out.append(("none", k, v, b"*" + esc_bytes(rng, k, b"=") + b"=" + esc_bytes(rng, v, b":")))
                    continue
                out.append(("ext", k, v, b"*" + esc_bytes(rng, k, b"=") + b"=" + esc_bytes(rng, v, b":")))
            elif r < .93:
                k = rng.choice(KEYS)
                if k == "ln" and rng.random() < .4: v = b"target"
                out.append(("key", k, v, k.encode() + b"=" + esc_bytes(rng, v, b":")))
            elif r < .96:
                k = rng.choice(["xx", "rst", "d", "zz9", "bld", "err"])
                out.append(("key", k, v, k.encode() + b"=" + esc_bytes(rng, v, b":")))
            else:
                for k, v in rng.choice([[("lc", b"\x01<"), ("rc", b">")], [("rs", b"00")], [("ec", b"\x02E")], [("rs", b"")], [("ec", b"\x1b[m")], [("lc", b"\x1b\x1b{"), ("rc", b"}"), ("ec", b"\x03")]]):
                    out.append(("key", k, v, k.encode() + b"=" + esc_bytes(rng, v, b":")))
        return out
    def env(self, rng):
        e = {}
        for k, t in zip(("LS_COLORS", "BFS_COLORS"), self.texts):
            if t is None: continue
            s = b""
            for x in t:
                s += b":" * rng.choice([0] * 9 + [1, 2]) + x[3] + b":"
            if rng.random() < .5: s = s[:-1]
            e[k] = s
        return e

def ambiguous(sc):
    """Suffix sets whose smart-case reading is not documented: three or more spellings."""
    low = {}
    for s, _ in sc.ext: low.setdefault(lower(s), set()).add(s)
    return any(len(v) > 2 for v in low.values())

def ext2(sc, name):
    """The same lookup if a later shorter suffix, matched case-sensitively, hides earlier longer ones."""
    kept = []
    for s, v in sc.ext:
        kept = [(a, b) for a, b in kept if not a.endswith(s)] + [(s, v)]
    low = {}
    for s, v in kept: low.setdefault(lower(s), {})[s] = v
    exact = {k for k, d in low.items() if len(set(d.values())) > 1}
    best = None
    for s, v in kept:
        if name.endswith(s) if lower(s) in exact else lower(name).endswith(lower(s)): best = v
    return best

def build(c, rng):
    os.chdir(c.dir); os.mkdir("t")
    dirs, out, regs = [b"t"], [b"t"], []
    c.caps = set()
    bases = [b"a", b"f", b"x", b"", b"a b", b"q\x1b[31m", b"\xff"]
    for _ in range(rng.choice([4, 10, 25])):
        p = rng.choice(dirs) + b"/" + (rng.choice(bases) + rng.choice(SUFF) or b"e")
        if rng.random() < .2: p = p[:p.rindex(b"/") + 1] + bytes(x ^ 32 if 65 <= (x & ~32) <= 90 and rng.random() < .5 else x for x in p[p.rindex(b"/") + 1:])
        if len(os.path.basename(p)) > 250: p = p[:p.rindex(b"/") + 1] + os.path.basename(p)[-250:]
        if len(p) > 1500 or os.path.lexists(p): continue
        r = rng.random()
        if r < .25:
            os.mkdir(p); os.chmod(p, rng.choice([0o755, 0o755, 0o777, 0o1777, 0o1755, 0o2755, 0o1775, 0o757])); dirs.append(p)
        elif r < .5:
            o = rng.choice(out)
            rel = os.path.relpath(o, os.path.dirname(p))
            t = rng.choice([rel, rel, rel + b"/", rel + b"/nope", rel + b"//nope//x", b"nowhere", b"no/where", b"nowhere/", b"/", b"//etc", b"/nowhere", b"../nope", rel + b"/../zz.gz", b"./" + rel, os.path.basename(p), rel + b"/nope/", b"/dev/null", b"/dev/null/x.gz"])
            if c.follow and t in (b"/", b"//etc"): t = rel
            os.symlink(t, p)
        elif r < .55: os.mkfifo(p)
        elif r < .6 and len(p) < 100:
            s = socket.socket(socket.AF_UNIX); s.bind(p); s.close()
        elif r < .68 and regs: os.link(rng.choice(regs), p)
        else:
            open(p, "w").close(); regs.append(p)
            os.chmod(p, rng.choice([0o644, 0o644, 0o755, 0o4644, 0o2644, 0o6755, 0o641, 0o600, 0o1644]))
            if rng.random() < .1:
                try:
                    os.setxattr(p, "security.capability", struct.pack("<5I", 0x02000001, 1 << 10, 0, 0, 0)); c.caps.add(os.stat(p).st_ino)
                except OSError: pass
        out.append(p)
    return out

def baseoff(t):
    n = len(t)
    while n > 1 and t[n - 1:n] == b"/": n -= 1
    return t.rindex(b"/", 0, n) + 1 if b"/" in t[:n] and n > 1 else 0

def stat_try(p, follow):
    if follow:
        try: return os.stat(p)
        except OSError: pass
    return os.lstat(p)

class Skip(Exception): pass

class Render:
    def __init__(self, c, sc, follow):
        self.c, self.sc, self.follow, self.how = c, sc, follow, None
    def file(self, st, name, broken, direct):
        sc = self.sc
        if typ(st) == "f":
            if sc.ext_color(name) != ext2(sc, name): raise Skip()
            if st.st_ino in self.c.caps and sc.c["ca"] is not None:
                if not direct: raise Skip()
                m = st.st_mode
                if not (sc.c["su"] is not None and m & 0o4000 or sc.c["sg"] is not None and m & 0o2000): return sc.norm(sc.c["ca"])
        return sc.file(st, name, broken)
    def own(self, p):
        """(color of the file itself)"""
        st = stat_try(p, self.follow)
        direct = True
        if typ(st) == "l":
            broken = self.follow or not os.path.exists(p)
            if self.sc.target:
                try: os.stat(p)
                except OSError as e:
                    if e.errno == errno.ELOOP: raise Skip()
                st = stat_try(p, True); direct = False
        else: broken = False
        return self.file(st, os.path.basename(p), broken, direct)
    def stream(self, *parts):
        rs = self.sc.c["rs"]
        return [(b, None if col is None or col == rs else col) for text, col in parts for b in text]
    def path(self, p, skip=0):
        n = p.rindex(b"/") + 1 if b"/" in p else 0
        return self.stream((p[skip:n], self.sc.c["di"]), (p[n:], self.own(p)))
    def name(self, p):
        return self.stream((os.path.basename(p), self.own(p)))
    def dirname(self, p):
        return self.stream((os.path.dirname(p) or b".", self.sc.c["di"]))
    def target(self, p):
        if typ(stat_try(p, self.follow)) != "l": return []
        return self.other(os.readlink(p), os.path.dirname(p) + b"/")
    def other(self, t, base):
        """A path that need not exist: directories, the last part that exists, what is missing."""
        noff, valid = baseoff(t), len(t)
        try:
            st = os.stat(os.path.join(base, t))
        except OSError:
            st = None
            while True:
                if t[:valid].endswith(b"/"):
                    valid = len(t[:valid].rstrip(b"/"))
                    noff = t.rindex(b"/", 0, valid) + 1 if b"/" in t[:valid] else 0
                else: valid = noff
                if valid <= 0: break
                try: st = os.stat(t[:valid] if t.startswith(b"/") else base + t[:valid]); break
                except OSError: pass
        col = None
        if noff < valid: col = self.file(st, t[noff:valid], False, False)
        err = self.sc.missing()
        return self.stream((t[:noff], self.sc.c["di"]), (t[noff:valid], col), (t[valid:], err))

def show(s):
    out, last = [], 0
    for b, col in s:
        if last == 0 or col != last: out.append([col, b""]); last = col
        out[-1][1] += bytes([b])
    return repr(out)[:500]

def case(c):
    rng = c.rng
    c.follow = rng.random() < .25
    files = build(c, rng)
    for _ in range(3):
        if rng.random() < .06: malformed(c, rng); continue
        spec = Spec(rng)
        if ambiguous(spec.sc): continue
        if rng.random() < .15: missing(c, rng, files, spec); continue
        one(c, rng, files, spec)

def one(c, rng, files, spec):
    sc = spec.sc
    follow = c.follow
    R = Render(c, sc, follow)
    env = dict(spec.env(rng), LC_ALL="C.UTF-8")
    how = rng.choice(["printf", "printf", "print", "ls"])
    act = {"printf": ["-printf", "%p\\0%f\\0%l\\0%P\\0%h\\0%H\\0"], "print": ["-print"], "ls": ["-ls"]}[how]
    roots = [b"t"]
    if rng.random() < .3:
        # other starting points, none below another
        for p in rng.sample(files, len(files)):
            if p != b"t" and not any((p + b"/").startswith(q + b"/") or (q + b"/").startswith(p + b"/") for q in roots[1:]): roots.append(p)
            if len(roots) > 4: break
        if len(roots) > 1: roots = roots[1:]
    argv = rng.choice([["-color"], ["-color"], ["-nocolor", "-color"]]) + (["-L"] if follow else []) + roots + act
    r = c.bfs(argv, env=env)
    loop = follow and r.err     # links to ancestors are reported
    if (r.rc or r.err) and not loop: raise Violation("status", "rc=%d stderr=%r: %s" % (r.rc, r.err[:400], shq(r.argv)))
    s = parse_colored(r.out, sc)
    desc = "%s with %s" % (shq(r.argv), " ".join("%s=%r" % x for x in env.items()))
    if s is None: raise Violation("stream", "unterminated color in %r: %s" % (r.out[-300:], desc))
    if how == "printf":
        rec, cur = [], []
        for x in s:
            if x[0] == 0:
                if x[1] is not None: raise Violation("bleed", "color %r extends over a separator: %s" % (x[1], desc))
                rec.append(cur); cur = []
            else: cur.append(x)
        if cur or len(rec) % 6: raise Violation("stream", "malformed output: " + desc)
        recs = [rec[i:i + 6] for i in range(0, len(rec), 6)]
    else:
        recs, cur = [], []
        for x in s:
            if x[0] == 10:
                if x[1] is not None: raise Violation("bleed", "color %r extends over a newline: %s" % (x[1], desc))
                recs.append([cur]); cur = []
            else: cur.append(x)
        if cur: raise Violation("stream", "no final newline: " + desc)
    n = 0
    for rec in recs:
        text = [bytes(b for b, _ in x) for x in rec]
        if how == "ls":
            m = re.match(rb" *\d+ +\d+ \S+ +\d+ \S+ +\S+ +(\d+, *)?\d+ \w+ +\d+ +[\d:]+ ", text[0])
            if not m: raise Violation("ls", "cannot parse %r: %s" % (text[0][:300], desc))
            got = [rec[0][m.end():]]
            rest = text[0][m.end():]
            p = rest
            if not os.path.lexists(p):
                k = [i for i in range(len(rest)) if rest.startswith(b" -> ", i) and os.path.islink(rest[:i])]
                if not k: raise Violation("ls", "no such file %r: %s" % (rest, desc))
                p = rest[:k[0]]
        else: p, got = text[0], rec
        if not os.path.lexists(p): raise Violation("name", "no such file %r: %s" % (p, desc))
        try:
            if how == "printf":
                root = text[5]
                if root not in roots or p != root and not p.startswith(root + b"/"): raise Violation("root", "%%H is %r for %r: %s" % (root, p, desc))
                want = [R.path(p), R.name(p), R.target(p), R.path(p, len(root) + 1) if p != root else [], R.dirname(p), R.path(p) if p == root else R.stream((root, sc.c["di"]))]
            elif how == "print": want = [R.path(p)]
            else:
                want = R.path(p)
                if typ(stat_try(p, follow)) == "l": want = want + [(x, None) for x in b" -> "] + R.target(p)
                want = [want]
        except Skip: c.count("skipped"); continue
        for i, (w, g) in enumerate(zip(want, got)):
            if w != g:
                raise Violation("color", "%s[%d] of %r (mode %o): %s, expected %s: %s" % (how, i, p, os.lstat(p).st_mode, show(g), show(w), desc))
        n += 1
        st = stat_try(p, follow)
        c.seen(how, typ(st), want[0][-1][1], os.path.splitext(p)[1], sc.target)
        if typ(st) == "l" and how == "printf": c.seen(how, "target", tuple(x[1] for x in want[2][::8]))
    c.count("files rendered", n)
    nfiles = sum(1 for p in files for q in roots if (p + b"/").startswith(q + b"/"))
    if not follow and len(recs) != nfiles: raise Violation("count", "%d of %d files shown: %s" % (len(recs), nfiles, desc))
    c.sample(desc[:300])

def malformed(c, rng):
    bad = rng.choice([b"di=31\\", b"di=01:*.x=^", b"*.x", b"*.gz=31:*.y", b"*\\", b"ln=32:fi=^", b"*.a^"])
    var = rng.choice(["LS_COLORS", "BFS_COLORS"])
    r = c.bfs(["t", "-print0"], env={var: bad, "LC_ALL": "C.UTF-8"})
    if r.rc or b"\x1b" in r.err: raise Violation("malformed", "rc=%d %r with %s=%r: %s" % (r.rc, r.err[:200], var, bad, shq(r.argv)))
    want = c.bfs(["t", "-print0"], env={"LC_ALL": "C.UTF-8"})
    diff_multiset(split0(want.out), split0(r.out), r.argv, "malformed")
    r = c.bfs(["-color", "t", "-print0"], env={var: bad, "LC_ALL": "C.UTF-8"})
    if r.rc <= 0 or r.rc > 125 or not r.err or b"\x1b" in r.err + r.out: raise Violation("malformed", "-color accepted with rc=%d %r with %s=%r: %s" % (r.rc, r.err[:200], var, bad, shq(r.argv)))
    c.seen("malformed", var, bad); c.count("malformed values")

def missing(c, rng, files, spec):
    """Starting points that do not exist, as shown in diagnostics."""
    sc = spec.sc
    R = Render(c, sc, False)
    env = dict(spec.env(rng), LC_ALL="C.UTF-8")
    p = rng.choice(files)
    path = rng.choice([p + b"/nope", p + b"//nope//x", p + b"/nope/", b"nowhere", b"no/where", b"nowhere/", b"./nope", b"../nope", b"/nowhere", b"/etc/nope", p + b"nope", p + b"/../nope.gz/x"])
    if os.path.lexists(path) or len(path) > 1000: return
    r = c.bfs(["-color", path, "-true"], env=env)
    desc = "%s with %s" % (shq(r.argv), " ".join("%s=%r" % x for x in env.items()))
    if r.rc != 1 or r.out: raise Violation("missing", "rc=%d %r: %s" % (r.rc, r.out[:100], desc))
    s = parse_colored(r.err, sc)
    if s is None: raise Violation("stream", "unterminated color in %r: %s" % (r.err, desc))
    text = bytes(b for b, _ in s)
    i = text.find(path)
    if text.count(path) != 1 or text[i - 1:i] != b" ": raise Violation("missing", "%r not named in %r: %s" % (path, text, desc))
    try: want = R.other(path, b"")
    except Skip: c.count("skipped"); return
    got = s[i:i + len(path)]
    if got != want: raise Violation("color", "diagnostic for %r: %s, expected %s: %s" % (path, show(got), show(want), desc))
    c.seen("missing", path[-6:], want[0][1], want[-1][1]); c.count("missing files shown")
