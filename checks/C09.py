from trav import *
import re
PROP, LEVEL = "C09", "exploration"
CASES = {"quick": 1200, "thorough": 10000}
VARIANTS = ("plain", "noonig")
RULE = ("Trees of hostile names; batches of -name/-iname/-path/-ipath/-wholename/-lname/-ilname/-hidden patterns derived from the names (literals, wildcards, "
        "brackets, escapes, case changes, multibyte characters) and -regex/-iregex generated from an abstract syntax in every -regextype, both locales, both "
        "regex engines, all starting path spellings; matched sets compared with direct fnmatch() and with Python's independent backtracking full match. "
        "Distinct non-trivial: distinct pattern that matches some but not all files.")

CASE = ["É", "é", "ß", "İ", "ı", "Ä", "ä", "Σ", "σ", "ς", "K", "k", "K", "Ж", "ж", "日", "Ǆ", "ǆ"]
class Re:
    """Regular expression AST."""
def gen_re(rng, s, d=0):
    """An AST that tends to match the string s."""
    if d < 3 and len(s) > 1 and rng.random() < .6:
        k = rng.randrange(0, len(s) + 1)
        return ("cat", gen_re(rng, s[:k], d + 1), gen_re(rng, s[k:], d + 1))
    r = rng.random()
    if d < 4 and r < .2:
        o = rng.choice([s[:rng.randrange(len(s) + 1)], s + "x", s[::-1], s])
        a, b = gen_re(rng, s, d + 1), ("lit", o)
        return ("alt", b, a) if rng.random() < .5 else ("alt", a, b)
    if r < .3: return ("star", ("dot",))
    if r < .38 and s: return ("star", ("set", "".join(sorted(set(s))), False))
    if r < .45 and s: return ("plus", ("set", "".join(sorted(set(s)))[:rng.randrange(1, 4)], rng.random() < .3))
    if r < .52: return ("cat", ("lit", s), ("opt", ("lit", rng.choice("ab/x."))))
    if r < .6 and s: return ("rep", ("dot",), max(0, len(s) - rng.choice([0, 0, 1])), len(s) + rng.choice([0, 1, -1]) if len(s) > 1 else len(s) + 1)
    if r < .66 and s: return ("cat", ("dot",), ("lit", s[1:]))
    if r < .7: return ("star", ("alt", ("lit", s[:1] or "a"), ("lit", s[:2] or "ab")))
    return ("lit", s)

META = {"bre": "\\.[*^$", "grep": "\\.[*^$", "ere": "\\.[](){}*+?|^$", "emacs": "\\.[*+?^$"}
STYLE = {"posix-basic": "bre", "posix-minimal-basic": "bre", "ed": "bre", "sed": "bre", "posix-extended": "ere", "posix-egrep": "ere", "egrep": "ere", "grep": "grep",
         "emacs": "emacs", "findutils-default": "emacs", "awk": "ere", "posix-awk": "ere", "gnu-awk": "ere"}

class Unsupported(Exception): pass

def render(e, style, py=False):
    k = e[0]
    if k == "lit":
        if py: return re.escape(e[1])
        return "".join("\\" + ch if ch in META[style] else ch for ch in e[1])
    if k == "dot": return "."
    if k == "set":
        body = e[1]
        if py: return "[" + ("^" if e[2] else "") + re.escape(body) + "]"
        if any(ch in "\\^-[]" for ch in body): raise Unsupported
        return "[" + ("^" if e[2] else "") + body + "]"
    if k == "cat": return render(e[1], style, py) + render(e[2], style, py)
    L, R = ("(?:", ")") if py else {"bre": ("\\(", "\\)"), "grep": ("\\(", "\\)"), "emacs": ("\\(", "\\)"), "ere": ("(", ")")}[style]
    if k == "alt":
        bar = "|" if py else {"bre": None, "grep": "\\|", "emacs": "\\|", "ere": "|"}[style]
        if bar is None: raise Unsupported
        a, b = render(e[1], style, py), render(e[2], style, py)
        if not a or not b: raise Unsupported
        return L + a + bar + b + R
    sub = render(e[1], style, py)
    if not sub: raise Unsupported
    sub = sub if e[1][0] in ("dot", "set") else L + sub + R
    if k == "star": return sub + "*"
    if k == "plus":
        if not py and style == "bre": raise Unsupported
        return sub + ("+" if py or style in ("ere", "emacs") else "\\+")
    if k == "opt":
        if not py and style == "bre": raise Unsupported
        return sub + ("?" if py or style in ("ere", "emacs") else "\\?")
    if k == "rep":
        if e[3] < e[2]: raise Unsupported
        if not py and style == "emacs": raise Unsupported
        return sub + ("{%d,%d}" if py or style == "ere" else "\\{%d,%d\\}") % (e[2], e[3])
    raise AssertionError(e)

def t_regex(rng, w, rtype):
    cand = []
    for p in w.paths:
        try: s = p.decode()
        except UnicodeDecodeError: continue
        if "\n" not in s and len(s) < 60: cand.append(s)
    if not cand: return None
    for _ in range(20):
        s = rng.choice(cand)
        icase = rng.random() < .3 and s.isascii()
        ast = gen_re(rng, s.swapcase() if icase and rng.random() < .5 else s)
        try:
            pat = render(ast, STYLE[rtype])
            pyp = re.compile(render(ast, None, True), re.DOTALL | (re.IGNORECASE | re.ASCII if icase else 0))
        except Unsupported: continue
        if STYLE[rtype] == "ere" and rtype.endswith("awk") and "{" in pat: continue
        if not pat: continue
        break
    else: return None
    def fn(f):
        return pyp.fullmatch(f.path.decode()) is not None
    t = Test([("-iregex" if icase else "-regex"), pat.encode()], fn)
    return t

def case(c):
    rng = c.rng
    os.chdir(c.dir)
    mode = rng.choice(["glob", "glob", "regex"])
    if mode == "regex":
        os.mkdir(b"t")
        names = set()
        al = rng.choice(["ab", "abc.", "aAbB", "ab+?*()", "é日aÉ", "ab[]{}|^$\\", "xyz-_ "])
        dirs = [b"t"]
        for _ in range(rng.choice([5, 15, 30])):
            n = "".join(rng.choice(al) for _ in range(rng.randrange(1, 6))).encode()
            p = rng.choice(dirs) + b"/" + n
            if n in (b".", b"..") or os.path.lexists(p): continue
            if rng.random() < .3 and len(dirs) < 4: os.mkdir(p); dirs.append(p)
            else: open(p, "w").close()
    else:
        mktree(c, rng.choice([5, 15, 40]), special=False)
        for _ in range(rng.choice([0, 0, 6])):
            n = "".join(rng.choice(CASE + ["a", "B"]) for _ in range(rng.randrange(1, 4))).encode()
            if not os.path.lexists(b"t/" + n):
                if rng.random() < .3: os.symlink(n.decode().swapcase().encode(), b"t/" + n)
                else: open(b"t/" + n, "w").close()
    loc = rng.choice(["C.UTF-8", "C.UTF-8", "C"]) if mode == "glob" else "C.UTF-8"
    set_locale(loc)
    allf = walk([b"t"])[0]
    for _ in range(5):
        roots = gen_roots(rng, b"t", allf)
        if rng.random() < .15: roots = [rng.choice([b".", b"./", b".//", b"t/..", b"t/../", b"./t/."])]
        if len(roots) > 1: roots = roots[:1]
        files, errs = walk(roots)
        w = World(files)
        batch = []
        rtype = rng.choice(list(STYLE))
        variant = "plain"
        if mode == "regex" and rtype in ("posix-basic", "posix-minimal-basic", "posix-extended") and rng.random() < .4: variant = "noonig"
        for _ in range(rng.choice([1, 5, 10, 25])):
            t = t_regex(rng, w, rtype) if mode == "regex" else gen_test(rng, w, [t_name, t_name, t_path, t_lname, t_hidden, t_uni])
            if t: batch.append(t)
        if not batch: continue
        toks = []
        if mode == "regex": toks += [b"-regextype", rtype.encode()]
        for i, t in enumerate(batch):
            if i: toks.append(b",")
            toks += t.tokens(rng) + [b"-printf", b"%d:%%p\\0" % i]
        flags = ["-j%d" % rng.choice([1, 2, 4]), "-O%d" % rng.randrange(4)]
        if mode == "regex" and rtype == "posix-extended" and rng.random() < .3:
            flags += ["-E"]; toks = toks[2:]
        if mode == "regex" and rtype == "posix-basic" and rng.random() < .3: toks = toks[2:]
        r = c.bfs(flags + roots + toks, variant=variant, env={"LC_ALL": loc})
        if r.rc != 0 or r.err:
            raise Violation("status", "unexpected failure (rc=%d, stderr=%r): %s" % (r.rc, r.err[:500], shq(r.argv)))
        got = [set() for _ in batch]
        for rec in split0(r.out):
            i, p = rec.split(b":", 1)
            got[int(i)].add(p)
        for i, t in enumerate(batch):
            want = {f.path for f in files if t.ev(f, None)}
            if want != got[i]:
                ex = sorted(want ^ got[i])[0]
                raise Violation("match", "%s %s %s (%s %s): %s" % (shq(t.toks), "does not match" if ex in want else "matches", shq([ex]), loc, rtype if mode == "regex" else "", shq(r.argv)))
            c.count(t.toks[0].decode() + (" " + rtype if mode == "regex" else "")); c.count("decisions", len(files))
            if 0 < len(want) < len(files): c.seen(t.toks, loc, rtype if mode == "regex" else "")
        c.sample(shq(r.argv[1:])[:300])

def t_uni(rng, w):
    """Case-folded multibyte literals and patterns."""
    base = rng.choice(w.names).decode("utf8", "surrogateescape")
    pat = rng.choice([base.lower(), base.upper(), base.swapcase(), base[:1].swapcase() + "*", "?" * len(base)])
    try: pat = pat.encode("utf8", "surrogateescape")
    except UnicodeEncodeError: return t_name(rng, w)
    k = rng.choice(["-iname", "-iname", "-name", "-ilname"])
    if b"\0" in pat: return t_name(rng, w)
    if k == "-ilname": return Test([k, pat], lambda f: f.type == "l" and pmatch(pat, f.target(), True))
    return Test([k, pat], lambda f: pmatch(pat, f.name, k == "-iname"))
