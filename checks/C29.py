"""C29: every starting path, from any source, is searched as given and in order."""
from trav import *
PROP, LEVEL = "C29", "exploration"
CASES = {"quick": 1500, "thorough": 60000}
RULE = "each (source of paths, kind of path, placement, strategy) counts once"
TECHNIQUE = "runtime monitoring: the sequence of depth-0 paths and the full set of visited paths of real runs compared with the list of paths given"

NAMES = [b"-", b"-x", b"-print", b"--", b"-delete", b"(", b")", b",", b"!", b"a b", b"\n", b"x\n", b"\xff", b"*", b"-f", b"$x", b"'", b"plain", b"q", b"zz", b"d", b"-name", b"-O9", b"...", b" ", b"~", b"-a", b"{}", b";", b"-files0-from", b"L", b"-3", b"+1", b"a=b", b"-\xc3\xa9"]

def build(c, rng):
    os.chdir(c.dir)
    os.mkdir("w"); os.chdir("w")
    os.chmod(".", 0o755)
    for n in rng.sample(NAMES, rng.choice([3, 6, 12])):
        r = rng.random()
        if r < .5:
            os.mkdir(n); open(n + b"/k", "w").close()
            if rng.random() < .4: os.mkdir(n + b"/s"); open(n + b"/s/-y", "w").close()
        elif r < .65: os.symlink(rng.choice([b"plain", b"nowhere", b"."]), n)
        else: open(n, "w").close()
    return [n for n in os.listdir(b".")]

def spell(rng, n):
    r = rng.random()
    isdir = os.path.isdir(n) and not os.path.islink(n)
    if r < .5: return n
    if r < .6: return b"./" + n
    if r < .7: return os.getcwdb() + b"/" + n
    if r < .75: return b".//" + n
    if isdir:
        if r < .82: return n + b"/"
        if r < .86: return n + b"///"
        if r < .9: return n + b"/."
        if r < .94: return n + b"/k"
        if r < .97: return n + b"/../" + n
    return n

def subtree(root):
    """Paths bfs prints for a root (physical), in no particular order; None if it does not exist."""
    if root == b"" or not os.path.lexists(root): return None
    if root.endswith(b"/") and not os.path.isdir(root): return None
    out = [root]
    try: st = os.lstat(root)
    except OSError: return None
    if not stat.S_ISDIR(st.st_mode): return out
    stack = [root]
    while stack:
        d = stack.pop()
        for e in sorted(os.listdir(d)):
            p = d + (b"" if d.endswith(b"/") else b"/") + e
            out.append(p)
            if os.path.isdir(p) and not os.path.islink(p): stack.append(p)
    return out

def is_flaglike(p):
    """Cannot be given as a plain argument."""
    return p[:1] == b"-" and p != b"-" or p in (b"(", b"!")

def case(c):
    rng = c.rng
    names = build(c, rng)
    cwd = os.getcwdb()
    for _ in range(3): one(c, rng, names, cwd)
    if rng.random() < .1: unreadable(c, rng, names, cwd)

def unreadable(c, rng, names, cwd):
    """A list of starting paths that cannot be read is an error, not an empty list."""
    src, env = rng.choice([(b"/nonexistent", {}), (b".", {}), (b"-", {}), (cwd + b"/../list2", {"LD_PRELOAD": c.env.data["shim"]})])
    argv = [b"-files0-from", src] + rng.choice([[], [b"-print0"], [b"-print0", b"-quit"]])
    if src.endswith(b"list2"):
        open(src, "wb").write(b"w\0"); os.chmod(src, 0)
    if src == b"-":
        r = c.bfs([b"."] + argv, stdin=b"w\0", cwd=cwd)
    else: r = c.bfs(argv, env=env, stdin=b"", cwd=cwd)
    if r.rc <= 0 or r.rc > 125 or not r.err or r.out: raise Violation("unreadable", "rc=%d out=%r err=%r: %s" % (r.rc, r.out[:200], r.err[:200], shq(r.argv)))
    c.seen("unreadable", src); c.count("unreadable lists")

def one(c, rng, names, cwd):
    os.chdir(cwd)
    k = rng.choice([0, 1, 1, 2, 3, 5, 9])
    pool = names + [b"missing", b"", b".", b"..x", b"miss/ing"] if rng.random() < .4 else names
    roots = [spell(rng, rng.choice(pool)) if rng.random() < .9 else rng.choice([b".", b"./", b"./."]) for _ in range(k)]
    src = rng.choice(["args", "args", "args", "f", "mixed", "files0", "files0-stdin"])
    strategy = rng.choice(["bfs", "bfs", "dfs", "ids", "eds"])
    j = rng.choice([1, 1, 1, 2, 8])
    zero = rng.random() < .4
    flags = [b"-j%d" % j, b"-S", strategy.encode()]
    expr = [b"-type", b"f", b"-print0", b"-o", b"-print0"]
    if zero: expr = [b"-maxdepth", b"0"] + expr
    stdin = b""
    given = roots
    if src == "args" or src == "mixed":
        items = []
        for r in roots:
            if src == "mixed" and rng.random() < .5 or is_flaglike(r): items.append([b"-f", r])
            else: items.append([r])
        # where may they go?  before, between and after flags and (complete) primaries
        pieces = [[f] for f in (b"-j%d" % j,)] + [[b"-S", strategy.encode()]] + ([[b"-maxdepth", b"0"]] if zero else [])
        body = rng.choice([[[b"-print0"]], [[b"("], [b"-type", b"f"], [b"-o"], [b"-true"], [b")"], [b"-print0"]], [[b"-type", b"f"], [b"-print0"], [b"-o"], [b"-print0"]], [[b"-print0"], [b","], [b"-false"]]])
        seq = [("p", x) for x in pieces] + [("e", x) for x in body]
        # insert the roots in order at random places
        pos = sorted(rng.randrange(len(seq) + 1) for _ in items) if rng.random() < .6 else [0] * len(items)
        out, started = [], False
        n = 0
        for i in range(len(seq) + 1):
            while n < len(items) and pos[n] == i:
                it = items[n]
                if it[0] in (b")", b",") and started: it = [b"-f", it[0]]
                out += it; n += 1
            if i < len(seq):
                # flags do not start the expression; primaries and options do
                if seq[i][0] == "e" or seq[i][1][0] == b"-maxdepth": started = True
                out += seq[i][1]
        argv = out
        if rng.random() < .1: argv = [b"--"] + argv
    elif src == "f":
        argv = flags + [a for r in roots for a in (b"-f", r)] + expr
    else:
        data = b"\0".join(roots) + (b"\0" if roots and (rng.random() < .7 or roots[-1] == b"") else b"")
        if src == "files0":
            lst = os.path.join(c.dir.encode() if isinstance(c.dir, str) else c.dir, b"list")
            open(lst, "wb").write(data); os.chmod(lst, 0o644)
            opt = [b"-files0-from", lst]
        else: opt = [b"-files0-from", b"-"]; stdin = data
        if rng.random() < .15: opt = [b"-files0-from", rng.choice([b"/dev/null", b"/nonexistent"])] + opt
        argv = flags + opt + expr if rng.random() < .6 else flags + expr[:2 if zero else 0] + [b"("] + expr[2 if zero else 0:] + [b")"] + opt
    if not roots and not src.startswith("files0"): given = [b"."]
    env, pert = {}, rng.random() < .4
    if pert: env = {"LD_PRELOAD": c.env.data["shim"], "VP_DELAY": "%d:%d:%d" % (rng.randrange(1, 1 << 30), 100, 50)}
    r = c.bfs(argv, env=env, stdin=stdin, cwd=cwd)
    desc = shq(r.argv) + (" < %r" % stdin if stdin else "")
    trees = [subtree(g) for g in given]
    miss = [g for g, t in zip(given, trees) if t is None]
    if bool(r.rc) != bool(miss): raise Violation("status", "rc=%d with %d missing roots, stderr=%r: %s" % (r.rc, len(miss), r.err[:300], desc))
    nerr = r.err.count(b": error: ")
    for g in set(miss):
        if r.err.count(b"error: " + g + b": ") < miss.count(g): raise Violation("missing", "missing root %r not reported in %r: %s" % (g, r.err[:300], desc))
    if nerr != len(miss) and strategy not in ("ids", "eds"): raise Violation("errors", "%d errors for %d missing roots: %r: %s" % (nerr, len(miss), r.err[:400], desc))
    got = split0(r.out)
    if zero:
        want = [g for g, t in zip(given, trees) if t is not None]
        if j == 1:
            if got != want: raise Violation("order", "starting paths %r instead of %r: %s" % (got, want, desc))
        else: diff_multiset(want, got, r.argv, "roots")
    else:
        want = [p for t in trees if t for p in t]
        diff_multiset(want, got, r.argv, "visit")
        if j == 1 and strategy == "bfs":
            # breadth-first: the starting paths come first, in order
            first = [g for g, t in zip(given, trees) if t is not None]
            if got[:len(first)] != first: raise Violation("order", "starts with %r instead of %r: %s" % (got[:len(first)], first, desc))
        elif j == 1 and strategy == "dfs":
            i = 0
            for t in [t for t in trees if t]:
                if collections.Counter(got[i:i + len(t)]) != collections.Counter(t): raise Violation("order", "%r visited where %r is due: %s" % (got[i:i + len(t)], t[:1], desc))
                i += len(t)
    for g in given: c.seen(src, strategy, g if len(g) < 12 else g[-6:], zero)
    c.seen(src, len(given), len(miss), strategy, zero, j)
    c.count("starting paths", len(given)); c.count("missing starting paths", len(miss))
    c.sample(desc[:240])
