"""C24: concurrent modification of the tree never corrupts a search."""
from trav import *
import trav, threading
PROP, LEVEL = "C24", "exploration"
CASES = {"quick": 1000, "thorough": 20000}
RULE = ("each distinct (tree, command kind, configuration, back end, kinds of modification and the calls between which they happened) counts once")
TECHNIQUE = ("runtime monitoring: a scripted history of creations, renames and removals is executed between chosen system calls of the search (preloaded monitor) or by a racing "
             "process; an offline checker compares the visited paths with the recorded history (undisturbed files exactly once, nothing that never existed)")
NOTE = "Replacing a directory by a symbolic link to elsewhere during a search is not part of the histories: bfs does not promise containment against that."
VARIANTS = ("plain", "nouring", "asan")

def setup(env):
    trav.setup(env)
    env.data["asanrt"] = None

class VFS:
    """The history of a small tree: which paths ever existed (with which type), which initial ones stay untouched."""
    def __init__(self, top):
        self.node = {}            # path -> type, now
        self.ever = set()
        self.touched = set()      # subtrees that changed
        self.moved = set()        # directories that have been renamed (nothing is created in them)
        self.top = top
        self.n = 0
    def add(self, p, t):
        self.node[p] = t; self.ever.add((p, t))
    def kids(self, p): return [q for q in self.node if os.path.dirname(q) == p]
    def under(self, p): return [q for q in self.node if q == p or q.startswith(p + b"/")]
    def frozen(self, p):
        return any(p == m or p.startswith(m + b"/") for m in self.moved)

def gen_history(rng, v, steps, kinds):
    """Sequentially valid operations (kind, a, b)."""
    ops = []
    vol = lambda p: b"/V" in p[len(v.top):]
    for _ in range(steps):
        k = rng.choice(kinds)
        cand = [p for p in v.node if vol(p)]
        dirs = [p for p, t in v.node.items() if t == "d" and not v.frozen(p)]
        if k in "cdl":
            par = rng.choice(dirs)
            if k == "d" and rng.random() < .5 and cand:
                # reuse a name that was used before
                name = os.path.basename(rng.choice(cand))
            else:
                v.n += 1; name = b"V%d" % v.n
            p = par + b"/" + name
            if p in v.node: continue
            if k == "d":
                v.add(p, "d"); ops.append(("d", p, b"-"))
                for _ in range(rng.choice([0, 1, 3])):
                    v.n += 1; q = p + b"/V%d" % v.n
                    v.add(q, "f"); ops.append(("c", q, b"-"))
            elif k == "c": v.add(p, "f"); ops.append(("c", p, b"-"))
            else: v.add(p, "l"); ops.append(("l", p, b"nowhere"))
        elif k == "u" and cand:
            p = rng.choice(cand)
            for q in sorted(v.under(p), key=len, reverse=True):
                ops.append(("r" if v.node.pop(q) == "d" else "u", q, b"-"))
        elif k == "n" and cand:
            p = rng.choice(cand)
            par = rng.choice([d for d in dirs if d != p and not d.startswith(p + b"/")] or [v.top])
            v.n += 1
            q = par + b"/" + (os.path.basename(p) if rng.random() < .3 else b"V%d" % v.n)
            if q in v.node: continue
            if v.node[p] == "d": v.moved.add(q)
            for s in v.under(p):
                t = v.node.pop(s)
                v.add(q + s[len(p):], t)
            ops.append(("n", p, q))
        elif k == "x" and cand:
            # a directory gives way to a file of the same name, or the other way round
            p = rng.choice(cand)
            t = v.node[p]
            for q in sorted(v.under(p), key=len, reverse=True):
                ops.append(("r" if v.node.pop(q) == "d" else "u", q, b"-"))
            if v.frozen(os.path.dirname(p)): continue
            if t == "d": v.add(p, "f"); ops.append(("c", p, b"-"))
            else: v.add(p, "d"); ops.append(("d", p, b"-"))
    return ops

def build(c, rng):
    os.chdir(c.dir)
    n = rng.choice([8, 20, 60])
    top = os.path.join(os.getcwdb(), b"t")
    os.mkdir(top)
    v = VFS(top)
    v.add(top, "d")
    dirs = [top]
    shape = rng.choice(["random", "deep", "wide"])
    for i in range(n):
        par = dirs[-1] if shape == "deep" and rng.random() < .7 else top if shape == "wide" and rng.random() < .7 else rng.choice(dirs)
        volatile = b"/V" in par[len(top):] or rng.random() < .4
        p = par + b"/" + (b"V" if volatile else b"S") + b"%d" % i
        if rng.random() < .5:
            os.mkdir(p); dirs.append(p); v.add(p, "d")
        elif rng.random() < .1:
            os.symlink(b"nowhere", p); v.add(p, "l")
        else:
            with open(p, "wb") as f: f.write(b"x" * (i % 5))
            v.add(p, "f")
    v.n = 1000
    if rng.random() < .15:
        os.mkdir(top + b"/Sbig"); v.add(top + b"/Sbig", "d")
        for i in range(900):
            p = top + b"/Sbig/" + (b"S" if i % 2 else b"V") + b"_a_rather_long_name_to_fill_the_buffer_%d" % i
            open(p, "w").close(); v.add(p, "f")
    for d, ds, fs in os.walk(top):
        os.chown(d, UID, GID)
        for f in fs: os.chown(d + b"/" + f, UID, GID, follow_symlinks=False)
    return v, shape

def stable(v0):
    top = v0.top
    return {p for p in v0.node if b"/V" not in p[len(top):]}

def perform(ops, pace, rng, stop):
    import time as _t
    for k, a, b in ops:
        try:
            if k == "u": os.unlink(a)
            elif k == "r": os.rmdir(a)
            elif k == "n": os.rename(a, b)
            elif k == "d": os.mkdir(a); os.chown(a, UID, GID)
            elif k == "c": os.close(os.open(a, os.O_CREAT | os.O_WRONLY, 0o644))
            elif k == "l": os.symlink(b, a)
        except OSError: pass
        if pace: _t.sleep(rng.random() * pace)
        if stop.is_set(): return

def case(c):
    rng = c.rng
    v, shape = build(c, rng)
    st = stable(v)
    cfg = Cfg(c, rng, perturb=False, low=rng.random() < .5)
    kind = rng.choice(["print", "print", "size", "size", "empty", "exec", "execdir", "access", "ls", "delete", "type"])
    ignore = rng.random() < .6
    kinds = rng.choice([["u"], ["u"], ["u", "n"], ["c", "d"], ["x"], ["u", "n", "c", "d", "x", "l"], ["u", "n", "c", "d", "x", "l"]])
    follow = rng.choice([[], [], ["-H"], ["-L"]])
    if follow == ["-L"]: kinds = [k for k in kinds if k != "l"] or ["u"]
    expr = {"print": ["-printf", "%y %p\\0"],
            "size": ["-newer", "/", "-printf", "%y %p\\0", "-o", "-printf", "%y %p\\0"],
            "empty": ["-empty", "-printf", "%y %p\\0", "-o", "-printf", "%y %p\\0"],
            "exec": ["-name", "S*", "-exec", "/bin/true", "{}", ";", "-printf", "%y %p\\0", "-o", "-printf", "%y %p\\0"],
            "execdir": ["-name", "S*", "-execdir", "/bin/true", "{}", "+", "-printf", "%y %p\\0", "-o", "-printf", "%y %p\\0"],
            "access": ["-readable", "-printf", "%y %p\\0", "-o", "-printf", "%y %p\\0"],
            "ls": ["-fls", "/dev/null", "-printf", "%y %p\\0", "-o", "-printf", "%y %p\\0"],
            "delete": ["-name", "V*", "-delete", "-printf", "%y %p\\0", "-o", "-printf", "%y %p\\0"],
            "type": ["-type", "f,d,l", "-printf", "%y %p\\0"]}[kind]
    if kind == "delete":
        if follow == ["-L"]: follow = []
        kinds = ["u"] if rng.random() < .5 else kinds
    args = cfg.flags + follow + [v.top] + cfg.globals + (["-ignore_readdir_race"] if ignore else []) + expr
    mode = rng.choice(["script", "script", "script", "race"])
    steps = rng.choice([1, 1, 2, 4, 10, 30])
    ops = gen_history(rng, v, steps, kinds)
    if not ops: ops = gen_history(rng, v, 3, ["c"])
    env = {}
    variant = "plain"
    log = []
    if mode == "script":
        variant = rng.choice(["plain", "plain", "nouring"])
        env = {"LD_PRELOAD": c.env.data["shim"]}
        if rng.random() < .7 or variant == "nouring": env["VP_NOURING"] = "1"
        # how many calls does the search make?
        total = {"print": 40, "size": 80, "empty": 80, "exec": 150, "execdir": 100, "access": 80, "ls": 120, "delete": 120, "type": 40}[kind] * max(1, len(v.ever) // 20)
        span = rng.choice([total, total // 3 or 1])
        at = sorted(rng.randrange(1, span + 2) for _ in ops) if rng.random() < .6 else [rng.randrange(1, span + 2)] * len(ops)
        with open("muts", "w") as f:
            for t, (k, a, b) in zip(at, ops): f.write("%d %s %s %s\n" % (t, k, a.hex(), b.hex() if b != b"-" else "2d"))
        os.chmod("muts", 0o644)
        env.update(VP_MUT=os.path.join(c.dir, "muts"), VP_LOG=S.newlog(os.path.join(c.dir, "log"), 1 << 20))
        if rng.random() < .3: env["VP_DENTS"] = str(rng.choice([300, 1024]))
        if rng.random() < .3: env["VP_DTUNK"] = "1"
        r = c.bfs(args, env=env, variant=variant, **cfg.kw)
        log = S.readlog(env["VP_LOG"])
    else:
        variant = rng.choice(["plain", "asan", "nouring"])
        stop = threading.Event()
        pace = rng.choice([0, .0002, .002])
        th = threading.Thread(target=perform, args=(ops, pace, random.Random(rng.random()), stop))
        th.start()
        try: r = c.bfs(args, variant=variant, **cfg.kw)
        finally:
            stop.set(); th.join()
    judge(c, r, v, st, kind, ignore, env, log)
    nm = sum(1 for e in log if e[0] == "M" and e[3] == "0")
    c.count("modifications between calls", nm); c.count("mode " + mode)
    if nm or mode == "race":
        c.seen(shape, len(st), kind, cfg.key(), mode, tuple(sorted({o[0] for o in ops})), tuple(int(e[2]) for e in log if e[0] == "M")[:3], ignore)

def judge(c, r, v, st, kind, ignore, env, log):
    what = "%s modifications: %r" % (shq(r.argv), [(e[1], e[2]) for e in log if e[0] == "M"][:8])
    seen = collections.Counter()
    for rec in split0(r.out):
        t, _, p = rec.partition(b" ")
        t = t.decode()
        seen[p] += 1
        if not any((p, x) in v.ever for x in "fdl"):
            raise Violation("ghost", "%r never existed: %s" % (p, what))
        if (p, t) not in v.ever and t not in ("?", "U", "N"):
            raise Violation("type", "%r never was of type %s: %s" % (p, t, what))
    for p in st:
        if seen[p] != 1:
            raise Violation("missed" if not seen[p] else "twice", "undisturbed %r was visited %d times: %s stderr=%r" % (p, seen[p], what, r.err[:400]))
    c.count("undisturbed files checked", len(st)); c.count("files reported", sum(seen.values()))
    if bool(r.err) != bool(r.rc):
        raise Violation("status", "exit status %d with diagnostics %r: %s" % (r.rc, r.err[:300], what))
    notempty = kind == "delete" and b"Directory not empty" in r.err
    # a name that changes its type is more than a disappearance
    retyped = len({p for p, _ in v.ever}) != len(v.ever)
    if ignore and not notempty and not retyped and (r.rc or r.err):
        raise Violation("race-error", "-ignore_readdir_race, but exit status %d, %r: %s" % (r.rc, r.err[:400], what))
    if ignore and not retyped: c.count("searches ignoring races")
    if r.err:
        c.count("searches that reported races")
        for l in r.err.splitlines():
            if b"/V" not in l[l.find(b": error: "):]:
                raise Violation("diagnostic", "a diagnostic does not name a modified file: %r: %s" % (l, what))
