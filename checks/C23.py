"""C23: running out of memory is a clean failure."""
from trav import *
import trav, C28
PROP, LEVEL = "C23", "fault_enumeration"
CASES = {"quick": 900, "thorough": 25000}
RULE = "each distinct (call stack of the failing allocation, kind of command, single or lasting shortage, outcome) counts once"
TECHNIQUE = ("runtime monitoring with fault injection: every allocation of a search is counted, then chosen ordinals (singly, or everything from one on) are made to fail by a preloaded "
             "allocator; exit status, diagnostics and output are compared with the undisturbed run; crashes, failed assertions and hangs are watched")
NOTE = "Allocations made inside system libraries are not failed: their effect is the libraries' (glibc's name service switch itself crashes on some)."
VARIANTS = ("plain", "nouring", "release")

def setup(env):
    env.data["shim"] = env.cc("shim-alloc.so", ["shim.c"], ["-DVP_ALLOC", "-ldl", "-lpthread"], shared=True)

def commands(rng):
    R = rng.choice
    out = "%p\\0"
    tests = ["-name", "*", "-o"], ["-iname", "*A*", "-o"], ["-regex", ".*[ab]", "-o"], ["-lname", "x*", "-o"], ["-size", "+1", "-o"], ["-perm", "/111", "-o"], ["-newermt", "2020-01-01", "-o"], \
        ["-samefile", "t", "-o"], ["-user", "root", "-o"], ["-nouser", "-o"], ["-group", "root", "-o"], ["-nogroup", "-o"], ["-fstype", "ext4", "-o"], ["-xattr", "-o"], ["-acl", "-o"], ["-capable", "-o"], ["-empty", "-o"], ["-exclude", "-name", "zz"], \
        ["-readable", "-o"], ["-type", "f,d", "-o"], ["-xtype", "l", "-o"], ["-newer", "t", "-o"], ["-inum", "+5", "-o"], ["-mtime", "-3", "-o"], ["-path", "t/*", "-o"]
    pre = []
    for _ in range(R([0, 0, 1, 2, 4])):
        x = list(R(tests))
        pre += (["-not"] + x[:-1] + ["-o"] if x[-1] == "-o" and rng.random() < .2 else x)
    act = R([["-printf", out]] * 4 + [["-print0"], ["-printf", "%y %d %f %h %p\\0"], ["-printf", "%TY-%Tm %s %m %M %i %n %k %b %p\\0"], ["-printf", "%l\\0"], ["-printf", "%F %p\\0"],
             ["-fprint", "o1", "-printf", out], ["-fls", "o1", "-fprint0", "o2", "-printf", out], ["-exec", "/bin/echo", "{}", ";"], ["-exec", "/bin/echo", "{}", "x{}", ";"],
             ["-exec", "/usr/bin/printf", "%s\\n", "{}", "+"], ["-execdir", "/usr/bin/printf", "%s\\n", "{}", "+"], ["-execdir", "/bin/echo", "{}", ";"], ["-unique", "-printf", "%i\\0"], [], ["-print"]])
    if pre and pre[-1] == "-o" and not act: pre = pre[:-1]
    elif pre and pre[-1] == "-o": pre = ["("] + pre + ["-true", ")"]
    flags = []
    if rng.random() < .4: flags += ["-S", R(["bfs", "dfs", "ids", "eds"])]
    flags += ["-j%d" % R([1, 1, 2, 3])]
    for f, p in (("-s", .2), ("-L", .15), ("-color", .15), ("-E", .1), ("-O%d" % R([0, 1, 2, 3]), .3)):
        if rng.random() < p: flags.append(f)
    tail = []
    if rng.random() < .25 and "-exec" not in act: tail = ["-depth"]
    if rng.random() < .1: tail += ["-maxdepth", "3"]
    if rng.random() < .1: tail += ["-xdev"]
    roots = R([["t"], ["t"], ["t"], ["t", "t/d"], ["."]])
    if act and act[0] == "-unique" and "-L" in flags: flags.remove("-L")
    return flags, roots, tail + pre + act, tail + act

def records(o):
    return collections.Counter(x for x in re.split(rb"[\0\n]", o) if x)

def case(c):
    rng = c.rng
    os.chdir(c.dir)
    os.mkdir("t"); os.mkdir("t/d")
    sh = T.gen_shape(rng, rng.choice([4, 10, 25]), maxdepth=6, names="num")
    T.populate(rng, b"t", [(p, d) for p, d in sh if p != b"d" and not p.startswith(b"d/")], special=False, loops=False)
    if rng.random() < .3: os.symlink(b"y" * rng.choice([5, 300]), "t/lnk")
    if rng.random() < .15:
        p = "t"
        for i in range(20): p += "/" + "q" * 200; os.mkdir(p) if len(p) < 4000 else None
    for n in ("o1", "o2"):
        open(n, "w").close(); os.chmod(n, 0o666)
    flags, roots, expr, unfiltered = commands(rng)
    variant = rng.choice(["plain", "plain", "nouring", "release"])
    argv = flags + roots + expr
    env = {"LD_PRELOAD": c.env.data["shim"], "VP_LOG": S.newlog(os.path.join(c.dir, "log"), 1 << 18), "MALLOC_PERTURB_": str(rng.randrange(1, 255))}
    if rng.random() < .3: env["LS_COLORS"] = "*.txt=31:*.tar.gz=32:*.C=33:di=34:ln=target:or=1;31:*a=5"
    base = c.bfs(argv, variant=variant, env=env)
    n = [int(e[2]) for e in S.readlog(env["VP_LOG"]) if e[0] == "C" and e[1] == "malloc"]
    if not n: raise HarnessError("no allocations seen")
    n = n[0]
    want = records(base.out)
    # a test that fails with an error is false, which may let more files through to the action
    limit = want if expr == unfiltered else records(c.bfs(flags + roots + unfiltered, variant=variant, env={k: v for k, v in env.items() if k == "LS_COLORS"}).out)
    c.count("allocations in fault-free runs", n)
    for _ in range(14):
        i = rng.randrange(n)
        mode = rng.choice(["", "", "/1", "/1", "/%d" % rng.randrange(2, 8)])
        S.newlog(env["VP_LOG"], 1 << 18)
        r = c.bfs(argv, variant=variant, env=dict(env, VP_FAIL="malloc:%d%s:12" % (i, mode)), timeout=60, crash_ok=True)
        if r.rc in (-11, -6, -4, -7, -8): raise Violation("crash", "died with signal %d when allocation %d%s of %d failed: %s %r" % (-r.rc, i, mode, n, shq(r.argv), {k: v for k, v in env.items() if k.startswith("VP") or k.startswith("LS") or k.startswith("MALLOC")}), stderr=r.err[-2000:].decode("latin1"))
        log = S.readlog(env["VP_LOG"])
        hit = [e[2] for e in log if e[0] == "A"]
        what = "%s with allocation %d%s of %d failing (%s)" % (shq(r.argv), i, mode, n, variant)
        if r.rc < 0: raise Violation("signal", "died with signal %d: %s" % (-r.rc, what))
        if not hit: c.count("faults not reached"); continue
        c.count("faults delivered", len(hit))
        got = records(r.out)
        if r.rc == 0:
            if got != want: raise Violation("silent", "incomplete results, but success: %s missing=%r extra=%r" % (what, list((want - got))[:4], list((got - want))[:4]))
            c.count("recovered")
        else:
            if not r.err: raise Violation("undiagnosed", "failed without a diagnostic: " + what)
            if "-printf" not in expr or "%p\\0" in expr:
                extra = got - limit
                if extra: raise Violation("corrupt", "output that the undisturbed run does not contain: %r: %s" % (list(extra)[:4], what))
            c.count("failed cleanly")
        c.seen(hit[0], bool(mode), r.rc == 0)
    c.sample(shq(argv))
