"""Containers against reference models: random operation sequences driven through
the real code (linked from this tree, ASan + UBSan), every step compared; plus
whole-program runs that lean on the same containers."""
import os, re
import vlib
from vlib import Violation

PROP = "C31"
LEVEL = "exploration"
CASES = {"quick": 480, "thorough": 12000}
RULE = ("distinct (container, operation-mix, hit/miss histogram bucket) sequences whose every step was compared "
        "with the reference model, plus distinct whole-program workloads")
TECHNIQUE = ("differential runtime monitoring: a driver linked with the tree's trie, dstring, list and allocator code "
             "(ASan + UBSan) performs seeded random operation sequences and compares every result and the whole state "
             "with naive models; whole-program runs exercise the same containers")
VARIANTS = ("asan",)
ASSUMPTIONS = ["alignment and chunk-size preconditions that the code asserts are respected by the driver",
               "find_postfix is only required to return some key with the prefix, the exact one if present"]

def setup(env):
    env.data["h"] = env.harness("h_cont", "h_cont.c", "asan")
    env.data["hp"] = env.harness("h_cont_plain", "h_cont.c", "release")

def driver(c, h):
    mode = ("trie", "trie", "dstr", "list", "alloc", "trie")[c.idx % 6]
    seed = c.rng.getrandbits(60)
    steps = c.rng.choice((300, 3000, 3000, 12000 if mode != "dstr" else 3000))
    argv = [h, mode, str(seed), str(steps)]
    c.evals += 1
    r = vlib.run(argv, cwd=c.dir, timeout=120, env={"UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1"})
    c.check_crash(r)
    out = r.out.decode("utf8", "replace")
    if r.rc != 0:
        raise Violation("model:" + mode, "%s sequence (seed %d, %d steps): %s" % (mode, seed, steps, out.strip()[-300:] or r.err.decode("utf8", "replace")[-600:]))
    m = re.match(r"ok ops=(\d+) hits=(\d+) misses=(\d+)", out)
    c.count("ops:" + mode, int(m[1])); c.count("hits:" + mode, int(m[2])); c.count("misses:" + mode, int(m[3]))
    c.seen(mode, steps, int(m[2]) // 7, int(m[3]) // 7)
    c.sample("%s seed=%d: %s" % (mode, seed, out.strip()))

def program(c):
    rng = c.rng
    kind = rng.randrange(3)
    d = os.path.join(c.dir, "t")
    os.mkdir(d); os.chmod(d, 0o777)
    if kind == 0:      # a set of inodes
        n = rng.choice((3, 40, 400))
        for i in range(n):
            p = "%s/f%d" % (d, i)
            open(p, "w").close()
            for j in range(rng.choice((0, 0, 1, 3))):
                os.link(p, "%s/l%d.%d" % (d, i, j))
        r = c.bfs(["t", "-unique", "-type", "f", "-printf", "%i\n"], "asan")
        got = sorted(r.out.split())
        want = sorted({str(e.stat(follow_symlinks=False).st_ino).encode() for e in os.scandir(d)})
        c.count("inodes", len(want))
    elif kind == 1:    # long dynamic strings
        n = rng.choice((1, 15, 16, 17, 500, 5000))
        s = "".join(rng.choice("abcxyz .,") for _ in range(n))
        depth = rng.randrange(1, 12)
        p = d
        for i in range(depth):
            p += "/" + rng.choice("abc") * rng.choice((1, 7, 15, 16, 31, 200))
            os.mkdir(p)
        want = [(s + "|" + q[len(c.dir) + 1:]).encode() for q in [p.rsplit("/", k)[0] if k else p for k in range(depth)]] + [(s + "|t").encode()]
        r = c.bfs(["t", "-printf", s + "|%p\\n"], "asan")
        got, want = sorted(r.out.splitlines()), sorted(want)
        c.count("strings", len(want))
    else:              # output files keyed by identity
        n = rng.choice((2, 9, 40))
        args, files = ["t"], []
        for i in range(n):
            f = rng.randrange(max(1, n // 2))
            files.append(f)
            args += ["-fprintf", rng.choice(("t/o%d", "./t/o%d", "t/../t/o%d")) % f, "%d-%%p\\n" % i]
        r = c.bfs(args, "asan")
        got = sorted((f.encode(), x) for f in {"o%d" % k for k in files} for x in open(os.path.join(d, f), "rb").read().splitlines())
        paths = ["t"] + ["t/o%d" % f for f in sorted(set(files))]
        want = sorted((b"o%d" % f, b"%d-%s" % (i, p.encode())) for i, f in enumerate(files) for p in paths)
        c.count("outputs", len(set(files)))
    if got != want or r.rc != 0:
        raise Violation("program:%d" % kind, "container-backed workload %d: rc=%d, %d results instead of %d: %s" % (kind, r.rc, len(got), len(want), vlib.shq(r.argv)[:500]),
                        missing=[x for x in want if x not in got][:5], extra=[x for x in got if x not in want][:5], stderr=r.err[-500:])
    c.seen("program", kind, len(want))

def case(c):
    h = c.env.data["h"]
    if h and c.idx % 12:
        driver(c, c.env.data["hp"] if c.idx % 5 == 4 and c.env.data["hp"] else h)
    else:
        program(c)
