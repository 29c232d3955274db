"""C18: output completeness and order, and reporting of output failures."""
from execs import *
import execs, fcntl, signal
PROP, LEVEL = "C18", "exploration"
CASES = {"quick": 900, "thorough": 15000}
RULE = "each run counts once by (kinds of outputs, aliasing, volume class, injected failure, options)"
TECHNIQUE = "runtime monitoring: every output stream captured and compared with the sequence the evaluation order dictates; write/close failures injected with strace, /dev/full, file size limits and closed or full pipes"

def setup(env):
    execs.setup(env)
    # can we trace our own children here?
    r = run(["strace", "-f", "-o", "/dev/null", "true"])
    env.data["strace"] = r.rc == 0

class Dest:
    """One distinct output file and the names it is given under."""
    def __init__(self, real, names): self.real, self.names, self.want = real, names, []

def mkdests(c, rng, out_path):
    os.mkdir("o"); os.mkdir("o/sub"); os.chown("o", UID, GID); os.chown("o/sub", UID, GID)
    ds = []
    for i in range(rng.choice([1, 1, 2, 3])):
        real = b"o/out%d" % i
        names = [real]
        pre = rng.random() < .6
        if pre:
            with open(real, "w") as f: f.write("old contents\n" * rng.choice([0, 1, 2000]))
            os.chown(real, UID, GID)
            if rng.random() < .6: os.link(real, b"o/hard%d" % i); names.append(b"o/hard%d" % i)
        if rng.random() < .5: names.append(b"./o//out%d" % i)
        if rng.random() < .5: names.append(b"o/sub/../out%d" % i)
        if rng.random() < .4: os.symlink(b"out%d" % i, b"o/sym%d" % i); names.append(b"o/sym%d" % i)
        if rng.random() < .3: names.append(c.dir.encode() + b"/o/out%d" % i)
        ds.append(Dest(real, names))
    if out_path:
        os.chown(out_path, UID, GID)
    return ds

REC = [("print", b"%s\n"), ("print0", b"%s\0"), ("printf", None), ("printf", None), ("ls", None)]
def gen_action(rng, dest, stdout, i):
    kind, fmt = rng.choice(REC)
    name = None
    if stdout is dest:
        name = rng.choice(dest.names) if dest.names and rng.random() < .4 else None
    else: name = rng.choice(dest.names)
    if kind == "printf":
        big = rng.choice([0, 0, 0, 10, 500, 5000])
        f = b"%d:" % i + b"%p" + b"." * big + rng.choice([b"\\0", b"\\n", b" ", b""])
        fmt = f.replace(b"\\0", b"\0").replace(b"\\n", b"\n").replace(b"%p", b"%s")
        toks = ["-fprintf", name, f] if name else ["-printf", f]
    else: toks = ["-f" + kind, name] if name else ["-" + kind]
    return toks, (kind, fmt)

def render(kind, fmt, path):
    if kind == "ls":
        tail = re.escape(path)
        if os.path.islink(path): tail += re.escape(b" -> " + os.readlink(path))
        return re.compile(rb" *\d+ [^\n]* " + tail + rb"\n")
    return fmt.replace(b"%s", path)

def match(data, want, key, what):
    """data must be exactly the concatenation of want (bytes or patterns)."""
    pos, n = 0, 0
    for w in want:
        if isinstance(w, bytes):
            if data[pos:pos + len(w)] != w:
                raise Violation(key, "output record %d should be %r but found %r (of %d bytes): %s" % (n, w[:120], data[pos:pos + 120], len(data), what))
            pos += len(w)
        else:
            m = w.match(data, pos)
            if not m: raise Violation(key, "output record %d should match %r but found %r: %s" % (n, w.pattern[:120], data[pos:pos + 120], what))
            pos = m.end()
        n += 1
    if pos != len(data): raise Violation(key, "%d bytes of unexpected output after the last record, starting %r: %s" % (len(data) - pos, data[pos:pos + 120], what))

def read(p):
    with open(p, "rb") as f: return f.read()

def case(c):
    rng = c.rng
    set_locale("C.UTF-8")
    mode = rng.choices(["plain", "exec", "fault"], [45, 15, 40])[0]
    n = rng.choice([3, 10, 30]) if mode == "exec" else rng.choice([3, 10, 30, 100, 300])
    w, roots = small_world(c, n, names="plain", meta=False)
    os.chmod("t", 0o755)
    stdout_file = rng.random() < .5
    out_path = c.dir.encode() + b"/stdout" if stdout_file else None
    kw = {}
    if stdout_file:
        kw["stdout"] = os.open(out_path, os.O_WRONLY | os.O_CREAT | (os.O_APPEND if rng.random() < .5 else 0), 0o644)
    ds = mkdests(c, rng, out_path)
    std = Dest(out_path, [out_path, b"/dev/stdout", b"stdout", b"/proc/self/fd/1"] if stdout_file else [])
    alld = ds + [std]
    # actions: \( TEST ACT \) , ...  The first one records the visits.
    acts = []
    toks = ["-fprintf", "o/master", "%p\\0"]
    fault_dest = None
    for i in range(rng.choice([1, 2, 3, 5])):
        d = rng.choice(alld)
        t = gen_test(rng, w, ["t_type", "t_name", "t_bool"]) if False else rng.choice([None, None, "f", "d", "false"])
        a, rec = gen_action(rng, d, std, i)
        toks += [","]
        if t in ("f", "d"): toks += ["(", "-type", t] + a + [")"]
        elif t == "false": toks += ["(", rng.choice(["-false", "! -true", "-name x -a ! -name x"])] + a + [")"]
        else: toks += a
        acts.append((d, t, rec))
    toks = list(itertools.chain.from_iterable(x.split(" ") if isinstance(x, str) else [x] for x in toks))
    if mode == "exec":
        plus = rng.random() < .3
        cmd = ["sh", "-c", "for i; do printf 'E:%s\\0' \"$i\"; done", "sh", "{}"]
        toks += [","] + ["-exec"] + cmd + ["+" if plus else ";"]
        if not plus: acts.append((std, None, ("printf", b"E:%s\0")))
    if mode == "fault" and n <= 30 and rng.random() < .4:
        toks += [","] + rng.choice([["-exec", "true", ";"], ["-exec", "true", "{}", "+"], ["-type", "d", "-exec", "true", ";"], ["-exec", "false", ";"], ["-execdir", "true", "{}", ";"]])
    flags = rng.choice([[], ["-j1"], ["-j3"], ["-S", "dfs"], ["-S", "ids"], ["-s"], ["-O0"], ["-O1"], ["-j1", "-O3"], ["-d"]])
    argv = flags + roots + toks
    if mode == "fault": return fault(c, rng, argv, w, acts, alld, std, kw)
    closed = []
    if mode == "plain" and rng.random() < .3:
        # standard descriptors closed by the parent: what bfs opens must not take their place
        closed = rng.choice([[2], [2], [0], [0, 2]])
        if 2 in closed: argv = flags + roots + ["t/no such file"] + toks
        kw["preexec"] = lambda: [os.close(i) for i in closed]
    try: r = c.bfs(argv, **kw)
    finally:
        if stdout_file: os.close(kw["stdout"])
    what = shq(r.argv) + (" with descriptors %r closed" % closed if closed else "")
    if closed: c.count("runs with closed standard descriptors")
    if not os.path.exists("o/master"): raise Violation("created", "output file 'o/master' was not created, rc=%d, stderr %r: %s" % (r.rc, r.err[:300], what))
    if 2 in closed and r.rc == 1: pass
    elif r.rc or r.err: raise Violation("status", "rc=%d stderr=%r: %s" % (r.rc, r.err[:300], what))
    expect(c, w, acts, alld)
    outdata = read(out_path) if stdout_file else r.out
    if mode == "exec" and plus:
        check_plus(c, outdata, std, what)
    else: match(outdata, std.want, "stdout", what)
    total = len(outdata)
    for d in ds:
        if not any(x[0] is d for x in acts): continue
        if not os.path.exists(d.real): raise Violation("created", "output file %r was not created: %s" % (d.real, what))
        data = read(d.real); total += len(data)
        match(data, d.want, "file", what)
    c.count("bytes of output checked", total); c.count("output actions", len(acts)); c.count("records", sum(len(d.want) for d in alld))
    c.count("runs with shared files", len({id(x[0]) for x in acts}) < len(acts))
    c.count("runs with -exec", mode == "exec")
    c.seen(mode, tuple(sorted((x[2][0], x[1] or "", alld.index(x[0])) for x in acts)), flags and flags[0], total.bit_length(), stdout_file)
    c.sample(what[:300] + " -> %d bytes" % total)

def expect(c, w, acts, alld):
    visits = split0(read("o/master"))
    diff_multiset([f.path for f in w.files], visits, ["o/master"], "visits")
    for p in visits:
        ty = typ(os.lstat(p))
        for d, t, (kind, fmt) in acts:
            if t in (None, ty): d.want.append(render(kind, fmt, p))

def check_plus(c, data, std, what):
    """Commands' records E:path may appear anywhere after bfs's own output for that path."""
    own, pend, seen = [], [], collections.Counter()
    rest, es = [], collections.Counter()
    # own records never start with E: and commands write whole records
    pos = 0
    for m in re.finditer(rb"E:([^\0]*)\0", data):
        rest.append(data[pos:m.start()]); pos = m.end()
        es[m.group(1)] += 1
    rest.append(data[pos:])
    match(b"".join(rest), std.want, "stdout", what)
    diff_multiset(split0(read("o/master")), es.elements(), [what], "exec")
    # bfs's output up to a path must be there before the command runs: the text before E:path includes its records
    pos = 0
    for m in re.finditer(rb"E:([^\0]*)\0", data):
        before = data[:m.start()]
        for x in std.want:
            if isinstance(x, bytes) and re.match(rb"\d+:" + re.escape(m.group(1)) + rb"(?![\w/.-])", x) and x not in before:
                raise Violation("order", "bfs's record %r appears after the output of the command run for it later: %s" % (x[:100], what))

def fault(c, rng, argv, w, acts, alld, std, kw):
    used = [d for d in alld if any(x[0] is d for x in acts)]
    kinds = ["full", "fsize", "closed", "epipe", "eagain"]
    if c.env.data["strace"]: kinds += ["write", "write", "write", "close", "close"]
    kind = rng.choice(kinds)
    prefix, pre, err = [], None, None
    hit = lambda: True
    bad = None
    slog = c.dir + "/strace.log"
    env, run_kw = {}, dict(kw)
    if kind == "full":
        # /dev/full in place of one destination
        d = rng.choice(used); bad = d
        if d is std:
            if "stdout" in kw: os.close(kw["stdout"])
            run_kw["stdout"] = os.open("/dev/full", os.O_WRONLY)
            kw["stdout"] = run_kw["stdout"]
        names = set(d.names)
        argv = [b"/dev/full" if a in names and i and argv[i - 1] in ("-fprint", "-fprint0", "-fls", "-fprintf") else a for i, a in enumerate(argv)]
    elif kind == "fsize":
        bad = "any"
        run_kw["fsize"] = rng.choice([0, 1, 100, 4096, 5000, 70000])
        run_kw["preexec"] = lambda: signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        argv = [a if a != "o/master" else "/dev/null" for a in argv]
    elif kind == "closed":
        bad = std
        run_kw["preexec"] = lambda: os.close(1)
        run_kw.pop("stdout", None)
        argv = [a if a not in std.names else b"o/other" for a in argv]
        acts = [x if not (x[0] is std and x[2][0] and False) else x for x in acts]
    elif kind in ("epipe", "eagain"):
        bad = std
        if "stdout" in kw: os.close(kw["stdout"])
        rd, wr = os.pipe()
        fcntl.fcntl(wr, 1031, 4096)
        if kind == "epipe": os.close(rd)
        else: os.set_blocking(wr, False)
        run_kw["stdout"] = kw["stdout"] = wr
        run_kw["preexec"] = lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        argv = [a if a not in std.names else b"o/other" for a in argv]
    else:
        cand = [d for d in used if d.real]
        if not cand: return
        d = bad = rng.choice(cand)
        if kind == "close" and d is std: kind = "write"
        e = rng.choice(["ENOSPC", "EIO", "EDQUOT"])
        when = rng.choice(["1", "1", "2", "3", "1+", "2+", "1..2"]) if kind == "write" else "1+"
        real = d.real if d.real.startswith(b"/") else c.dir.encode() + b"/" + d.real
        prefix = ["strace", "-f", "-qq", "-o", slog, "-P", real, "-e", "trace=write,writev,close", "-e", "inject=%s:error=%s:when=%s" % ("write,writev" if kind == "write" else "close", e, when)]
        # all under one name, so that the failure hits the stream that is written to
        argv = [d.names[0] if a in d.names else a for a in argv]
        if not os.path.exists(real): open(real, "w").close(); os.chown(real, UID, GID)
        open(slog, "w").close(); os.chmod(slog, 0o666)
        hit = lambda: b"(INJECTED)" in read(slog)
    other = any(a == b"o/other" for a in argv)
    try: r = c.bfs(argv, prefix=prefix, **run_kw)
    finally:
        if "stdout" in kw: os.close(kw["stdout"])
    what = "%s (failure: %s)" % (shq(r.argv), kind)
    got = b""
    if kind == "eagain":
        os.set_blocking(rd, False)
        try: got = os.read(rd, 1 << 20)
        except BlockingIOError: pass
        os.close(rd)
    if kind == "fsize":
        visits = [f.path for f in w.files]
        tot = {}
        for p in visits:
            ty = typ(os.lstat(p))
            for d, t, (k, fmt) in acts:
                if t in (None, ty):
                    s = render(k, fmt, p)
                    tot[id(d)] = tot.get(id(d), 0) + (len(s) if isinstance(s, bytes) else 10**6 + 1)
        big = {i for i, n in tot.items() if n % (10**6 + 1) > run_kw["fsize"]}
        unknown = any(n > 10**6 and i not in big for i, n in tot.items())
        if "stdout" not in kw: big.discard(id(std))
        must = bool(big)
        if not must and unknown: return
        failed = must
    else:
        expect(c, w, acts, alld)
        failed = hit()
        if kind in ("full", "closed", "epipe"): failed = any(d is bad and d.want for d in alld)
        if kind == "closed" and failed: failed = std_written(argv, std, acts) if True else failed
        if kind == "epipe" and failed: failed = std_written(argv, std, acts)
        if kind == "eagain":
            failed = std_written(argv, std, acts) and sum(len(x) if isinstance(x, bytes) else 60 for x in std.want) > 4096
            if failed:
                # the pipe holds 4096 bytes only, so something must have been lost
                failed = None if other else True
            else: failed = None if (r.rc or r.err) and not other else False
            if other: failed = None
        if other and kind in ("closed", "epipe"): failed = None
    if failed is None:
        # cannot tell how much was lost; but silence means completeness
        c.count("undetermined"); return
    if failed:
        if r.rc == 0: raise Violation("silent", "output was lost, but the exit status is 0 (stderr %r): %s" % (r.err[:300], what))
        if not r.err: raise Violation("silent", "output was lost without a diagnostic (rc=%d): %s" % (r.rc, what))
        if r.rc not in (1,): raise Violation("status", "rc=%d: %s" % (r.rc, what))
    elif r.rc or r.err: raise Violation("status", "nothing failed, but rc=%d stderr=%r: %s" % (r.rc, r.err[:300], what))
    # the other files are complete
    if kind != "fsize":
        for d in alld:
            if d is bad or d is std or not any(x[0] is d for x in acts): continue
            match(read(d.real), d.want, "other", what)
        if bad is not std and std in used:
            match(read(std.real) if std.real else r.out, std.want, "other", what)
        elif kind in ("write", "close") and not failed: match(read(bad.real), bad.want, "file", what)
    c.count("failures " + kind, 1 if failed else 0); c.count("failure not reached", 0 if failed else 1)
    if failed: c.seen("fault", kind, prefix[-1] if prefix else run_kw.get("fsize"), tuple(sorted((x[2][0], alld.index(x[0])) for x in acts)))
    c.sample(what[:300])

def std_written(argv, std, acts):
    """Does anything still go to the standard output itself?"""
    return any(d is std for d, t, rec in acts) and bool(std.want)
