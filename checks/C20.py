"""C20: no memory errors, undefined behaviour, leaks or failed assertions on any input."""
from trav import *
import trav, C28, pty
PROP, LEVEL = "C20", "exploration"
CASES = {"quick": 500, "thorough": 60000}
RULE = "each distinct (kind of input, instrumentation, set of primaries used, exit class) counts once"
TECHNIQUE = "runtime monitoring: address, leak, undefined-behaviour and memory (uninitialized-read) sanitizer builds with internal assertions enabled, run on generated hostile command lines, environments, trees, metadata and faults"
NOTE = "The memory-sanitizer build excludes the optional libraries, which are not instrumented. Random but seeded inputs; holds on everything observed."

SAN = {"ASAN_OPTIONS": "exitcode=99:detect_leaks=%d:detect_stack_use_after_return=1:strict_string_checks=1:detect_odr_violation=0:allocator_may_return_null=1:handle_abort=1",
       "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=99", "MSAN_OPTIONS": "exitcode=99", "LSAN_OPTIONS": "exitcode=99"}

def setup(env):
    trav.setup(env)
    env.want("asan"); env.want("msan")
    # is leak checking possible here (it needs to trace our own threads)?
    src = os.path.join(env.scratch.base, "leak.c")
    open(src, "w").write("#include <stdlib.h>\nint main(void) { void *volatile p = malloc(8); p = 0; return 0; }\n")
    leak = env.cc("leak", [src], ["-fsanitize=address"], cc="clang")
    r = run([leak], env={"ASAN_OPTIONS": "exitcode=99:detect_leaks=1"})
    env.data["leaks"] = 1 if r.rc == 99 and b"LeakSanitizer: detected" in r.err else 0
    env.notes = ["leak checking %s" % ("active" if env.data["leaks"] else "not possible here")]

def sanenv(c):
    e = dict(SAN)
    e["ASAN_OPTIONS"] %= c.env.data["leaks"]
    return e

EXTREME = [0, 1, -1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**62, 2**63 - 1]
ETIMES = [0, -1, 2**31, -2**31 - 1, 2**40, 253402300800, 2**55, -2**55, 67768036191676799, 67768036191676800, -67768040609740800, 2**63 - 1, -2**63, -2**62]
SPECIAL = [b"-", b"--", b"-a", b"-o", b",", b"(", b")", b"!", b"-not", b"-exclude", b"{}", b";", b"+", b"{};", b"", b"\xff", b"%", b"\\", b"[", b"*", b"t", b"./t", b"t/", b".", b"t/d", b"missing",
           b"-D", b"all", b"-Dtree", b"-Dopt,rates,cost,exec,stat,search", b"-Dall", b"-S", b"-f", b"-regextype", b"help", b"-status", b"-color", b"-warn", b"-ok", b"-okdir", b"-exec", b"-execdir", b"/bin/true", b"/bin/echo",
           b"-newerXX", b"-newermt", b"-newerBB", b"-files0-from", b"-exit", b"-quit", b"-prune", b"-limit", b"-flags", b"+archived", b"-context", b"-Bmin", b"-Btime", b"-Bnewer", b"-Bsince", b"-help", b"-version", b"-delete", b"-rm", b"-OX", b"-O4", b"-Ofast",
           b"u+w,g=u,o-x", b"9223372036854775807", b"-9223372036854775808", b"18446744073709551616", b"1" * 300, b"9999-12-31T23:59:59+99:99", b"0000-00-00", b"@9223372036854775807", b"@-9223372036854775808", b"99999999999999999s", b"1P", b"9223372036854775807P"]

def rbytes(rng, n):
    alpha = rng.choice([b"abc*?[]!^-\\./", b"\\xe017;:=*.mrstldi^[", bytes(range(1, 256)), b"%-+ #0.123456789*hlLqjzt'aAbBcCdDeEfFgGhHiIklmMnpPsStTuUwyYZ\\@", b"()|*+?{}[]\\.^$ab1,:=", b"0123456789-:T+Z @.", b"ugoarwxXst+-=,0137/"])
    return bytes(rng.choice(alpha) for _ in range(rng.randrange(n + 1))).replace(b"\0", b"")

def all_tokens():
    out = []
    for tab in (C28.TESTS, C28.ACTIONS, C28.OPTIONS, C28.FLAGS):
        for k, (ok, bad) in tab.items():
            out.append((k.encode(), [[a.encode() for a in x] for x in ok + bad]))
    return out
TOK = all_tokens()
PRIMS = [b"-Bmin", b"-Bnewer", b"-Bsince", b"-Btime", b"-acl", b"-capable", b"-context", b"-empty", b"-nogroup", b"-nohidden", b"-nouser", b"-samefile", b"-xattrname", b"-since", b"-used", b"-lname", b"-ilname", b"-printf", b"-fprintf", b"-regex", b"-iregex", b"-name", b"-iname", b"-path", b"-perm", b"-size", b"-newermt", b"-mtime", b"-type"]

def subst(rng, a):
    return {b"@f": b"t/a", b"@n": b"t/missing", b"@o": b"o%d" % rng.randrange(4), b"@bad": b"t", b"@touch": b"/bin/true", b"@true": b"/bin/true"}.get(a, a)

def soup(rng):
    out = []
    for _ in range(rng.choice([1, 3, 6, 12, 30])):
        r = rng.random()
        if r < .55:
            k, args = rng.choice(TOK)
            out.append(k)
            if args and rng.random() < .9: out += [subst(rng, a) for a in rng.choice(args)]
        elif r < .8: out.append(rng.choice(SPECIAL))
        elif r < .95: out += [rng.choice(PRIMS), rbytes(rng, rng.choice([3, 8, 30, 300]))]
        else: out.append(b"-" + rbytes(rng, 6))
    return out

def gen_line(c, rng):
    g = C28.Gen(None, rng)
    flags = [g.prim(C28.FLAGS) for _ in range(rng.choice([0, 1, 2]))]
    body = g.expr(rng.choice([2, 4, 6]))
    argv = [a.encode() for a in C28.flat(flags)] + [b"t"] + [a.encode() for a in C28.flat(body)]
    return [b"t/a" if a == b"./mark" else a for a in argv]

def build(c, rng):
    os.chdir(c.dir)
    n = rng.choice([3, 8, 20, 60])
    shape = T.gen_shape(rng, n, names=rng.choice(["mixed", "bytes", "mixed"]))
    os.mkdir("t")
    T.populate(rng, b"t", shape, special=True, links=True, meta=True, loops=True)
    if not os.path.lexists("t/a"): open("t/a", "w").close()
    r = rng.random()
    if r < .06:
        # a path longer than PATH_MAX
        cur = os.getcwdb()
        os.chdir("t")
        for _ in range(rng.choice([5, 18, 40])):
            os.mkdir(b"n" * 250); os.chdir(b"n" * 250)
        open("leaf", "w").close()
        os.chdir(cur)
    elif r < .12:
        os.symlink(b"x" * rng.choice([255, 1000, 4095]), b"t/" + b"l" * 255)
    elif r < .18:
        os.mkdir("t/many")
        for i in range(rng.choice([200, 1500])): open("t/many/%d" % i, "w").close()
    elif r < .22:
        p = b"t"
        for _ in range(300): p += b"/e"; os.mkdir(p)

def environment(rng):
    e = {}
    r = rng.random()
    if r < .35: e["LS_COLORS"] = rbytes(rng, rng.choice([5, 40, 400]))
    elif r < .5: e["LS_COLORS"] = b":".join(rng.choice([b"di", b"ln", b"*.x", b"*", b"*.X", b"*x.y", b"fi", b"or", b"mi", b"ec", b"lc", b"rc", b"rs", b"no", b"su", b"ca", b"mh", b"ex"]) + b"=" + rng.choice([b"1", b"", b"00", b"\\e", b"target", b"^?", b"\\377", b"x" * 300, b"\\xfff"]) for _ in range(rng.choice([1, 5, 40])))
    if rng.random() < .2: e["BFS_COLORS"] = rbytes(rng, 60)
    if rng.random() < .3: e["TZ"] = rng.choice([b"UTC0", b"America/New_York", b":bogus", b"XXX+24:59:59YYY-24", rbytes(rng, 10), b"<-03>3<-02>,M3.5.0/-2,M10.5.0/-1"])
    if rng.random() < .4: e["LC_ALL"] = rng.choice(["C", "C.UTF-8", "POSIX", "xx_YY", ""])
    if rng.random() < .1: e["NO_COLOR"] = "1"
    if rng.random() < .1: e["COLUMNS"] = rng.choice(["0", "1", "99999999999", "x", "-5"])
    if rng.random() < .1: e["POSIXLY_CORRECT"] = "1"
    if rng.random() < .1: e["PATH"] = rng.choice([b"", b":", b"/bin", b"bin:/bin", b"/nonexistent", b"x" * 5000])
    if rng.random() < .05: e["PAGER"] = rng.choice(["/bin/cat", "", "/nonexistent", "false"])
    return e

def case(c):
    rng = c.rng
    build(c, rng)
    for _ in range(6): one(c, rng)

def one(c, rng):
    variant = "msan" if rng.random() < .25 else "asan"
    kind = rng.choice(["soup", "soup", "line", "line", "printf", "color", "strings", "meta"])
    env = dict(sanenv(c), **environment(rng))
    stdin = rng.choice([b"", b"", b"y\nn\ny\n", rbytes(rng, 50), b"t\0t/a\0\0", b"x" * 5000])
    kw = {}
    if kind == "soup": argv = soup(rng)
    elif kind == "line": argv = gen_line(c, rng)
    elif kind == "printf":
        fmt = b"".join(rng.choice([b"%" + rng.choice([b"", b"-", b"+", b" ", b"#", b"0", b"-#0 +"]) + rng.choice([b"", b"5", b"300", b"2147483647", b"99999999999"][:3]) + rng.choice([b"", b".", b".0", b".3"]) + rng.choice([b"%c" % x for x in b"abcdDfFghHiklmMnpPsStuUyYwGZ%"] + [b"A" + b"%c" % x for x in range(33, 127)] + [b"T+", b"C@", b"B/", b"TS", b"Tk"]), b"\\" + rng.choice([b"%c" % x for x in b"abcfnrtv0\\x178"]) + rng.choice([b"", b"1", b"77"]), rbytes(rng, 4)]) for _ in range(rng.choice([1, 3, 10])))
        argv = [b"t", b"-printf", fmt] if rng.random() < .7 else [b"t", b"-fprintf", b"o1", fmt]
        if rng.random() < .2: argv = [b"-color"] + argv
    elif kind == "color":
        argv = [b"-color"] + rng.choice([[], [b"-L"]]) + [b"t"] + rng.choice([[b"-print"], [b"-ls"], [b"-printf", b"%p %f %l %h\\n"], [b"-Dall"], [b"-status"]])
        env.setdefault("LS_COLORS", rbytes(rng, 200))
    elif kind == "strings":
        argv = [b"t"]
        for _ in range(rng.choice([1, 3])): argv += [rng.choice([b"-name", b"-iname", b"-path", b"-ipath", b"-lname", b"-regex", b"-iregex", b"-perm", b"-size", b"-newermt", b"-mtime", b"-since", b"-user", b"-type", b"-xattrname", b"-fstype", b"-exec"]), rbytes(rng, rng.choice([3, 10, 60])), b"-o"]
        argv += [b"-print"]
        if rng.random() < .3: argv = [b"-E"] + argv if rng.random() < .5 else [b"-regextype", rng.choice([b"grep", b"sed", b"emacs", b"posix-extended", b"ed"])] + argv
    else:
        variant = "asan"
        FAKE.clear()
        for root, ds, fs in os.walk(b"t"):
            for n in ds + fs:
                if rng.random() < .3:
                    try: ino = os.lstat(root + b"/" + n).st_ino
                    except OSError: continue
                    o = {}
                    for k in rng.sample(["st_nlink", "st_uid", "st_gid", "st_size", "st_blocks"], 2): o[k] = rng.choice(EXTREME[:2] + EXTREME[3:6]) if k != "st_size" else rng.choice(EXTREME[:2] + EXTREME[3:])
                    for k in rng.sample(["st_mtime_ns", "st_atime_ns", "st_ctime_ns"], 2): o[k] = rng.choice(ETIMES) * 10**9 + rng.choice([0, 999999999])
                    FAKE[ino] = o
        env.update(LD_PRELOAD=c.env.data["shim"], VP_NOURING="1", VP_FAKESTAT=fakeenv())
        FAKE.clear()
        argv = rng.choice([[b"t", b"-ls"], [b"t", b"-printf", b"%p %T+ %A@ %c %Tc %s %S %k %b %u %g %n\\n"], [b"t", b"-printf", b"%TY %TU %Tj %TG %Tx %TX %TD %Ts %Ak %Al\\n"],
                           [b"-daystart", b"t"] + [rng.choice([b"-mtime", b"-amin", b"-used", b"-atime", b"-cmin"]), rng.choice([b"1", b"+0", b"-9223372036854775807", b"+106751991167300"])], [b"t", b"-size", rng.choice([b"+1G", b"-1P", b"8589934592G", b"+9223372036854775807"])], gen_line(c, rng)])
    if variant == "asan" and kind != "meta" and rng.random() < .25:
        env["LD_PRELOAD"] = c.env.data["shim"]
        if rng.random() < .5: env["VP_NOURING"] = "1"
        if rng.random() < .5: env["VP_DENTS"] = str(rng.choice([300, 600, 1024]))
        if rng.random() < .4: env["VP_DTUNK"] = "1"
        if rng.random() < .6: env["VP_FAIL"] = S.fail((rng.choice(["open", "stat", "readdir", "readlink", "access", "close", "fdopendir", "spawn", "fork", "exec", "fchdir", "unlink", "write"]), rng.choice(["1", "2", "5", "1/3", "1/2"]), rng.choice([2, 5, 12, 13, 20, 24, 40, 11, 4])))
    if rng.random() < .15: kw["nofile"] = rng.choice([9, 12, 20, 40])
    args = [a.replace(b"\0", b"") if isinstance(a, bytes) else a for a in argv]
    # never search outside the scratch tree
    args = [b"t" if a.startswith(b"/") and a not in (b"/bin/true", b"/bin/echo") or b".." in a and b"/" in a else a for a in args]
    if rng.random() < .1 and kind in ("color", "line", "soup"): r = on_pty(c, rng, args, variant, env, kw)
    else: r = c.bfs(args, variant=variant, env=env, stdin=stdin, crash_ok=True, timeout=60, **kw)
    if r is None: return
    judge(c, r, variant, kind)

def judge(c, r, variant, kind):
    c.check_crash(r, variant)
    if r.rc == 99 or b"Sanitizer:" in r.err and b"==ERROR" in r.err: raise Violation("sanitizer", "%s report: %s" % (variant, shq(r.argv)), stderr=r.err[:6000].decode("utf8", "replace"))
    if r.rc < 0 and -r.rc not in (signal.SIGPIPE,): raise Violation("signal", "bfs died with signal %d: %s" % (-r.rc, shq(r.argv)), stderr=r.err[-3000:].decode("utf8", "replace"))
    prims = tuple(sorted({a for a in r.argv[1:] if isinstance(a, bytes) and a[:1] == b"-" and a.decode("latin1") in KNOWN}))
    c.seen(kind, variant, prims, min(r.rc, 2))
    c.count("runs %s" % variant); c.count("runs of kind " + kind)
    if r.rc == 0: c.count("runs accepted and successful")
    c.sample(shq(r.argv)[:200])

KNOWN = {k for tab in (C28.TESTS, C28.ACTIONS, C28.OPTIONS, C28.FLAGS) for k in tab}

def on_pty(c, rng, args, variant, env, kw):
    import threading, fcntl, struct, termios
    m, s = pty.openpty()
    fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", rng.choice([0, 1, 2, 24]), rng.choice([0, 1, 5, 80, 500]), 0, 0))
    buf = []
    def reader():
        try:
            while True:
                d = os.read(m, 65536)
                if not d: break
                buf.append(d)
                if b"? " in d[-4:]: os.write(m, rng.choice([b"y\n", b"n\n"]))
        except OSError: pass
    tc = termios.tcgetattr(s); tc[3] &= ~termios.ECHO; termios.tcsetattr(s, termios.TCSANOW, tc)
    th = threading.Thread(target=reader); th.start()
    os.write(m, b"y\nn\n")
    try:
        r = c.bfs(args, variant=variant, env=dict(env, TERM="xterm", PAGER="/bin/cat"), stdin=s if rng.random() < .5 else b"", stdout=s, stderr=s, crash_ok=True, timeout=20, **kw)
    except Violation as v:
        if v.args and "did not terminate" not in str(v): raise
        r = None        # waiting for more input
    finally: os.close(s)
    th.join(); os.close(m)
    if r is None: c.count("runs waiting for input"); return None
    r.err = b"".join(buf); r.out = b""
    c.count("runs on a terminal")
    return r
