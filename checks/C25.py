"""C25: -printf and -ls rendering."""
from trav import *
import ctypes, time
from C08 import btime, setzone, ZONES, NS
PROP, LEVEL = "C25", "exploration"
CASES = {"quick": 700, "thorough": 15000}
RULE = "each (directive, flags, width, precision, kind of file) with its rendering class counts once"
TECHNIQUE = "runtime monitoring: output of -printf/-fprintf/-ls/-fls compared byte for byte with an independent renderer (C library formatting of directly queried metadata, some substituted in statx results)"

class TM(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int) for n in "sec min hour mday mon year wday yday isdst".split()] + [("gmtoff", ctypes.c_long), ("zone", ctypes.c_char_p)]
libc.localtime_r.argtypes = [ctypes.POINTER(ctypes.c_int64), ctypes.POINTER(TM)]
libc.localtime_r.restype = ctypes.c_void_p
def localtime(t):
    tm = TM()
    return tm if libc.localtime_r(ctypes.byref(ctypes.c_int64(t)), ctypes.byref(tm)) else None
libc.strftime.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.POINTER(TM)]
libc.strftime.restype = ctypes.c_size_t
def strftime(f, tm):
    b = ctypes.create_string_buffer(512)
    libc.strftime(b, 512, f, ctypes.byref(tm))
    return b.value

def cformat(spec, conv, val):
    n = 4096
    while True:
        b = ctypes.create_string_buffer(n)
        if conv == "s": r = libc.snprintf(b, ctypes.c_size_t(n), spec + b"s", ctypes.c_char_p(val))
        elif conv == "d": r = libc.snprintf(b, ctypes.c_size_t(n), spec + b"jd", ctypes.c_int64(val))
        elif conv == "o": r = libc.snprintf(b, ctypes.c_size_t(n), spec + b"o", ctypes.c_uint(val))
        else: r = libc.snprintf(b, ctypes.c_size_t(n), spec + b"g", ctypes.c_double(val))
        if r < n: return b.raw[:r]
        n = r + 1

DAYS, MONTHS = b"Sun Mon Tue Wed Thu Fri Sat".split(), b"Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
TIMES = {"a": "st_atime_ns", "c": "st_ctime_ns", "t": "st_mtime_ns", "w": "B"}
TIMEF = {"A": "st_atime_ns", "C": "st_ctime_ns", "T": "st_mtime_ns", "W": "B", "B": "B"}

def tval(f, k):
    if k == "B":
        o = getattr(f.st, "__dict__", {}).get("st_birthtime_ns")
        return o if o is not None else btime(f.path, f.st is not f.lst)
    return getattr(f.st, k)

def frac(t): return b"%09d0" % (t % NS)

def render_time(f, k, c):
    t = tval(f, k)
    tm = localtime(t // NS)
    if c == "@": return b"%d.%s" % (t // NS, frac(t))
    if c == "s": return b"%d" % (t // NS)
    if c == "+": return b"%4d-%02d-%02d+%02d:%02d:%02d.%s" % (tm.year + 1900, tm.mon + 1, tm.mday, tm.hour, tm.min, tm.sec, frac(t))
    if c == "S": return b"%02d.%s" % (tm.sec, frac(t))
    if c == "T": return b"%02d:%02d:%02d.%s" % (tm.hour, tm.min, tm.sec, frac(t))
    if c == "k": return b"%2d" % tm.hour
    if c == "l": return b"%2d" % ((tm.hour % 12) or 12)
    if c == "%": return b"%"
    return strftime(b"%" + c.encode(), tm)

def getname(table, i):
    try: return (table.getpwuid(i).pw_name if table is pwd else table.getgrgid(i).gr_name).encode()
    except (KeyError, OverflowError): return b"%d" % i

def xtarget(f):
    if not stat.S_ISLNK(f.lst.st_mode): return typ(f.st)
    try: return typ(faked(os.stat(f.path)))
    except OSError as e:
        if e.errno == errno.ELOOP: return "L"
        if e.errno in (errno.ENOENT, errno.ENOTDIR): return "N"
        return "?"      # reported, too

def value(f, d):
    """(conversion, value) of a directive."""
    st = f.st
    if d == "p": return "s", f.path
    if d == "P":
        r = f.path[len(f.root):]
        return "s", r[1:] if r.startswith(b"/") else r
    if d == "H": return "s", f.root
    if d == "f": return "s", f.path[f.path.rfind(b"/") + 1:]
    if d == "h":
        i = f.path.rfind(b"/")
        return "s", b"." if i < 0 else f.path[:i] or b"/"
    if d == "d": return "d", f.depth
    if d == "m": return "o", stat.S_IMODE(st.st_mode)
    if d == "M": return "s", stat.filemode(st.st_mode).encode()
    if d == "i": return "s", b"%d" % st.st_ino
    if d == "n": return "s", b"%d" % st.st_nlink
    if d == "s": return "s", b"%d" % st.st_size
    if d == "b": return "s", b"%d" % st.st_blocks
    if d == "k": return "s", b"%d" % ((st.st_blocks + 1) // 2)
    if d == "D": return "s", b"%d" % st.st_dev
    if d == "U": return "s", b"%d" % st.st_uid
    if d == "G": return "s", b"%d" % st.st_gid
    if d == "u": return "s", getname(pwd, st.st_uid)
    if d == "g": return "s", getname(grp, st.st_gid)
    if d == "y": return "s", f.type.encode()
    if d == "Y": return "s", xtarget(f).encode()
    if d == "l": return "s", f.target() if f.type == "l" else b""
    if d == "S":
        if st.st_size: return "g", st.st_blocks * 512.0 / st.st_size
        return "g", float("inf") if st.st_blocks else 1.0
    if d in TIMES:
        t = tval(f, TIMES[d]); tm = localtime(t // NS)
        return "s", b"%s %s %2d %02d:%02d:%02d.%s %4d" % (DAYS[tm.wday], MONTHS[tm.mon], tm.mday, tm.hour, tm.min, tm.sec, frac(t), tm.year + 1900)
    if d[0] in TIMEF: return "s", render_time(f, TIMEF[d[0]], d[1])
    raise RuntimeError(d)

DIRS = list("pPHfhdmMinsbkDUGugyYlSactw")
ESC = {"\\a": b"\a", "\\b": b"\b", "\\f": b"\f", "\\n": b"\n", "\\r": b"\r", "\\t": b"\t", "\\v": b"\v", "\\\\": b"\\", "%%": b"%"}
TF = "%+@aAbBcCdDeFgGhHIjklmMnprRsStTuUVwWxXyYzZ"
def gen_format(rng, trailing, nobtime):
    """[(text, piece)]; piece is literal bytes, (directive, spec, conv-class) or None for \\c."""
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8, 20])):
        r = rng.random()
        if r < .12:
            lit = bytes(rng.choice(b"abc XYZ019:/.,{}[]'\"$`!\x01\x7f\xc3\xa9\xff-+#") for _ in range(rng.choice([1, 1, 3, 12])))
            # (a digit after a complete octal escape does not extend it)
            out.append((lit, lit))
        elif r < .2:
            e = rng.choice(list(ESC)); out.append((e.encode(), ESC[e]))
        elif r < .27:
            v = rng.choice([0, 0, 1, 7, 8, 10, 13, 27, 32, 37, 65, 92, 127, 128, 200, 255])
            k = rng.choice(["%o", "%03o", "%03o", "%02o"])
            t = b"\\" + (k % v).encode()
            if len(t) < 4:
                # follow with something that cannot be an octal digit
                out.append((t + b"_", bytes([v]) + b"_"))
            else:
                out.append((t, bytes([v])))
                if rng.random() < .4: out.append((b"7", b"7"))
        elif r < .285:
            out.append((b"\\c", None))
        else:
            d = rng.choice(DIRS) if rng.random() < .7 else rng.choice("ACTBW") + rng.choice(TF)
            if trailing and d in "fh": d = "p"
            if nobtime and d[0] in "wBW": d = "p"
            flags = ""
            if rng.random() < .4:
                pool = "-" + ("#0+ " if d in "dmS" else "")
                flags = "".join(rng.sample(pool, rng.randrange(0, len(pool) + 1)))
                if len(flags) > 3: flags = flags[:3]
            width = str(rng.choice([1, 2, 3, 5, 9, 10, 20, 64, 300])) if rng.random() < .35 else ""
            prec = "." + rng.choice(["", "0", "1", "2", "3", "7", "11", "30", "120"]) if rng.random() < .25 else ""
            spec = "%" + flags + width + prec
            out.append((spec.encode() + d.encode(), (d, spec.encode())))
    return out

def effective(fmt):
    for text, piece in fmt:
        if piece is None: return
        yield piece

def expand(f, fmt):
    out = []
    for text, piece in fmt:
        if piece is None: break
        if isinstance(piece, bytes): out.append(piece)
        else:
            conv, v = value(f, piece[0])
            if conv == "s" and b"\0" in v: raise RuntimeError("NUL")
            out.append(cformat(piece[1], conv, v))
    return b"".join(out)

def ls_regex(f, now, posix):
    st = f.st
    blk = st.st_blocks if posix else (st.st_blocks + 1) // 2
    if f.type in "bc": size = rb"%d, +%d" % (os.major(st.st_rdev), os.minor(st.st_rdev))
    else: size = rb"%d" % st.st_size
    t = st.st_mtime_ns // NS
    tm = localtime(t)
    recent, old = re.escape(strftime(b"%b %e %H:%M", tm)), re.escape(strftime(b"%b %e  %Y", tm))
    # six months back to a day ahead (the exact second is left open; so is the time that passes when the clock is real)
    month = 86400 * 30
    if now - 6 * month + 60 < t < now + 86400 - 60: tr = recent
    elif t < now - 6 * month - 1 or t > now + 86400 + 1800: tr = old
    else: tr = b"(?:%s|%s)" % (recent, old)
    tail = re.escape(f.path)
    if f.type == "l": tail += re.escape(b" -> " + f.target())
    return re.compile(rb" *%d +%d %s  +%d %s +%s +%s %s %s\n" % (st.st_ino, blk, re.escape(stat.filemode(st.st_mode).encode()), st.st_nlink,
                      re.escape(getname(pwd, st.st_uid)), re.escape(getname(grp, st.st_gid)), size, tr, tail))

def fake(rng, files):
    B32 = [0, 1, 9, 10, 255, 65535, 1 << 31, (1 << 32) - 2]
    B64 = B32 + [(1 << 40) + 1, (1 << 62) + 7, (1 << 63) - 1]
    SECS = [0, -1, 1, -NS, 10**10, -62135596800, -62167219200, 253402300799, 253402300800, 67767976233532799 - 10**6, -67768040609740800 + 10**6, 951782400, 4102444800]
    for f in rng.sample(files, min(len(files), rng.choice([1, 3, 10]))):
        o = {}
        for k in rng.sample(["st_ino", "st_nlink", "st_uid", "st_gid", "st_blocks", "st_size", "st_mode", "st_rdev", "st_atime_ns", "st_mtime_ns", "st_ctime_ns", "st_birthtime_ns"], rng.choice([1, 3, 6])):
            if k == "st_ino" and f.type == "d": continue
            if k in ("st_nlink", "st_uid", "st_gid"): o[k] = rng.choice(B32 + [0, 1, 2, 4])
            elif k == "st_ino": o[k] = rng.choice(B64)
            elif k in ("st_size", "st_blocks"):
                if f.type != "l": o[k] = rng.choice(B64[:-1] if k == "st_size" else B32)
            elif k == "st_rdev": o[k] = os.makedev(rng.choice([0, 1, 8, 255, 259, 4095]), rng.choice([0, 1, 15, 255, 256, 65536]))
            elif k == "st_mode":
                ty = stat.S_IFMT(f.lst.st_mode)
                if f.type == "f" and rng.random() < .6: ty = rng.choice([stat.S_IFBLK, stat.S_IFCHR])
                o[k] = ty | rng.choice([0o7777, 0o4644, 0o2644, 0o1644, 0o6755, 0o1777, 0, rng.randrange(0o10000)])
            else: o[k] = rng.choice(SECS) * NS + rng.choice([0, 1, 5 * 10**8, NS - 1, 120, 123456789])
        if o: FAKE[f.lst.st_ino] = o

def case(c):
    FAKE.clear()
    try: case1(c)
    finally: FAKE.clear(); setzone("UTC0")

ROOTS = [b"/", b"/etc", b"/usr/bin", b".", b"..", b"t/.", b"t/..", b"/.", b"/..", b"//etc", b"/usr//bin", b"./t", b"../%s/t", b"./.", b"t//."]
def rootforms(c, rng):
    """Directives that take the path of a starting point apart, for all kinds of starting points."""
    roots = [r.replace(b"%s", os.path.basename(c.dir).encode()) for r in rng.sample(ROOTS, 6)]
    fmt = rng.sample("phfPHdy", 5)
    r = c.bfs(["-s"] + roots + ["-maxdepth", "0", "-printf", "".join("%" + x + "\\0" for x in fmt)], cwd=c.dir)
    got = split0(r.out)
    for i, root in enumerate(sorted(roots)):
        f = F(root, 0, root, False)
        rec = dict(zip(fmt, got[i * len(fmt):]))
        want = {x: b"/" if root == b"/" and x in "hf" else b"d" if x == "y" else b"0" if x == "d" else value(f, x)[1] for x in fmt}
        if f.type == "l": continue
        if rec != want: raise Violation("roots", "%r for starting point %r, expected %r: %s" % (rec, root, want, shq(r.argv)))
        c.count("starting points taken apart"); c.seen(root, tuple(fmt))
    if r.rc or r.err or len(got) != len(fmt) * len(roots): raise Violation("roots", "rc=%d %r %d fields: %s" % (r.rc, r.err[:300], len(got), shq(r.argv)))

    # and their children
    root, name = rng.choice([(b"/", b"etc"), (b"//", b"etc"), (b"/usr/", b"share"), (b"/usr//", b"share"), (b"/usr", b"share"), (b"/.", b"etc"), (b".", b"t"), (b"./", b"t"), (b".//", b"t"), (b"t/..", b"t"), (b"t/../", b"t"), (b"../", os.path.basename(c.dir).encode())])
    r = c.bfs([root, "-mindepth", "1", "-maxdepth", "1", "-name", name, "-printf", "".join("%" + x + "\\0" for x in fmt)], cwd=c.dir)
    f = F(root + (b"" if root.endswith(b"/") else b"/") + name, 1, root, False)
    want = [b"d" if x == "y" else b"1" if x == "d" else value(f, x)[1] for x in fmt]
    if f.type == "d" and split0(r.out) != want: raise Violation("roots", "%r instead of %r: %s" % (split0(r.out), want, shq(r.argv)))

def case1(c):
    rng = c.rng
    set_locale("C.UTF-8" if rng.random() < .8 else "C")
    zone = rng.choice(ZONES); setzone(zone)
    mktree(c, rng.choice([3, 8, 20, 40]), meta=True)
    os.chdir(c.dir)
    for d, ds, fs in os.walk(b"t"):
        for n in fs:
            if rng.random() < .6: T.settimes(rng, d + b"/" + n, rng.choice([0, 10**9, time.time(), time.time(), 1.7e9, 2**31]), rng.choice([1, 86400, 10**7, 10**8]))
    for i, tgt in enumerate(rng.sample([b"nowhere", b"loop", b".", b"/dev/null", b"t", b"ln0", b"a" * 300, b"x/" * 100], 3)):
        try: os.symlink(tgt, b"t/ln%d" % i)
        except OSError: pass
    if rng.random() < .3: os.symlink(b"loop", b"t/loop")
    if rng.random() < .3: rootforms(c, rng)
    T.freeze_atime(b"t")
    for d, ds, fs in os.walk(b"t"):
        for n in ds + fs:
            if os.path.islink(d + b"/" + n): T.freeze_atime(d + b"/" + n)
    for _ in range(3):
        FAKE.clear()
        root = rng.choice([b"t", b"t", b"t", b"t/", b"./t", b".", c.dir.encode() + b"/t", b"t/../t", b"t//"])
        follow = rng.choice("PPPHL")
        env = {"TZ": zone}
        base = walk([b"t"], "P")[0]
        if rng.random() < .4:
            fake(rng, base)
        roots = [root] if root != b"." else [b"./t"]
        if root == b".":
            # search "." itself from inside the tree
            os.chdir(c.dir + "/t"); roots = [b"."]
        try:
            files, errs = walk(roots, follow)
            if errs or any(f.err for f in files) : follow = "P"; files, errs = walk(roots, follow)
            nobt = any(btime(f.path, f.st is not f.lst) is None for f in files)
            trailing = root.endswith(b"/")
            posix = rng.random() < .15
            if FAKE: env.update(LD_PRELOAD=c.env.data["shim"], VP_NOURING="1", VP_FAKESTAT=fakeenv(), VP_DTUNK="1"); c.count("runs with substituted metadata")
            if rng.random() < .15: env.update(old(rng)); env["LD_PRELOAD"] = c.env.data["shim"]
            if posix: env["POSIXLY_CORRECT"] = "1"
            acts, toks = [], [b"-fprintf", c.dir.encode() + b"/o/master", b"%p\\0"]
            for _ in range(rng.choice([1, 1, 2, 4])):
                if rng.random() < .2:
                    acts.append(("ls", None)); toks += [b"-ls"]
                else:
                    fmt = gen_format(rng, trailing, nobt)
                    acts.append(("printf", fmt)); toks += [b"-printf", b"".join(t for t, _ in fmt)]
            if not os.path.isdir(c.dir + "/o"): os.mkdir(c.dir + "/o"); os.chmod(c.dir + "/o", 0o777)
            tofile = rng.random() < .2
            if tofile:
                t2 = []
                for x in toks: t2 += [b"-f" + x[1:], b"%s/o/out" % c.dir.encode()] if x in (b"-printf", b"-ls") else [x]
                toks = t2
                if os.path.exists(c.dir + "/o/out"): os.unlink(c.dir + "/o/out")
            flags = {"P": [], "H": ["-H"], "L": ["-L"]}[follow] + rng.choice([[], ["-j1"], ["-S", "dfs"], ["-S", "ids"], ["-s"], ["-d"]])
            now = time.time()
            if any(k == "ls" for k, _ in acts) and rng.random() < .5:
                # a clock some time after one of the files
                now = rng.choice(files).st.st_mtime_ns // NS + rng.choice([0, -86400, 180 * 86400, 31556952 // 2, 183 * 86400]) + rng.choice([-7200, -120, 120, 7200, -86400, 86400, 3 * 86400])
                if 0 < now < 1 << 33: env.update(LD_PRELOAD=c.env.data["shim"], VP_NOW="%d.0" % now); c.count("-ls with the clock near a boundary")
                else: now = time.time()
            r = c.bfs(flags + roots + toks, env=env, cwd=os.getcwd())
            what = shq(r.argv) + " %r" % {k: v for k, v in env.items() if k != "LD_PRELOAD"}
            bad = [f.path for f in files if xtarget(f) == "?"] if any(isinstance(p, tuple) and p[0] == "Y" for k, fmt in acts if fmt for p in effective(fmt)) else []
            if bad:
                # a target that cannot be examined is an error
                if r.rc != 1 or r.err.count(b": error: ") < 1: raise Violation("status", "failure of %%Y for %r not reported (rc=%d, stderr=%r): %s" % (bad[:3], r.rc, r.err[:500], what))
            elif r.rc or r.err: raise Violation("status", "unexpected failure (rc=%d, stderr=%r): %s" % (r.rc, r.err[:500], what))
            out = r.out
            if tofile:
                if out: raise Violation("stdout", "unexpected output %r: %s" % (out[:200], what))
                with open(c.dir + "/o/out", "rb") as fp: out = fp.read()
            with open(c.dir + "/o/master", "rb") as fp: order = split0(fp.read())
            by = {f.path: f for f in files}
            diff_multiset(list(by), order, r.argv, "visited")
            pos = 0
            for p in order:
                f = by[p]
                for kind, fmt in acts:
                    if kind == "ls":
                        rx = ls_regex(f, now, posix)
                        m = rx.match(out, pos)
                        if not m: raise Violation("ls", "-ls for %r: expected %r, got %r: %s" % (p, rx.pattern, out[pos:pos + 300], what))
                        pos = m.end(); c.count("-ls lines"); c.seen("ls", f.type, stat.S_IMODE(f.st.st_mode), posix)
                        continue
                    want = expand(f, fmt)
                    if out[pos:pos + len(want)] != want:
                        for text, piece in fmt:
                            one = expand(f, [(text, piece)])
                            if out[pos:pos + len(one)] != one:
                                raise Violation("printf", "%r for %r: expected %r, got %r... %s" % (text, p, one[:200], out[pos:pos + len(one) + 40], what))
                            pos += len(one)
                        raise Violation("printf", "%r for %r: %s" % (fmt, p, what))
                    pos += len(want)
                    for text, piece in fmt:
                        if isinstance(piece, tuple): c.count("directives"); c.seen(text, f.type)
            if pos != len(out): raise Violation("extra", "%d bytes of extra output %r: %s" % (len(out) - pos, out[pos:pos + 200], what))
            c.count("bytes compared", pos)
            c.sample(what[:300])
        finally: os.chdir(c.dir)
