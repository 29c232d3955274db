from trav import *
import ctypes, re, time
PROP, LEVEL = "C08", "exploration"
CASES = {"quick": 1500, "thorough": 10000}
RULE = ("Files with timestamps placed at, just before and just after (1 ns, 1 s) the boundaries of each test, a fake clock, random time zones incl. DST changes, "
        "-daystart, all -newerXY/-Xnewer/-Xsince/-Xtime/-Xmin/-used forms and every accepted or corrupted timestamp syntax; matched sets compared with exact "
        "integer arithmetic. Distinct non-trivial: distinct test whose boundary separates the files.")
NS = 10**9
ZONES = ["UTC0", "America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "America/St_Johns", "Asia/Kathmandu", "EST5EDT",
         "XYZ-13:45", "ABC+11:30", "<+0330>-3:30", "America/Sao_Paulo", "Africa/Casablanca"]

class Tsx(ctypes.Structure):
    _fields_ = [("raw", ctypes.c_uint8 * 256)]
libc.statx.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_uint, ctypes.c_void_p]
def btime(path, follow):
    b = Tsx()
    if libc.statx(-100, path, 0 if follow else 0x100, 0xfff, ctypes.byref(b)) != 0: return None
    raw = bytes(b.raw)
    mask = int.from_bytes(raw[0:4], "little")
    if not mask & 0x800: return None
    off = 80     # stx_btime
    return int.from_bytes(raw[off:off + 8], "little", signed=True) * NS + int.from_bytes(raw[off + 8:off + 12], "little")

A = {"a": "st_atime_ns", "c": "st_ctime_ns", "m": "st_mtime_ns"}

def tget(f, x):
    if x == "B" and "st_birthtime_ns" in getattr(f.st, "__dict__", {}): return f.st.st_birthtime_ns
    return btime(f.path, f.st is not f.lst) if x == "B" else getattr(f.st, A[x])

def tgo(f, x):
    t = tget(f, x)
    return -1 << 99 if t is None else t

def setzone(z):
    os.environ["TZ"] = z
    time.tzset()

def off(t):
    return time.localtime(t).tm_gmtoff

def local_instant(Y, M, D, h, m, s):
    """Unix time of a local time, or None near a change of UTC offset."""
    try:
        t = int(time.mktime((Y, M, D, h, m, s, 0, 0, -1)))
        if len({off(t + d) for d in (-90000, -7200, 0, 7200, 90000)}) != 1: return None
        return t
    except (OverflowError, ValueError):
        return None

def days(y, m, d):
    # days from civil
    m -= 1; y += m // 12; m = m % 12 + 1
    y -= m <= 2
    era = y // 400; yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468 + d - 1

def gen_stamp(rng, near):
    """(text, expected unix time or None when it cannot be decided)."""
    if rng.random() < .2:
        t = near + rng.choice([0, 1, -1, rng.randrange(-10**6, 10**6)])
        if rng.random() < .1: t = -t
        return "@%s%d" % ("+" if t >= 0 and rng.random() < .1 else "", t), t
    z = rng.choice(["local", "Z", "off", "off"])
    o = 0
    if z == "off":
        oh, om = rng.randrange(0, 15), rng.choice([0, 0, 30, 45, rng.randrange(60)])
        neg = rng.random() < .5
    b = time.gmtime(near + rng.randrange(-10**5, 10**5)) if rng.random() < .8 else time.gmtime(rng.randrange(0, 4 * 10**9))
    Y, M, D, h, m, s = b[:6]
    if rng.random() < .05: Y = rng.choice([1, 999, 1600, 1900, 1904, 2000, 2100, 2400, 9999])
    if rng.random() < .15: M, D = rng.choice([(2, 29), (2, 28), (3, 1), (12, 31), (1, 1)])
    if rng.random() < .07: M = rng.choice([0, 13, 99])
    if rng.random() < .07: D = rng.choice([0, 31, 32, 99])
    if rng.random() < .07: h, m, s = rng.choice([(24, 0, 0), (23, 59, 60), (99, 99, 99), (0, 0, 0)])
    prec = rng.choice(["day", "hour", "min", "sec", "sec", "sec"])
    if z != "local" and prec == "day": prec = "min"
    ds = rng.choice(["-", "-", "-", ""])
    text = "%04d%s%02d%s%02d" % (Y, ds, M, ds if rng.random() < .95 else "-", D)
    if prec == "day": h = m = s = 0
    else:
        text += rng.choice("TT  ") if rng.random() < .9 else ""
        cs = rng.choice([":", ":", ""])
        text += "%02d" % h
        if prec == "hour": m = s = 0
        else:
            text += cs + "%02d" % m
            if prec == "min": s = 0
            else: text += cs + "%02d" % s
    if z == "Z": text += "Z"
    if z == "off":
        text += "-" if neg else "+"
        text += "%02d" % oh
        if om or rng.random() < .7: text += rng.choice([":", ""]) + "%02d" % om
        o = (oh * 3600 + om * 60) * (-1 if neg else 1)
    if z == "local":
        if Y < 1000: return text, None
        return text, local_instant(Y, M, D, h, m, s)
    return text, days(Y, M, D) * 86400 + h * 3600 + m * 60 + s - o

GRAMMAR = re.compile(r"(@[+-]?\d+|\d{4}-?\d\d-?\d\d(|[T ]?\d\d(|([+-]\d\d(:?\d\d)?|Z)|:?\d\d(|([+-]\d\d(:?\d\d)?|Z)|:?\d\d(|([+-]\d\d(:?\d\d)?|Z))))))\Z")

def corrupt(rng, text):
    k = rng.randrange(4)
    i = rng.randrange(len(text) + 1)
    if k == 0: return text[:i] + rng.choice("x:-/ .ZT+0") + text[i:]
    if k == 1 and text: return text[:i] + text[i + 1:]
    if k == 2: return text + rng.choice(["Z", " ", ".5", "x", "+", ":", "0"])
    return rng.choice(["", "@", "now", "today", "2020", "2020-1-1", "1 day ago", "@1.5", "@0x1f", "@ 1", "99999999999999999999", "@99999999999999999999"])

def case(c):
    FAKE.clear()
    try: case1(c)
    finally: FAKE.clear()

def case1(c):
    rng = c.rng
    os.chdir(c.dir)
    os.mkdir(b"t")
    zone = rng.choice(ZONES)
    setzone(zone)
    base = rng.choice([1700000000, 1600000000, 951782400, 86400 * 3, int(time.time()) - 50000, 1762146000, 1741503600, 1699163400, 1711846800, 1762057800 + rng.randrange(-90000, 90000)])
    now = base * NS + rng.choice([0, 1, 500000000, 999999999])
    day = 86400
    marks = [now, now - day * NS, now - 2 * day * NS, now - 3600 * NS, now - 60 * NS, now + 60 * NS, now + day * NS, now - 7 * day * NS, base * NS]
    # the coming midnight
    lt = time.localtime(base)
    bump = 1 if (lt.tm_hour or lt.tm_min or lt.tm_sec or now % NS) else 0
    mid = int(time.mktime((lt.tm_year, lt.tm_mon, lt.tm_mday + bump, 0, 0, 0, 0, 0, -1)))
    midok = time.localtime(mid).tm_hour == 0 and all(off(mid + d) == off(mid) for d in (-3700, 3700, -7200, 7200))
    marks += [mid * NS, (mid - day) * NS, (mid - 2 * day) * NS]
    n = rng.choice([8, 16, 30])
    for i in range(n):
        p = b"t/f%d" % i
        if rng.random() < .1 and i: os.symlink(b"f0", p)
        else: open(p, "w").close()
        def pick():
            m = rng.choice(marks) + rng.choice([0, 0, 1, -1, NS, -NS, NS - 1, 1 - NS, 60 * NS, -60 * NS, rng.randrange(-10 * day * NS, 10 * day * NS)])
            return m
        at, mt = pick(), pick()
        os.utime(p, ns=(at, mt), follow_symlinks=False)
        if os.path.islink(p): T.freeze_atime(p)
    if rng.random() < .3:
        for i, e in enumerate([-(1 << 31), (1 << 31), -(1 << 31) - 5, (1 << 33) + 1, 0, -1]):
            p = b"t/x%d" % i; open(p, "w").close()
            try: os.utime(p, ns=(e * NS + rng.choice([0, 1]), e * NS + rng.choice([0, 999999999])))
            except OSError: pass
    follow = rng.choice("PPPL")
    if rng.random() < .6:
        # change and birth times cannot be set: substitute them in what statx() returns
        for f in walk([b"t"], "P")[0]:
            o = {}
            if rng.random() < .6: o["st_ctime_ns"] = rng.choice([f.lst.st_atime_ns - rng.choice([0, 1, 1, 2, 3]) * day * NS, rng.choice(marks)]) + rng.choice([0, 0, 1, -1, NS, -NS, NS - 1, 1 - NS])
            if rng.random() < .3: o["st_birthtime_ns"] = rng.choice(marks) + rng.choice([0, 0, 1, -1, NS, -NS, NS - 1, 1 - NS])
            o = {k: v for k, v in o.items() if v >= 0}
            if o: FAKE[f.lst.st_ino] = o
        c.count("cases with substituted change and birth times")
    for _ in range(4):
        run_batch(c, rng, zone, now, mid if midok else None, follow)
    for _ in range(2):
        syntax(c, rng, zone, base)

def run_batch(c, rng, zone, now, mid, follow):
    files = [f for f in walk([b"t"], follow)[0] if f.type != "d"]
    batch, toks = [], []
    daystart = mid is not None and rng.random() < .3
    ref = mid * NS if daystart else now
    xs = "aBcm"
    for _ in range(rng.choice([1, 4, 10, 25])):
        x = rng.choice("aaccmmB")
        r = rng.random()
        if r < .35:
            s = rng.choice(["", "+", "-"])
            f0 = rng.choice(files); t0 = tget(f0, x)
            if t0 is None: continue
            d = abs((ref - t0) // NS)
            kind = rng.choice(["time", "min", "unit"])
            if kind == "unit":
                n = max(0, d + rng.choice([-1, 0, 0, 0, 1]))
                q, arg = n, ""
                for u, k in rng.choice([[("w", 604800), ("d", 86400), ("h", 3600), ("m", 60), ("s", 1)], [("h", 3600), ("s", 1)], [("m", 60), ("s", 1)], [("s", 1)]]):
                    if u == "s" or q // k and rng.random() < .8:
                        arg += "%d%s" % (q // k, u); q %= k
                un = 1
                opt = "time"
            else:
                un = 86400 if kind == "time" else 60
                n = max(0, d // un + rng.choice([-1, 0, 0, 0, 1])); arg = str(n); opt = kind
            def fn(f, x=x, un=un, n=n, s=s):
                t = tget(f, x)
                if t is None: return False
                d = (ref - t) // NS
                q = abs(d) // un * (1 if d >= 0 else -1)
                return cmp(s, q, n)
            t = Test(["-%s%s" % (x, opt), s + arg], fn)
        elif r < .45:
            s = rng.choice(["", "+", "-"]); f0 = rng.choice(files)
            d = (f0.st.st_atime_ns - f0.st.st_ctime_ns) // NS
            n = max(0, -(-d // 86400) + rng.choice([-1, 0, 0, 1])) if d > 0 else rng.randrange(0, 3)
            def fn(f, s=s, n=n):
                d = (f.st.st_atime_ns - f.st.st_ctime_ns) // NS
                return d >= 0 and cmp(s, -(-d // 86400), n)
            t = Test(["-used", "%s%d" % (s, n)], fn)
        elif r < .75:
            rf = rng.choice(files)
            rs = F(rf.path, 0, rf.path, follow in "HL")
            y = rng.choice("mmacB")
            k = rng.random()
            if k < .2: opt, x, y = "-newer", "m", "m"
            elif k < .45:
                x = rng.choice(xs); y = "m"; opt = "-%snewer" % x
            else: opt = "-newer" + x + y
            rt = tget(rs, y)
            if rt is None: continue
            t = Test([opt, rf.path], lambda f, x=x, rt=rt: tgo(f, x) > rt)
        else:
            f0 = rng.choice(files)
            ts = (f0.st.st_mtime_ns // NS)
            text, inst = gen_stamp(rng, ts)
            if inst is None: continue
            if rng.random() < .5: text, inst = gen_stamp_at(rng, ts)
            if inst is None: continue
            opt = rng.choice(["-newer%st" % x, "-%ssince" % x] + (["-since"] if x == "m" else []))
            t = Test([opt, text], lambda f, x=x, inst=inst: tgo(f, x) > inst * NS)
        batch.append(t)
    if not batch: return
    for i, t in enumerate(batch):
        if i: toks.append(b",")
        toks += t.tokens(rng) + [b"-printf", b"%d:%%p\\0" % i]
    toks = [b"-mindepth", b"1"] + ([b"-daystart"] if daystart else []) + ([b"-daystart"] if daystart and rng.random() < .2 else []) + toks
    env = {"TZ": zone, "LD_PRELOAD": c.env.data["shim"], "VP_NOW": "%d.%09d" % (now // NS, now % NS)}
    if rng.random() < .5: env["VP_NOURING"] = "1"
    if FAKE: env.update(VP_NOURING="1", VP_FAKESTAT=fakeenv())
    if rng.random() < .2: env.update(old(rng))
    r = c.bfs(["-" + follow, "-j%d" % rng.choice([1, 4]), "-O%d" % rng.randrange(4), "t"] + toks, env=env)
    if r.rc != 0 or r.err:
        raise Violation("status", "unexpected failure (rc=%d, stderr=%r): %s TZ=%s" % (r.rc, r.err[:500], shq(r.argv), zone))
    got = [set() for _ in batch]
    for rec in split0(r.out):
        i, p = rec.split(b":", 1)
        got[int(i)].add(p)
    for i, t in enumerate(batch):
        want = {f.path for f in files if t.ev(f, None)}
        if want != got[i]:
            ex = sorted(want ^ got[i])[0]
            raise Violation("time", "%s %s %r (mtime %d, atime %d, ctime %d; now %s, zone %s%s): %s" % (
                shq(t.toks), "does not match" if ex in want else "matches", ex, os.lstat(ex).st_mtime_ns, os.lstat(ex).st_atime_ns, os.lstat(ex).st_ctime_ns,
                env["VP_NOW"], zone, " -daystart" if daystart else "", shq(r.argv)))
        c.count("test " + t.toks[0].decode()); c.count("decisions", len(files))
        if 0 < len(want) < len(files): c.seen(t.toks, zone, now)
    c.sample("TZ=%s now=%s %s" % (zone, env["VP_NOW"], shq(r.argv[1:])[:250]))

def gen_stamp_at(rng, ts):
    """A textual form of exactly this instant (so +-1ns neighbours decide)."""
    k = rng.randrange(3)
    if k == 0: return "@%d" % ts, ts
    if k == 1:
        b = time.localtime(ts)
        if b.tm_year < 1000 or b.tm_year > 9999: return "@%d" % ts, ts
        return time.strftime("%Y-%m-%dT%H:%M:%S", b), local_instant(*b[:6])
    o = rng.choice([0, 3600, -5 * 3600 - 1800, 14 * 3600])
    b = time.gmtime(ts + o)
    if b.tm_year < 1000 or b.tm_year > 9999: return "@%d" % ts, ts
    return time.strftime("%Y-%m-%d %H:%M:%S", b) + "%s%02d:%02d" % ("-" if o < 0 else "+", abs(o) // 3600, abs(o) % 3600 // 60), ts

def syntax(c, rng, zone, base):
    text, _ = gen_stamp(rng, base)
    if rng.random() < .8: text = corrupt(rng, text)
    ok = bool(GRAMMAR.match(text)) and not (text.startswith("@") and not -(1 << 63) <= int(text[1:]) < (1 << 63))
    if ok and not text.startswith("@") and int(text[:4]) < 1000: return
    r = c.bfs(["t", "-maxdepth", "0", rng.choice(["-newermt", "-since", "-newerat"]), text], env={"TZ": zone})
    if ok != (r.rc == 0):
        raise Violation("syntax", "timestamp %r %s: rc=%d %r" % (text, "rejected" if ok else "accepted", r.rc, r.err[:300]))
    if not ok and r.out: raise Violation("syntax", "output despite invalid timestamp %r" % text)
    c.count("syntax " + ("valid" if ok else "invalid"))
