"""C30: interruption and closed pipes stop bfs cleanly."""
from trav import *
import trav, vlib, pty, termios, fcntl, struct, select, signal as SG, threading, time, tty, ctypes, locale
PROP, LEVEL = "C30", "exploration"
CASES = {"quick": 700, "thorough": 15000}
RULE = ("each distinct (kind of run, signal, system call or instant of delivery, configuration, how far the search had got) counts once")
TECHNIQUE = ("runtime monitoring: signals raised at chosen system calls in any thread (preloaded monitor), sent from outside at random instants, and readers that go away; an oracle checks the wait status, "
             "that what was written is a prefix of the undisturbed output, and a terminal emulator replays the recorded terminal byte stream of runs with the status line")
ASSUMPTIONS = ["Output still in stdio's buffer when a signal kills bfs is lost, as with any program; only what reached the file is judged."]
VARIANTS = ("plain", "nouring", "asan")
FATAL = [SG.SIGINT, SG.SIGTERM, SG.SIGHUP, SG.SIGQUIT, SG.SIGUSR2, SG.SIGPIPE, SG.SIGALRM, SG.SIGXCPU, SG.SIGVTALRM, SG.SIGPROF, SG.SIGIO, SG.SIGSYS, SG.SIGABRT]
OPS = ["open", "opendir", "stat", "getdents", "close", "write", "thread", "uring", "submit", "spawn", "wait", "access", "mnt", "read"]

def setup(env):
    trav.setup(env)

def build(c, rng):
    os.chdir(c.dir)
    os.mkdir(b"t")
    n = rng.choice([20, 60, 200])
    dirs = [b"t"]
    for i in range(n):
        p = rng.choice(dirs[-6:] if rng.random() < .5 else dirs) + b"/" + rng.choice([b"f", b"longer_name_", b"x" * 60]) + b"%d" % i
        if rng.random() < .4: os.mkdir(p); dirs.append(p)
        else: open(p, "w").close()
    if rng.random() < .3:
        for i in range(300): open(b"t/many%d" % i, "w").close()
    return n

class Plan:
    """A search with a known output."""
    def __init__(self, c, rng, sort=None, noexec=False):
        self.cfg = Cfg(c, rng, perturb=False, low=False, sort=sort)
        self.kind = rng.choice(["print", "print", "print0", "stat", "exec", "fprint"] if not noexec else ["print", "print0", "stat"])
        self.sep = b"\n"
        e = {"print": ["-print"], "print0": ["-print0"], "stat": ["-newer", "/", "-o", "-print"], "exec": ["-name", "*1", "-exec", "/bin/true", ";", "-print", "-o", "-print"],
             "fprint": ["-fprint0", "OUT"]}[self.kind]
        if self.kind in ("print0", "fprint"): self.sep = b"\0"
        if self.kind == "stat": e = ["(", "-size", "+0", "-o", "-size", "0", ")", "-print"]
        od = c.dir + "/out"
        if not os.path.exists(od): os.mkdir(od); os.chown(od, UID, GID)
        self.out = od + "/txt"
        self.argv = self.cfg.flags + [b"t"] + self.cfg.globals + [self.out if x == "OUT" else x for x in e]
        self.env = {}
    def output(self, r):
        if self.kind != "fprint": return r.out
        try:
            with open(self.out, "rb") as f: return f.read()
        except FileNotFoundError: return b""

def defaults():
    """Every signal at its default, whatever we inherited."""
    for n in range(1, 65):
        if n not in (SG.SIGKILL, SG.SIGSTOP, 32, 33):
            try: SG.signal(n, SG.SIG_DFL)
            except OSError: pass
    SG.pthread_sigmask(SG.SIG_SETMASK, [])

def check_prefix(c, plan, full, out, what):
    """out must be the beginning of what an undisturbed run writes."""
    o = out
    if plan.cfg.sort:
        if not full.startswith(o):
            i = next((i for i, (a, b) in enumerate(zip(o, full)) if a != b), min(len(o), len(full)))
            raise Violation("prefix", "what was written is not a prefix of the undisturbed output: at %d %r instead of %r: %s" % (i, o[max(0, i - 20):i + 40], full[max(0, i - 20):i + 40], what))
        return
    want = collections.Counter(full.split(plan.sep))
    parts = o.split(plan.sep)
    last = parts.pop()
    for p, n in collections.Counter(parts).items():
        if n > want.get(p, 0): raise Violation("prefix", "record %r was not part of the undisturbed output: %s" % (p[:80], what))
    if last and not any(w.startswith(last) for w in want):
        raise Violation("prefix", "record %r is not the beginning of any: %s" % (last[:80], what))

def full_output(c, plan, env=None):
    r = c.bfs(plan.argv, env=dict(plan.env, **(env or {})), **plan.cfg.kw)
    if r.rc or r.err: raise Violation("baseline", "undisturbed run failed: rc=%d %r %s" % (r.rc, r.err[:300], shq(r.argv)))
    return plan.output(r), r

def signame(s): return SG.Signals(s).name

def fatal_at_call(c, rng):
    plan = Plan(c, rng)
    log = S.newlog(c.dir + "/log", 1 << 20)
    base = {"LD_PRELOAD": c.env.data["shim"], "VP_LOG": log}
    if rng.random() < .5: base["VP_NOURING"] = "1"
    full, _ = full_output(c, plan, base)
    counts = {e[1]: int(e[2]) for e in S.readlog(log) if e[0] == "C" and e[1] in OPS}
    for _ in range(5):
        op = rng.choice(sorted(counts))
        nth = rng.randrange(counts[op])
        sig = rng.choice(FATAL)
        toproc = rng.random() < .4
        if os.path.exists(plan.out): os.unlink(plan.out)
        S.newlog(log, 1 << 20)
        env = dict(base, VP_SIG="%s:%d:%d" % (op, nth, int(sig) + 1000 * toproc))
        if rng.random() < .3: env["VP_DELAY"] = "%d:100:200" % rng.randrange(1, 1 << 30)
        r = c.bfs(plan.argv, env=dict(plan.env, **env), crash_ok=True, preexec=defaults, **plan.cfg.kw)
        what = "%s at %s #%d (%s): %s" % (signame(sig), op, nth, "process" if toproc else "thread", shq(r.argv))
        hit = any(e[0] == "S" for e in S.readlog(log))
        out = plan.output(r)
        if hit and r.rc != -sig:
            raise Violation("status", "bfs got %s; wait status %d; stderr=%r" % (what, r.rc, r.err[:300]), env=str(env))
        if not hit and r.rc != 0: raise Violation("status", "no signal was sent but rc=%d stderr=%r: %s" % (r.rc, r.err[:300], what))
        check_prefix(c, plan, full, out, what)
        if not hit and plan.cfg.sort and out != full: raise Violation("prefix", "output incomplete without a signal: %s" % what)
        if r.err: raise Violation("stderr", "diagnostics %r: %s" % (r.err[:200], what))
        c.count("signals that hit", hit); c.count("fatal %s" % signame(sig), hit)
        c.seen(("call", plan.kind, op, min(nth, 40), int(sig), toproc, plan.cfg.key()))
    c.sample({"argv": shq(r.argv), "signal": what[:60], "written": len(out), "of": len(full)})

def fatal_external(c, rng):
    plan = Plan(c, rng)
    full, _ = full_output(c, plan)
    for _ in range(3):
        sig = rng.choice(FATAL)
        if os.path.exists(plan.out): os.unlink(plan.out)
        env = dict(plan.env)
        if rng.random() < .7: env.update({"LD_PRELOAD": c.env.data["shim"], "VP_DELAY": "%d:300:%d" % (rng.randrange(1, 1 << 30), rng.choice([100, 500]))})
        variant = "plain" if "LD_PRELOAD" in env else rng.choice(["plain", "nouring", "asan"])
        if variant == "asan" and sig in (SG.SIGABRT, SG.SIGSYS): sig = SG.SIGTERM
        delay = rng.random() * rng.choice([.002, .01, .05])
        argv = ["/usr/bin/env", c.env.bins[variant]] + plan.argv
        p = spawn(c, argv[1:], env)
        time.sleep(delay)
        try: os.kill(p.pid, sig)
        except ProcessLookupError: pass
        out, err = reap(c, p, argv)
        class R: pass
        r = R(); r.out, r.err, r.rc = out, err, p.returncode
        what = "%s after %.4f s: %s" % (signame(sig), delay, shq(argv))
        if r.rc not in (-sig, 0): raise Violation("status", "wait status %d: %s stderr=%r" % (r.rc, what, err[:300]))
        out = plan.output(r)
        check_prefix(c, plan, full, out, what)
        if r.rc == 0 and plan.cfg.sort and out != full: raise Violation("prefix", "exit status 0 but the output is incomplete: %s" % what)
        c.count("killed from outside", r.rc != 0)
        c.seen(("ext", plan.kind, int(sig), variant, plan.cfg.key(), len(out) * 8 // max(1, len(full))))

def spawn(c, argv, env, stdout=subprocess.PIPE, ign=(), user=True, stderr=subprocess.PIPE, pre2=None):
    e = dict(vlib.BASE_ENV); e.update(env)
    def pre():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        defaults()
        for s in ign: SG.signal(s, SG.SIG_IGN)
        if pre2: pre2()
        if user:
            os.setgroups([]); os.setresgid(GID, GID, GID); os.setresuid(UID, UID, UID)
    c.evals += 1
    return subprocess.Popen(argv, cwd=c.dir, env=e, preexec_fn=pre, start_new_session=True, stdin=subprocess.DEVNULL, stdout=stdout, stderr=stderr, restore_signals=False)

def hang(c, p, argv):
    verdict, info = vlib._diagnose(p.pid)
    try: os.killpg(p.pid, SG.SIGKILL)
    except OSError: pass
    p.kill(); p.wait()
    if verdict in ("deadlock", "spin"): raise Violation("hang", "bfs did not stop (%s): %s" % (verdict, shq(argv)), threads=str(info))
    raise Inconclusive("watchdog: " + shq(argv))

def reap(c, p, argv):
    try: return p.communicate(timeout=40)
    except subprocess.TimeoutExpired: hang(c, p, argv)

def closed_pipe(c, rng):
    plan = Plan(c, rng)
    while plan.kind == "fprint": plan = Plan(c, rng)
    full, _ = full_output(c, plan)
    ign = rng.random() < .4
    for k in [0, 1, rng.randrange(len(full) + 1)]:
        env = dict(plan.env)
        if rng.random() < .3: env.update({"LD_PRELOAD": c.env.data["shim"], "VP_DELAY": "%d:200:200" % rng.randrange(1, 1 << 30)})
        rd, wr = os.pipe()
        fcntl.fcntl(wr, 1031, 4096)      # F_SETPIPE_SZ: a small pipe, so that the writer blocks
        argv = [c.env.bins["plain"]] + plan.argv
        p = spawn(c, argv, env, stdout=wr, ign=[SG.SIGPIPE] if ign else [])
        os.close(wr)
        got = b""
        while len(got) < k:
            d = os.read(rd, k - len(got))
            if not d: break
            got += d
        os.close(rd)
        _, err = reap(c, p, argv)
        what = "reader gone after %d of %d bytes%s: %s" % (k, len(full), ", SIGPIPE ignored" if ign else "", shq(argv))
        check_prefix(c, plan, full, got, what)
        # whatever fits the pipe is written before anybody notices
        must = len(full) - k > 4096 + 4096 or k == 0 and len(full) > 0 and False
        if ign:
            if p.returncode < 0: raise Violation("status", "killed by %d: %s" % (-p.returncode, what))
            if must and (p.returncode == 0 or not err): raise Violation("silent", "output was lost but rc=%d stderr=%r: %s" % (p.returncode, err[:200], what))
            if p.returncode and b"roken pipe" not in err: raise Violation("diagnostic", "rc=%d without naming the broken pipe: stderr=%r: %s" % (p.returncode, err[:300], what))
        else:
            if p.returncode not in (0, -SG.SIGPIPE): raise Violation("status", "wait status %d stderr=%r: %s" % (p.returncode, err[:300], what))
            if must and p.returncode == 0: raise Violation("silent", "output was lost but bfs reports success: %s" % what)
            if err: raise Violation("stderr", "diagnostics %r: %s" % (err[:300], what))
        c.count("readers gone"); c.count("writer noticed", p.returncode != 0)
        c.seen(("pipe", plan.kind, ign, plan.cfg.key(), k * 8 // max(1, len(full)), p.returncode))

def benign(c, rng):
    """Signals that do not kill change nothing, whenever they come."""
    plan = Plan(c, rng)
    log = S.newlog(c.dir + "/log", 1 << 20)
    base = {"LD_PRELOAD": c.env.data["shim"], "VP_LOG": log}
    if rng.random() < .5: base["VP_NOURING"] = "1"
    full, _ = full_output(c, plan, base)
    counts = {e[1]: int(e[2]) for e in S.readlog(log) if e[0] == "C" and e[1] in OPS}
    for rep in range(3):
        if os.path.exists(plan.out): os.unlink(plan.out)
        S.newlog(log, 1 << 20)
        ign, sigs = [], [SG.SIGWINCH, SG.SIGCONT, SG.SIGURG]
        if rng.random() < .7: ign = rng.sample([s for s in FATAL if s != SG.SIGABRT], rng.choice([1, 2, 3])); sigs = sigs + ign * 2
        if SG.SIGPIPE in ign and rng.random() < .5: ign.remove(SG.SIGPIPE); sigs = [s for s in sigs if s != SG.SIGPIPE]
        spec = ["%s:%d:%d" % (op, rng.randrange(counts[op]), int(rng.choice(sigs)) + 1000 * (rng.random() < .4)) for op in (rng.choice(sorted(counts)) for _ in range(rng.choice([1, 5, 20, 40])))]
        # SIGUSR1 shows or hides the status line once the search has begun; there is no terminal here
        # (and an ignored SIGALRM is among the recorded defects then)
        usr1 = rng.random() < .5 and counts.get("getdents", 0) > 3 and SG.SIGALRM not in ign
        if usr1: spec += ["getdents:%d:%d" % (rng.randrange(1, counts["getdents"]), int(SG.SIGUSR1) + 1000 * (rng.random() < .5)) for _ in range(rng.choice([1, 3, 8]))]
        rng.shuffle(spec)
        env = dict(plan.env, **dict(base, VP_SIG=",".join(spec[:60])))
        argv = [c.env.bins["plain"]] + plan.argv
        p = spawn(c, argv, env, ign=ign)
        out, err = reap(c, p, argv)
        class R: pass
        r = R(); r.out = out
        what = "ignored %r, signals %s: %s" % ([signame(s) for s in ign], spec[:20], shq(argv))
        o = plan.output(r)
        if usr1: err = re.sub(rb"[^\n]*(warning|Couldn't show status bar)[^\n]*\n\n?", b"", err)
        if p.returncode != 0 or err: raise Violation("disturbed", "rc=%d stderr=%r: %s" % (p.returncode, err[:300], what))
        same = o == full if plan.cfg.sort else sorted(o.split(plan.sep)) == sorted(full.split(plan.sep))
        if not same: raise Violation("disturbed", "output differs (%d bytes instead of %d): %s" % (len(o), len(full), what))
        c.count("harmless signals", sum(1 for e in S.readlog(log) if e[0] == "S"))
        c.seen(("benign", plan.kind, tuple(sorted(int(s) for s in ign)), len(spec), usr1, plan.cfg.key()))

def slow_reader(c, rng):
    """Signals while bfs is blocked writing to a full pipe, or waiting for a command, lose nothing."""
    for i in range(300): open(b"t/filler%s%d" % (b"x" * 60, i), "w").close()
    plan = Plan(c, rng)
    while plan.kind == "fprint": plan = Plan(c, rng)
    full, _ = full_output(c, plan)
    rd, wr = os.pipe()
    fcntl.fcntl(wr, 1031, 4096)
    argv = [c.env.bins[rng.choice(["plain", "nouring"])]] + plan.argv
    p = spawn(c, argv, dict(plan.env), stdout=wr)
    os.close(wr)
    got, sent, t0 = b"", 0, time.time()
    sigs = [SG.SIGUSR1] * 3 + [SG.SIGWINCH, SG.SIGURG, SG.SIGCONT, "stop"]
    order = []
    while True:
        if not select.select([rd], [], [], .5)[0]:
            if time.time() - t0 > 60: os.close(rd); hang(c, p, argv)
            continue
        d = os.read(rd, rng.choice([1, 100, 4096, 65536]))
        if not d: break
        got += d
        # once output has come the handler is there, and while this much of it is still missing the search is not over
        if sent < 12 and len(full) - len(got) > 16384 and rng.random() < .5:
            if rng.random() < .7: time.sleep(.003)
            s_ = rng.choice(sigs)
            for x in [SG.SIGSTOP, SG.SIGCONT] if s_ == "stop" else [s_]: os.kill(p.pid, x)
            if rng.random() < .5: time.sleep(.002)
            order.append(str(s_)); sent += 1
    os.close(rd)
    _, err = reap(c, p, argv)
    what = "%s while the reader was slow: %s" % (order, shq(argv))
    err = re.sub(rb"[^\n]*(warning|Couldn't show status bar)[^\n]*\n\n?", b"", err)
    if p.returncode or err: raise Violation("disturbed", "rc=%d stderr=%r: %s" % (p.returncode, err[:300], what))
    same = got == full if plan.cfg.sort else sorted(got.split(plan.sep)) == sorted(full.split(plan.sep))
    if not same: raise Violation("disturbed", "output differs (%d bytes instead of %d): %s" % (len(got), len(full), what))
    c.count("signals to a blocked writer", sent)
    c.seen(("slow", plan.kind, tuple(order), plan.cfg.key()))

# ---------------------------------------------------------------- terminals
libc = ctypes.CDLL(None)
class Term:
    """Enough of a VT100 to follow what bfs draws."""
    def __init__(self, h, w, pre):
        self.h, self.w = h, w
        self.rows = [[] for _ in range(h)]
        self.scrollback = []
        self.top, self.bot = 0, h - 1
        self.r = self.c = 0
        self.saved = (0, 0)
        self.rev = False
        self.wrapped = 0
        self.bars = 0
        for l in pre: self.feed(l + b"\n")
    def scroll(self):
        l = self.rows.pop(self.top)
        if self.top == 0: self.scrollback.append(l)
        self.rows.insert(self.bot, [])
    def ind(self):
        if self.r == self.bot: self.scroll()
        elif self.r < self.h - 1: self.r += 1
    def put(self, ch):
        if self.c >= self.w: self.wrapped += 1; self.ind(); self.c = 0
        row = self.rows[self.r]
        while len(row) <= self.c: row.append((" ", False))
        row[self.c] = (ch, self.rev); self.c += 1
    TOK = re.compile(rb"\x1b\[([?0-9;]*)([@-~])|\x1b([78DMEHc])|(\n)|(\r)|([\x20-\x7e]+)|([\xc2-\xf4][\x80-\xbf]+)|(.)", re.S)
    def feed(self, data):
        for m in self.TOK.finditer(data):
            arg, csi, esc, nl, cr, txt, wide, junk = m.groups()
            if csi:
                a = [int(x) if x.isdigit() else 0 for x in arg.lstrip(b"?").split(b";")]
                if csi == b"r":
                    top, bot = max(a[0], 1), (a[1] if len(a) > 1 and a[1] else self.h)
                    if top < bot <= self.h: self.top, self.bot = top - 1, bot - 1; self.r = self.c = 0
                elif csi == b"J" and a[0] == 0:
                    del self.rows[self.r][self.c:]
                    for i in range(self.r + 1, self.h): self.rows[i] = []
                elif csi == b"K" and a[0] == 0: del self.rows[self.r][self.c:]
                elif csi == b"A": self.r = max(self.r - max(a[0], 1), self.top if self.r >= self.top else 0)
                elif csi in b"fH": self.r, self.c = min(max(a[0], 1), self.h) - 1, min(max(a[1] if len(a) > 1 else 1, 1), self.w) - 1
                elif csi == b"m":
                    for x in a:
                        if x in (27, 0): self.rev = False
                        elif x == 7: self.rev = True; self.bars += 1
                elif csi == b"s": self.saved = (self.r, self.c)
                elif csi == b"u": self.r, self.c = self.saved
                else: raise Violation("terminal", "unexpected control sequence %r" % m.group(0))
            elif esc:
                if esc == b"7": self.saved = (self.r, self.c)
                elif esc == b"8": self.r, self.c = self.saved
                elif esc == b"D": self.ind()
                else: raise Violation("terminal", "unexpected control sequence %r" % m.group(0))
            elif nl: self.ind(); self.c = 0
            elif cr: self.c = 0
            elif txt:
                for b in txt: self.put(chr(b))
            elif wide:
                for ch in wide.decode("utf8", "replace"): self.put(ch)
            else: raise Violation("terminal", "raw byte %r on the terminal" % m.group(0))
    def text(self):
        out = ["".join(ch for ch, _ in l).rstrip() for l in self.scrollback + self.rows]
        while out and not out[-1]: out.pop()
        return out
    def reversed_cells(self):
        return sum(rev for l in self.scrollback + self.rows for _, rev in l)

def strip_bar(data):
    """Remove what is drawn between saving and restoring the cursor, and other control sequences."""
    texts = [m.group(1) for m in re.finditer(rb"\x1b7(.*?)\x1b8", data, re.S)]
    d = re.sub(rb"\x1b7.*?\x1b8", b"", data, flags=re.S)
    return re.sub(rb"\x1b\[[?0-9;]*[@-~]|\x1b[78DMEH]", b"", d), texts

def run_pty(c, rng, argv, env, h, w, out_tty, actions):
    """actions: [(delay, fn(pid, master))] run in order.  Returns (rc, terminal bytes, stdout bytes)."""
    m, s = os.openpty()
    tty.setraw(s)
    fcntl.ioctl(m, termios.TIOCSWINSZ, struct.pack("HHHH", h, w, 0, 0))
    os.fchmod(s, 0o666)
    def ctty(): fcntl.ioctl(s, termios.TIOCSCTTY, 0)
    opath = c.dir + "/pty.out"
    with open(opath, "wb") as o:
        # Popen runs setsid before preexec_fn
        p = spawn(c, argv, env, stdout=s if out_tty else o, stderr=s, pre2=ctty)
    os.close(s)
    data, t0, nexta = [], time.time(), time.time() + (actions[0][0] if actions else 0)
    i = 0
    while True:
        now = time.time()
        if now - t0 > 60: os.close(m); hang(c, p, argv)
        if i < len(actions) and now >= nexta:
            if p.poll() is None: actions[i][1](p.pid, m)
            i += 1
            if i < len(actions): nexta = time.time() + actions[i][0]
        to = max(0, min(nexta - time.time(), .05)) if i < len(actions) else .05
        r, _, _ = select.select([m], [], [], to)
        if r:
            try: d = os.read(m, 65536)
            except OSError: break
            if not d: break
            data.append(d)
        elif p.poll() is not None and not select.select([m], [], [], .02)[0]: break
    p.wait(); os.close(m)
    with open(opath, "rb") as o: return p.returncode, b"".join(data), o.read()

def on_terminal(c, rng):
    plan = Plan(c, rng, sort=True, noexec=True)
    while plan.kind == "print0": plan = Plan(c, rng, sort=True, noexec=True)
    full, _ = full_output(c, plan)
    h, w = rng.choice([1, 2, 3, 4, 5, 24, 24, 50, 200]), rng.choice([1, 2, 3, 10, 30, 80, 80, 200, 1000])
    out_tty = rng.random() < .6
    resize = rng.random() < .25
    if out_tty and not resize: w = 3000                     # no record is wider than the line
    status = rng.random() < .75
    env = {"LD_PRELOAD": c.env.data["shim"], "VP_DELAY": "%d:%d:%d" % (rng.randrange(1, 1 << 30), rng.choice([20, 100]), rng.choice([2000, 20000])), "TERM": "xterm"}
    if rng.random() < .5: env["VP_NOURING"] = "1"
    slow = rng.random() < .3
    argv = [c.env.bins["plain"]] + plan.cfg.flags + (["-status"] if status else []) + ["-nocolor", b"t"] + plan.cfg.globals
    if slow: argv += ["(", "-name", "*7", "-exec", "/bin/sleep", "0.15", ";", "-o", "-true", ")", "-print"]
    else: argv += ["-print"]
    actions = []
    kill = rng.random() < .35
    def usr1(pid, m): 
        try: os.kill(pid, SG.SIGUSR1)
        except OSError: pass
    def winch(pid, m):
        fcntl.ioctl(m, termios.TIOCSWINSZ, struct.pack("HHHH", rng.choice([1, 2, 3, 10, 24, 65535]), rng.choice([0, 1, 5, 80, 250]), 0, 0))
    # the first SIGUSR1 only once the handler is there: the status line has been drawn, or some time has passed
    t0 = .05
    nusr = rng.choice([0, 1, 2, 5]) if (status or slow) else 0
    # SIGUSR1 before or after the search kills, as it would any program: send it from inside the search
    if nusr:
        env["VP_SIG"] = ",".join("getdents:%d:%d" % (rng.randrange(2, 12), SG.SIGUSR1 + 1000 * (rng.random() < .5)) for _ in range(nusr))
        if rng.random() < .4: env["VP_SIG"] += ",getdents:%d:%d" % (rng.randrange(2, 12), SG.SIGWINCH)
    if resize: actions += [(rng.random() * .1, winch) for _ in range(rng.choice([1, 3]))]
    sig = rng.choice([s for s in FATAL if s not in (SG.SIGALRM,)])
    if kill:
        def die(pid, m):
            try: os.kill(pid, sig)
            except OSError: pass
        actions += [(.02 + rng.random() * .3, die)]
    rc, term, out = run_pty(c, rng, argv, env, h, w, out_tty, actions)
    what = "%dx%d%s%s%s%s %s: %s" % (h, w, " status" if status else "", " resized" if resize else "", " killed by " + signame(sig) if kill else "", " stdout on the terminal" if out_tty else "", env.get("VP_SIG", ""), shq(argv))
    if rc != 0 and not (kill and rc == -sig): raise Violation("terminal-status", "wait status %d, terminal: %r: %s" % (rc, term[-200:], what))
    warn = rb"bfs-plain: warning: Couldn't show status bar[^\n]*\n\n?"
    plain, texts = strip_bar(term)
    plain = re.sub(warn, b"", plain)
    got = plain if out_tty else out
    if rc == 0:
        if got != full:
            i = next((i for i, (a, b) in enumerate(zip(got, full)) if a != b), min(len(got), len(full)))
            raise Violation("status-corrupts", "normal output differs at %d: %r instead of %r: %s" % (i, got[max(0, i - 20):i + 40], full[max(0, i - 20):i + 40], what), terminal=repr(term[-3000:]))
    elif not full.startswith(got):
        raise Violation("prefix", "what was written is not a prefix: %r: %s" % (got[-60:], what), terminal=repr(term[-2000:]))
    if not out_tty and plain: raise Violation("status-corrupts", "stray text on the terminal: %r: %s" % (plain[:200], what))
    # the scrolling region and reverse video are undone at the end
    regions = re.findall(rb"\x1b\[([0-9;]*)r", term)
    if regions and regions[-1] not in (b"", b";"): raise Violation("terminal-left", "scrolling region %r still set at the end: %s" % (regions[-1], what), terminal=repr(term[-2000:]))
    if term.rfind(b"\x1b[7m") > term.rfind(b"\x1b[27m"): raise Violation("terminal-left", "reverse video still on at the end: %s" % what, terminal=repr(term[-2000:]))
    for t in texts:
        txt = re.sub(rb"\x1b\[[?0-9;]*[@-~]", b"", t)
        if re.search(rb"[\x00-\x1f\x7f]", txt): raise Violation("bar-text", "control characters in the status line: %r: %s" % (txt, what))
        if txt: c.count("status lines drawn")
        if not resize and txt and sum(max(0, libc.wcwidth(ctypes.c_wchar(x))) for x in txt.decode("utf8", "replace")) > w:
            raise Violation("bar-text", "the status line %r is wider than %d columns: %s" % (txt, w, what))
    if not resize:
        # replay on an emulated screen
        pre = [b"%d" % (i % 10) for i in range(rng.choice([0, 1, h - 1, h + 3]))]
        t = Term(h, w, pre)
        t.feed(re.sub(warn, b"", term))
        exp = [x.decode() for x in pre] + ([x.decode() for x in got.split(b"\n")] if out_tty else [])
        exp = [x.rstrip() for x in exp]
        while exp and not exp[-1]: exp.pop()
        if t.text() != exp:
            tt = t.text()
            i = next((i for i, (a, b) in enumerate(zip(tt, exp)) if a != b), min(len(tt), len(exp)))
            raise Violation("screen", "line %d of the screen is %r instead of %r (%d lines, expected %d): %s" % (i, tt[i:i + 2], exp[i:i + 2], len(tt), len(exp), what), terminal=repr(term[-3000:]))
        if t.reversed_cells(): raise Violation("screen", "remains of the status line on the screen: %s" % what, terminal=repr(term[-2000:]))
        if t.top != 0 or t.bot != h - 1: raise Violation("terminal-left", "scrolling region left at %d-%d of %d: %s" % (t.top, t.bot, h, what))
        c.count("screens replayed")
    c.count("terminal sessions"); c.count("status line toggled", len(regions) // 2); c.count("killed on a terminal", rc != 0)
    c.seen(("tty", h, w, status, out_tty, resize, kill and int(sig), nusr, slow, len(regions), rc))
    if texts: c.sample({"argv": shq(argv), "terminal": "%dx%d" % (h, w), "bars": len(texts), "bytes": len(term), "rc": rc})

SGR = re.compile(rb"\x1b\[([0-9;]*)m")
def neutral(term):
    """Are the colours off at the end of this byte stream?  (DECSC and DECRC save and restore them)"""
    on, saved = frozenset(), frozenset()
    for m in re.finditer(rb"\x1b\[([0-9;]*)m|\x1b([78])", term):
        if m.group(2) == b"7": saved = on
        elif m.group(2) == b"8": on = saved
        else:
            for x in (m.group(1) or b"0").split(b";"):
                if x in (b"", b"0", b"00"): on = frozenset()
                elif x == b"27": on = on - {b"7", b"07"}
                else: on = on | {x}
    return not on

def colored(c, rng):
    """Coloured output on a terminal: colours are switched off again whenever a signal ends the search."""
    d = b"t"
    for i in range(rng.choice([0, 3, 8, 14])):
        d += b"/" + b"dir%02d" % i + b"n" * 150
        os.mkdir(d)
        for j in range(rng.choice([1, 5, 20])): open(d + b"/file%d" % j, "w").close()
    plan = Plan(c, rng, sort=True, noexec=True)
    while plan.kind != "print": plan = Plan(c, rng, sort=True, noexec=True)
    full, _ = full_output(c, plan)
    argv = [c.env.bins[rng.choice(["plain", "nouring"])]] + plan.argv
    for _ in range(3):
        sig = rng.choice(FATAL + [SG.SIGUSR2, SG.SIGTRAP, SG.SIGSEGV, SG.SIGRTMIN, SG.SIGRTMIN + 3, SG.SIGRTMAX, SG.SIGRTMAX])
        env = {"LS_COLORS": rng.choice(["di=01;34:fi=32:", "di=7:fi=4;31:", "*=33:", ""]), "TERM": "xterm"}
        stalled = rng.random() < .6
        after = rng.choice([0, .02, .1]) if stalled else rng.random() * .03
        m, s = os.openpty(); tty.setraw(s); os.fchmod(s, 0o666)
        usr = rng.random() < .4
        if usr:
            # the status line is shown and hidden a few times meanwhile
            fcntl.ioctl(m, termios.TIOCSWINSZ, struct.pack("HHHH", 24, 3000, 0, 0))
            env["LD_PRELOAD"] = c.env.data["shim"]
            k = rng.randrange(2, 4)
            at = []
            for _ in range(rng.choice([1, 2, 3, 3, 3, 4, 5])): at.append(k); k += rng.randrange(1, 3)
            env["VP_SIG"] = ",".join("getdents:%d:%d" % (a, SG.SIGUSR1) for a in at)
            if sig == SG.SIGALRM: sig = SG.SIGTERM
        p = spawn(c, argv, env, stdout=s, stderr=s, pre2=lambda: fcntl.ioctl(s, termios.TIOCSCTTY, 0))
        os.close(s)
        data, t0, sent, idle = b"", time.time(), False, 0
        while True:
            if not sent and time.time() - t0 >= after and (data or not stalled):
                try: os.kill(p.pid, sig)
                except ProcessLookupError: pass
                sent = True
            if stalled and not sent:
                # let some of the output through and then stop reading until after the signal: bfs is stuck in the middle of a line
                if not data and select.select([m], [], [], 5)[0]:
                    try: data += os.read(m, rng.choice([1, 500, 3000]))
                    except OSError: break
                    if rng.random() < .7: time.sleep(.03)
                elif not data: sent = True
                continue
            if select.select([m], [], [], .02)[0]:
                try: d_ = os.read(m, 65536)
                except OSError: break
                if not d_: break
                data += d_
            elif p.poll() is not None: break
            if time.time() - t0 > 60: os.close(m); hang(c, p, argv)
        p.wait(); os.close(m)
        what = "%s %s%.3f s into coloured output: %s" % (sig, "(reader stalled) " if stalled else "", after, shq(argv))
        if p.returncode not in (0, -sig): raise Violation("status", "wait status %d: %s" % (p.returncode, what), terminal=repr(data[-500:]))
        if usr:
            shown = data.count(b"\x1b7")
            text = re.sub(rb"bfs-\w+: warning: Couldn't show status bar[^\n]*\n\n?", b"", strip_bar(data)[0] if p.returncode == 0 else SGR.sub(b"", re.split(rb"\x1b[7D]", data)[0]))
            c.count("coloured terminals with a status line", shown > 0)
            what = env["VP_SIG"] + " " + what
        else: text = SGR.sub(b"", data)
        if p.returncode == 0 and text != full: raise Violation("prefix", "output differs (%d bytes, expected %d): %s" % (len(text), len(full), what))
        # a signal may cut a sequence short; bfs cannot unwrite that
        cut = re.sub(rb"\x1b(\[[0-9;]*)?(?=\Z|\x1b)", b"", text)
        if not full.startswith(cut): raise Violation("prefix", "what was written is not a prefix of the output: %r: %s" % (cut[-80:], what))
        # a signal before bfs has written anything, or after its last line, has nothing to undo
        if not neutral(data): raise Violation("colors", "the terminal's colours are still on at the end (%r): %s" % (data[-60:], what))
        c.count("coloured terminals"); c.count("killed in the middle of a coloured line", p.returncode != 0 and not cut.endswith(b"\n") and bool(cut))
        c.seen(("color", int(sig), stalled, plan.cfg.key(), p.returncode, len(cut) * 16 // len(full)))

def known_probe(c):
    """The recorded defect: a signal that was ignored when bfs was started kills it all the same once bfs has hooked it (status line or coloured terminal)."""
    os.chdir(c.dir); os.mkdir(b"t"); open(b"t/f", "w").close()
    bad = []
    for args in (["-status", b"t"], ["-nocolor", b"t", "-color"]):
        argv = [c.env.bins["plain"]] + args + ["-exec", "/bin/sleep", "0.4", ";"]
        m, s = os.openpty(); tty.setraw(s); os.fchmod(s, 0o666)
        fcntl.ioctl(m, termios.TIOCSWINSZ, struct.pack("HHHH", 24, 80, 0, 0))
        f = s if args[0] == "-status" else subprocess.DEVNULL
        p = spawn(c, argv, {"TERM": "xterm"}, stdout=f, stderr=f, ign=[SG.SIGHUP], pre2=lambda: fcntl.ioctl(s, termios.TIOCSCTTY, 0))
        os.close(s); time.sleep(.2)
        os.kill(p.pid, SG.SIGHUP)
        try: p.wait(30)
        except subprocess.TimeoutExpired: hang(c, p, argv)
        os.close(m)
        if p.returncode == -SG.SIGHUP: bad.append(args[0])
        elif p.returncode: raise Violation("status", "wait status %d: %s" % (p.returncode, shq(argv)))
    if bad == ["-status"]: raise Violation("ignored-signal-hooked", "killed by SIGHUP although it was ignored: %r" % bad)
    if bad: raise Violation("ignored-signal", "killed by SIGHUP although it was ignored: %r" % bad)

def case(c):
    rng = c.rng
    if c.idx == 0: return known_probe(c)
    set_locale("C.UTF-8")
    build(c, rng)
    rng.choice([fatal_at_call, fatal_at_call, fatal_at_call, fatal_external, closed_pipe, closed_pipe, benign, benign, slow_reader, on_terminal, on_terminal, colored, colored])(c, rng)
