"""C26: names are emitted unambiguously."""
from colors import *
import pty, tty, fcntl, select
PROP, LEVEL = "C26", "exploration"
CASES = {"quick": 2500, "thorough": 60000}
RULE = "each (way of output, locale, name containing something special) counts once"
TECHNIQUE = "runtime monitoring: emitted names decoded by independent decoders (byte comparison, xargs, bash, an ANSI-C-quoting decoder) and compared with the real names; terminal output scanned for control sequences"

def rname(rng):
    r = rng.random()
    if r < .45: n = rng.choice(T.WEIRD)
    elif r < .75: n = T.gen_name(rng, "bytes")
    else:
        parts = [b"\x1b[31m", b"\x1b]0;x\x07", b"\n", b"'", b'"', b"\\", b"$'", b"$(id)", b"`id`", b"\xff", b"\xc3\xa9", b"\xc2\x85", b"\xe2\x80\xa8", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"\xc3", b" ", b"\t", b"a", b"Z", b"0", b"41", b"!", b"*", b"?", b"[", b"{a,b}", b"~", b"#", b"=", b"%", b";", b"&", b"|", b"<", b">", b"(", b")", b"-", b"^", b"\x7f", b"\x00"[:0], b"\r", b"\b", b"\x9b31m", b"\xef\xbb\xbf", b"\xe2\x80\x8b", b"\xcc\x81", b"\xc2\xa0", b"x41", b"\\x41"]
        n = b"".join(rng.choice(parts) for _ in range(rng.choice([1, 2, 3, 6])))
    if not n or n in (b".", b"..") or b"/" in n: n = b"w" + n.replace(b"/", b"_")
    return n[:200]

def build(c, rng):
    os.chdir(c.dir); os.mkdir(b"t")
    dirs, out = [b"t"], [b"t"]
    for _ in range(rng.choice([2, 6, 15])):
        p = rng.choice(dirs) + b"/" + rname(rng)
        if len(p) > 900 or os.path.lexists(p): continue
        try:
            r = rng.random()
            if r < .35: os.mkdir(p); dirs.append(p)
            elif r < .5: os.symlink(rng.choice([b"nowhere", rname(rng), b"../" + rname(rng), rname(rng) + b"/x", os.path.basename(rng.choice(out))]), p)
            else: open(p, "w").close()
            out.append(p)
        except FileExistsError: pass
    return out

def case(c):
    rng = c.rng
    files = build(c, rng)
    for _ in range(2):
        kind = rng.choice(["raw", "raw", "printx", "color", "color", "color", "diag", "diag", "pty"])
        utf8 = rng.random() < .75
        loc = "C.UTF-8" if utf8 else "C"
        set_locale(loc)
        env = {"LC_ALL": loc}
        globals()["do_" + kind](c, rng, files, env, utf8)

def check_status(r):
    if r.rc or r.err: raise Violation("status", "rc=%d stderr=%r: %s" % (r.rc, r.err[:400], shq(r.argv)))

def seen(c, files, kind, utf8):
    for p in files:
        n = os.path.basename(p)
        if re.search(rb"[^\w.]", n): c.seen(kind, utf8, n)
    c.count("names " + kind, len(files))

def do_raw(c, rng, files, env, utf8):
    env = dict(env, LD_PRELOAD=c.env.data["shim"]) if rng.random() < .2 else env
    act, sep = rng.choice([(["-print0"], b"\0"), (["-printf", "%p\\0"], b"\0"), (["-print"], b"\n"), (["-printf", "%H/%P\\0"], None), (["-fprint0", "/dev/stdout"], b"\0")])
    if act[0] == "-fprint0": act = ["-print0"]
    r = c.bfs(["t"] + act, env=env)
    check_status(r)
    if sep is None: want = [b"t/" + f[2:] for f in files]; sep = b"\0"
    else: want = files
    if sep == b"\0": diff_multiset(want, split0(r.out), r.argv, "raw")
    else: diff_multiset(b"".join(p + b"\n" for p in want).split(b"\n"), r.out.split(b"\n"), r.argv, "raw")
    seen(c, files, act[0], utf8)

def do_printx(c, rng, files, env, utf8):
    r = c.bfs(["t", "-printx"], env=env)
    check_status(r)
    # what xargs makes of it
    x = run(["xargs", "printf", "%s\\0"], stdin=r.out, env=env, cwd=c.dir)
    if x.rc: raise Violation("printx", "xargs rejects the output of %s: %r" % (shq(r.argv), x.err[:300]))
    diff_multiset(files, split0(x.out), r.argv, "printx")
    # independent reading: a backslash quotes the next byte, unquoted blanks separate
    out, cur, i = [], None, 0
    while i < len(r.out):
        b = r.out[i:i + 1]
        if b == b"\\": cur = (cur or b"") + r.out[i + 1:i + 2]; i += 2; continue
        if b in b" \t\n":
            if cur is not None: out.append(cur); cur = None
        elif b in b"'\"`$": raise Violation("printx", "unescaped quote in %r: %s" % (r.out[max(0, i - 40):i + 40], shq(r.argv)))
        else: cur = (cur or b"") + b
        i += 1
    diff_multiset(files, out, r.argv, "printx")
    seen(c, files, "printx", utf8)

SC = Scheme().finish()
def strip(data):
    """Remove the color sequences (ESC [ digits ; m) that bfs itself writes."""
    return re.sub(rb"\x1b\[[0-9;]*m", b"", data)

def do_color(c, rng, files, env, utf8):
    # one file at a time, so that boundaries are known: -limit is not used; files are selected by -samefile-free means (-inum)
    fs = rng.sample(files, min(len(files), 4))
    for p in fs:
        st = os.lstat(p)
        act = rng.choice([["-print"], ["-print"], ["-printf", "%p\\n"], ["-printf", "%f\\n"], ["-printf", "%P\\n"], ["-printf", "%h\\n"], ["-printf", "%l\\n"], ["-ls"]])
        argv = ["-color", "t", "-inum", str(st.st_ino)] + act
        r = c.bfs(argv, env=dict(env, LS_COLORS=rng.choice(["", "di=31:ln=target", "no=37:or=41:mi=42", "*" + "\\e=35"])))
        check_status(r)
        text = strip(r.out)
        if not text.endswith(b"\n"): raise Violation("color", "no final newline: %r" % r.out)
        body = text[:-1]
        bad = safe_text(body, utf8, p)
        if bad: raise Violation("inject", "%s in terminal output %r for %r: %s" % (bad, body[:300], p, shq(r.argv)))
        x = act[-1][:2]
        want = {"%f": os.path.basename(p), "%P": p[2:], "%h": os.path.dirname(p) or b".", "%l": os.readlink(p) if os.path.islink(p) else b""}.get(x, p)
        if act == ["-ls"]:
            m = re.match(rb" *\d+ +\d+ \S+ +\d+ \S+ +\S+ +\d+ \w+ +\d+ +[\d:]+ ", body)
            if not m: raise Violation("ls", "cannot parse %r" % body)
            body = body[m.end():]
            if os.path.islink(p): want = p + b" -> " + os.readlink(p)
        if not denotes(body, want): raise Violation("color", "%r shown as %r: %s" % (want, body, shq(r.argv)))
        c.seen("color", x, utf8, want)
        c.count("colored names")

def do_pty(c, rng, files, env, utf8):
    """The same, on a real terminal."""
    m, s = pty.openpty()
    tty.setraw(s)
    p = rng.choice(files)
    argv = ["t", "-inum", str(os.lstat(p).st_ino)] + rng.choice([["-print"], [], ["-color"]])
    import threading
    buf = []
    def reader():
        try:
            while True:
                d = os.read(m, 65536)
                if not d: break
                buf.append(d)
        except OSError: pass
    th = threading.Thread(target=reader); th.start()
    try: r = c.bfs(argv, env=dict(env, TERM="xterm"), stdout=s)
    finally: os.close(s)
    th.join(); os.close(m)
    out = b"".join(buf)
    check_status(r)
    body = strip(out)
    if not body.endswith(b"\n"): raise Violation("pty", "no final newline: %r" % out)
    body = body[:-1]
    bad = safe_text(body, utf8, p)
    if bad: raise Violation("inject", "%s in terminal output %r for %r: %s" % (bad, body[:300], p, shq(r.argv)))
    if not denotes(body, p): raise Violation("pty", "%r shown as %r: %s" % (p, body, shq(r.argv)))
    c.seen("pty", utf8, p); c.count("names on a pty")

def do_diag(c, rng, files, env, utf8):
    """Arguments quoted in diagnostics are shell words, which bash decodes.  Paths in per-file
    errors are shown as -print shows them: raw, or protected when errors are colored."""
    color = rng.random() < .4
    opt = ["-color"] if color else []
    if rng.random() < .5:
        # an invalid argument is quoted in the command line shown
        n = rname(rng)
        r = c.bfs(opt + ["t", "-newer", b"m/" + n], env=env)
        err = strip(r.err) if color else r.err
        bad = safe_text(err, utf8, n)
        if bad: raise Violation("inject", "%s in diagnostics %r: %s" % (bad, err[:400], shq(r.argv)))
        line = [l for l in err.split(b"\n") if b" -newer " in l]
        if r.rc == 0 or not line: raise Violation("diag", "no diagnostic (rc=%d, %r): %s" % (r.rc, err[:300], shq(r.argv)))
        word, want = line[0].split(b" -newer ", 1)[1].rstrip(), b"m/" + n
        # bash must read the word as one argument with exactly these bytes
        b = run(["bash", "--norc", "-c", b"printf '%s\\0' " + word + b"\n"], env=env, cwd=c.dir)
        if b.out != want + b"\0" or b.rc or b.err:
            raise Violation("diag", "%r denotes %r instead of %r (%r): %s" % (word, b.out, want, b.err[:200], shq(r.argv)))
        c.seen("diag", "arg", utf8, n); c.count("quoted arguments in diagnostics")
        c.sample(shq(r.argv)[:200] + " -> %r" % word)
        return
    if rng.random() < .4: return do_words(c, rng, opt, env, utf8)
    names = list({b"m/" + rname(rng) for _ in range(rng.choice([1, 2, 4]))})
    if rng.random() < .5:
        r = c.bfs(opt + ["-files0-from", "-", "-print0"], env=env, stdin=b"\0".join(names) + b"\0")
    else:
        r = c.bfs(opt + [a for n in names for a in ("-f", n)] + ["-print0"], env=env)
    if r.rc == 0: raise Violation("diag", "missing files not reported: " + shq(r.argv))
    if not color:
        want = b"".join(sorted(b"ERR " + n + b": No such file or directory.\n" for n in names))
        parts = re.split(rb"(?:\A|(?<=\.\n))bfs-\w+: error: ", r.err)[1:]
        got = b"".join(sorted(b"ERR " + x for x in parts))
        if got != want: raise Violation("diag", "%r instead of %r: %s" % (got[:400], want[:400], shq(r.argv)))
    else:
        err = strip(r.err)
        bad = safe_text(err, utf8, names)
        if bad: raise Violation("inject", "%s in diagnostics %r: %s" % (bad, err[:400], shq(r.argv)))
        left = list(names)
        for l in re.split(rb"(?:\A|(?<=\.\n))bfs-\w+: error: ", err)[1:]:
            m = re.match(rb"(.*): (No such file or directory|File name too long|Not a directory)\.\n\Z", l, re.S)
            hit = [n for n in left if m and denotes(m.group(1), n)]
            if not hit: raise Violation("diag", "unexpected diagnostic %r, expecting %r: %s" % (l, left[:4], shq(r.argv)))
            left.remove(hit[0])
        if left: raise Violation("diag", "no diagnostic for %r: %s" % (left, shq(r.argv)))
    for n in names: c.seen("diag", "error", color, utf8, n)
    c.count("paths in error messages", len(names))

def do_words(c, rng, opt, env, utf8):
    """Other places that quote an argument or a path as a shell word."""
    n = b"q" + rname(rng)
    kind = rng.choice(["integer", "unit", "exec", "execdir", "loop", "tree"])
    if kind.startswith("exec"): n = n.replace(b"{}", b"{ }")
    if kind == "tree": n = n.replace(b"\\", b"|")       # (not a pattern that can never match)
    if kind == "integer": argv, rx, want = ["t", "-links", n], rb".*error: (.*) is not a valid integer\.\n\Z", n
    elif kind == "unit": argv, rx, want = ["t", "-size", b"1" + n], rb"; found (.*)\.\n\Z", n
    elif kind == "exec": argv, rx, want = ["t", "-maxdepth", "0", "-exec", b"./" + n, "{}", ";"], rb"\A[^:]*: error: t: -exec (.*): [^:]*\.\n\Z", b"./" + n
    elif kind == "execdir": argv, rx, want = ["t", "-maxdepth", "0", "-execdir", b"./" + n, "{}", "+"], rb"\A[^:]*: error: -execdir (.*): [^:]*\.\n\Z", b"./" + n
    elif kind == "tree": argv, rx, want = ["-D", "tree", "t", "-name", n, "-print0"], rb"\(-name (.*?)\)\n", n
    else:
        os.makedirs(b"loops/" + n, exist_ok=True)
        if not os.path.lexists(b"loops/" + n + b"/up"): os.symlink(b".", b"loops/" + n + b"/up")
        argv, rx, want = ["-L", b"loops/" + n, "-print0"], rb"Filesystem loop back to (.*)\n\Z", b"loops/" + n
    r = c.bfs(opt + argv, env=env)
    if kind == "tree" and r.rc or kind != "tree" and not 0 < r.rc < 128: raise Violation("diag", "rc=%d %r: %s" % (r.rc, r.err[:300], shq(r.argv)))
    err = strip(r.err) if opt else r.err
    m = re.search(rx, err, re.S)
    if not m: raise Violation("diag", "no diagnostic of %r in %r: %s" % (want, err[:400], shq(r.argv)))
    word = m.group(1)
    bad = safe_text(word if kind == "loop" else err, utf8, n)
    if bad: raise Violation("inject", "%s in diagnostics %r: %s" % (bad, err[:400], shq(r.argv)))
    b = run(["bash", "--norc", "-c", b"printf '%s\\0' " + word + b"\n"], env=env, cwd=c.dir)
    if b.out != want + b"\0" or b.rc or b.err:
        raise Violation("diag", "%r denotes %r instead of %r (%r): %s" % (word, b.out, want, b.err[:200], shq(r.argv)))
    c.seen("word", kind, utf8, n); c.count("quoted words: " + kind)
