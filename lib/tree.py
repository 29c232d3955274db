"""Random file trees."""
import time, os, socket, stat

PLAIN = [b"a", b"b", b"c", b"d", b"foo", b"bar", b"baz", b"x1", b"y2", b"File", b"README", b"lib", b"src", b"main.c", b"a.txt", b"b.TXT", b"k.tar.gz"]
WEIRD = [b"sp ace", b" lead", b"trail ", b"tab\there", b"new\nline", b"quo'te", b'dq"x', b"back\\slash", b"back\\", b"*", b"?", b"[ab]", b"[", b"$HOME", b"`id`", b";", b"&", b"|",
         b"-dash", b"--", b"-print", b"!", b"(", b")", b",", b"{}", b"{}{}", b"%s%n", b"\x01\x02", b"\x1b[31mred", b"\x7f", b"\xff\xfe", b"caf\xc3\xa9", b"\xe6\x97\xa5\xe6\x9c\xac", b"\xc3", b"a\xccb",
         b"...", b"..a", b".hidden", b".h2", b"~", b"#", b"=", b"a=b", b"a:b", b"\xc2\x9b31m", b"\xf0\x9f\x98\x80", b"\r", b"\b", b"x\ry"]

def gen_name(rng, kind="mixed"):
    k = kind
    if k == "mixed":
        k = rng.choices(["plain", "num", "weird", "bytes", "dot", "long"], [40, 30, 14, 6, 8, 2])[0]
    if k == "plain":
        return rng.choice(PLAIN) + (b"" if rng.random() < .5 else b"%d" % rng.randrange(30))
    if k == "num":
        return b"%s%d" % (rng.choice([b"f", b"d", b"n", b""]), rng.randrange(10 ** rng.randrange(1, 5)))
    if k == "weird":
        return rng.choice(WEIRD) + (b"" if rng.random() < .6 else b"%d" % rng.randrange(10))
    if k == "dot":
        return b"." + rng.choice(PLAIN)
    if k == "long":
        return bytes(rng.choice(b"abcXYZ019_") for _ in range(rng.choice([60, 100, 200, 254, 255])))
    n = rng.randrange(1, 12)
    b = bytes(rng.choice([c for c in range(1, 256) if c != 47]) for _ in range(n))
    return b if b not in (b".", b"..") else b"dots"

def gen_shape(rng, n, shape=None, maxdepth=12, names="mixed", dirp=.45):
    """Returns a list of (relpath, isdir); parents before children.  Root is b''."""
    shape = shape or rng.choice(["random", "random", "deep", "wide", "comb", "bushy"])
    dirs = [(b"", 0)]
    used = {b"": set()}
    out = []
    cur = dirs[0]
    for i in range(n):
        if shape == "random":
            par = rng.choice(dirs)
        elif shape == "deep":
            par = dirs[-1] if rng.random() < .8 else rng.choice(dirs)
        elif shape == "wide":
            par = dirs[0] if rng.random() < .85 else rng.choice(dirs)
        elif shape == "comb":
            par = dirs[-1] if rng.random() < .35 else dirs[max(0, len(dirs) - 2)]
        else:
            par = dirs[min(len(dirs) - 1, i // 4)]
        if par[1] >= maxdepth:
            par = dirs[0]
        nm = gen_name(rng, names)
        for _ in range(20):
            if nm not in used[par[0]]:
                break
            nm = (nm[:200] + b"_%d" % rng.randrange(100000))
        used[par[0]].add(nm)
        rel = par[0] + b"/" + nm if par[0] else nm
        p = {"random": dirp, "deep": .7, "wide": .25, "comb": .6, "bushy": .6}[shape]
        isdir = rng.random() < p
        if isdir:
            d = (rel, par[1] + 1)
            dirs.append(d)
            used[rel] = set()
        out.append((rel, isdir))
    return out

def mksock(path):
    s = socket.socket(socket.AF_UNIX)
    cwd = os.open(".", os.O_RDONLY)
    try:
        os.chdir(os.path.dirname(path) or b".")
        s.bind(os.path.basename(path))
    finally:
        os.fchdir(cwd)
        os.close(cwd)
        s.close()

def populate(rng, base, shape, special=True, links=True, meta=False, loops=False):
    """Create the shape under base (bytes, existing).  Non-directories become regular
    files, links, fifos, sockets or hard links.  Returns list of (abs path, kind)."""
    out = []
    regs, dirs = [], [base]
    for rel, isdir in shape:
        p = base + b"/" + rel
        if isdir:
            os.mkdir(p)
            dirs.append(p)
            out.append((p, "d"))
            continue
        r = rng.random()
        if special and r < .05:
            os.mkfifo(p); k = "p"
        elif special and r < .08 and len(os.path.basename(p)) < 100:
            mksock(p); k = "s"
        elif links and r < .26:
            kind = rng.random()
            if kind < .3:
                t = rng.choice([b"nowhere", b"/nonexistent/x", b"a" * 80, b"no\nwhere", b"missing.txt", b"nowhere/", b"no//where", b"./nowhere", b"No*re", b"gone\\", b"\xff\xfe", b"z" * 200 + b"/" + b"y" * 200, b"trail "])
            elif kind < .6 and regs:
                t = rng.choice(regs)
                if rng.random() < .5:
                    t = os.path.relpath(t, os.path.dirname(p))
            elif kind < .68 and out:
                t = os.path.basename(rng.choice(out)[0])
                if t == os.path.basename(p):
                    t = b"nowhere"
            else:
                t = rng.choice(dirs)
                if not loops and (p.startswith(t + b"/") or True):
                    t = b"nowhere2" if not regs else rng.choice(regs)
                elif rng.random() < .5:
                    t = os.path.relpath(t, os.path.dirname(p))
            os.symlink(t, p); k = "l"
        elif links and r < .31 and regs:
            try:
                os.link(rng.choice(regs), p)
            except OSError:
                open(p, "w").close()
            k = "h"
        else:
            with open(p, "wb") as f:
                q = rng.random()
                if q < .4:
                    pass
                elif q < .9:
                    f.write(b"x" * rng.choice([1, 2, 10, 100, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 5000]))
                else:
                    f.truncate(rng.choice([4096, 65536, 1 << 20, (1 << 20) + 1, 10 << 20]))
            regs.append(p); k = "f"
        out.append((p, k))
    if meta:
        for p, k in out:
            randmeta(rng, p, k)
    for p, k in [(base, "d")] + out:
        if k in "dl": freeze_atime(p)
    return out

def freeze_atime(p):
    """Reading a directory or link may update its atime (relatime) unless that is in the future."""
    st = os.lstat(p)
    os.utime(p, ns=((max(int(time.time()), st.st_mtime_ns // 10**9) + 86400) * 10**9 + st.st_mtime_ns % 10**9, st.st_mtime_ns), follow_symlinks=False)

MODES = [0o644, 0o600, 0o755, 0o700, 0o444, 0o777, 0o666, 0o000, 0o111, 0o4755, 0o2755, 0o1777, 0o6711, 0o7777, 0o222, 0o640, 0o750]
IDS = [0, 1, 2, 54321, 65534, 99999, 1000, 4]

def randmeta(rng, p, k, safe_dirs=True, now=None):
    """Random ownership, mode and times.  Directories stay searchable/readable by all."""
    if rng.random() < .6:
        os.chown(p, rng.choice(IDS), rng.choice(IDS), follow_symlinks=False)
    if k != "l" and rng.random() < .7:
        m = rng.choice(MODES) if rng.random() < .7 else rng.randrange(0o10000)
        if k == "d" and safe_dirs:
            m |= 0o555
        os.chmod(p, m)

def settimes(rng, p, base, spread):
    """Set random atime/mtime (ns) around base (seconds)."""
    at = int((base + rng.uniform(-spread, spread)) * 10**9)
    mt = int((base + rng.uniform(-spread, spread)) * 10**9)
    os.utime(p, ns=(at, mt), follow_symlinks=False)
