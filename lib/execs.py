"""Workloads around executed commands: the recorder program and its log."""
from trav import *
import trav

def setup(env):
    trav.setup(env)
    env.data["rec"] = env.cc("rec", ["rec.c"], ["-static"])

class Rec:
    """One recorded execution."""
    def __init__(self, line):
        h, a, i, e, x = [p.split() for p in line.split(" |")]
        self.id, self.pid, self.ppid = h[0], int(h[1]), int(h[2])
        self.cwd = ident(h[3])
        self.sizes = [int(v) for v in h[4].split(",")]
        self.argv = [S.unhex(v) for v in a]
        self.args = self.argv[2:]
        self.ids = [ident(v) for v in i]
        self.state = e
        self.status = int(x[0])

def ident(s):
    return None if s == "x" else tuple(int(v) for v in s.split(":"))

def ident_of(path):
    st = os.lstat(path)
    return (st.st_dev, st.st_ino)

def newreclog(c, name="reclog"):
    p = c.dir + "/" + name
    with open(p, "w"): pass
    os.chmod(p, 0o666)
    return p

def readrec(path):
    with open(path) as f: t = f.read()
    if t and not t.endswith("\n"): raise Violation("truncated", "a command's record is incomplete (it was stopped early?): %r" % t[-200:])
    return [Rec(l) for l in t.split("\n")[:-1]]

def exit_status(modes, args):
    s = sum(map(sum, args))
    if "k" in modes and s % 2 == 0: return -int(modes[modes.index("k") + 1:])
    if "h" in modes: return s % int(modes[modes.index("h") + 1:])
    if "x" in modes: return int(modes[modes.index("x") + 1:])
    return 0

TMPL = [b"{}", b"{}", b"{}", b"pre{}", b"{}post", b"{}{}", b"{}x{}y{}", b"{", b"}", b"{{}}", b"{}}", b"{{}", b"{ }", b"", b"$(id)", b"a b", b"'", b"*", b"\\;", b"\\{}", b"-n", b"--", b";;", b"\xff{}", b"x" * 300, b"+", b"{}\n{}"]
def gen_tmpl(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        t = rng.choice(TMPL)
        if t == b"+" and out and out[-1] == b"{}": continue
        out.append(t)
    return out
def expand(tmpl, path):
    return [t.replace(b"{}", path) for t in tmpl]
