"""C28: invalid command lines are rejected before anything happens; valid ones are accepted."""
from trav import *
PROP, LEVEL = "C28", "exploration"
CASES = {"quick": 1500, "thorough": 40000}
RULE = "each (defect kind, primary, position) or accepted primary/argument counts once"
TECHNIQUE = "runtime monitoring: generated valid command lines and single-defect mutants of them run on a scratch tree; exit status, diagnostics, output, executed commands and tree state observed"

INTS = ["0", "1", "+1", "-1", "12", "9223372036854775807", "-0", "+0", "007"]
BADINTS = ["", "x", "1x", "--1", "+-1", "1 ", "1.5", "+", "-", "0x1", "9223372036854775808", "99999999999999999999", "1e3"]
MODES = ["644", "0", "-022", "/111", "u+w", "-u=rwx,g+r", "/u+x,o+w", "a=", "+t", "-a+X", "ug=o", "7777", "u=rw,g=r,o=", "g+s", "-+w", "u-w"]
BADMODES = ["", "8", "-", "/", "u", "rw", "u+q", "77777777777777777777", "u+w,", ",u+w", "-u", "12x", "=r,z", "u*w", "//7", "-9", "10000000", "10000", "17777", "-10644", "/20000"]
SIZES = ["1", "+1c", "-3k", "0", "2M", "1G", "1T", "1P", "3w", "3b", "+0"]
BADSIZES = ["", "1q", "c", "1cc", "1kk", "x1", "+", "1 k", "--1k", "1K"]
TYPES = ["f", "d", "l", "b", "c", "p", "s", "D", "f,d", "l,f,d", "w"]
BADTYPES = ["", "q", "fd", "f,", ",f", "f,,d", "f d", "F", "f,q", "directory"]
TIMES = ["1", "+1", "-1", "0", "1s", "2m", "3h", "4d", "1w", "1h30m", "+1d12h", "-1w2d"]
BADTIMES = ["", "x", "1x", "h", "+", "1h30", "1hh2", "--1", "1.5", "99999999999999999999", "1d2", "s1", "106751991167300d1w", "9223372036854775807s1s", "2562047788015215h31m", "1s9223372036854775807s", "15250284452471w4d"]
FMTS = ["%p\\n", "", "x", "%%", "%-10.5p", "%T@ %TY-%Tm", "%5s\\t", "\\101", "%k %b %D", "%Ak", "%y%Y%#m", "\\c", "%C+"]
BADFMTS = ["%", "%Q", "%5", "%-", "%A", "%T", "%C", "%.", "%#", "%p%", "\\q%", "%10", "%J", "\\", "%p\\", "%--p", "%##m", "%++d", "%+-+d", "%-#-m", "%Aq", "%TQ", "% 5 d", "%00m"]
TS = ["2020-01-01", "2020-01-01T00:00:00Z", "@0", "2020-01-01 12:34", "20200101", "@-1", "2020-01-01T00:00:00+01:00"]
BADTS = ["", "garbage", "2020-13-01x", "2020-", "@", "@x", "2020-01-01T00:00:00Zq", "20-01-01", "2020-01-01T", "12:34", "2020-02", "2020-01-01T1:2:3:4"]

# primary -> (valid argument lists, invalid argument lists); "@f" is an existing file, "@n" a missing one
U = lambda ok, bad: ([[x] for x in ok], [[x] for x in bad])
TESTS = {
    "-true": ([[]], []), "-false": ([[]], []), "-empty": ([[]], []), "-hidden": ([[]], []), "-sparse": ([[]], []), "-nouser": ([[]], []), "-nogroup": ([[]], []),
    "-readable": ([[]], []), "-writable": ([[]], []), "-executable": ([[]], []), "-xattr": ([[]], []), "-acl": ([[]], []), "-capable": ([[]], []),
    "-name": U(["*", "a", "", "[a", "\\a", "*.[ch]"], []), "-iname": U(["*", "A"], []), "-path": U(["*", "t/a"], []), "-ipath": U(["T*"], []),
    "-wholename": U(["*"], []), "-iwholename": U(["*"], []), "-lname": U(["*"], []), "-ilname": U(["*"], []),
    "-inum": U(INTS, BADINTS), "-links": U(INTS, BADINTS), "-uid": U(INTS, BADINTS), "-gid": U(INTS, BADINTS), "-used": U(INTS, BADINTS),
    "-user": U(["root", "0", "+1", "-7"], ["", "no such user", "nosuchuser", "1x", "9223372036854775808"]),
    "-group": U(["root", "0", "+1", "-7"], ["", "nosuchgroup", "1x"]),
    "-size": U(SIZES, BADSIZES), "-perm": U(MODES, BADMODES), "-type": U(TYPES, BADTYPES), "-xtype": U(TYPES, BADTYPES),
    "-mtime": U(TIMES, BADTIMES), "-atime": U(TIMES, BADTIMES), "-ctime": U(TIMES, BADTIMES), "-mmin": U(INTS[:5], BADINTS), "-amin": U(INTS[:5], BADINTS), "-cmin": U(INTS[:5], BADINTS),
    "-newer": U(["@f"], ["@n", ""]), "-anewer": U(["@f"], ["@n"]), "-cnewer": U(["@f"], ["@n"]), "-mnewer": U(["@f"], ["@n"]), "-samefile": U(["@f"], ["@n", ""]),
    "-newermt": U(TS, BADTS), "-since": U(TS, BADTS), "-asince": U(TS, BADTS), "-newermm": U(["@f"], ["@n"]), "-neweraa": U(["@f"], ["@n"]), "-newercm": U(["@f"], []),
    "-regex": U([".*", "a\\|b", "t/[ab]"], ["["]), "-iregex": U([".*"], ["["]),
    "-fstype": U(["tmpfs", "ext4", "nosuch"], []), "-xattrname": U(["user.x", "x"], []),
    "-depth": U(["0", "1", "+1", "-2"], []),
}
# tests whose argument is optional or whose invalid argument would be read differently are given no invalid list
ACTIONS = {
    "-print": ([[]], []), "-print0": ([[]], []), "-printx": ([[]], []), "-ls": ([[]], []), "-prune": ([[]], []),
    "-printf": U(FMTS, BADFMTS), "-fprint": U(["@o"], ["@bad", ""]), "-fprint0": U(["@o"], ["@bad"]), "-fls": U(["@o"], ["@bad"]),
    "-fprintf": ([["@o", f] for f in FMTS], [["@o", f] for f in BADFMTS] + [["@bad", "x"]]),
    "-exec": ([["@touch", ";"], ["@touch", "{}x", ";"], ["@true", "{}", "+"]], [[";"], ["@touch"], ["@touch", "{}"], ["@true", "{}", "{}", "+"], ["@true", "x{}", "+"], ["@true", "+"], []]),
    "-execdir": ([["@true", ";"], ["@true", "{}", "+"]], [[";"], ["@true"], ["@true", "{}"]]),
    "-limit": U(["1", "1000"], ["0", "-1", "", "x", "1x"]), "-exit": ([[], ["0"]], [["-"], ["1x"]][:0]),
}
OPTIONS = {
    "-maxdepth": U(["0", "1", "99", "2147483647"], ["-1", "x", "", "2147483648", "4294967297", "99999999999999999999"]), "-mindepth": U(["0", "1", "2147483647"], ["-1", "x", "", "2147483648", "4294967296", "18446744073709551617"]), "-daystart": ([[]], []), "-follow": ([[]], []),
    "-noleaf": ([[]], []), "-nowarn": ([[]], []), "-ignore_readdir_race": ([[]], []), "-noignore_readdir_race": ([[]], []), "-unique": ([[]], []), "-xdev": ([[]], []), "-mount": ([[]], []),
    "-nocolor": ([[]], []), "-noerror": ([[]], []), "-nohidden": ([[]], []), "-regextype": U(["posix-basic", "posix-extended", "ed", "emacs", "grep", "sed"], ["", "nosuch", "POSIX", "posix"]),
}
FLAGS = {
    "-H": ([[]], []), "-L": ([[]], []), "-P": ([[]], []), "-E": ([[]], []), "-X": ([[]], []), "-d": ([[]], []), "-s": ([[]], []), "-x": ([[]], []), "-EXd": ([[]], []), "-Lsx": ([[]], []),
    "-S": U(["bfs", "dfs", "ids", "eds"], ["", "xyz", "BFS", "bf"]), "-Sdfs": ([[]], []), "-O3": ([[]], []), "-O0": ([[]], []), "-Ofast": ([[]], []), "-j2": ([[]], []), "-j16": ([[]], []),
}
UNKNOWN = ["-xyzzy", "-nmae", "-Q", "-printt", "-prin", "-newerzz", "-newerqm", "-newermq", "-newerm", "-newermmm", "-typ", "-namee", "--print", "-EQ", "-exe", "-0", "-newerBZ", "-and1", "-Type", "-PRINT", "-j", "-j0", "-jx", "-j-1", "-O", "-Ox", "-O4294967297", "-O2147483648", "-j4294967297", "-Sxyz", "-j1x"]

class Gen:
    def __init__(self, c, rng):
        self.c, self.rng, self.out_n = c, rng, 0
        self.used = []
        self.prune = rng.random() < .5
    def subst(self, a):
        if a == "@f": return "t/a"
        if a == "@n": return "t/missing"
        if a == "@o": self.out_n += 1; return "out%d" % self.out_n
        if a == "@bad": return self.rng.choice(["nodir/x", "t", "t/a/x"])
        if a == "@touch": return "./mark"
        if a == "@true": return "/bin/true"
        return a
    def prim(self, tab, name=None):
        rng = self.rng
        n = name or rng.choice(list(tab))
        args = rng.choice(tab[n][0])
        if self.c is not None: self.used.append((n, tuple(args)))
        # -limit is only allowed along with an action
        return (["-print"] if n == "-limit" else []) + [n] + [self.subst(a) for a in args]
    def expr(self, d, excl=False):
        """A valid expression, as a list of argument lists."""
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < .35:
            r = rng.random()
            if r < .65 or excl: return [self.prim(TESTS)]
            if r < .9:
                a = self.prim(ACTIONS)
                return [a]
            return [self.prim(OPTIONS)]
        if r < .5: return [["("]] + self.expr(d - 1, excl) + [[")"]]
        if r < .6: return [[rng.choice(["!", "-not"])]] + self.atom(d - 1, excl)
        if r < .75: return self.atom(d - 1, excl) + ([[rng.choice(["-a", "-and"])]] if rng.random() < .5 else []) + self.atom(d - 1, excl)
        if r < .87: return self.atom(d - 1, excl) + [[rng.choice(["-o", "-or"])]] + self.atom(d - 1, excl)
        if r < .93: return self.atom(d - 1, excl) + [[","]] + self.atom(d - 1, excl)
        if excl: return [self.prim(TESTS)]
        return [["-exclude"]] + self.exatom(d - 1)
    def atom(self, d, excl):
        e = self.expr(d, excl)
        return e if len(e) == 1 else [["("]] + e + [[")"]]
    def exatom(self, d):
        return self.atom(d, True)

def build(c, rng):
    os.chdir(c.dir)
    os.mkdir("t"); open("t/a", "w").close(); os.mkdir("t/d"); open("t/d/b", "w").write("x"); os.symlink("a", "t/l"); os.symlink("no", "t/k")
    open("mark", "w").write("#!/bin/sh\n: > marked\n"); os.chmod("mark", 0o755)
    for root, ds, fs in os.walk("."):
        os.chmod(root, 0o777)
    os.chmod(".", 0o777)

def tree_state():
    out = []
    for root, ds, fs in os.walk(b"t"):
        for p in [root] + [root + b"/" + n for n in fs + ds]:
            st = os.lstat(p); out.append((p, st.st_mode, st.st_size, st.st_mtime_ns, st.st_ctime_ns))
    return sorted(set(out))

def flat(seq): return [a for x in seq for a in x]

def ends_ambiguously(x):
    """-exit and -depth take an optional number."""
    return x[0] in ("-exit", "-depth") and len(x) == 1

def case(c):
    rng = c.rng
    build(c, rng)
    state = tree_state()
    for _ in range(5):
        for f in os.listdir("."):
            if f.startswith("out") or f == "marked": os.unlink(f)
        g = Gen(c, rng)
        flags = [g.prim(FLAGS) for _ in range(rng.choice([0, 0, 1, 2]))]
        body = g.expr(rng.choice([0, 1, 2, 3, 4]))
        if rng.random() < .35: valid(c, rng, g, flags, body)
        else: invalid(c, rng, g, flags, body, state)

def valid(c, rng, g, flags, body):
    argv = flat(flags) + ["t"] + flat(body)
    if rng.random() < .2: argv = flat(flags) + flat(body) + ["t"]; 
    r = c.bfs(argv)
    if r.rc or r.err:
        # a command that reports false from `-exec ... +` or unreadable metadata is not a rejection; nothing here does
        raise Violation("rejected", "valid command line: rc=%d %r: %s" % (r.rc, r.err[-400:], shq(r.argv)))
    for u in g.used: c.seen("valid", *u)
    c.count("valid command lines"); c.sample(shq(argv)[:200])

def invalid(c, rng, g, flags, body, state):
    kind = rng.choice(["unknown", "arg", "arg", "arg", "arg", "noarg", "struct", "struct", "exclude", "conflict"])
    pos = rng.randrange(len(body) + 1)
    what = kind
    # actions that would show if anything were visited
    pre = [["-print"], [","], ["-exec", "./mark", ";"], [","]] + rng.choice([[], [["-delete"], [","]], [["-printf", "%p\\n"], [","]]])
    post = []
    if kind == "unknown":
        u = rng.choice(UNKNOWN); what = u
        mut = [["("]] + body + [[")"]]
        i = rng.randrange(2)
        mut = [[u]] + mut if i else mut + [[u]]
        if rng.random() < .3: flags, pre, mut = flags + [[u]], pre, body
    elif kind == "arg":
        tab = rng.choice([TESTS, TESTS, ACTIONS, OPTIONS, FLAGS])
        n = rng.choice([k for k in tab if tab[k][1]])
        bad = [n] + [g.subst(a) for a in rng.choice(tab[n][1])]
        what = shq(bad)
        if n in ("-exec", "-execdir"): mut = body + [bad]     # an unterminated command swallows what follows
        else: mut = rng.choice([[bad] + body, [["("]] + body + [[")"], bad], body + [["-o"], bad]])
    elif kind == "noarg":
        tab = rng.choice([TESTS, ACTIONS, OPTIONS, FLAGS])
        n = rng.choice([k for k in tab if not any(a == [] for a in tab[k][0]) and k != "-depth" and k != "-O"])
        what = n
        need = min(len(a) for a in tab[n][0])
        k = rng.randrange(need)
        mut = body + [[n] + (["out9"] if n == "-fprintf" and k else [])]
        if n in ("-exec", "-execdir"): mut = body + [[n, "/bin/true"]]
    elif kind == "struct":
        e = [["("]] + body + [[")"]]
        mut, what = rng.choice([
            (e + [["-o"]], "trailing -o"), (e + [["-a"]], "trailing -a"), (e + [[","]], "trailing ,"), (e + [["!"]], "trailing !"), (e + [["-not"]], "trailing -not"),
            ([["("]] + e, "missing )"), (e + [[")"]], "extra )"), (e + [["("], [")"]], "empty ()"), (e + [["-o"], ["-o"]] + e, "-o -o"), (e + [["-a"], ["-o"]] + e, "-a -o"),
            (e + [["-o"], [","]] + e, "-o ,"), ([["("], ["-o"]] + e + [[")"]], "leading -o"), ([["("], ["-a"]] + e + [[")"]], "leading -a"), (e + [["!"], [")"]], "! )"), (e + [["("]], "trailing ("),
            (e + [["-o"], [")"]], "-o )"), ([["!"], ["-o"]] + e, "! -o"), (e + [[","], [","]] + e, ", ,"), (e + [["-exclude"]], "trailing -exclude")])
    elif kind == "exclude":
        mut, what = rng.choice([
            ([["-exclude"], ["-print"]] , "action in -exclude"), ([["-exclude"], ["("], ["-name", "x"], ["-delete"], [")"]], "-delete in -exclude"),
            ([["-exclude"], ["("], ["-name", "x"], ["-o"], ["-exclude"], ["-name", "y"], [")"]], "nested -exclude"), ([["-exclude"], ["-exec", "./mark", ";"]], "-exec in -exclude"),
            ([["-exclude"], [")"]], "-exclude )"), ([["-exclude"], ["-o"], ["-name", "x"]], "-exclude -o"), ([["-exclude"], ["-prune"]], "-prune in -exclude")])
        mut = body + [["-a"]] + mut if len(body) == 1 else [["("]] + body + [[")"]] + mut
    else:
        mut, what = rng.choice([
            ([["-files0-from", "-"]], "-files0-from with paths"), ([["-ok", "/bin/true", ";"], ["-ok", "/bin/true", ";"]], "two -ok"), ([["-limit", "0"]], "-limit 0"),
            ([["-execdir", "true", ";"]], "relative PATH")])
        mut = [["("]] + body + [[")"]] + mut
    if kind == "conflict" and what == "relative PATH": env = {"PATH": rng.choice(["bin:/bin:/usr/bin", "/bin:", "/bin:/usr/bin:.", "/bin::/usr/bin", ":/bin", "", ".", "/bin:..", ":", "/bin:/usr/bin:~/bin"])}
    else: env = {}
    if rng.random() < .2 and kind not in ("arg", "noarg"): post = ["t"]
    argv = flat(flags) + ([] if post else ["t"]) + flat(pre) + flat(mut) + post
    # -j etc. accept the next word as their value: keep the flags valid
    r = c.bfs(argv, env=env)
    bad = None
    if r.rc <= 0 or r.rc > 125: bad = "accepted (rc=%d)" % r.rc
    elif not r.err.strip(): bad = "rejected without a diagnostic"
    elif r.out: bad = "rejected, but only after writing %r" % r.out[:200]
    elif os.path.exists("marked"): bad = "rejected, but a command was executed"
    elif tree_state() != state: bad = "rejected, but files were changed"
    if bad: raise Violation("invalid", "%s (%s) %s, stderr %r: %s" % (kind, what, bad, r.err[-300:], shq(r.argv)))
    c.seen("invalid", kind, what, len(mut)); c.count("invalid command lines"); c.count("  " + kind)
