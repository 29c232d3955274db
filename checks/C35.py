"""C35: on a terminal, doubtful command lines run only after an affirmative answer."""
import trav, term
from trav import *
PROP, LEVEL = "C35", "exploration"
CASES = {"quick": 500, "thorough": 15000}
RULE = "each (kind of doubt, guessed argument or warning, answers, actions) whose outcome was checked counts once"
TECHNIQUE = ("runtime monitoring: bfs runs on a pseudo-terminal with typed-ahead answers; the prompts it shows, the commands it runs, the files it deletes, its output and its "
             "status are compared with the answers given and with the same (corrected) command line run without a terminal")
VARIANTS = ("plain", "asan")
YES = [b"y", b"Y", b"yes", b"YES", b"Yes please", b"y y"]
NO = [b"n", b"N", b"no", b"", b" y", b"x", b"1", b"maybe", b"ok", b"oui", b"\xff", b"ny", b"t"]
PROMPT = re.compile(rb"did you mean (\S+)\? |Do you want to continue\? ", re.S)

def typo(rng, s):
    """A misspelling of a primary's name."""
    for _ in range(50):
        k = rng.random()
        i = rng.randrange(1, len(s))
        if k < .3 and len(s) > 3: t = s[:i] + s[i + 1:]
        elif k < .6: t = s[:i] + rng.choice("aeiouxz") + s[i:]
        elif i + 1 < len(s): t = s[:i] + s[i + 1] + s[i] + s[i + 2:]
        else: continue
        if t != s and t.startswith("-") and len(t) > 3 and t not in KNOWN and not re.match(r"-(newer|[ODSj])", t) and not re.match(r"-[EHLPXdsx]+$", t): return t
    return None

def names(env):
    r = run([env.bins["plain"], "--help"])
    return set(re.findall(r"(?<![\w-])-[A-Za-z0-9_]+", r.out.decode("utf8", "replace")))

def setup(env):
    global KNOWN
    trav.setup(env)
    KNOWN = names(env) | {"-a", "-o", "-d", "-not", "-and", "-or", "-exclude"}

def log_cmd(): return ["-exec", "sh", "-c", 'printf "%s\\0" "$1" >> log', "sh", "{}", ";"]

class Sc:
    """A scenario: command line (without the program) and whether a prompt is due."""
    def __init__(self, rng, files):
        self.rng = rng
        n = lambda: rng.choice(["*", "*a*", "f*", "*.c", "[a-m]*", "nothing"])
        test = lambda: rng.choice([["-name", n()], ["-type", rng.choice("fdl")], ["-empty"], ["-path", "*" + n()], ["-links", "1"], ["-user", "root"], ["-perm", "-u+r"], ["-size", "-1k"]])
        act = rng.choice([["-delete"], ["-delete"], log_cmd(), log_cmd(), ["-print0"], ["-printf", "%p\\0"], ["-delete", "-print0"], log_cmd() + ["-print0"]])
        danger = "-delete" in act or "-exec" in act
        self.glob = rng.choice([[], [], ["-maxdepth", "2"], ["-mindepth", "1"]])
        self.prompts = None          # None: any number
        self.typo = None
        self.kind = rng.choice(["clean", "typo", "typo", "typo", "ignored", "ignored", "prune"])
        self.toks = test() + act
        if self.kind == "typo":
            # -- misspell one of the primaries
            idx = [i for i, t in enumerate(self.toks) if t in ("-name", "-type", "-empty", "-path", "-links", "-user", "-perm", "-size", "-delete", "-exec", "-print0", "-printf")]
            i = rng.choice(idx)
            t = typo(rng, self.toks[i])
            if t is None: self.kind = "clean"
            else:
                self.typo, self.at = self.toks[i], i
                self.toks[i] = t
                self.prompts = 1
        elif self.kind == "ignored":
            # a test whose result nobody looks at
            self.toks = test() + act + test()
            self.prompts = 1 if danger else 0
        elif self.kind == "prune":
            self.toks = test() + ["-prune", "-o"] + act
            self.depth = "-delete" in act
            if not self.depth and rng.random() < .5: self.glob = self.glob + ["-depth"]; self.depth = True
            self.prompts = 1 if self.depth else 0
        if self.kind == "clean" and "-delete" not in act and not self.glob: self.prompts = 0

def fresh(c, k):
    d = os.path.join(c.dir, "r%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    subprocess.run(["cp", "-a", "t", d + "/t"], check=True)
    subprocess.run(["chown", "-hR", "%d:%d" % (UID, GID), d], check=True)
    return d

def effects(d, out):
    log = b""
    if os.path.exists(d + "/log"): log = open(d + "/log", "rb").read()
    return collections.Counter(re.split(b"[\\0\n]", out)), collections.Counter(log.split(b"\0")), snapshot((d + "/t").encode())

def case(c):
    rng = c.rng
    os.chdir(c.dir)
    mktree(c, rng.choice([4, 10, 25]), special=False)
    files, _ = walk([b"t"])
    for k in range(3): one(c, rng, files, k)

def one(c, rng, files, k):
    sc = Sc(rng, files)
    variant = rng.choice(["plain", "plain", "asan"])
    ans = [rng.choice(YES if rng.random() < .6 else NO) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    warn = rng.choice([[], [], ["-warn"], ["-nowarn"]])
    argv = rng.choice([[], ["-j1"], ["-s"], ["-S", "dfs"], ["-O%d" % rng.randrange(4)]]) + ["t"] + sc.glob + warn
    argv += sc.toks
    if sc.typo: sc.at += len(argv) - len(sc.toks)
    d = fresh(c, 0)
    before = effects(d, b"")
    loc = rng.choice(["C.UTF-8", "C", "C.UTF-8"])
    r = term.run_tty(c, argv, ans, cwd=d, variant=variant, env={"LC_ALL": loc})
    got = effects(d, r.out)
    text = re.sub(rb"\x1b\[[0-9;]*[mK]", b"", r.err)
    shown = list(PROMPT.finditer(text))
    what = "%s, answers %r, terminal %r" % (shq(r.argv), ans, text[-400:])
    yes = []
    for i in range(len(shown)):
        a = ans[i] if i < len(ans) else None
        yes.append(a is not None and a[:1] in (b"y", b"Y"))
    guess = [m.group(1) for m in shown if m.group(1)]
    c.count("prompts", len(shown))
    def nothing(key):
        if got != before: raise Violation(key, "something was done although the question was not answered with yes: output %r, commands %r, files gone %r: %s" % (
            list(got[0])[:3], list(got[1])[:3], sorted(set(before[2]) - set(got[2]))[:3], what))
        if r.rc == 0: raise Violation("status", "declined, but the exit status is 0: %s" % what)
    if "-nowarn" not in warn and not (sc.kind == "ignored" and "-O0" in argv):
        if sc.typo and not shown and rb"did you mean" not in text: raise Violation("unasked", "no question about %r: %s" % (sc.toks, what))
        if sc.kind == "prune" and sc.depth and not shown: raise Violation("unasked", "no question about -prune along with -depth: %s" % what)
        # (the optimizer finds these)
        if sc.kind == "ignored" and sc.prompts and not {"-O0", "-O1"} & set(argv) and not shown: raise Violation("unasked", "no question about a test after the actions: %s" % what)
    if sc.typo and not shown:
        nothing("unasked"); c.count("rejected without asking"); return
    if not all(yes):
        # a question after a declined one is never shown
        if False in yes[:-1]: raise Violation("continued", "went on after a question was declined: %s" % what)
        nothing("declined")
        c.count("declined")
        c.seen(sc.kind, tuple(t for t in sc.toks), tuple(yes), tuple(warn))
        return
    if len(guess) > 1:
        # what follows the guessed primary was doubtful, too
        c.count("several guesses"); return
    # confirmed (or nothing to ask): the same as the corrected command line without a terminal
    fixed = list(argv)
    if sc.typo: fixed[sc.at] = guess[0].decode()
    d2 = fresh(c, 1)
    r2 = c.bfs(fixed, cwd=d2, env={"LC_ALL": loc})
    want = effects(d2, r2.out)
    if (got, r.rc) != (want, r2.rc):
        raise Violation("effects", "confirmed on a terminal, but the result differs from %s (status %d, %d): only there %r, only here %r: %s" % (
            shq(fixed), r2.rc, r.rc, [list((a - b).items())[:3] if isinstance(a, collections.Counter) else sorted(set(a) - set(b))[:3] for a, b in zip(want, got)],
            [list((b - a).items())[:3] if isinstance(a, collections.Counter) else sorted(set(b) - set(a))[:3] for a, b in zip(want, got)], what))
    # without a terminal a misspelling is an error
    if sc.typo:
        d3 = fresh(c, 2)
        r3 = c.bfs(argv, cwd=d3, stdin=b"y\n" * 3, env={"LC_ALL": loc})
        if effects(d3, r3.out) != before or r3.rc == 0: raise Violation("noninteractive", "misspelled %r was accepted without a terminal: %s" % (sc.typo, shq(r3.argv)))
        c.count("guesses followed")
        c.count("guessed the intended primary", guess[0].decode() == sc.typo)
    elif shown: c.count("warnings confirmed")
    c.count("confirmed" if shown else "nothing to ask")
    c.seen(sc.kind, tuple(sc.toks), tuple(yes), tuple(warn))
    c.sample("%s -> %d prompts, answers %r" % (shq(r.argv[1:]), len(shown), ans[:len(shown)]))
