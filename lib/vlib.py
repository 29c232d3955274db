"""Core of the runtime-monitoring framework: builds of /repo's working tree,
scratch space, a process runner with watchdog, parallel case execution,
violations, known findings and evidence."""
import ctypes, hashlib, importlib, json, multiprocessing, os, random, resource, shutil
import re, signal, stat, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
NPROC = min(8, os.cpu_count() or 1)
UID = GID = 54321          # unprivileged identity used to run bfs

class Violation(Exception):
    def __init__(self, key, msg, **detail):
        super().__init__(msg)
        self.key, self.msg, self.detail = key, msg, detail
    def __reduce__(self):
        return (_mkviol, (self.key, self.msg, self.detail))
def _mkviol(k, m, d): return Violation(k, m, **d)

class Inconclusive(Exception): pass
class HarnessError(Exception): pass

# ---------------------------------------------------------------- builds
VARIANTS = {
    "plain":   ["CC=gcc"],
    "release": ["CC=gcc", "--enable-release"],
    "nouring": ["CC=gcc", "--without-liburing"],
    "noonig":  ["CC=gcc", "--without-oniguruma"],
    "asan":    ["CC=clang", "--enable-asan", "--enable-ubsan"],
    "msan":    ["CC=clang", "--enable-msan", "--without-libacl", "--without-libcap", "--without-libselinux", "--without-liburing", "--without-oniguruma"],
    "tsan":    ["CC=clang", "CFLAGS=-fsanitize=thread -g", "LDFLAGS=-fsanitize=thread", "--without-libacl", "--without-libcap", "--without-libselinux", "--without-oniguruma"],
    "tsannouring": ["CC=clang", "--enable-tsan", "--without-liburing"],
}
PARTS = ["src", "build", "Makefile", "configure", "tests", "bench", "docs", "completions"]

def _clean_env():
    env = {k: v for k, v in os.environ.items()
           if k not in ("MAKEFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS", "CC", "MAKE", "VERSION", "LD_PRELOAD")}
    env["LC_ALL"] = "C.UTF-8"
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return env

def tree_hash():
    h = hashlib.sha256()
    for part in ["src", "build", "Makefile", "configure", "tests"]:
        top = os.path.join(REPO, part)
        if os.path.isfile(top):
            files = [top]
        else:
            files = []
            for d, ds, fs in os.walk(top):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if part == "tests" and not f.endswith((".c", ".h")):
                continue
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fp:
                h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:16]

def build(variant, targets=("bin/bfs",)):
    """Build a variant from /repo's current working tree; returns its directory.
    The result is cached under the content hash of all sources."""
    key = "%s-%s" % (tree_hash(), variant)
    dest = os.path.join(CACHE, key)
    if os.path.exists(os.path.join(dest, ".ok")):
        os.utime(dest)
        return dest
    os.makedirs(CACHE, exist_ok=True)
    old = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE)), key=os.path.getmtime)
    for d in old[:-14]:
        if time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=CACHE)
    try:
        for part in PARTS:
            s = os.path.join(REPO, part)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(tmp, part), symlinks=True)
            elif os.path.exists(s):
                shutil.copy2(s, os.path.join(tmp, part))
        env = _clean_env()
        env["MAKEFLAGS"] = "-j%d" % NPROC
        log = open(os.path.join(tmp, "build.log"), "wb")
        r = subprocess.run(["./configure"] + VARIANTS[variant], cwd=tmp, env=env, stdin=subprocess.DEVNULL,
                           stdout=log, stderr=log)
        if r.returncode == 0:
            del env["MAKEFLAGS"]
            r = subprocess.run(["make", "-j%d" % NPROC] + list(targets), cwd=tmp, env=env,
                               stdin=subprocess.DEVNULL, stdout=log, stderr=log)
        log.close()
        if r.returncode != 0:
            with open(os.path.join(tmp, "build.log"), "rb") as f:
                sys.stderr.write(f.read()[-3000:].decode("utf8", "replace"))
            raise HarnessError("build of variant %s failed" % variant)
        open(os.path.join(tmp, ".ok"), "w").close()
        try:
            os.rename(tmp, dest)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        return dest
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise

# ---------------------------------------------------------------- scratch
class Scratch:
    def __init__(self):
        self.base = tempfile.mkdtemp(prefix="vp-", dir="/tmp")
        os.chmod(self.base, 0o755)
        try:
            self.shm = tempfile.mkdtemp(prefix="vp-", dir="/dev/shm")
            os.chmod(self.shm, 0o755)
        except OSError:
            self.shm = None
    def close(self):
        for d in (self.base, self.shm):
            rmtree(d)

def rmtree(d):
    if d and (d.startswith("/tmp/vp-") or d.startswith("/dev/shm/vp-")):
        subprocess.run(["rm", "-rf", "--one-file-system", "--", d], stdin=subprocess.DEVNULL,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

# ---------------------------------------------------------------- running
class Result:
    __slots__ = ("rc", "out", "err", "argv")
    def __init__(self, rc, out, err, argv):
        self.rc, self.out, self.err, self.argv = rc, out, err, argv

class Hang(Exception):
    def __init__(self, argv, verdict, info):
        super().__init__("%s: %r" % (verdict, argv))
        self.argv, self.verdict, self.info = argv, verdict, info

def _diagnose(pid, helper=False):
    """Is a process that exceeded its watchdog stuck (all threads asleep without
    progress), spinning, or still making progress?"""
    def snap():
        res = {}
        try:
            tids = os.listdir("/proc/%d/task" % pid)
        except OSError:
            return None
        for t in tids:
            try:
                with open("/proc/%d/task/%s/stat" % (pid, t)) as f:
                    s = f.read()
                s = s[s.rindex(")") + 2:].split()
                with open("/proc/%d/task/%s/status" % (pid, t)) as f:
                    st = f.read()
                sw = [l.split()[1] for l in st.splitlines() if "ctxt_switches" in l]
                res[t] = (s[0], int(s[11]) + int(s[12]), tuple(sw))
            except (OSError, ValueError):
                pass
        return res
    a = snap()
    time.sleep(3)
    b = snap()
    if not a or not b:
        return "unknown", repr((a, b))
    if helper:
        # ThreadSanitizer's own thread, the first one created, wakes up regularly
        own = sorted(int(t) for t in b if int(t) != pid)[:1]
        a, b = ({t: v for t, v in x.items() if int(t) not in own} for x in (a, b))
    if a == b and all(v[0] in "StD" for v in b.values()):
        return "deadlock", repr(b)
    ticks = sum(v[1] for v in b.values())
    if ticks > 1500:
        return "spin", repr(b)
    return "unknown", repr(b)

BASE_ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "TZ": "UTC0"}

_libc = ctypes.CDLL(None)

def run(argv, cwd=None, env=None, stdin=b"", timeout=40, user=True, nofile=None, stack=None,
        umask=0o022, stdout=None, stderr=None, preexec=None, pass_fds=(), fsize=None, hang_ok=False):
    e = dict(BASE_ENV)
    if env:
        for k, v in env.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
    def pre():
        os.umask(umask)
        if nofile is not None:
            resource.setrlimit(resource.RLIMIT_NOFILE, nofile if isinstance(nofile, tuple) else (nofile, nofile))
        if stack is not None:
            resource.setrlimit(resource.RLIMIT_STACK, (stack, resource.RLIM_INFINITY))
        if fsize is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if preexec:
            preexec()
        if user:
            os.setgroups([])
            os.setresgid(GID, GID, GID)
            os.setresuid(UID, UID, UID)
        _libc.prctl(1, int(signal.SIGKILL), 0, 0, 0)     # PR_SET_PDEATHSIG: never outlive the check
    kw = {}
    if isinstance(stdin, bytes):
        if stdin:
            kw["stdin"] = subprocess.PIPE
        else:
            kw["stdin"] = subprocess.DEVNULL
    else:
        kw["stdin"] = stdin
    p = subprocess.Popen(argv, cwd=cwd, env=e, preexec_fn=pre, start_new_session=True,
                         stdout=subprocess.PIPE if stdout is None else stdout,
                         stderr=subprocess.PIPE if stderr is None else stderr,
                         pass_fds=pass_fds, **kw)
    try:
        out, err = p.communicate(stdin if isinstance(stdin, bytes) and stdin else None, timeout=timeout)
    except subprocess.TimeoutExpired:
        verdict, info = _diagnose(p.pid, "tsan" in os.path.basename(os.fsdecode(argv[0])) or any("tsan" in os.path.basename(os.fsdecode(x)) for x in argv[:5]))
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.kill()
        p.communicate()
        raise Hang(argv, verdict, info)
    return Result(p.returncode, out, err, argv)

def shq(argv):
    import shlex
    out = []
    for a in argv:
        if isinstance(a, bytes):
            try:
                a = a.decode("ascii")
                if a.isprintable():
                    out.append(shlex.quote(a)); continue
            except UnicodeDecodeError:
                pass
            b = a if isinstance(a, bytes) else a.encode()
            out.append("$'" + "".join(chr(c) if 32 <= c < 127 and c not in b"'\\" else "\\x%02x" % c for c in b) + "'")
        else:
            out.append(shlex.quote(str(a)))
    return " ".join(out)

# ---------------------------------------------------------------- cases
class Env:
    """State shared by all cases of one check run (set up before the workers fork)."""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = Scratch()
        self.bins, self.dirs = {}, {}
        self.bindir = os.path.join(self.scratch.base, "bin")
        os.mkdir(self.bindir, 0o755)
        self.data = {}
    def want(self, variant):
        d = build(variant)
        self.dirs[variant] = d
        b = os.path.join(self.bindir, "bfs-" + variant)
        shutil.copy2(os.path.join(d, "bin/bfs"), b)
        os.chmod(b, 0o755)
        self.bins[variant] = b
        return b
    def cc(self, name, sources, flags=(), shared=False, cc="gcc"):
        """Compile a helper of ours into the scratch directory."""
        out = os.path.join(self.bindir, name)
        cmd = [cc, "-O1", "-g", "-w", "-o", out] + (["-shared", "-fPIC"] if shared else []) \
            + [os.path.join(VERIF, "lib", s) if not s.startswith("/") else s for s in sources] + list(flags)
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_clean_env())
        if r.returncode:
            raise HarnessError("helper %s: %s" % (name, r.stdout.decode()[-2000:]))
        os.chmod(out, 0o755)
        return out

    def harness(self, name, source, variant, flags=()):
        """Link a C driver of ours with the objects of a build of /repo.  Returns None
        if bfs's internal interface no longer has the shape the driver expects: that
        is not a verdict, and the caller falls back on whole-program observation."""
        import glob, re
        d = build(variant)
        cc = [f for f in VARIANTS[variant] if f.startswith("CC=")][0][3:]
        san = {"asan": "-fsanitize=address,undefined", "tsan": "-fsanitize=thread", "tsannouring": "-fsanitize=thread",
               "msan": "-fsanitize=memory"}.get(variant)
        libs = []
        for f in ("pkgs.mk", "flags.mk"):
            try:
                libs += re.findall(r"(?<!\S)-l\w+", open(os.path.join(d, "gen", f)).read())
            except OSError:
                pass
        objs = [o for o in sorted(glob.glob(os.path.join(d, "obj/src/*.o"))) if not o.endswith("/main.o")]
        out = os.path.join(self.bindir, name)
        cmd = [cc, "-std=c17", "-g", "-O1", "-w", "-I" + d + "/src", "-I" + d + "/gen", "-include", d + "/src/prelude.h",
               "-pthread", "-Wno-error", "-o", out] + ([san] if san else []) + list(flags) \
            + [os.path.join(VERIF, "lib", source)] + objs + libs
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_clean_env())
        if r.returncode:
            print("NOTE: driver %s does not build against this tree; falling back on whole-program observation" % source)
            if os.environ.get("VERIF_VERBOSE"):
                print(r.stdout.decode("utf8", "replace")[-3000:])
            return None
        os.chmod(out, 0o755)
        return out

class Case:
    def __init__(self, env, idx):
        self.env, self.idx = env, idx
        self.rng = random.Random("%s:%s:%s" % (env.seed, env.prop, idx))
        self.dir = os.path.join(env.scratch.base, "c%d" % idx)
        self.counts, self.distinct, self.samples, self.notes = {}, set(), [], []
        self.evals = 0
        self.bin = env.bins.get("plain")
    def shmdir(self):
        if not self.env.scratch.shm:
            return None
        d = os.path.join(self.env.scratch.shm, "c%d" % self.idx)
        os.makedirs(d, exist_ok=True)
        os.chmod(d, 0o755)
        return d
    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n
    def seen(self, *what):
        """Record a distinct non-trivial situation."""
        self.distinct.add(hashlib.md5(repr(what).encode()).hexdigest()[:12])
    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)
    def bfs(self, args, variant="plain", prefix=(), crash_ok=False, **kw):
        argv = list(prefix) + [self.env.bins[variant]] + list(args)
        self.evals += 1
        kw.setdefault("cwd", self.dir)
        e = kw.get("env") or {}
        if re.search("[sS]", e.get("VP_OLD", "")) and BTIME.search(" ".join(a if isinstance(a, str) else a.decode("latin1") for a in argv)):
            kw["env"] = dict(e, VP_OLD=re.sub("[sS]", "", e["VP_OLD"]))      # birth times only come from statx()
        for attempt in range(2):
            try:
                r = run(argv, **kw)
                break
            except Hang as h:
                self.count("watchdog")
                # (whoever computes may only be slow: it gets much more time before it counts as stuck)
                if h.verdict == "deadlock" or h.verdict == "spin" and attempt == 1:
                    raise Violation("hang", "bfs did not terminate (%s): %s" % (h.verdict, shq(argv)),
                                    threads=h.info, cwd=str(kw["cwd"]))
                if attempt == 1:
                    raise Inconclusive("watchdog: " + shq(argv))
                kw["timeout"] = max(150, kw.get("timeout", 40) * 3)
        if not crash_ok:
            self.check_crash(r, variant)
        return r
    def check_crash(self, r, variant="plain"):
        err = r.err or b""
        if r.rc is not None and r.rc < 0 and -r.rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
            raise Violation("crash", "bfs died with signal %d: %s" % (-r.rc, shq(r.argv)), stderr=err[-3000:].decode("utf8", "replace"))
        if variant == "tsan":
            # descriptors made or closed by the kernel ring are invisible to the detector,
            # so with the ring its descriptor-reuse reports mean nothing
            err = b"".join(b for b in err.split(b"==================") if b"Location is file descriptor" not in b)
        for pat in (b"ERROR: AddressSanitizer", b"ERROR: LeakSanitizer", b"runtime error:", b"WARNING: ThreadSanitizer"):
            if pat in err:
                raise Violation("sanitizer", "sanitizer report: %s" % shq(r.argv), stderr=err[:6000].decode("utf8", "replace"))

BTIME = re.compile(r" -(B|newerB|newer.B|anewerB)|%[-+ #0-9.]*[BwW]")

# ---------------------------------------------------------------- check driver
_ENV = _MOD = None

def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)

def _run_case(idx):
    env, mod = _ENV, _MOD
    last = None
    for attempt in range(2):
        c = Case(env, idx)
        rmtree(c.dir)
        try:
            os.makedirs(c.dir)
            os.chmod(c.dir, 0o755)
            mod.case(c)
            status, info = "ok", None
        except Violation as v:
            status, info = "violation", (v.key, v.msg, v.detail)
        except Inconclusive as e:
            status, info = "inconclusive", str(e)
        except Exception:
            status, info = "error", traceback.format_exc()
        finally:
            if not os.environ.get("VERIF_KEEP"):
                rmtree(c.dir)
            if env.scratch.shm:
                rmtree(os.path.join(env.scratch.shm, "c%d" % idx))
        if status not in ("error",):
            break
    return idx, status, info, c.counts, c.distinct, c.samples, c.evals

def load_known():
    known = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            if line.startswith("known:"):
                # known: property=<id> key=<key> <what fails>
                d = dict(kv.split("=", 1) for kv in line.split()[1:3])
                known.append((d["property"], d["key"], line.split(None, 3)[3] if len(line.split(None, 3)) > 3 else ""))
    return known

def main(argv):
    global _ENV, _MOD
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--case", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    mod = importlib.import_module(a.prop)
    t0 = time.time()
    env = Env(a.prop, a.tier, a.seed)
    def onterm(sig, frame):
        raise SystemExit(2)
    signal.signal(signal.SIGTERM, onterm)
    pool = None
    try:
        os.umask(0o022)
        try:
            for v in getattr(mod, "VARIANTS", ("plain",)):
                env.want(v)
            if hasattr(mod, "setup"):
                mod.setup(env)
        except HarnessError as e:
            print("ERROR: %s" % e)
            return 2
        _ENV, _MOD = env, mod
        n = a.cases or mod.CASES[a.tier]
        idxs = [a.case] if a.case is not None else list(range(n))
        budget = 600 if a.tier == "quick" else 3 * 3600
        counts, distinct, samples, evals = {}, set(), [], 0
        viols, incon, errors, done = [], [], [], 0
        known = load_known()
        ctx = multiprocessing.get_context("fork")
        procs = min(getattr(mod, "PROCS", NPROC), max(1, len(idxs)))
        pool = ctx.Pool(procs, initializer=_worker_init)
        chunk = 1 if len(idxs) < 400 else 4
        for idx, status, info, cn, ds, sm, ev in pool.imap_unordered(_run_case, idxs, chunk):
            done += 1
            for k, v in cn.items():
                counts[k] = counts.get(k, 0) + v
            distinct |= ds
            if len(samples) < 6:
                samples += sm
            evals += ev
            if status == "violation":
                viols.append((idx,) + info)
                if any(x[:2] == (a.prop, info[0]) for x in known):
                    continue
                if not a.keep_going or len(viols) > 50:
                    break
            elif status == "inconclusive":
                incon.append((idx, info))
            elif status == "error":
                errors.append((idx, info))
                if len(errors) > 5:
                    break
            if time.time() - t0 > budget:
                break
        pool.terminate(); pool.join(); pool = None
        if not [v for v in viols if not any(x[:2] == (a.prop, v[1]) for x in known)] and hasattr(mod, "finish") and a.case is None:
            try:
                mod.finish(env, counts)
            except Violation as v:
                viols.append((-1, v.key, v.msg, v.detail))
        real, rc, said = [], 0, set()
        for v in sorted(viols, key=lambda v: v[0]):
            k = [x for x in known if x[0] == a.prop and x[1] == v[1]]
            if k:
                if v[1] not in said: print("KNOWN-FINDING: property=%s %s" % (a.prop, k[0][2]))
                said.add(v[1])
            else:
                real.append(v)
        for idx, key, msg, detail in real:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", "%s-%d-%s.json" % (a.prop, a.seed, idx))
            with open(rp, "w") as f:
                json.dump({"property": a.prop, "seed": a.seed, "tier": a.tier, "case": idx, "key": key, "message": msg,
                           "replay": "VERIF_SEED=%d VERIF_TIER=%s python3 lib/run.py %s --case %d" % (a.seed, a.tier, a.prop, idx),
                           "detail": detail}, f, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (a.prop, rp))
            if real.index((idx, key, msg, detail)) < 4:
                print("  " + msg[:900])
            rc = 1
        wall = time.time() - t0
        nontrivial = len(distinct)
        if not rc:
            for idx, info in errors[:3]:
                print("ERROR in case %d:\n%s" % (idx, info))
            if errors:
                rc = 2
            elif len(incon) > max(2, done // 20):
                print("INCONCLUSIVE: %d of %d cases, e.g. %s" % (len(incon), done, incon[0]))
                rc = 2
            elif evals == 0 or nontrivial == 0:
                print("ERROR: nothing observed")
                rc = 2
        if a.case is None:
            ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
                  "level": mod.LEVEL,
                  "coverage": {"evaluations": evals, "distinct_nontrivial": nontrivial, "rule": mod.RULE,
                               "samples": samples[:6] or ["none"], "cases": done, "observed": counts,
                               "inconclusive": len(incon), "planned_cases": len(idxs)},
                  "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
                  "wall_s": round(wall, 2), "violations": len(real)}
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1, default=repr)
        print("%s %s: %d cases, %d executions, %d distinct non-trivial, %d inconclusive, %.1fs%s" % (
            a.prop, a.tier, done, evals, nontrivial, len(incon), wall,
            "" if rc else " - held on everything observed"))
        if os.environ.get("VERIF_VERBOSE"):
            print(json.dumps(counts, indent=1, sort_keys=True))
        return rc
    finally:
        if pool:
            pool.terminate()
        if not os.environ.get("VERIF_KEEP"):
            env.scratch.close()
