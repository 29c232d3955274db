"""C13: -exec ... ; and -ok."""
from execs import *
PROP, LEVEL = "C13", "exploration"
CASES = {"quick": 700, "thorough": 15000}
RULE = "each executed expression whose commands ran for some but not all files counts once (tree x expression)"
TECHNIQUE = "runtime monitoring: recorder program logs every execution (argv, output already visible); offline checker against the reference model"

class Sink:
    def __init__(self, path): self.path = path

def case(c):
    rng = c.rng
    if rng.random() < .12: return faulty(c)
    ok = rng.random() < .2
    w, roots = small_world(c, rng.choice([4, 8, 15]), follow="P", names="plain" if ok else "mixed")
    os.makedirs("pd/rec")
    with open("pd2", "w"): pass
    os.symlink(c.env.data["rec"], "rec")
    if rng.random() < .3: roots = [f.path for f in rng.sample(w.files, min(3, len(w.files))) if not f.path.startswith(b"-") and f.depth] or roots
    roots = [p for p in roots if not any(p != q and p.startswith(q + b"/") for q in roots)]
    if rng.random() < .1: os.chdir("t"); roots = [b"."]
    cwd = os.getcwd()
    w = World(walk(roots, "P")[0]); w.follow = "P"
    for _ in range(3): one(c, rng, w, roots, cwd, ok)

def one(c, rng, w, roots, cwd, ok):
    nsink = rng.choice([0, 1, 2])
    sinks = [c.dir + "/out"] + [c.dir + "/sink%d" % i for i in range(nsink)]
    for s in sinks:
        with open(s, "wb"): pass
        os.chmod(s, 0o666)
    log = newreclog(c)
    env = {"REC_LOG": log, "REC_WATCH": ":".join(sinks[1:])}
    n = {"e": 0, "p": 0}
    execs, answers, state = {}, {}, {"bad": 0, "sig": 0}
    def leaf():
        r = rng.random()
        if r < .35 and n["e"] < 4:
            k = n["e"]; n["e"] += 1
            tmpl = gen_tmpl(rng)
            if ok and b"{}" not in tmpl: tmpl = tmpl + [b"{}"]
            modes = rng.choice(["", "x0", "x1", "h2", "h3", "x255", "k9" if rng.random() < .3 else "h2", "k15" if rng.random() < .3 else ""])
            cmd, bad = c.env.data["rec"].encode(), False
            q = rng.random()
            if q < .15: cmd = b"rec"; env["PATH"] = rng.choice(["/nonexistent:%s:/usr/bin", "%s", "/usr/bin:/bin:%s/.:", "/usr:%s", c.dir + "/pd:%s", c.dir + "/pd2:%s"]) % c.env.bindir
            elif q < .25: cmd = os.path.relpath(c.dir.encode() + b"/rec", cwd.encode()); cmd = cmd if b"/" in cmd else b"./" + cmd
            elif q < .3: cmd, bad = rng.choice([b"/nonexistent/cmd", b"nosuchcommand", b"./nosuch", b"/etc/passwd", b"/tmp", b"/etc/passwd/x", b""]), True
            ident = "%d:%s" % (k, modes)
            use_ok = ok and not bad and not n.get("ok"); n["ok"] = n.get("ok") or use_ok
            def fn(f, ctl, k=k, tmpl=tmpl, modes=modes, bad=bad, use_ok=use_ok, cmd=cmd, ident=ident):
                if use_ok:
                    key = b" ".join([cmd, ident.encode()] + expand(tmpl, f.path)) + b" ? "
                    state.setdefault("asked", []).append(key)
                    if not answers.get(key, [False])[0]: return False
                if bad:
                    ctl.events.append(("bad", f.path)); state["bad"] += 1
                    return False
                args = expand(tmpl, f.path)
                ctl.events.append((("x", k), f.path))
                execs.setdefault(f.path, []).append((k, args))
                st = exit_status(modes, args)
                if st < 0: state["sig"] += 1
                return st == 0
            return Act([b"-ok" if use_ok else b"-exec", cmd, ident.encode()] + tmpl + [b";"], None, fn=fn)
        if r < .6:
            i = n["p"]; n["p"] += 1
            s = rng.randrange(len(sinks))
            def fn(f, ctl, i=i, s=s):
                ctl.events.append((("p", i, s), f.path)); return True
            return Act((["-printf"] if s == 0 else ["-fprintf", sinks[s]]) + ["%d:%%p\\0" % i], None, fn=fn)
        return gen_test(rng, w, [t_name, t_path, t_type, t_hidden, t_depthn, t_const])
    e = gen_expr(rng, leaf, rng.choice([2, 3, 4, 5]))
    if not n["e"] and not n["p"]: e = Bin("and", e, Act(["-printf", "99:%p\\0"], None, fn=lambda f, ctl: ctl.events.append((("p", 99, 0), f.path)) or True))
    flags, opts = traversal_opts(rng)
    env["LD_PRELOAD"] = c.env.data["shim"]
    if rng.random() < .3: env["VP_DELAY"] = "%d:200:100" % rng.randrange(1, 1 << 30)
    stdin, yes = b"", []
    if ok:
        yes = [rng.random() < .6 for _ in range(400)]
        stdin = b"".join((rng.choice([b"y\n", b"Y\n", b"yes\n", b"yup\n"]) if y else rng.choice([b"n\n", b"\n", b"no\n", b" y\n", b"0\n", b"maybe\n"])) for y in yes)
        cut = rng.random() < .2
        if cut:
            yes = yes[:5]; stdin = b"\n".join(stdin.split(b"\n")[:5]) + b"\n"
    argv = roots_and_expr(rng, [b"-f", roots[0]] + [x for r in roots[1:] for x in (b"-f", r)] if any(r.startswith(b"-") for r in roots) else roots, e.tokens(rng))
    argv = flags + list(argv)
    with open(sinks[0], "wb") as out:
        r = c.bfs(argv, env=env, cwd=cwd, stdin=stdin, stdout=out)
    what = shq(r.argv)
    if ok:
        # the transcript: prompts in order, answered by the lines of standard input
        text = re.sub(rb"bfs-plain: (error|warning): [^\n]*\n", b"", r.err)
        if any(b" ? " in f.path or b"\n" in f.path or b"?" in f.path for f in w.files): raise Inconclusive("ambiguous prompts") if False else Skip()
        i = 0
        for m in re.finditer(rb"(?s)(.*?) \? ", text):
            a = yes[i] if i < len(yes) else False
            answers.setdefault(m.group(0), []).append(a); i += 1
        if any(len(v) > 1 for v in answers.values()): raise Skip()
        c.count("prompts", i)
    per, implicit, errs, files = model_run(roots, e, "P", post=opts.get("post", False))
    if ok:
        asked = collections.Counter(state.get("asked", []))
        if asked != collections.Counter(answers.keys()):
            raise Violation("prompt", "prompts differ: expected %r, got %r: %s (rc=%d stderr %r)" % (sorted(asked)[:4], sorted(answers)[:4], what, r.rc, r.err[:500]))
    recs = readrec(log)
    # every sink's records with their end offsets
    got = {}
    for s, path in enumerate(sinks):
        data = open(path, "rb").read()
        off = 0
        if s == 0 and implicit: continue
        for x in data.split(b"\0")[:-1]:
            off += len(x) + 1
            i, _, p = x.partition(b":")
            got.setdefault(p, []).append((int(i), s, off))
        if off != len(data): raise Violation("output", "garbage in sink %d: %r: %s" % (s, data[off:off + 100], what))
    pend = collections.defaultdict(list)
    for x in recs: pend[(int(x.id), tuple(x.args))].append(x)
    nexec = 0
    for f in files:
        p, evs = f.path, per.get(f.path, [])
        want_p = [(k[1], k[2]) for k in evs if k[0] == "p"] if not implicit else []
        have = got.get(p, [])
        if sorted(want_p) != sorted(h[:2] for h in have):
            raise Violation("truth", "outputs for %r: expected %r, got %r: %s" % (p, want_p, have, what))
        todo = list(execs.get(p, []))
        before = []
        for ev in evs if not implicit else []:
            if ev[0] == "p": before.append((ev[1], ev[2]))
            elif ev[0] == "x":
                k, args = todo.pop(0)
                l = pend.get((k, tuple(args)))
                if not l: raise Violation("exec", "command %d was not run (again) with %r for %r: %s; recorded %r" % (k, args, p, what, [(y.id, y.args) for y in recs][:4]))
                # with several candidates (templates without {}), any order
                def vis(y): return sorted(h[:2] for h in have if y.sizes[h[1]] >= h[2])
                best = [y for y in l if vis(y) == sorted(before)] or ([] if any(a.find(p) >= 0 for a in args) else l)
                if not best: raise Violation("flush", "output %r must be visible when command %d runs for %r, but %r was: %s" % (before, k, p, vis(l[0]), what))
                l.remove(best[0]); nexec += 1
    if not implicit:
        left = [(k, len(v)) for k, v in pend.items() if v]
        if left: raise Violation("exec", "commands run too often or with wrong arguments: %r: %s" % (left[:3], what))
    for x in recs:
        if x.cwd != (os.stat(cwd).st_dev, os.stat(cwd).st_ino): raise Violation("cwd", "-exec ran in another directory: %s" % what)
    if state["bad"]:
        if r.rc != 1: raise Violation("status", "rc=%d although %d commands could not be started: %s" % (r.rc, state["bad"], what))
        if not r.err: raise Violation("silent", "nothing reported although %d commands could not be started: %s" % (state["bad"], what))
    else:
        if r.rc != 0: raise Violation("status", "rc=%d stderr=%r: %s" % (r.rc, r.err[:300], what))
        if not state["sig"] and not ok and r.err: raise Violation("noise", "stderr=%r: %s" % (r.err[:300], what))
    c.count("executions of commands", nexec); c.count("start failures", state["bad"]); c.count("deaths by signal", state["sig"])
    if 0 < nexec: c.seen(argv, len(files))
    c.sample(shq(r.argv[1:])[:300] + " -> %d commands for %d files" % (nexec, len(files)))

class Skip(Inconclusive): pass

def faulty(c):
    """fork()/pipe()/wait() failures: the affected file's command counts as false, is reported, and the rest proceeds."""
    rng = c.rng
    w, roots = small_world(c, 15, names="plain")
    log = newreclog(c)
    op, err = rng.choice([("spawn", errno.EAGAIN), ("spawn", errno.ENOMEM), ("pipe", errno.EMFILE), ("access", errno.EIO)])
    nth = rng.randrange(0, 8)
    slog = S.newlog(c.dir + "/slog", 1 << 18)
    env = {"REC_LOG": log, "LD_PRELOAD": c.env.data["shim"], "VP_FAIL": S.fail((op, rng.choice([str(nth), "%d/%d" % (nth, rng.choice([2, 3]))]), err)), "VP_LOG": slog}
    modes = rng.choice(["", "h2"])
    argv = ["-j%d" % rng.choice([1, 2])] + roots + ["-exec", c.env.data["rec"], "0:" + modes, "{}", ";", "-printf", "a:%p\\0", "-o", "-printf", "b:%p\\0"]
    r = c.bfs(argv, env=env)
    nf = sum(1 for x in S.readlog(slog) if x[0] == "F" and x[1] == op)
    what = shq(r.argv) + " %r" % env["VP_FAIL"]
    files = [f.path for f in walk(roots, "P")[0]]
    ran = collections.Counter(x.args[0] for x in readrec(log))
    out = dict((x[2:], x[:1]) for x in split0(r.out))
    if set(out) != set(files): raise Violation("lost", "not every file was evaluated: %r" % what)
    lost = [p for p in files if ran[p] == 0]
    if len(lost) != nf: raise Violation("exec", "%d injected failures but %d files without command: %s" % (nf, len(lost), what))
    if [p for p in files if ran[p] > 1]: raise Violation("exec", "command run twice: %s" % what)
    for p in files:
        t = b"a" if ran[p] and exit_status(modes, [p]) == 0 else b"b"
        if out[p] != t: raise Violation("truth", "%r took branch %r, expected %r: %s" % (p, out[p], t, what))
        if not ran[p] and quoted_in(p, r.err) is False: raise Violation("silent", "the failure for %r was not reported: %s" % (p, what))
    if (r.rc != 0) != (nf > 0): raise Violation("status", "rc=%d with %d failures: %s" % (r.rc, nf, what))
    c.count("injected failures", nf); c.seen("fault", op, nth, len(files))
