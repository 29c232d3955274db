from trav import *
PROP, LEVEL = "C06", "exploration"
CASES = {"quick": 600, "thorough": 12000}
RULE = ("Random trees x random expressions containing -prune, -exclude (nested expressions), -nohidden, -mindepth/-maxdepth, -quit, -exit N and -limit N, under "
        "every strategy, thread count and perturbation; events are compared with the reference evaluator, for early stops as an exact prefix (-s) or by the "
        "no-event-after-stop rule (unsorted parallel runs). Distinct non-trivial: distinct (command line) that removes some but not all files.")

def case(c):
    rng = c.rng
    w, roots = small_world(c, n=rng.choice([6, 15, 30, 60]), maxdepth=rng.choice([3, 6, 12]))
    allf = len(w.files)
    for _ in range(5):
        select_case(c, w, roots, allf)
    for _ in range(4):
        stop_case(c, w, roots, allf)

def gen_exclude(rng, w):
    ex = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        if rng.random() < .3:
            ex.append((rng.choice([[b"-nohidden"], [b"-exclude", b"-hidden"]]), lambda f: f.name.startswith(b".") and f.name not in (b".", b"..")))
        else:
            e = gen_expr(rng, lambda: gen_test(rng, w), rng.choice([1, 1, 2, 3]))
            ex.append(([b"-exclude"] + e.tokens(rng, 3), lambda f, e=e: e.ev(f, Ctl())))
    return ex

def gen_filters(rng, w):
    ex = gen_exclude(rng, w)
    toks, mk = [], {}
    if rng.random() < .5:
        mk["mindepth"] = rng.randrange(0, 5); toks.append([b"-mindepth", b"%d" % mk["mindepth"]])
    if rng.random() < .5:
        mk["maxdepth"] = rng.randrange(0, 6); toks.append([b"-maxdepth", b"%d" % mk["maxdepth"]])
    # given more than once, the last one counts
    for i in (b"-mindepth", b"-maxdepth"):
        if rng.random() < .1 and any(t[0] == i for t in toks):
            toks.insert(0, [i, b"%d" % rng.randrange(0, 7)])
    last = {t[0]: t for t in toks}
    toks += [t for t, _ in ex]
    rng.shuffle(toks)
    for i in (b"-mindepth", b"-maxdepth"):
        k = [j for j, t in enumerate(toks) if t[0] == i]
        if len(k) == 2:
            toks[k[0]], toks[k[1]] = next(t for t in toks if t[0] == i and t is not last[i]), last[i]
    if ex:
        mk["exclude"] = lambda f: any(fn(f) for _, fn in ex)
    return sum(toks, []), mk

def select_case(c, w, roots, allf):
    rng = c.rng
    cfg = Cfg(c, rng)
    ft, mk = gen_filters(rng, w)
    e = None
    if rng.random() < .8:
        leaf = leaf_gen(rng, w, rng.choice([1, 1, 2]))
        state = {"n": 0}
        def lf():
            if rng.random() < .3:
                def fn(f, ctl):
                    ctl.prune = True
                    return True
                return Act(["-prune"], None, fn=fn)
            return leaf()
        e = gen_expr(rng, lf, rng.choice([1, 2, 3, 5, 7]))
    toks = list(ft) + ([b"("] + e.tokens(rng) + [b")"] if e is not None else [])
    if rng.random() < .3 and e is not None:
        toks = [b"("] + e.tokens(rng) + [b")"] + ft    # position does not matter
    over = rng.random() < .3
    if over:
        # the same files again, from other starting paths
        roots = roots + [f.path for f in rng.sample(w.files, min(len(w.files), rng.choice([1, 1, 2])))]
        rng.shuffle(roots)
    flags, unsafe = cfg.flags, set()
    if rng.random() < .15:
        # -X: what xargs would split is reported and left out
        flags = flags + [b"-X"]
        before = mk.get("exclude")
        def xargs(f):
            if before and before(f): return True
            if re.search(rb"[ \t\n'\"\\]", f.path):
                unsafe.add(f.path)
                return True
            return False
        mk = dict(mk, exclude=xargs)
    per, implicit, errs, files = model_run(roots, e, w.follow, post=cfg.post, **mk)
    r = c.bfs(flags + roots + cfg.globals + toks, env=cfg.env, **cfg.kw)
    if unsafe:
        told = r.err.count(b"not safe for xargs")
        if r.rc != 1 or told < len(unsafe): raise Violation("xargs", "%d paths are not safe for xargs, but rc=%d and stderr=%r: %s" % (len(unsafe), r.rc, r.err[:500], shq(r.argv)))
        c.count("unsafe paths left out", len(unsafe))
    # bfs warns about option order and -prune with -depth: warnings only with a terminal/-warn
    elif r.rc != 0 or r.err:
        raise Violation("status", "unexpected failure (rc=%d, stderr=%r): %s" % (r.rc, r.err[:500], shq(r.argv)))
    if over:
        c.count("selections from overlapping starting paths")
        if implicit:
            want = collections.Counter(b"".join((p + b"\n") * len(v) for p, v in per.items()).split(b"\n"))
            got = collections.Counter(r.out.split(b"\n"))
        else:
            want = collections.Counter((i, p) for p, v in per.items() for i in v)
            got = collections.Counter(parse_events(r.out, False))
        if want != got:
            raise Violation("overlap", "missing=%r extra=%r: %s" % (list((want - got).items())[:4], list((got - want).items())[:4], shq(r.argv)))
    else: compare_events(c, r, per, implicit)
    n = len(files)
    c.count("selections")
    if 0 < len(per) < allf: c.seen(tuple(toks), cfg.key())

class Limit(Act):
    pass

def stop_case(c, w, roots, allf):
    rng = c.rng
    sorted_ = rng.random() < .6
    cfg = Cfg(c, rng, sort=sorted_)
    if sorted_ and cfg.post and cfg.strategy == "bfs":
        cfg = Cfg(c, rng, strategies=["dfs", "ids", "eds"], sort=True)
    ft, mk = gen_filters(rng, w) if rng.random() < .4 else ([], {})
    if sorted_ and cfg.post and cfg.strategy == "eds" and "maxdepth" in mk:
        ft, mk = [], {}      # directories at the limit are visited early: order not modelled
    kind = rng.choice(["quit", "exit", "limit"])
    cond = gen_expr(rng, lambda: gen_test(rng, w), rng.choice([1, 2]))
    status = 0
    if kind == "quit": stok = [b"-quit"]
    elif kind == "exit":
        status = rng.choice([0, 0, 1, 2, 7, 255])
        stok = [b"-exit"] + ([b"%d" % status] if status or rng.random() < .5 else [])
    else:
        N = rng.choice([1, 1, 2, 3, 5, 10, 100, 2**32, 2**32 + 1, 2**31, 2**63 - 1])
        stok = [b"-limit", b"%d" % N]
    pre = gen_expr(rng, leaf_gen(rng, w, 2), rng.choice([1, 2, 3]))
    # PRE , COND -printf S:%p STOP -printf X:%p   (X only runs when -limit did not stop)
    toks = ft + [b"("] + pre.tokens(rng) + [b"-true", b",", b"-true", b")", b",", b"("] + cond.tokens(rng) + [b")", b"-printf", b"8:%p\\0"]
    # several records per file: -exec + must still run at the end
    ex = rng.random() < .3
    if ex: toks += [b"-exec", b"/usr/bin/printf", b"9:%s\\0", b"{}", b"+"]
    toks += stok + [b"-printf", b"7:%p\\0"]
    if rng.random() < .3:
        toks += [b",", b"-printf", b"6:%p\\0"]; tail = True
    else: tail = False
    per = collections.OrderedDict()
    implicit_pre = not has_print(pre)
    def evs(f):
        ctl = Ctl(); pre.ev(f, ctl)
        return [i for i, _ in ctl.events]
    files = []
    def visit(f):
        if mk.get("exclude") and mk["exclude"](f): return False
        files.append(f)
        return not (mk.get("maxdepth") is not None and f.depth >= mk["maxdepth"])
    walk(roots, w.follow, None, visit)
    inr = [f for f in files if mk.get("mindepth", 0) <= f.depth <= mk.get("maxdepth", 1 << 30)]
    info = {f.path: (evs(f), bool(cond.ev(f, Ctl()))) for f in inr}
    r = c.bfs(cfg.flags + roots + cfg.globals + toks, env=cfg.env, **cfg.kw)
    argv = shq(r.argv)
    got, execd = [], []
    for rec in split0(r.out):
        i, p = rec.split(b":", 1)
        if i == b"9": execd.append(p)
        else: got.append((int(i), p))
    def bad(key, msg): raise Violation(key, "%s: %s %r" % (msg, argv, cfg.env))
    if r.err: bad("status", "stderr %r" % r.err[:300])
    def full(p, stop):
        ev, cnd = info[p]
        out = [(i, p) for i in ev]
        if cnd:
            out.append((8, p))
            if stop: return out
            out.append((7, p))
        if tail: out.append((6, p))
        return out
    nstop = {"quit": 1, "exit": 1}.get(kind) or N
    ncond = sum(1 for ev, cn in info.values() if cn)
    stops = ncond >= nstop
    want_rc = status if stops else 0
    if r.rc != want_rc: bad("exit", "exit status %d instead of %d" % (r.rc, want_rc))
    hits = [p for i, p in got if i == 8]
    if len(hits) != min(ncond, nstop): bad("stop", "%d evaluations of the stopping action, expected %d" % (len(hits), min(ncond, nstop)))
    if ex and sorted(execd) != sorted(hits): bad("exec", "-exec + got %r instead of %r" % (execd[:5], hits[:5]))
    if sorted_:
        order = [p for p in sim_order(roots, cfg.strategy, cfg.post) if p in info]
    else:
        # reconstruct the order of files from the log itself
        order, last = [], None
        for i, p in got:
            if p != last:
                if p in order: bad("stop", "events of %r are not contiguous" % p)
                order.append(p); last = p
        if not stops:
            order += [p for p in info if p not in set(order) and not full(p, False)]
            missing = [p for p in info if p not in set(order)]
            if missing: bad("stop", "not evaluated: %r" % missing[:3])
        for p in order:
            if p not in info: bad("stop", "unexpected file %r" % p)
    exp, k = [], 0
    for p in order:
        cn = info[p][1]
        if cn: k += 1
        stop = cn and k == nstop
        exp += full(p, stop)
        if stop: break
    if got != exp:
        i = next((i for i, (a, b) in enumerate(zip(exp, got)) if a != b), min(len(exp), len(got)))
        bad("stop", "events differ at %d: expected %r, got %r" % (i, exp[i:i + 3], got[i:i + 3]))
    c.count(kind + (" stopped" if stops else " ran out")); c.count("stop events", len(got))
    if stops: c.seen(tuple(toks), cfg.key())
    c.sample(shq(r.argv[1:]) + " -> %d events" % len(got))
