from common import *
PROP, LEVEL = "C04", "exploration"
CASES = {"quick": 1200, "thorough": 8000}
RULE = ("Random trees and random expression trees (nested and/or/comma/not/parentheses in every spelling, tests of all kinds, "
        "record-emitting actions as operands); the per-file event sequence printed by bfs is compared with an independent "
        "evaluator. Non-trivial: at least two operators and at least one action evaluated on some but not all files.")

def case(c):
    rng = c.rng
    w, roots = small_world(c, n=rng.choice([5, 12, 25]))
    for _ in range(12):
        expr_case(c, w, roots)

def expr_case(c, w, roots):
    rng = c.rng
    nact = rng.choice([0, 1, 1, 2, 3, 4])
    leaf = leaf_gen(rng, w, nact, prune=True, vals=True)
    e = gen_expr(rng, leaf, rng.choice([1, 2, 3, 4, 5, 7, 10, 14]))
    args, opts = traversal_opts(rng, strategies=True)
    toks = e.tokens(rng)
    argv = args + roots_and_expr(rng, roots, toks)
    check_expr(c, w, roots, e, argv, opts)
    ops = sum(1 for x in e.walk() if isinstance(x, (Bin, Not)))
    if ops >= 2:
        c.seen(toks)
    c.count("expressions"); c.count("operators", ops)
