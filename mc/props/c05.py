"""C05: a reused finder behaves exactly like a fresh one."""
import itertools

import numpy as np

from mc import alphabet as al

LEVEL = "model_checking"
FAST_COMPILE = True
RULE = ("all sequences of set_*, reinitialize_*, reset_revive and run operations (with and without resetting the budget, "
        "with per-call keyword arguments and options) up to the depth, started after a run that has killed and revived "
        "compartments; the real finder and the reference model are compared after every operation and along a final run")
BOUNDS = {"quick": "8 worlds, 12-18 operations, all sequences of length <= 2 plus all of length 3 of the form (op, op|run, op) within 5000 per world",
          "thorough": "all sequences of length <= 3"}
ASSUMPTIONS = ["random numbers are equal in model and finder (constant quantile)",
               "interval divides the maximum number of steps"]

WORLDS = ["L", "gc", "polyG", "single", "poly", "pair", "shift", "defaults"]


def shards(tier):
    n = {"quick": 1, "thorough": 3}[tier]
    return [dict(world=w, k=k, n=n) for w in WORLDS for k in range(n)]


def explore(ctx, shard):
    from mc import build
    from mc.core import Skip, close, require
    from mc.life import Pair, World

    wname = shard["world"]
    M = 3
    kicks = np.zeros((64, M))
    for t in range(64):
        if t % 3 != 2:
            kicks[t, (t * 2) % M] = 14.0

    chiA, chiB = [[0.0, 2.0], [2.0, 0.0]], [[-1.0, 1.5], [1.5, 0.5]]
    base = al.comp("N2", chiA, [1.0, 1.5], ("can", [0.4, 0.6]), M)
    poly = al.comp("P21", chiA, [1.0, 1.5, 0.5], ("can", [0.4, 0.4, 0.2]), M, groups=[2, 1])
    L1 = dict(kind="local", Cs=[[1.0, -1.0]], Ts=[0.1])
    L2 = dict(kind="local", Cs=[[0.5, 1.0], [1.0, 0.0]], Ts=[0.4, 0.3])
    G1 = dict(kind="global", Cs=[[1.0, -0.5]], Ts=[0.2])
    ex = dict(constraint_acceptance_ratio=0.7, constraint_elasticity=0.3)
    ind = dict(constraint_acceptance_ratio=2.0)
    com = dict(constraint_acceptance_ratio=5.0, constraint_elasticity=0.9)
    wA, wB = build.field(2, M, 0, 0.6), build.field(2, M, 2, 0.3)
    pA = np.array([[0.2, 0.5, 0.9], [0.8, 0.4, 0.2]])

    common = {
        "omegas": lambda p: p.omegas(wB),
        "phis": lambda p: p.phis(pA),
        "random": lambda p: p.random(),
        "reset": lambda p: p.reset(),
        "run1": lambda p: p.run(max_steps=1, interval=1),
        "run2stop": lambda p: p.run(max_steps=4, interval=2, tolerance=1e6),
        "run": lambda p: p.run(),
    }
    inter = {
        "interB": lambda p: p.interaction(chiB),
        "interB keep": lambda p: p.interaction(chiB, reset=False),
        "interA shift": lambda p: p.interaction(chiA, dict(additional_chis_shift=3.0)),
    }
    kw = {}
    opts = {}
    d = base
    if wname == "L":
        d, kw = dict(base, cons=[L1]), ex
        ops = {**common, "inter keep": inter["interB keep"],
               "cons none": lambda p: p.constraints([], reset=None),
               "cons L2 keep": lambda p: p.constraints([L2], reset=False),
               "cons L1 common": lambda p: p.constraints([L1], common=com),
               "cons L2 individual": lambda p: p.constraints([L2], individual=[ind], common=com, reset=True, tup=True),
               "cons L1": lambda p: p.constraints([L1]),
               "multipliers": lambda p: p.clear_multipliers(),
               "entropy keep": lambda p: p.entropy([2.0, 0.7], reset=False)}
    elif wname == "gc":
        ops = {**common, **inter,
               "ens gc": lambda p: p.ensemble(("gc", [0.7, 1.1])),
               "ens gc keep": lambda p: p.ensemble(("gc", [0.5, 0.9]), reset=False),
               "ens can": lambda p: p.ensemble(("can", [0.3, 0.7])),
               "ens can keep": lambda p: p.ensemble(("can", [0.55, 0.45]), reset=False, kw=dict(unknown=1)),
               "entropy": lambda p: p.entropy([2.0, 0.7], kw=dict(unknown=1)),
               "entropy keep": lambda p: p.entropy([0.5, 1.2], reset=False)}
    elif wname == "polyG":
        d, kw = dict(poly, cons=[G1]), ex
        ops = {**common, **inter,
               "entropy": lambda p: p.entropy([2.0, 0.7, 1.0]),
               "entropy keep": lambda p: p.entropy([0.5, 1.2, 2.0], reset=False),
               "ens keep": lambda p: p.ensemble(("can", [0.1, 0.6, 0.3]), reset=False),
               "cons G1": lambda p: p.constraints([G1]),
               "cons G1 individual keep": lambda p: p.constraints([G1], individual=[dict(constraint_elasticity=0.05)], reset=False),
               "cons G1 common": lambda p: p.constraints([G1], common=com)}
    elif wname == "single":
        d, kw = dict(base, cons=[L1]), ex
        ops = {**common,
               "none": lambda p: p.constraints([], spy=False),
               "L2 single": lambda p: p.constraints([L2], spy=False, single=True),
               "L2 single individual": lambda p: p.constraints([L2], spy=False, single=True, individual=[ind], common=com),
               "L1 list individual keep": lambda p: p.constraints([L1], spy=False, individual=[ind], reset=False),
               "L1 with spy": lambda p: p.constraints([L1], spy=True, reset=False)}
    elif wname == "poly":
        # components and features coincide, so both entropies fit
        d = dict(base, groups=[1, 1])
        ops = {**common, **inter,
               "entropy poly keep": lambda p: p.entropy([2.0, 0.7], reset=False),
               "entropy comp": lambda p: p.entropy([0.5, 1.2], poly=False),
               "entropy comp keep": lambda p: p.entropy([1.5, 1.0], poly=False, reset=False),
               "ens keep": lambda p: p.ensemble(("can", [0.1, 0.9]), reset=False),
               "ens": lambda p: p.ensemble(("can", [0.2, 0.8]))}
    elif wname == "pair":
        d, kw = dict(base, cons=[L1, G1]), ex
        ops = {**common, "inter": inter["interB"],
               "LG individual": lambda p: p.constraints([L2, G1], individual=[ind, dict(constraint_elasticity=0.05)], common=dict(constraint_elasticity=0.9)),
               "LG individual keep": lambda p: p.constraints([L1, G1], individual=[{}, ind], reset=False, tup=True),
               "LG common": lambda p: p.constraints([L1, G1], common=com),
               "L": lambda p: p.constraints([L1]),
               "LG": lambda p: p.constraints([L2, G1], reset=False),
               "multipliers": lambda p: p.clear_multipliers()}
    elif wname == "shift":
        kw = dict(additional_chis_shift=0.25, unknown_option=3)
        ops = {**common, **inter, "interA": lambda p: p.interaction(chiA),
               "interB shift keep": lambda p: p.interaction(chiB, dict(additional_chis_shift=2.0), reset=False),
               "interA other": lambda p: p.interaction(chiA, dict(another=1)),
               "ens keep": lambda p: p.ensemble(("can", [0.1, 0.9]), reset=False),
               "run3": lambda p: p.run(max_steps=3, interval=1),
               "run opt interval": lambda p: p.run(interval=1),
               "run opt tolerance": lambda p: p.run(tolerance=1e6),
               "run opt steps": lambda p: p.run(max_steps=2)}
    else:
        opts = dict(max_revive_per_compartment=2, kill_threshold=0.1, revive_scaler=1.5, tolerance=1e6, max_steps=6, interval=3)
        ops = {**common, **inter,
               "ens keep": lambda p: p.ensemble(("can", [0.1, 0.9]), reset=False),
               "run strict": lambda p: p.run(tolerance=1e-30),
               "run long": lambda p: p.run(max_steps=9, tolerance=1e-30)}
        ops.pop("run2stop")

    world = World(d, opts, kw, kicks, spy=wname != "single")

    def one(seq, start):
        p = Pair(world, wA)
        if start:
            p.run(max_steps=3, interval=3, tolerance=1e-30, compare=False)
        for name in seq:
            ops[name](p)
            p.check_idle()
            ctx.step()
            ctx.state(wname, p.w, p.J, p.budget, p.chis, p.sizes, str(p.ens), *[c.xi for c in p.cons])
        p.run(max_steps=2, interval=1, tolerance=1e-30)
        p.run()
        ctx.step(6)
        ctx.outcome(p.w, p.J, p.budget)
        if p.budget <= 0:
            ctx.count("budget exhausted")
        if p.budget < p.full:
            ctx.count("budget used")

    names = list(ops)
    seqs = [(s, st) for L in (0, 1, 2) for s in itertools.product(names, repeat=L) for st in (True, False)]
    three = list(itertools.product(names, repeat=3))
    if not ctx.thorough:
        three = [s for s in three if s[0] != s[1] and s[1] != s[2]]
    seqs += [(s, True) for s in three]
    for i, (s, st) in enumerate(seqs):
        if i % shard["n"] == shard["k"]:
            ctx.case(dict(world=wname, ops=list(s), after_run=st), one, s, st)
