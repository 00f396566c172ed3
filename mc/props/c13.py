"""C13: step budgets are respected and runs can be split and resumed."""
import itertools

import numpy as np

from mc import alphabet as al

LEVEL = "model_checking"
FAST_COMPILE = True
RULE = ("all pairs of maximum and interval in a grid, iterations counted by a user-defined constraint; "
        "all positions at which the run could first converge; all compositions of N iterations into runs, "
        "each with all intervals, with and without dying and revived compartments and constraints")
BOUNDS = {"quick": "max_steps 1..24, interval 1..26 (and large spot values), convergence at every position for max_steps<=12; all 16 compositions of 5 iterations",
          "thorough": "max_steps 1..60, interval 1..64, convergence positions for max_steps<=24; all 64 compositions of 7 iterations"}
ASSUMPTIONS = ["splitting is compared for equal random numbers (constant quantile)"]


def shards(tier):
    return ([dict(part="budget", k=0), dict(part="pos", k=0)]
            + [dict(part="split", fam=f, cons=c) for f, c in (("ideal_can", "none"), ("ideal_can", "LG"), ("poly_can", "none"),
                                                             ("ideal_gc", "L"), ("poly_can", "G"), ("ideal_can", "L"))])


def compositions(n):
    for bits in itertools.product((0, 1), repeat=n - 1):
        out, cur = [], 1
        for b in bits:
            if b:
                out.append(cur)
                cur = 1
            else:
                cur += 1
        yield out + [cur]


def explore(ctx, shard):
    from mc import build, trace
    from mc.core import Skip, close, require

    flat = al.comp("N2", al.CHI2, [1.0, 1.0], ("can", [0.5, 0.5]), 2)

    if shard["part"] == "budget":
        rig = trace.Rig(flat, dict(max_revive_per_compartment=0), horizon=4)
        w0 = build.field(2, 2, 0, 1.0)

        def budget(mx, iv, how, f, spy):
            spy.restart()
            f.reinitialize_from_omegas(w0)
            if how == "call":
                f.run(max_steps=mx, interval=iv)
            else:
                f.run()
            n, steps = spy.iterations, f.diagnostics["steps"]
            require(n == steps, lambda: f"reports {steps} steps but performed {n}")
            require(1 <= n <= mx, lambda: f"performed {n} iterations of at most {mx} (interval {iv})")
            if mx % iv == 0:
                require(n == mx, lambda: f"performed {n} iterations instead of {mx} (interval {iv})")
            ctx.step(int(n))
            ctx.state(mx, iv)
            ctx.outcome(n)

        A, B = (60, 64) if ctx.thorough else (24, 26)
        pairs = [(a, b) for a in range(1, A + 1) for b in range(1, B + 1)]
        pairs += [(100, 7), (100, 100), (100, 99), (100, 33), (1000, 10000), (999, 10), (1024, 32), (257, 16), (5000, 123), (10001, 10000), (20000, 10000)]
        for mx, iv in pairs:
            ctx.case(dict(max=mx, interval=iv, how="call"), budget, mx, iv, "call", rig.finder, rig.spy)
            if mx <= 12 and iv <= 13:
                ctx.case(dict(max=mx, interval=iv, how="float"), budget, float(mx), iv, "call", rig.finder, rig.spy)
                r2 = trace.Rig(flat, dict(max_revive_per_compartment=0, max_steps=mx, interval=iv), horizon=4)
                ctx.case(dict(max=mx, interval=iv, how="constructor"), budget, mx, iv, "constructor", r2.finder, r2.spy)
        return

    if shard["part"] == "pos":
        A = 24 if ctx.thorough else 12
        rig = trace.Rig(flat, dict(max_revive_per_compartment=0), horizon=A + 1)
        w0 = build.field(2, 2, 0, 0.1)

        def pos(mx, iv, k):
            """the residue of the user-defined constraint vanishes from iteration k on"""
            rig.spy.restart(residues=[1e9 if t < k else 0.0 for t in range(A + 1)])
            rig.finder.reinitialize_from_omegas(w0)
            rig.finder.run(max_steps=mx, interval=iv, tolerance=1e6)
            n = rig.spy.iterations
            require(rig.finder.diagnostics["steps"] == n, "reported number of steps")
            if n <= k:  # never saw the vanishing residue
                require(1 <= n <= mx, lambda: f"performed {n} iterations of at most {mx}")
                if mx % iv == 0:
                    require(n == mx, lambda: f"stopped after {n} of {mx} without convergence")
            else:
                require(n - k <= iv, lambda: f"converged at iteration {k + 1} but stopped only after {n} (interval {iv})")
            ctx.step(n)
            ctx.state(mx, iv, k)
            ctx.outcome(n)

        for mx in range(1, A + 1):
            for iv in range(1, A + 3):
                for k in range(mx + 1):
                    ctx.case(dict(max=mx, interval=iv, converges_at=k), pos, mx, iv, k)
        return

    N = 7 if ctx.thorough else 5

    def split(rig, w0, kicks, n, comp, ivs, want, q):
        rig.start(w0, kicks, q=q)
        total = 0
        for c, iv in zip(comp, ivs):
            res = rig.run(c, interval=iv)
            total += rig.finder.diagnostics["steps"]
        if total != n:
            raise Skip  # interval does not divide this part of the budget
        om, vol, frac, dg, J, phi = want
        close("fields", rig.finder.omegas, om, 1e-9, 1e-11)
        close("volumes", res.volumes, vol, 1e-9, 1e-11)
        close("fractions", res.fractions, frac, 1e-9, 1e-11)
        got = build.diag(rig.finder)
        for k in dg:
            if k != "steps":
                close(k, got[k], dg[k], 1e-8, 1e-10)
        close("volumes seen by the iterations", rig.spy.rec_J[:n], J, 1e-9, 1e-11)
        close("fractions seen by the iterations", rig.spy.rec_phi[:n], phi, 1e-9, 1e-11)
        # the hidden state (volumes, multipliers, budget) shows in two further iterations
        rig.run(2)
        close("fields two iterations later", rig.finder.omegas, want_next[0], 1e-8, 1e-10)
        require(rig.finder.diagnostics["revive_count_left"] == want_next[1], "revive budget two iterations later")
        ctx.step(n + 2)
        ctx.state(rig.finder.omegas)
        ctx.outcome(rig.finder.omegas, rig.finder.diagnostics["revive_count_left"])

    for d0 in al.FAMILIES[shard["fam"]]:
        for cv in al.CONS_BY_KIND[shard["cons"]]:
            if cv != "none" and len(d0.get("groups") or d0["sizes"]) < 2:
                continue
            d = al.with_cons(d0, cv)
            M = d["M"]
            for per in (0, 1, 3):
                rig = trace.Rig(d, dict(acceptance_Js=0.3, acceptance_omega=0.1, Js_step_upper_bound=20.0, max_revive_per_compartment=per))
                plans = [{}]
                if M > 1:
                    plans += [{t: (m,)} for t in range(N) for m in (0, M - 1)] + [{0: (0,), 2: (M - 1,)}, {1: (0,), 2: (0,), 3: (0,)}]
                for plan in plans:
                    kicks = np.zeros((N + 2, M))
                    for t, s in plan.items():
                        kicks[t, list(s)] = 14.0
                    w0 = build.field(rig.sys.S, M, 0, 0.6)
                    q = 0.31
                    recs, _ = rig.reference(w0, N + 2, kicks, q=q)
                    if len(recs) < N + 2 or any(r["near"] for r in recs):
                        continue
                    rig.start(w0, kicks, q=q)
                    res = rig.run(N)
                    if rig.finder.diagnostics["steps"] != N:
                        continue
                    want = (rig.finder.omegas.copy(), res.volumes.copy(), res.fractions.copy(), build.diag(rig.finder),
                            rig.spy.rec_J[:N].copy(), rig.spy.rec_phi[:N].copy())
                    rig.run(2)
                    want_next = (rig.finder.omegas.copy(), rig.finder.diagnostics["revive_count_left"])
                    for comp in compositions(N):
                        for ivs in itertools.product(*[[i for i in range(1, c + 1) if c % i == 0] for c in comp]):
                            ctx.case(dict(sys=d["tag"], per=per, plan={str(k): list(v) for k, v in plan.items()}, runs=comp, intervals=list(ivs)),
                                     split, rig, w0, kicks, N, comp, ivs, want, q)
