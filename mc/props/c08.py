"""C08: convergence is reported honestly."""
import itertools

import numpy as np

from mc import alphabet as al

LEVEL = "model_checking"
FAST_COMPILE = True
RULE = ("for every system, constraint set, field and kill pattern the reference trace gives the four "
        "residuals of every iteration; every tolerance class that can be told apart (just above and just "
        "below each residual at each check) and every check interval is run and the stopping point, the "
        "reported residuals and the result are compared; scripted constraint residues enumerate all "
        "{0, equal, above}^T patterns of a user-defined constraint")
BOUNDS = {"quick": "6 iterations, intervals 1,2,3,6, all tolerance classes; residue patterns of length 4",
          "thorough": "8 iterations, residue patterns of length 6, more fields"}
ASSUMPTIONS = ["user-defined constraint used as observer, killer and residue source"]


def shards(tier):
    return ([dict(part="tol", fam=f, cons=c) for f, c in (al.signatures() if tier == "thorough" else al.THIN)] + [dict(part="script", k=k) for k in range(2)])


def explore(ctx, shard):
    from mc import build, trace
    from mc.core import Skip, close, require

    def expected_stop(recs, interval, tol):
        for t in range(interval - 1, len(recs), interval):
            r = recs[t]
            if r["safe"] and r["inc"] < tol and r["dw"] < tol and r["dJ"] < tol and r["res"] < tol:
                return t
        return len(recs) - 1

    def one(rig, w0, kicks, residues, recs, interval, tol):
        rig.start(w0, kicks, residues)
        res = rig.finder.run(max_steps=len(recs), interval=interval, tolerance=tol)
        t = expected_stop(recs, interval, tol)
        require(rig.spy.iterations == t + 1,
                lambda: f"stopped after {rig.spy.iterations} iterations instead of {t + 1} (tolerance {tol}); "
                        f"residuals {[(r['inc'], r['dw'], r['dJ'], r['res'], r['safe']) for r in recs]}")
        trace.check_after(rig, recs[t], res, t + 1)
        ctx.step(t + 1)
        ctx.outcome(rig.d["tag"], t, recs[t]["safe"], tol)

    def explore_rig(rig, name, w0, kicks, residues, T):
        recs, _ = rig.reference(w0, T, kicks, residues)
        recs = recs[:T]
        if len(recs) < T:
            return
        if any(r["near"] for r in recs):
            return
        for r in recs:
            ctx.state(r["w_after"], r["J_after"])
        for interval in (1, 2, 3, T):
            if T % interval:
                continue
            vals = set()
            for t in range(interval - 1, T, interval):
                for k in ("inc", "dw", "dJ", "res"):
                    if recs[t][k] > 1e-12:
                        vals.add(recs[t][k] * (1 + 1e-6))
                        vals.add(recs[t][k] * (1 - 1e-6))
            vals = sorted(vals) + [1e9]
            if not ctx.thorough:  # keep the classes that change the outcome
                keep, last = [], None
                for v in vals:
                    s = expected_stop(recs, interval, v)
                    fails = tuple(tuple(recs[t][k] < v for k in ("inc", "dw", "dJ", "res")) for t in range(interval - 1, T, interval))
                    if fails != last:
                        keep.append(v)
                        last = fails
                vals = keep
            for tol in vals:
                # do not decide ties between two residuals that agree up to rounding
                if any(abs(recs[t][k] - tol) < 1e-9 * max(1.0, tol) for t in range(T) for k in ("inc", "dw", "dJ", "res") if recs[t][k] > 0):
                    continue
                ctx.case(dict(name, interval=interval, tol=float(tol)), one, rig, w0, kicks, residues, recs, interval, float(tol))

    def diverging(rig, w0, interval, tol):
        """overflowing fields: a run whose state or residuals are not finite uses its whole budget"""
        n = 6
        rig.start(w0)
        try:
            res = rig.finder.run(max_steps=n, interval=interval, tolerance=tol)
        except ZeroDivisionError:  # every compartment died: no result at all
            ctx.outcome(rig.d["tag"], "no compartment left")
            return
        dg = rig.finder.diagnostics
        resid = [dg[k] for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue")]
        numbers = [np.ravel(x) for x in (resid, res.fractions, res.volumes, rig.finder.omegas)]
        finite = all(np.all(np.isfinite(x)) for x in numbers)
        require(dg["steps"] == rig.spy.iterations, lambda: f"steps {dg['steps']} for {rig.spy.iterations} iterations")
        if dg["steps"] < n:
            require(finite, lambda: f"stopped as converged after {dg['steps']} of {n} iterations with numbers that are not "
                                    f"finite: residuals {resid}, fractions {res.fractions.tolist()}, volumes {res.volumes.tolist()}")
            require(all(x < tol for x in resid), lambda: f"stopped as converged (tolerance {tol}) with residuals {resid}")
        ctx.step(dg["steps"])
        ctx.outcome(rig.d["tag"], "diverging", dg["steps"], finite)

    if shard["part"] == "tol":
        T = 6
        for d0 in al.FAMILIES[shard["fam"]]:
            for cv in al.CONS_BY_KIND[shard["cons"]]:
                if cv != "none" and len(d0.get("groups") or d0["sizes"]) < 2:
                    continue
                d = al.with_cons(d0, cv)
                M = d["M"]
                for si, opt in enumerate((dict(acceptance_Js=0.01, acceptance_omega=0.3, Js_step_upper_bound=0.05),
                                          dict(acceptance_Js=0.3, acceptance_omega=0.1, Js_step_upper_bound=20.0))):
                    rig = trace.Rig(d, dict(opt, max_revive_per_compartment=0))
                    for v, amp, tol in itertools.product(range(3), (1e2, 1e3, 1e150, 1e307), (1e-5, 1e9, np.inf)):
                        w0 = build.field(rig.sys.S, M, v, 1.0)
                        w0 = w0 / max(np.abs(w0).max(), 1e-300) * amp
                        for interval in (1, 3):
                            ctx.case(dict(sys=d["tag"], setting=si, field=v, diverging=amp, tol=tol, interval=interval),
                                     diverging, rig, w0, interval, tol)
                    for v, amp in itertools.product(range(5) if ctx.thorough else (0, 2, 4), (0.4, 1.5) if ctx.thorough else (0.6,)):
                        w0 = build.field(rig.sys.S, M, v, amp)
                        kills = [()]
                        if si == 1 and M > 1:
                            kills += [(0,), (M - 1,)] + ([tuple(range(1, M))] if M > 2 else [])
                        for sub in kills:
                            for at in (range(T) if sub else (0,)):
                                kicks = np.zeros((T, M))
                                kicks[at, list(sub)] = 14.0
                                explore_rig(rig, dict(sys=d["tag"], setting=si, field=v, amp=amp, kill=list(sub), at=at), w0, kicks, None, T)
        return

    # scripted residues: the tolerance 0.5 is binding only for the user-defined constraint
    T = 6 if ctx.thorough else 4
    d = al.comp("N2flat", [[0.0, 1.0], [1.0, 0.0]], [1.0, 1.0], ("can", [0.5, 0.5]), 3)
    opts = [dict(acceptance_Js=0.01, acceptance_omega=0.1, Js_step_upper_bound=0.05, max_revive_per_compartment=0),
            dict(acceptance_Js=0.3, acceptance_omega=0.1, Js_step_upper_bound=50.0, max_revive_per_compartment=2)]
    for oi, opt in enumerate(opts):
        if oi != shard["k"]:
            continue
        for dd in (d, al.with_cons(d, "L")):
            for pos in (None, 0):
                rig = trace.Rig(dd, opt, spy_pos=pos)
                w0 = build.field(2, 3, 0, 0.02)
                for pat in itertools.product((0.0, 0.4999, 0.5, 3.0), repeat=T):
                    for kill_at in (None, 0, T - 1) if oi else (None,):
                        kicks = np.zeros((T, 3))
                        if kill_at is not None:
                            kicks[kill_at, 1] = 14.0
                        recs, _ = rig.reference(w0, T, kicks, pat)
                        if len(recs) < T or any(r["near"] for r in recs):
                            continue
                        for interval in (1, 2):
                            tol = 0.5 if kill_at is None else 500.0
                            if kill_at is not None:
                                scaled = [p * 1000 for p in pat]
                                recs2, _ = rig.reference(w0, T, kicks, scaled)
                                ctx.case(dict(sys=dd["tag"], pos=pos, pat=list(pat), kill_at=kill_at, interval=interval),
                                         one, rig, w0, kicks, scaled, recs2, interval, tol)
                            else:
                                ctx.case(dict(sys=dd["tag"], pos=pos, pat=list(pat), interval=interval),
                                         one, rig, w0, kicks, pat, recs, interval, tol)
