"""C09: a converged result is in thermodynamic balance."""
import itertools

import numpy as np

from mc import alphabet as al

LEVEL = "model_checking"
RULE = ("all combinations of system, constraint, initial field (pattern x amplitude), step setting and tolerance; every run that reports "
        "residuals below the tolerance is checked against the documented free energy evaluated independently")
BOUNDS = {"quick": "all systems of the four families x {no, local, global, both} constraints x 8 fields x 3 settings x 3 tolerances, 40000 iterations at most",
          "thorough": "x 20 fields x 4 settings x 4 tolerances, 400000 iterations at most"}
ASSUMPTIONS = ["only runs that reach the tolerance within the bound are judged (their number is reported)"]

FAMS = [(f, c) for f in ("ideal_can", "ideal_gc", "poly_can", "poly_gc") for c in ("none", "L", "G", "LG")]


def shards(tier):
    return [dict(fam=f, cons=c) for f, c in FAMS if not (f == "poly_gc" and c in ("G", "LG"))]


EXTRA = {
    "ideal_can": [al.comp("N3x", al.CHI3B, [1.0, 1.0, 1.0], ("can", [0.3, 0.3, 0.4]), 6), al.comp("N4x", al.CHI4, [1.0, 1.0, 2.0, 1.0], ("can", [0.25, 0.25, 0.25, 0.25]), 8),
                  al.comp("N2x", [[0.0, 3.5], [3.5, 0.0]], [1.0, 2.0], ("can", [0.35, 0.65]), 8)],
    "ideal_gc": [al.comp("N3x", al.CHI3B, [1.0, 1.0, 1.0], ("gc", [0.4, 0.5, 0.3]), 5)],
    "poly_can": [al.comp("P221", al.CHI3B, [1.0, 2.0, 1.0, 1.5, 0.8], ("can", [0.2, 0.2, 0.2, 0.2, 0.2]), 6, groups=[2, 2, 1])],
    "poly_gc": [al.comp("P21x", [[0.0, 1.0], [1.0, 0.0]], [1.0, 2.0, 1.5], ("gc", [0.5, 0.4, 0.6]), 3, groups=[2, 1])],
}


def explore(ctx, shard):
    from mc import build, thermo
    from mc.core import close, require

    big = ctx.thorough
    SETS = [dict(acceptance_Js=0.002, acceptance_omega=0.02, Js_step_upper_bound=0.001), dict(acceptance_Js=0.02, acceptance_omega=0.05, Js_step_upper_bound=0.02),
            dict(acceptance_Js=0.02, acceptance_omega=0.1, Js_step_upper_bound=0.05, kill_threshold=0.05, max_revive_per_compartment=2, revive_scaler=1.2)]
    if big:
        SETS.append(dict())
    TOLS = [1e-3, 1e-5, 1e-7] + ([1e-9] if big else [])
    FIELDS = [(v, a) for v in (0, 1, 2, 3) for a in ((0.05, 0.3, 1.0, 2.0, 4.0) if big else (0.3, 2.0))]
    MAXS = 400_000 if big else 40_000

    def feasible(d, cv):
        """constraints with targets that the system can meet"""
        S = len(build.groups_of(d))
        feat = np.repeat(np.arange(S), build.groups_of(d))
        c1 = np.array([1.0, -1.0, 0.5, 0.2])[:S]
        c2 = np.array([0.0, 1.0, 1.0, -0.5])[:S]
        if d["ens"][0] == "can":
            ph = np.zeros(S)
            np.add.at(ph, feat, np.array(d["ens"][1]))
            t1, t2 = float(c1 @ ph), float(c2 @ ph)
        else:
            t1, t2 = 0.15, 0.55
        L = dict(kind="local", Cs=[c1.tolist()], Ts=[t1], acc=1.0, kappa=0.5)
        G = dict(kind="global", Cs=[c1.tolist()], Ts=[t1], acc=1.0, kappa=0.1)
        G2 = dict(kind="global", Cs=[c2.tolist()], Ts=[t2], acc=1.0, kappa=0.1)
        cons = {"none": [], "L": [L], "G": [G], "LG": [L, G2]}[cv]
        return dict(d, cons=cons) if cons else d

    def judge(d, res, tol):
        g = build.groups_of(d)
        feat = np.repeat(np.arange(len(g)), g)
        chi = np.array(d["chis"], float)[np.ix_(feat, feat)].tolist()
        l = [float(x) for x in d["sizes"]]
        V, F = np.asarray(res.volumes, float), np.asarray(res.fractions, float)
        N, M = len(l), len(V)
        require(np.all(V > 0) and np.all(np.isfinite(F)) and np.all(F >= 0), "volumes or fractions")
        inc = np.abs(F.sum(1) - 1).max()
        require(inc < 1.01 * tol + 1e-12, lambda: f"sum of fractions off by {inc} at tolerance {tol}")
        there = [i for i in range(N) if np.all(F[:, i] > 0)]
        mu = np.array([[thermo.mu(F[m].tolist(), chi, l)[i] for i in there] for m in range(M)])
        cons = d.get("cons") or []
        loc = [c for c in cons if c["kind"] == "local"]
        pf = np.array([[F[m][feat == s].sum() for s in range(len(g))] for m in range(M)])
        for c in cons:
            r = pf @ np.array(c["Cs"]).T - np.array(c["Ts"])
            if c["kind"] == "local":
                require(np.abs(r).max() < 1.01 * tol + 1e-12, lambda: f"local constraint off by {np.abs(r).max()} at tolerance {tol}")
            else:
                gr = np.abs((V[:, None] * r).sum(0) / V.sum()).max()
                require(gr < 3 * tol + 1e-12, lambda: f"global constraint off by {gr} at tolerance {tol}")
        scale = 1.0
        if d["ens"][0] == "gc":
            # fractions correspond to the prescribed activities up to one common pressure
            a = np.array(d["ens"][1])
            mu = mu - np.array([(1 + np.log(a[i])) / l[i] for i in there])
            if not cons:
                sp = np.ptp(mu)
                require(sp < 5 * tol + 1e-9, lambda: f"chemical potentials do not correspond to the activities: {sp} at tolerance {tol}\n{mu}")
                return mu
        if d["ens"][0] == "can" and not loc:
            sp = np.ptp(mu, axis=0).max()
            require(sp < (5 if not cons else 12) * tol + 1e-9, lambda: f"chemical potentials differ by {sp} between compartments at tolerance {tol}\n{mu}")
            return mu
        # mu[m,i] = const_i - sum_a lam[a,m or common] (C[a,i] - T_a): solve for the multipliers
        cols = []
        if d["ens"][0] == "can":
            for k in range(len(there)):
                e = np.zeros((M, len(there)))
                e[:, k] = 1
                cols.append(e)
        else:
            cols.append(np.ones((M, len(there))))  # common pressure
        for c in cons:
            for row, T in zip(c["Cs"], c["Ts"]):
                v = np.array([row[feat[i]] - (T if c["kind"] == "local" else 0.0) for i in there])
                if c["kind"] == "local":
                    for m in range(M):
                        e = np.zeros((M, len(there)))
                        e[m] = v
                        cols.append(e)
                elif d["ens"][0] == "gc":
                    cols.append(np.tile(v, (M, 1)))
        A = np.array([e.ravel() for e in cols]).T
        x, *_ = np.linalg.lstsq(A, mu.ravel(), rcond=None)
        rest = np.abs(A @ x - mu.ravel()).max()
        lam = np.abs(x).max()
        require(rest < 12 * tol * (1 + lam) * len(there) + 1e-9, lambda: f"chemical potentials are off by {rest} beyond what the constraints allow, at tolerance {tol}\n{mu}")
        return mu

    def one(f, d, w, tol):
        f.reinitialize_from_omegas(w)
        with np.errstate(all="ignore"):
            res = f.run(max_steps=MAXS, interval=500, tolerance=tol)
        dg = f.diagnostics
        ctx.step(int(dg["steps"]))
        ok = all(dg[k] < tol for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue"))
        if not ok:
            ctx.count("not converged")
            return
        ctx.count("converged")
        mu = judge(d, res, tol)
        if np.ptp(res.fractions, axis=0).max() > 0.05:
            ctx.count("converged with distinct phases")
        ctx.state(d["tag"], shard["cons"], res.volumes, res.fractions, tol)
        ctx.outcome(res.volumes, res.fractions)

    for d0 in al.FAMILIES[shard["fam"]] + EXTRA[shard["fam"]]:
        S = len(build.groups_of(d0))
        if shard["cons"] != "none" and S < (3 if shard["cons"] == "LG" else 2):
            continue
        if abs(sum(d0["ens"][1]) - 1) > 1e-9 and d0["ens"][0] == "can":
            continue  # never incompressible
        d = feasible(d0, shard["cons"])
        for si, st in enumerate(SETS):
            f = build.finder(d, rng=np.random.default_rng(3), **st)
            for v, a in FIELDS:
                for tol in TOLS:
                    ctx.case(dict(sys=d["tag"], cons=shard["cons"], fam=shard["fam"], setting=si, field=v, amp=a, tol=tol), one, f, d, build.field(S, d["M"], v, a), tol)
