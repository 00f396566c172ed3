"""C22: the equilibrium phases of mixtures with a computable phase diagram are found."""
import itertools

import numpy as np

LEVEL = "model_checking"
RULE = ("binary mixtures: every combination of sizes, interaction (relative to the critical one, with and without diagonal terms), mean "
        "composition, number of compartments, step setting and start is run to convergence and compared with the convex hull of the "
        "documented energy; mixtures of three and four components (and polydisperse ones): the energy of the phases found is compared "
        "with the best demixing on a grid over the whole composition simplex (linear program)")
BOUNDS = {"quick": "5 size pairs x 6 interactions x 5 compositions x 2 compartment numbers x 2 starts x finder/shortcut; 6 ternary interactions x 3 sizes x 6 compositions x 2 starts; 4 components and polydisperse mixtures",
          "thorough": "9 interactions x 9 compositions x 3 compartment numbers x 5 starts"}
ASSUMPTIONS = ["runs that do not converge within their budget are not judged (their number is reported)",
               "between binodal and spinodal the homogeneous state is locally stable and accepted too"]

STEP = dict(acceptance_Js=0.002, acceptance_omega=0.02, Js_step_upper_bound=0.01, interval=1000, tolerance=1e-6)
SIZES = ((1.0, 1.0), (1.0, 2.0), (1.0, 5.0), (2.0, 3.0), (20.0, 1.0))
TERN = {"equal": [[0, 3.5, 3.5], [3.5, 0, 3.5], [3.5, 3.5, 0]], "weak": [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
        "diag": [[3.27, -0.34, 0], [-0.34, -3.96, 0], [0, 0, 0]], "unequal": [[0, 2, 3.5], [2, 0, 1], [3.5, 1, 0]],
        "solvent": [[0, 3.0, 0.5], [3.0, 0, 0.5], [0.5, 0.5, 0]], "attractive": [[0, -4, 0], [-4, 0, 0], [0, 0, 0]]}


def shards(tier):
    out = [dict(part="binary", l=list(l), M=M) for l in SIZES for M in ((8, 16, 5) if tier == "thorough" else (8, 5))]
    out += [dict(part="ternary", chi=c) for c in TERN]
    out += [dict(part="four", k=k) for k in range(2)] + [dict(part="poly", k=k) for k in range(2)]
    return out


def explore(ctx, shard):
    explore_runs(ctx, shard)
    from mc.core import require

    def enough():
        n, bad = ctx.cases - 1, ctx.counters.get("not converged", 0)
        require(bad <= 0.4 * n, lambda: f"{bad} of {n} runs did not reach the tolerance")
    if ctx.only is None:
        ctx.case(dict(summary="runs converge"), enough)


def explore_runs(ctx, shard):
    import flory
    from scipy.optimize import linprog
    from mc.core import Skip, close, require

    def energy(P, chi, l):
        P = np.atleast_2d(np.asarray(P, float))
        return (P * np.log(np.maximum(P, 1e-300)) / l).sum(1) + 0.5 * np.einsum("pi,ij,pj->p", P, chi, P)

    def converged(d, tol):
        return max(d["max_abs_incomp"], d["max_abs_omega_diff"], d["max_abs_js_diff"], d["max_constraint_residue"]) < tol

    def judge_mean(c, m):
        close("mean composition", c.volumes @ c.fractions / c.volumes.sum(), m, 0, 1e-4)
        close("incompressibility", c.fractions.sum(1), np.ones(len(c.volumes)), 0, 1e-4)

    # ---------------------------------------------------------------- binary
    if shard["part"] == "binary":
        l1, l2 = shard["l"]
        M = shard["M"]
        chic = 0.5 * (l1**-0.5 + l2**-0.5) ** 2
        x = np.concatenate([np.logspace(-14, -3, 3000), np.linspace(1e-3, 1 - 1e-3, 20001)[1:-1], 1 - np.logspace(-3, -14, 3000)])

        def binodal(chi):
            y = x * np.log(x) / l1 + (1 - x) * np.log1p(-x) / l2 + chi * x * (1 - x)
            h = []
            for i in range(len(x)):
                while len(h) >= 2 and (y[h[-1]] - y[h[-2]]) * (x[i] - x[h[-1]]) >= (y[i] - y[h[-1]]) * (x[h[-1]] - x[h[-2]]):
                    h.pop()
                h.append(i)
            g = max((x[b] - x[a], x[a], x[b]) for a, b in zip(h, h[1:]))
            return (g[1], g[2]) if g[0] > 0.02 else None

        def binary(chi, diag, b, p, start, how):
            chis = np.array([[diag[0], chi + 0.5 * sum(diag)], [chi + 0.5 * sum(diag), diag[1]]])
            m = np.array([p, 1 - p])
            rng = np.random.default_rng(start)
            if how == "shortcut":
                c = flory.find_coexisting_phases(2, chis, m, sizes=np.array([l1, l2]), num_part=M, progress=False, rng=rng, max_steps=400_000, **STEP)
                d = c.info
            else:
                f = flory.CoexistingPhasesFinder(flory.FloryHugginsInteraction(2, chis), flory.IdealGasEntropy(2, np.array([l1, l2])),
                                                 flory.CanonicalEnsemble(2, m), num_part=M, progress=False, rng=rng, max_steps=400_000, **STEP)
                c = f.run().get_clusters()
                d = f.diagnostics
            if not converged(d, STEP["tolerance"]):
                ctx.count("not converged")
                raise Skip
            judge_mean(c, m)
            q = np.sort(c.fractions[:, 0])
            inside = b is not None and b[0] < p < b[1]
            two = len(q) == 2 and inside and np.allclose(q, b, rtol=0, atol=1e-3)
            one = len(q) == 1 and abs(q[0] - p) < 1e-4
            curv = 1 / (l1 * p) + 1 / (l2 * (1 - p)) - 2 * chi
            if inside and curv < 0:
                require(two, lambda: f"unstable mixture: phases {q.tolist()} instead of {b}")
            elif inside:
                require(two or one, lambda: f"phases {q.tolist()} instead of {b} (or homogeneous)")
            else:
                edge = b is not None and min(abs(p - b[0]), abs(p - b[1])) < 1e-3
                require(one or edge, lambda: f"mixture is homogeneous, but found {q.tolist()}")
            if two:
                v = c.volumes[np.argsort(c.fractions[:, 0])] / c.volumes.sum()
                close("lever rule", v[1], (p - b[0]) / (b[1] - b[0]), 0, 2e-3)
                ctx.count("two phases")
            ctx.step(d["steps"])
            ctx.state(q)
            ctx.outcome(q, c.volumes)

        ks = (0.5, 0.9, 1.1, 1.3, 1.8, 2.5) if not ctx.thorough else (0.3, 0.5, 0.8, 0.95, 1.05, 1.2, 1.5, 2.0, 3.0)
        ps = (0.1, 0.3, 0.5, 0.7, 0.9) if not ctx.thorough else (0.05, 0.1, 0.2, 0.35, 0.5, 0.65, 0.8, 0.9, 0.95)
        for k in ks:
            b = binodal(k * chic)
            for p, start, (how, diag) in itertools.product(ps, range(5 if ctx.thorough else 2), (("finder", (0.0, 0.0)), ("shortcut", (0.8, -0.4)))):
                ctx.case(dict(l=[l1, l2], M=M, chi=k, p=p, start=start, how=how), binary, k * chic, diag, b, p, start, how)
        return

    # ---------------------------------------------------------------- more components
    def simplex(n, fine):
        """grid over the simplex, denser towards its boundary"""
        v = [1e-9, 1e-6, 1e-4, 1e-3, 0.004, 0.01] + list(fine)
        pts = set()
        for t in itertools.product(v, repeat=n - 1):
            r = 1 - sum(t)
            if r > 1e-10:
                for k in range(n):
                    pts.add(t[:k] + (r,) + t[k:])
        return np.array(sorted(pts))

    lps = {}

    def best(tag, G, chi, l, m):
        k = (tag, tuple(m))
        if k not in lps:
            r = linprog(energy(G, chi, l), A_eq=G.T, b_eq=m, method="highs")
            lps[k] = r.fun if r.status == 0 else None
        return lps[k]

    def multi(tag, G, chi, l, m, start, M, groups=None, chif=None):
        chi, l, m = np.array(chi, float), np.array(l, float), np.array(m, float)
        N = len(l)
        rng = np.random.default_rng(start)
        if groups:
            i = flory.FloryHugginsBlockInteraction(len(groups), np.array(chif, float), np.array(groups))
            e = flory.IdealGasPolydispersedEntropy(len(groups), l, np.array(groups))
        else:
            i, e = flory.FloryHugginsInteraction(N, chi), flory.IdealGasEntropy(N, l)
        f = flory.CoexistingPhasesFinder(i, e, flory.CanonicalEnsemble(N, m), num_part=M, progress=False, rng=rng, max_steps=60_000, **STEP)
        c = f.run().get_clusters()
        if not converged(f.diagnostics, STEP["tolerance"]):
            ctx.count("not converged")
            raise Skip
        judge_mean(c, m)
        F = float((c.volumes * energy(c.fractions, chi, l)).sum() / c.volumes.sum())
        want = best(tag, G, chi, l, m)
        if want is None:
            raise Skip
        require(F < want + 2e-5, lambda: f"energy {F} of the {len(c.volumes)} phases found is above {want} of another demixing\n{c.fractions.tolist()}")
        ctx.count(f"{len(c.volumes)} phases")
        ctx.step(f.diagnostics["steps"])
        ctx.state(c.fractions)
        ctx.outcome(c.fractions, c.volumes)

    starts = range(5 if ctx.thorough else 2)
    if shard["part"] == "ternary":
        G = simplex(3, np.linspace(0.02, 0.98, 33 if not ctx.thorough else 49))
        chi = TERN[shard["chi"]]
        means = [(1 / 3,) * 3, (0.6, 0.2, 0.2), (0.2, 0.6, 0.2), (0.2, 0.2, 0.6), (0.1, 0.45, 0.45), (0.45, 0.1, 0.45)]
        for l, m, s in itertools.product(((1, 1, 1), (1, 2, 1), (2, 1, 3)), means, starts):
            ctx.case(dict(chi=shard["chi"], l=l, m=m, start=s), multi, (shard["chi"], l), G, chi, l, m, s, 16)
    elif shard["part"] == "four":
        G = simplex(4, (0.04, 0.1, 0.2, 0.3, 0.45, 0.6, 0.75, 0.9))
        e4 = (4 * (1 - np.eye(4))).tolist()
        u4 = [[0, 3, 1, 2], [3, 0.5, -1, 4], [1, -1, 0, 2.5], [2, 4, 2.5, -0.5]]
        for (n, chi), l, m, s in itertools.product((("equal", e4), ("unequal", u4)), ((1, 1, 1, 1), (1, 2, 1, 1.5)),
                                                  ((0.25,) * 4, (0.4, 0.3, 0.2, 0.1), (0.1, 0.2, 0.3, 0.4)), starts):
            if s % 2 == shard["k"]:
                ctx.case(dict(four=n, l=l, m=m, start=s), multi, (n, l), G, chi, l, m, s, 16)
    else:
        G = simplex(4, (0.04, 0.1, 0.2, 0.3, 0.45, 0.6, 0.75, 0.9))
        for g, x, l, m, s in itertools.product(([2, 2], [1, 3]), (1.0, 2.5, 4.0), ((1, 2, 1, 2), (2, 1, 3, 1.5)), ((0.25,) * 4, (0.4, 0.3, 0.2, 0.1)), starts):
            if s % 2 != shard["k"]:
                continue
            cf = [[0.0, x], [x, 0.2]]
            feat = np.repeat(np.arange(2), g)
            chi = np.array(cf)[np.ix_(feat, feat)]
            ctx.case(dict(groups=g, x=x, l=l, m=m, start=s), multi, (tuple(g), x, l), G, chi, l, m, s, 8, g, cf)
