"""C15: feature-based and component-based descriptions agree."""
import itertools

import numpy as np

LEVEL = "model_checking"
RULE = ("every grouping of up to 5 (6) components into features with several interactions and sizes: thermodynamic functions on a grid of "
        "compositions against the expanded matrix, compiled Boltzmann factors, partition functions, fractions, feature fractions, volume "
        "derivatives and potentials for several shared fields and volumes, whole iterations of finders in both descriptions, and "
        "converged states of one description fed to the other")
BOUNDS = {"quick": "all 31 groupings of 1..5 components, 2 interactions x 3 size patterns, 4 fields x 3 volumes x 3 masks; 16 groupings in finders",
          "thorough": "all 63 groupings of 1..6 components, 4 interactions; all groupings of 1..5 components in finders"}
ASSUMPTIONS = ["values compared up to rounding, converged states up to the tolerance"]


def groupings(N):
    for bits in itertools.product((0, 1), repeat=N - 1):
        out, cur = [], 1
        for b in bits:
            if b:
                out.append(cur)
                cur = 1
            else:
                cur += 1
        yield out + [cur]


def shards(tier):
    N = 6 if tier == "thorough" else 5
    return [dict(part="fe", N=n) for n in range(1, N + 1)] + [dict(part="find", ens=e, k=k) for e in ("can", "gc") for k in range(2)]


def chi_of(S, v):
    a = np.array([[0.4 * ((3 * i * j + i + j) % 7) - 0.8 for j in range(S)] for i in range(S)])
    if v == 0:
        return a
    if v == 1:
        b = np.full((S, S), 1.7)
        np.fill_diagonal(b, 0.0)
        return b
    if v == 2:
        return -a + 0.3
    return np.arange(S)[:, None] * 0.5 + np.arange(S)[None, :] ** 2 * 0.25  # asymmetric


def sizes_of(N, v):
    return [np.ones(N), np.array([1.0 + 0.5 * (i % 3) for i in range(N)]), np.array([2.5 - 0.4 * i for i in range(N)])][v]


def explore(ctx, shard):
    import flory
    from mc import build
    from mc.core import close, require

    if shard["part"] == "fe":
        N = shard["N"]
        grid = []
        for k in range(6):
            x = np.abs(np.sin(np.arange(1, N + 1) * (1.1 + 0.37 * k) + k)) + 0.02
            grid.append(x / x.sum())
        grid = np.array(grid)

        def thermo(g, cv, sv):
            S = len(g)
            feat = np.repeat(np.arange(S), g)
            chi = chi_of(S, cv)
            big = chi[np.ix_(feat, feat)]
            l = sizes_of(N, sv)
            blk, ent = flory.FloryHugginsBlockInteraction(S, chi, g), flory.IdealGasPolydispersedEntropy(S, l, g)
            a, b = flory.FreeEnergyBase(blk, ent), flory.FloryHuggins(N, big, l)
            close("expanded matrix", blk.chis, 0.5 * (big + big.T), 1e-12)
            require(blk.num_comp == N and ent.num_comp == N and blk.num_feat == S and ent.num_feat == S, "numbers of components and features")
            close("components per feature", blk.num_comp_per_feat, g)
            for name in ("free_energy_density", "jacobian", "hessian", "chemical_potentials", "equilibration_error"):
                close(name, getattr(a, name)(grid), getattr(b, name)(grid), 1e-10)
            for i in range(N):
                close("reduced jacobian", a.jacobian(grid, i), b.jacobian(grid, i), 1e-10)
                close("reduced hessian", a.hessian(grid, i), b.hessian(grid, i), 1e-10)
                close("pressure", a.pressure(grid, i), b.pressure(grid, i), 1e-10)
                close("exchange", a.exchange_chemical_potentials(grid, i), b.exchange_chemical_potentials(grid, i), 1e-10)
            if N > 1:
                close("unstable modes", a.num_unstable_modes(grid), b.num_unstable_modes(grid))
                close("stable", a.is_stable(grid), b.is_stable(grid))
            ctx.step(len(grid))
            ctx.state(g, cv, sv)
            ctx.outcome(a.free_energy_density(grid))
            # updates keep the two in step
            chi2, l2 = chi_of(S, (cv + 1) % 4) * 1.5, sizes_of(N, (sv + 1) % 3) * 1.25
            blk.chis_feat, ent.sizes = chi2, l2
            b.chis, b.sizes = chi2[np.ix_(feat, feat)], l2
            close("chemical potentials after an update", a.chemical_potentials(grid), b.chemical_potentials(grid), 1e-10)

        def comp(g, cv, sv, wv, Jv, mask):
            S = len(g)
            M = 3
            feat = np.repeat(np.arange(S), g)
            chi = chi_of(S, cv)
            chi = 0.5 * (chi + chi.T)
            big = chi[np.ix_(feat, feat)]
            l = sizes_of(N, sv)
            ea, eb = flory.IdealGasPolydispersedEntropy(S, l, g).compiled(), flory.IdealGasEntropy(N, l).compiled()
            ia, ib = flory.FloryHugginsBlockInteraction(S, chi, g).compiled(), flory.FloryHugginsInteraction(N, big).compiled()
            w = build.field(S, M, wv, 0.8)
            m = np.array(mask, float)
            J = np.array([[1.0, 1.0, 1.0], [0.2, 1.5, 1.3], [2.5, 0.01, 0.49]][Jv]) * m
            pa, pb = np.full((N, M), 9.0), np.full((N, M), 9.0)
            Qa, Qb = ea.partition(pa, w, J), eb.partition(pb, w[feat].copy(), J)
            close("partition functions", Qa, Qb, 1e-10)
            close("Boltzmann factors", pa, pb, 1e-10)
            close("Boltzmann factors", pa, np.exp(-l[:, None] * w[feat]), 1e-10)
            close("partition functions", Qa, (pa * J).sum(1) / J.sum(), 1e-10)
            for ens in (flory.CanonicalEnsemble(N), flory.GrandCanonicalEnsemble(N, 0.3 + 0.1 * np.arange(N))):
                qa, qb = pa.copy(), pb.copy()
                ia_, ib_ = ens.compiled().normalize(qa, Qa, m), ens.compiled().normalize(qb, Qb, m)
                close("fractions", qa, qb, 1e-10)
                close("incompressibility", ia_, ib_, 1e-10)
                close("incompressibility", ia_, (qa.sum(0) - 1) * m, 1e-10)
                fa, fb = np.full((S, M), 5.0), np.full((N, M), 5.0)
                ea.comp_to_feat(fa, qa)
                eb.comp_to_feat(fb, qb)
                close("feature fractions", fa, [qa[feat == s].sum(0) for s in range(S)], 1e-10)
                close("component fractions", fb, qb, 1e-12)
                close("entropy volume derivative", ea.volume_derivative(qa), eb.volume_derivative(qb), 1e-10)
                close("entropy volume derivative", ea.volume_derivative(qa), -(qa / l[:, None]).sum(0), 1e-10)
                ua, ub = ia.potential(fa), ib.potential(fb)
                close("potential", ua[feat], ub, 1e-10)
                close("interaction volume derivative", ia.volume_derivative(ua, fa), ib.volume_derivative(ub, fb), 1e-10)
                ctx.step()
            ctx.state(g, cv, sv, wv, Jv, mask)
            ctx.outcome(Qa)

        for g in groupings(N):
            for cv in range(4 if ctx.thorough else 2):
                for sv in range(3):
                    ctx.case(dict(groups=g, chi=cv, sizes=sv, what="thermodynamics"), thermo, g, cv, sv)
                    for wv in range(4):
                        for Jv in range(3):
                            for mask in ((1, 1, 1), (1, 0, 1), (0, 1, 0)):
                                ctx.case(dict(groups=g, chi=cv, sizes=sv, field=wv, J=Jv, mask=list(mask)), comp, g, cv, sv, wv, Jv, mask)
        return

    # ---------------------------------------------------------------- finders
    ens = shard["ens"]
    top = 5 if ctx.thorough else 4
    allg = [g for N in range(1, top + 1) for g in groupings(N)]
    opts = dict(progress=False, acceptance_Js=0.02, acceptance_omega=0.05, Js_step_upper_bound=0.05, max_revive_per_compartment=0)

    def ensemble(N, cls):
        if ens == "can":
            p = np.arange(2.0, N + 2)
            return flory.CanonicalEnsemble(N, p / p.sum())
        return flory.GrandCanonicalEnsemble(N, 0.3 + 0.15 * np.arange(N))

    def pair(g, chi, l, M, con):
        S, N = len(g), sum(g)
        feat = np.repeat(np.arange(S), g)
        C = np.array([1.0, -0.5, 0.25, 0.8, 0.3])[:S]
        T = 0.1
        if ens == "can":  # feasible target
            T = float(C[feat] @ ensemble(N, 0).phi_means)
        ca = flory.LinearLocalConstraint(S, C, T) if con else None
        cb = flory.LinearLocalConstraint(N, C[feat], T) if con else None
        a = flory.CoexistingPhasesFinder(flory.FloryHugginsBlockInteraction(S, chi, g), flory.IdealGasPolydispersedEntropy(S, l, g), ensemble(N, 0), ca, num_part=M, rng=np.random.default_rng(1), **opts)
        b = flory.CoexistingPhasesFinder(flory.FloryHugginsInteraction(N, chi[np.ix_(feat, feat)]), flory.IdealGasEntropy(N, l), ensemble(N, 0), cb, num_part=M, rng=np.random.default_rng(1), **opts)
        return a, b, feat

    def first(g, cv, sv, M, wv, con):
        """the fractions of one iteration from shared fields agree, whatever the description"""
        chi = chi_of(len(g), cv)
        a, b, feat = pair(g, 0.5 * (chi + chi.T), sizes_of(sum(g), sv), M, con)
        w = build.field(len(g), M, wv, 0.5)
        a.reinitialize_from_omegas(w)
        b.reinitialize_from_omegas(w[feat])
        ra, rb = a.run(max_steps=1, interval=1), b.run(max_steps=1, interval=1)
        close("fractions", ra.fractions, rb.fractions, 1e-9)
        close("incompressibility", a.diagnostics["max_abs_incomp"], b.diagnostics["max_abs_incomp"], 1e-9)
        if con:
            close("constraint residue", a.diagnostics["max_constraint_residue"], b.diagnostics["max_constraint_residue"], 1e-9)
        if max(g) == 1:
            close("volumes", ra.volumes, rb.volumes, 1e-9)
            for k in range(4):
                ra, rb = a.run(max_steps=3, interval=3), b.run(max_steps=3, interval=3)
                close("fields", a.omegas, b.omegas, 1e-8)
                close("volumes", ra.volumes, rb.volumes, 1e-8)
                close("fractions", ra.fractions, rb.fractions, 1e-8)
        ctx.step(2)
        ctx.state(g, cv, sv, M, wv, ens)

    TOL = 1e-7

    def converged(g, chi, sv, M, wv, con, back):
        """a converged state of one description is stationary in the other (equal volumes, so both see the same state)"""
        a, b, feat = pair(g, chi, sizes_of(sum(g), sv), M, con)
        S = len(g)
        w = build.field(S, M, wv, 0.5)
        if M == 2:
            w = np.stack([w[:, 0], w[:, 0]], 1)  # both compartments equal: volumes stay one
        src, dst = (b, a) if back else (a, b)
        src.reinitialize_from_omegas(w[feat] if back else w)
        rs = src.run(max_steps=40000, interval=200, tolerance=TOL)
        d = src.diagnostics
        if not all(d[k] < TOL for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue")):
            ctx.count("not converged")
            return
        ctx.count("converged")
        ws = src.omegas.copy()
        if back:
            firsts = np.concatenate([[0], np.cumsum(g)[:-1]])
            for s in range(S):
                spread = np.ptp(ws[feat == s], axis=0).max()
                require(spread < 20 * TOL, lambda: f"converged fields of components of one feature differ by {spread}")
            wd = ws[firsts]
        else:
            wd = ws[feat]
        dst.reinitialize_from_omegas(wd)
        rd = dst.run(max_steps=1, interval=1, tolerance=1e-30)
        close("fractions", rd.fractions, rs.fractions, 1e-5, 100 * TOL)
        e = dst.diagnostics
        lim = 100 * TOL * (1 + np.abs(chi).sum())
        keys = ["max_abs_incomp"] + ([] if con else ["max_abs_omega_diff", "max_abs_js_diff"]) + (["max_constraint_residue"] if con else [])
        for k in keys:
            require(e[k] < lim, lambda: f"{k} is {e[k]} in the other description although converged to {TOL}")
        ctx.step(int(d["steps"]) + 1)
        ctx.state(g, sv, M, wv, con, back, ens)
        ctx.outcome(rs.fractions)

    for i, g in enumerate(allg):
        if i % 2 != shard["k"]:
            continue
        for cv, sv, wv in itertools.product((0, 1, 3), (0, 2), (0, 2)):
            for M in (1, 2, 4):
                for con in (False, True):
                    ctx.case(dict(groups=g, chi=cv, sizes=sv, M=M, field=wv, constraint=con, ens=ens, what="iteration"), first, g, cv, sv, M, wv, con)
            for M in (1, 2):
                for back in (False, True):
                    for con in (False, True):
                        if con and len(g) < 2:
                            continue
                        chi = chi_of(len(g), cv)
                        ctx.case(dict(groups=g, chi=cv, sizes=sv, M=M, field=wv, constraint=con, ens=ens, back=back), converged, g, 0.5 * (chi + chi.T), sv, M, wv, con, back)
