"""Observable behaviour of the parts, as lists of arrays."""
import numpy as np

import flory


def phis_for(n, rows=2):
    x = 0.1 + 0.8 * np.abs(np.sin(1.0 + np.arange(rows)[:, None] + 1.3 * np.arange(n)))
    return x


def inter_compiled(c):
    S = int(c.num_feat)
    X = 0.2 + 0.1 * (1 + np.arange(S)[:, None]) * np.array([0.3, 0.5, 0.9])
    pot = c.potential(X)
    return [np.array(S), pot, c.volume_derivative(pot, X), np.asarray(c.incomp_coef(X))]


def entropy_compiled(c):
    N, S = int(c.num_comp), int(c.num_feat)
    w = np.sin(np.arange(S)[:, None] + np.arange(3) * 0.7)
    J = np.array([0.5, 1.0, 1.5])
    p = np.zeros((N, 3))
    Q = c.partition(p, w, J)
    pf = np.zeros((S, 3))
    c.comp_to_feat(pf, p)
    return [np.array(N), np.array(S), Q, p, pf, c.volume_derivative(p)]


def ens_compiled(c):
    N = int(c.num_comp)
    p = np.abs(np.cos(np.arange(N)[:, None] * 0.8 + np.arange(3))) + 0.1
    inc = c.normalize(p, 0.5 + 0.1 * np.arange(N), np.array([1.0, 0.0, 1.0]))
    return [np.array(N), p, inc]


def cons_compiled(c):
    S = int(c.num_feat)
    out = [np.array(S)]
    c.initialize(3)
    J = np.array([0.5, 1.0, 1.5])
    for k, m in ((0, np.ones(3)), (1, np.array([1.0, 0.0, 1.0])), (2, np.ones(3))):
        X = np.abs(np.sin(np.arange(S)[:, None] + np.arange(3) * 0.7 + k)) * m
        c.prepare(X, J * m, m)
        out += [c.potential.copy() * m, c.volume_derivative.copy() * m, np.asarray(c.evolve(0.4, m), float)]
    return out


def fe_values(fe):
    x = phis_for(int(fe.num_comp), 3)
    return [np.asarray(getattr(fe, n)(x), float) for n in
            ("free_energy_density", "jacobian", "hessian", "chemical_potentials", "num_unstable_modes")]


def inter(o):
    return [np.asarray(o.chis, float)] + fe_values(flory.FreeEnergyBase(o, flory.IdealGasEntropy(o.num_comp))) \
        + inter_compiled(o.compiled()) + inter_compiled(o.compiled(additional_chis_shift=2.5))


def block(o):
    return [np.asarray(o.chis_feat, float), np.asarray(o.num_comp_per_feat, float)] + inter(o)


def entropy(o):
    return [np.asarray(o.sizes, float)] + fe_values(flory.FreeEnergyBase(flory.FloryHugginsInteraction(o.num_comp, 0.0), o)) \
        + entropy_compiled(o.compiled())


def can(o):
    return [np.asarray(o.phi_means, float), np.array(o.num_comp)] + ens_compiled(o.compiled())


def gc(o):
    return [np.asarray(o.scaled_activity, float), np.array(o.num_comp)] + ens_compiled(o.compiled())


def cons(o):
    return [np.asarray(o.Cs, float), np.asarray(o.Ts, float), np.array(o.num_cons), np.array(o.num_feat)] \
        + cons_compiled(o.compiled()) + cons_compiled(o.compiled(constraint_acceptance_ratio=2.5, constraint_elasticity=0.25))


def fe(o):
    return [np.asarray(o.chis, float), np.asarray(o.sizes, float)] + fe_values(o) \
        + inter_compiled(o.interaction.compiled()) + entropy_compiled(o.entropy.compiled())


def finder(f, steps=4):
    """trajectory of a few iterations"""
    out = [f.omegas.copy()]
    for k in (1, steps - 1):
        r = f.run(max_steps=k, interval=k, tolerance=1e-30, progress=False)
        out += [f.omegas.copy(), r.volumes, r.fractions]
        d = f.diagnostics
        out += [np.array([d["steps"], d["max_abs_incomp"], d["max_abs_omega_diff"], d["max_abs_js_diff"],
                          d["max_constraint_residue"], d["revive_count_left"]], float)]
    return out
