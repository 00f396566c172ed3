"""User-defined parts, written only from the documented interfaces of the base classes.

Interactions: "clone" (the Flory-Huggins one), "coef" (compartment-dependent coefficient for
the incompressibility), "cubic" (with a term t*phi_0^2*phi_last).  Entropies: "clone" and
"copoly" (molecules made of several features).  Ensembles: "clone" (canonical) and "mixed"
(some components canonical, the others with fixed activity).  Constraint: "square" (a
penalty and multiplier on sum_r c_r phi_r^2 = T in every compartment)."""
import numpy as np
from numba import boolean, float64, int64
from numba.experimental import jitclass

import flory
from flory.constraint.base import ConstraintBaseCompiled
from flory.ensemble.base import EnsembleBaseCompiled
from flory.entropy.base import EntropyBaseCompiled
from flory.interaction.base import InteractionBaseCompiled
from mc import ref


@jitclass([("_chis", float64[:, ::1]), ("_coef", float64), ("_t", float64)])
class CubicCompiled(InteractionBaseCompiled):
    def __init__(self, chis, coef, t):
        self._chis = chis
        self._coef = coef
        self._t = t

    @property
    def num_feat(self):
        return self._chis.shape[0]

    def potential(self, phis_feat):
        S = self._chis.shape[0]
        out = np.zeros_like(phis_feat)
        for r in range(S):
            for s in range(S):
                out[r] += self._chis[r, s] * phis_feat[s]
        out[0] += 2 * self._t * phis_feat[0] * phis_feat[S - 1]
        out[S - 1] += self._t * phis_feat[0] ** 2
        return out

    def volume_derivative(self, potential, phis_feat):
        S = self._chis.shape[0]
        out = np.zeros_like(phis_feat[0])
        for r in range(S):
            for s in range(S):
                out += 0.5 * self._chis[r, s] * phis_feat[r] * phis_feat[s]
        out += self._t * phis_feat[0] ** 2 * phis_feat[S - 1]
        return out

    def incomp_coef(self, phis_feat):
        return self._coef


@jitclass([("_chis", float64[:, ::1]), ("_coef", float64), ("_slope", float64)])
class CoefCompiled(InteractionBaseCompiled):
    def __init__(self, chis, coef, slope):
        self._chis = chis
        self._coef = coef
        self._slope = slope

    @property
    def num_feat(self):
        return self._chis.shape[0]

    def potential(self, phis_feat):
        return self._chis @ phis_feat

    def volume_derivative(self, potential, phis_feat):
        out = np.zeros_like(phis_feat[0])
        for r in range(self._chis.shape[0]):
            out += 0.5 * potential[r] * phis_feat[r]
        return out

    def incomp_coef(self, phis_feat):
        return self._coef + self._slope * phis_feat[0]


class Interaction(flory.InteractionBase):
    """energy 1/2 phi.chi.phi + t*phi_0^2*phi_last of the features"""

    def __init__(self, num_comp, chis, kind, F, fractions=False):
        super().__init__(num_comp)
        self.chis = np.array(chis, float)
        self.kind, self.F = kind, np.array(F, float)
        self.t = {"cubic": 0.7}.get(kind, 0.0)
        if fractions:
            self._jacobian_fractions_impl = lambda phis: self._jacobian_impl(phis) * phis

    def coef(self, strength):
        S = len(self.chis)
        return float(self.chis.sum() + (strength - self.chis.min()) * S**2)

    def _compiled_impl(self, strength: float = 1.0):
        c = np.ascontiguousarray(self.chis.copy())
        if self.kind == "coef":
            return CoefCompiled(c, self.coef(strength), 0.8)
        return CubicCompiled(c, self.coef(strength), self.t)

    def _feat(self, phis):
        return np.asarray(phis, float) @ self.F

    def _energy_impl(self, phis):
        x = self._feat(phis)
        return 0.5 * np.einsum("...i,ij,...j->...", x, self.chis, x) + self.t * x[..., 0] ** 2 * x[..., -1]

    def _jacobian_impl(self, phis):
        x = self._feat(phis)
        g = x @ self.chis
        g[..., 0] += 2 * self.t * x[..., 0] * x[..., -1]
        g[..., -1] += self.t * x[..., 0] ** 2
        return g @ self.F.T

    def _hessian_impl(self, phis):
        x = self._feat(phis)
        S = len(self.chis)
        h = np.broadcast_to(self.chis, x.shape[:-1] + (S, S)).copy()
        h[..., 0, 0] += 2 * self.t * x[..., -1]
        h[..., 0, S - 1] += 2 * self.t * x[..., 0]
        h[..., S - 1, 0] += 2 * self.t * x[..., 0]
        return self.F @ h @ self.F.T


@jitclass([("_sizes", float64[::1]), ("_F", float64[:, ::1])])
class CopolyCompiled(EntropyBaseCompiled):
    def __init__(self, sizes, F):
        self._sizes = sizes
        self._F = F

    @property
    def num_comp(self):
        return self._F.shape[0]

    @property
    def num_feat(self):
        return self._F.shape[1]

    def partition(self, phis_comp, omegas, Js):
        N, S = self._F.shape
        Qs = np.zeros(N)
        tot = Js.sum()
        for i in range(N):
            w = np.zeros_like(Js)
            for r in range(S):
                w += self._F[i, r] * omegas[r]
            phis_comp[i] = np.exp(-w * self._sizes[i])
            Qs[i] = (phis_comp[i] * Js).sum() / tot
        return Qs

    def comp_to_feat(self, phis_feat, phis_comp):
        N, S = self._F.shape
        for r in range(S):
            phis_feat[r] = self._F[0, r] * phis_comp[0]
            for i in range(1, N):
                phis_feat[r] += self._F[i, r] * phis_comp[i]

    def volume_derivative(self, phis_comp):
        out = np.zeros_like(phis_comp[0])
        for i in range(self._F.shape[0]):
            out -= phis_comp[i] / self._sizes[i]
        return out


class Entropy(flory.EntropyBase):
    def __init__(self, sizes, F, fractions=False):
        super().__init__(len(sizes))
        self.sizes, self.F = np.array(sizes, float), np.array(F, float)
        if fractions:
            self._jacobian_fractions_impl = self._limit

    def _compiled_impl(self):
        return CopolyCompiled(self.sizes.copy(), np.ascontiguousarray(self.F.copy()))

    def _limit(self, phis):
        p = np.asarray(phis, float)
        with np.errstate(all="ignore"):
            return np.where(p > 0, p * np.log(np.where(p > 0, p, 1.0)) + p, 0.0) / self.sizes

    def _energy_impl(self, phis):
        p = np.asarray(phis, float)
        return (np.where(p > 0, p * np.log(np.where(p > 0, p, 1.0)), 0.0) / self.sizes).sum(-1)

    def _jacobian_impl(self, phis):
        p = np.asarray(phis, float)
        return (np.log(p) + 1) / self.sizes

    def _hessian_impl(self, phis):
        p = np.asarray(phis, float)
        return np.eye(len(self.sizes)) * (1.0 / (self.sizes * p))[..., None, :]


@jitclass([("_means", float64[::1]), ("_fixed", boolean[::1])])
class MixedCompiled(EnsembleBaseCompiled):
    def __init__(self, means, fixed):
        self._means = means
        self._fixed = fixed

    @property
    def num_comp(self):
        return self._means.shape[0]

    def normalize(self, phis_comp, Qs, masks):
        incomp = -1.0 * np.ones_like(phis_comp[0])
        for i in range(self._means.shape[0]):
            f = self._means[i]
            if self._fixed[i]:
                f = f / Qs[i]
            phis_comp[i] = f * phis_comp[i] * masks
            incomp += phis_comp[i]
        incomp *= masks
        return incomp


class Ensemble(flory.EnsembleBase):
    """components with fixed amount (fixed) or with fixed activity (not fixed)"""

    def __init__(self, means, fixed):
        super().__init__(len(means))
        self.means, self.fixed = np.array(means, float), np.array(fixed, bool)

    def _compiled_impl(self, factor: float = 1.0):
        return MixedCompiled(self.means * factor, self.fixed.copy())


@jitclass([("_c", float64[::1]), ("_T", float64), ("_kappa", float64), ("_lam", float64[::1]), ("_res", float64[::1]),
           ("_pot", float64[:, ::1]), ("_vd", float64[::1])])
class SquareCompiled(ConstraintBaseCompiled):
    def __init__(self, c, T, kappa):
        self._c = c
        self._T = T
        self._kappa = kappa
        self._lam = np.zeros(1)
        self._res = np.zeros(1)
        self._pot = np.zeros((c.shape[0], 1))
        self._vd = np.zeros(1)

    @property
    def num_feat(self):
        return self._c.shape[0]

    @property
    def potential(self):
        return self._pot

    @property
    def volume_derivative(self):
        return self._vd

    def initialize(self, num_part):
        self._lam = np.zeros(num_part)
        self._res = np.zeros(num_part)
        self._pot = np.zeros((self._c.shape[0], num_part))
        self._vd = np.zeros(num_part)

    def prepare(self, phis_feat, Js, masks):
        r = np.full(Js.shape, -self._T)
        for s in range(self._c.shape[0]):
            r += self._c[s] * phis_feat[s] ** 2
        r *= masks
        self._res = r
        for s in range(self._c.shape[0]):
            self._pot[s] = 2 * self._c[s] * phis_feat[s] * (self._lam + 2 * self._kappa * r) * masks
        self._vd = r * (self._lam + self._kappa * r) * masks

    def evolve(self, step, masks):
        self._lam += 0.5 * step * self._res
        self._lam *= masks
        return np.abs(self._res).max()


class Square(flory.ConstraintBase):
    def __init__(self, c, T):
        super().__init__(len(c))
        self.c, self.T = np.array(c, float), float(T)

    def _compiled_impl(self, kappa: float = 0.4):
        return SquareCompiled(self.c.copy(), self.T, float(kappa))


# ------------------------------------------------------------------ reference
class RefSquare:
    def __init__(self, c, T, kappa=0.4):
        self.c, self.T, self.kappa, self.lam = np.array(c, float), T, kappa, None

    def init(self, M):
        self.lam = np.zeros(M)

    def copy(self):
        n = RefSquare(self.c, self.T, self.kappa)
        n.lam = None if self.lam is None else self.lam.copy()
        return n

    def prepare(self, phi, J, mask):
        self.res = ((self.c[:, None] * phi**2).sum(0) - self.T) * mask
        pot = 2 * self.c[:, None] * phi * (self.lam + 2 * self.kappa * self.res) * mask
        return pot, self.res * (self.lam + self.kappa * self.res) * mask

    def evolve(self, step, mask):
        self.lam = (self.lam + 0.5 * step * self.res) * mask
        return float(np.abs(self.res).max())


class RefCustom(ref.RefSystem):
    """reference with any of the user-defined parts"""

    def __init__(self, chis, sizes, F, means, fixed, strength=1.0, slope=0.0, t=0.0, cons=()):
        S = len(chis)
        super().__init__(chis, sizes, [1] * len(sizes), ("mixed", means), 0.0, cons)
        self.F, self.fixed, self.S = np.array(F, float), np.array(fixed, bool), S
        self.base = float(self.chis.sum() + (strength - self.chis.min()) * S**2)
        self.slope, self.t = slope, t

    def boltzmann(self, w):
        return np.exp(-self.sizes[:, None] * (self.F @ w))

    def normalize(self, p, J, mask):
        Q = (p * J).sum(1) / J.sum()
        return (self.par / np.where(self.fixed, Q, 1.0))[:, None] * p * mask

    def to_feat(self, phi):
        return self.F.T @ phi

    def potential(self, pf):
        out = self.chis @ pf
        out[0] += 2 * self.t * pf[0] * pf[-1]
        out[-1] += self.t * pf[0] ** 2
        return out

    def energy(self, pf):
        return 0.5 * (pf * (self.chis @ pf)).sum(0) + self.t * pf[0] ** 2 * pf[-1]

    def incomp_coef(self, pf):
        return self.base + self.slope * pf[0]
