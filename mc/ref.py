"""Reference model of the documented self-consistent scheme (plain numpy, no sharing with
the implementation).  See docs/source/theory.rst and the docstrings of the parts."""
import numpy as np

from mc.core import Skip

MARGIN = 1e-9


class RefConstraint:
    """linear constraint; energy as documented in the class docstrings"""

    def __init__(self, kind, Cs, Ts, acc=1.0, kappa=1.0):
        self.kind = kind
        self.Cs = np.atleast_2d(np.asarray(Cs, float))
        self.Ts = np.broadcast_to(np.atleast_1d(np.asarray(Ts, float)), (len(self.Cs),)).copy()
        self.acc, self.kappa = acc, kappa
        self.xi = None

    def init(self, M):
        self.xi = np.zeros((len(self.Cs), M)) if self.kind == "local" else np.zeros(len(self.Cs))

    def prepare(self, phi, J, mask):
        r = (np.einsum("ar,rm->am", self.Cs, phi) - self.Ts[:, None])
        if self.kind == "local":
            r = r * mask
            pot = np.einsum("ar,am->rm", self.Cs, self.xi + 2 * self.kappa * r) * mask
            vd = (r * (self.xi + self.kappa * r)).sum(0) * mask
            res = r
        else:
            R = (r * (J * mask)).sum(1)
            lam = self.xi + 2 * self.kappa * R
            pot = (self.Cs.T @ lam)[:, None] * mask
            vd = (r * lam[:, None]).sum(0) * mask
            res = R / (J * mask).sum()
        self.res = res
        return pot, vd

    def evolve(self, step, mask):
        self.xi = self.xi + step * self.acc * self.res
        if self.kind == "local":
            self.xi = self.xi * mask
        return float(np.abs(self.res).max())

    def copy(self):
        c = RefConstraint(self.kind, self.Cs, self.Ts, self.acc, self.kappa)
        c.xi = None if self.xi is None else self.xi.copy()
        return c


class RefSystem:
    def __init__(self, chis, sizes, groups, ensemble, shift=1.0, cons=()):
        chis = np.asarray(chis, float)
        self.chis = 0.5 * (chis + chis.T)
        self.sizes = np.asarray(sizes, float)
        self.groups = [int(g) for g in groups]  # components per feature
        self.S = len(self.groups)
        self.N = sum(self.groups)
        self.feat = np.repeat(np.arange(self.S), self.groups)
        self.ens, self.par = ensemble[0], np.asarray(ensemble[1], float)
        self.coef = self.chis.sum() + (-self.chis.min() + shift) * self.S**2
        self.cons = list(cons)

    # the parts; overridden for user-defined ones
    def boltzmann(self, w):
        return np.exp(-self.sizes[:, None] * w[self.feat])

    def normalize(self, p, J, mask):
        if self.ens == "can":
            Q = (p * J).sum(1) / J.sum()
            return (self.par / Q)[:, None] * p * mask
        return self.par[:, None] * p * mask

    def to_feat(self, phi):
        pf = np.zeros((self.S, phi.shape[1]))
        for i, f in enumerate(self.feat):
            pf[f] += phi[i]
        return pf

    def potential(self, pf):
        return np.einsum("rs,sm->rm", self.chis, pf)

    def energy(self, pf):
        return 0.5 * (self.potential(pf) * pf).sum(0)

    def incomp_coef(self, pf):
        return self.coef

    def entropy_vd(self, phi):
        return -(phi / self.sizes[:, None]).sum(0)


class Params:
    def __init__(self, acc_J=0.0002, acc_w=0.002, bound=0.001, thr=0.0, scaler=1.0):
        self.acc_J, self.acc_w, self.bound, self.thr, self.scaler = acc_J, acc_w, bound, thr, scaler


class RefState:
    def __init__(self, sys, omegas, budget, Js=None):
        self.w = np.array(omegas, float)
        self.M = self.w.shape[1]
        self.J = np.ones(self.M) if Js is None else np.array(Js, float)
        self.budget = budget
        self.cons = [c.copy() for c in sys.cons]
        for c in self.cons:
            c.init(self.M)
        self.rec = []


def revive_field(w, q, scaler):
    """new field of a revived compartment for quantiles q (per feature)"""
    lo, hi = w.min(1), w.max(1)
    return 0.5 * (lo + hi) + 0.5 * (hi - lo) * scaler * (2 * np.asarray(q) - 1)


def step(sys, par, st, kick=None, residue=0.0, q=0.5, margin=MARGIN):
    """one iteration; returns a record of everything that can be observed"""
    rec = {}
    if np.any(np.abs(st.J - par.thr) < margin) and np.any(st.J != par.thr):
        near = np.abs(st.J - par.thr) < margin
        if np.any(near & (st.J != 0.0)):
            raise Skip
    dead = st.J <= par.thr
    rec["revived"] = 0
    if st.budget > 0 and dead.any():
        new = revive_field(st.w, np.full(sys.S, q), par.scaler)
        st.w[:, dead] = new[:, None]
        st.J[dead] = 1.0
        st.budget -= int(dead.sum())
        rec["revived"] = int(dead.sum())
    mask = (st.J > par.thr).astype(float)
    n = mask.sum()
    if n == 0:
        raise Skip
    st.J = st.J * mask
    phi = sys.normalize(sys.boltzmann(st.w), st.J, mask)
    inc = (phi.sum(0) - 1.0) * mask
    pf = sys.to_feat(phi)
    rec.update(phi=phi.copy(), phi_feat=pf.copy(), J=st.J.copy(), mask=mask.copy(), w=st.w.copy())
    pots = [c.prepare(pf, st.J, mask) for c in st.cons]
    pot_c = sum((x[0] for x in pots), np.zeros_like(pf))
    vd_c = sum((x[1] for x in pots), np.zeros(st.M))
    if kick is not None:
        vd_c = vd_c + np.asarray(kick) * mask
    chiphi = sys.potential(pf)
    xi = (sys.incomp_coef(pf) * inc + (st.w - chiphi - pot_c).sum(0)) * mask / sys.S
    loc = sys.energy(pf) + sys.entropy_vd(phi) + xi * inc + vd_c
    field = chiphi + pot_c + xi
    loc = loc - (field * pf).sum(0)
    dJ = ((loc * st.J).sum() / n - loc) * mask
    mJ = np.abs(dJ).max()
    factor = par.bound / max(mJ * par.acc_J, par.bound)
    rec["factor"] = factor
    J = (st.J + factor * par.acc_J * dJ) * mask
    J = (J + 1 - J.sum() / n) * mask
    dw = (field - st.w) * mask
    st.w = (st.w + factor * par.acc_w * dw) * mask
    st.J = J
    rs = max([c.evolve(factor * par.acc_w, mask) for c in st.cons] + [residue, 0.0])
    rec.update(
        inc=float(np.abs(inc).max()), dw=float(np.abs(dw).max()), dJ=float(mJ), res=float(rs),
        safe=bool((J > par.thr).sum() == n), J_after=J.copy(), w_after=st.w.copy(),
        budget=st.budget, step=factor * par.acc_w, dJ_all=dJ,
        near=bool(np.any((np.abs(J - par.thr) < margin) & (J != 0.0))),
    )
    st.rec.append(rec)
    return rec
