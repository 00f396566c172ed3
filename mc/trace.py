"""Run the real finder and the reference model side by side, iteration by iteration."""
import numpy as np

from mc import build, ref
from mc.core import Skip, close, require
from mc.rng import Script, scripted
from mc.spy import Spy

BIG = 40.0


class Rig:
    """one real finder with a spy and a scripted generator, reused for many traces"""

    def __init__(self, d, opts, horizon=12, spy_pos=None, **kw):
        self.d = d
        self.opts = opts
        self.sys = build.ref_system(d)
        self.script = Script().real(7)
        self.spy = Spy(self.sys.S, d["M"], horizon)
        self.finder = build.finder(d, spy=self.spy, rng=scripted(self.script), spy_pos=spy_pos,
                                   **{"tolerance": 1e-30, **opts}, **kw)
        self.par = build.par_of(opts)
        self.budget = opts.get("max_revive_per_compartment", 16) * d["M"]

    def reference(self, w0, T, kicks=None, residues=None, q=0.4987):
        """reference trace (list of records), cut where numbers leave a sane range"""
        st = ref.RefState(self.sys, w0, self.budget)
        recs = []
        for t in range(T):
            try:
                r = ref.step(self.sys, self.par, st,
                             None if kicks is None or t >= len(kicks) else kicks[t],
                             0.0 if residues is None or t >= len(residues) else residues[t], q)
            except Skip:
                break
            big = max(np.abs(r["w_after"]).max(), np.abs(r["J_after"]).max(), np.abs(r["phi"]).max() / 1e3)
            if not np.isfinite(big) or big > BIG:
                break
            recs.append(r)
        return recs, st

    def start(self, w0, kicks=None, residues=None, q=0.4987):
        self.script.reset([], [q])
        self.spy.restart(kicks, residues)
        self.finder.reinitialize_from_omegas(np.array(w0, float))

    def run(self, steps, interval=None, **kw):
        return self.finder.run(max_steps=steps, interval=interval or steps, **kw)


def check_spy(rig, recs, t0=0, rtol=1e-8, atol=1e-10):
    """what every iteration saw equals the reference"""
    spy = rig.spy
    for t, r in enumerate(recs):
        i = t0 + t
        close(f"iteration {i}: mask", spy.rec_mask[i], r["mask"])
        close(f"iteration {i}: volumes", spy.rec_J[i], r["J"], rtol, atol)
        close(f"iteration {i}: feature fractions", spy.rec_phi[i], r["phi_feat"], rtol, atol)
        close(f"iteration {i}: step size", spy.rec_step[i], r["step"], rtol, 1e-300)


def check_after(rig, r, res=None, steps=None, rtol=1e-8, atol=1e-10):
    """state, diagnostics and result after the iteration with record `r`"""
    f = rig.finder
    close("fields", f.omegas, r["w_after"], rtol, atol)
    d = f.diagnostics
    close("max_abs_incomp", d["max_abs_incomp"], r["inc"], rtol, atol)
    close("max_abs_omega_diff", d["max_abs_omega_diff"], r["dw"], rtol, 1e-9)
    close("max_abs_js_diff", d["max_abs_js_diff"], r["dJ"], rtol, 1e-9)
    close("max_constraint_residue", d["max_constraint_residue"], r["res"], rtol, atol)
    require(d["revive_count_left"] == r["budget"], lambda: f"revive_count_left {d['revive_count_left']} instead of {r['budget']}")
    if steps is not None:
        require(d["steps"] == steps, lambda: f"steps {d['steps']} instead of {steps}")
    if res is not None and not r["near"]:
        check_result(rig, r, res, rtol, atol)


def check_result(rig, r, res, rtol=1e-8, atol=1e-10):
    """returned phases: living compartments unchanged, dead ones split off living ones"""
    thr = rig.par.thr
    J, phi = r["J_after"], r["phi"].T
    alive = J > thr
    require(res.volumes.shape == J.shape and res.fractions.shape == phi.shape, "shape of the result")
    if not alive.any():
        return
    close("fractions of living compartments", res.fractions[alive], phi[alive], rtol, atol)
    if alive.all():
        close("volumes", res.volumes, J, rtol, atol)
    else:
        close("total volume", res.volumes.sum(), J[alive].sum(), rtol, atol)
        require(np.all(res.volumes > 0), "non-positive volume in the result")
        close("amount of every component", res.volumes @ res.fractions, J[alive] @ phi[alive], rtol, 1e-9)
        for m in np.flatnonzero(~alive):
            dist = np.abs(phi[alive] - res.fractions[m]).max(1).min()
            require(dist < 1e-9 + 1e-8 * np.abs(phi).max(), lambda: f"dead compartment {m} got a composition of no living one")
