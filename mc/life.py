"""Reference model of the life of a finder: current parts, options, state, and operations on it."""
import copy

import numpy as np

from mc import build, ref
from mc.core import Skip, close, require
from mc.rng import Script, scripted
from mc.spy import Spy

BIG = 60.0


class World:
    """constructor arguments shared by the real finder and the model"""

    def __init__(self, d, opts, kwargs=None, kicks=None, spy=True, q=0.37):
        self.d = d
        self.M = d["M"]
        self.opts = dict(acceptance_Js=0.3, acceptance_omega=0.1, Js_step_upper_bound=20.0, max_revive_per_compartment=1,
                         max_steps=4, interval=2, tolerance=1e-30)
        self.opts.update(opts)
        self.kwargs = dict(kwargs or {})  # forwarded to the parts
        self.kicks = np.zeros((64, self.M)) if kicks is None else np.asarray(kicks, float)
        self.with_spy = spy
        self.q = q


class Pair:
    """the real finder and its model, driven by the same operations"""

    def __init__(self, world, w0):
        self.world = world
        d = world.d
        self.groups = build.groups_of(d)
        S = len(self.groups)
        self.S = S
        self.spy = Spy(S, world.M, 64)
        self.spy.restart(world.kicks)
        self.script = Script().real(3)
        inter, entr, ens = build.parts(d)
        cons = [build.constraint(c, S) for c in d.get("cons") or []]
        if world.with_spy:
            cons.append(self.spy)
        import flory
        self.f = flory.CoexistingPhasesFinder(inter, entr, ens, cons or None, num_part=world.M, rng=scripted(self.script),
                                              progress=False, **world.opts, **world.kwargs)
        # model
        self.chis, self.sizes, self.ens = np.array(d["chis"], float), np.array(d["sizes"], float), d["ens"]
        self.shift = world.kwargs.get("additional_chis_shift", 1.0)
        self.par = build.par_of(world.opts)
        self.full = world.opts["max_revive_per_compartment"] * world.M
        self.t = 0
        self.budget = self.full
        self.J = np.ones(world.M)
        self.w = None
        self.set_model_cons(d.get("cons") or [], [{}] * len(d.get("cons") or []), {}, world.with_spy)
        self.script.reset([], [world.q])
        self.last = None
        if w0 is not None:
            self.omegas(w0)
        else:
            self.w = self.f.omegas.copy()

    # ---- model ---------------------------------------------------------------------
    def set_model_cons(self, cons, individual, common, spy):
        out = []
        for c, ind in zip(cons, individual):
            kw = {**self.world.kwargs, **common, **ind}
            out.append(ref.RefConstraint(c["kind"], c["Cs"], c["Ts"], kw.get("constraint_acceptance_ratio", 1.0), kw.get("constraint_elasticity", 1.0)))
        self.cons = out
        self.has_spy = spy
        for c in self.cons:
            c.init(self.world.M)

    def fresh(self):
        self.J = np.ones(self.world.M)
        self.budget = self.full
        for c in self.cons:
            c.init(self.world.M)

    def system(self):
        return ref.RefSystem(self.chis, self.sizes, self.groups, self.ens, self.shift, [])

    # ---- operations -----------------------------------------------------------------
    def omegas(self, w, spelled=None):
        self.f.reinitialize_from_omegas(np.array(w, float) if spelled is None else spelled)
        self.w = np.array(w, float)
        self.fresh()

    def phis(self, p):
        self.f.reinitialize_from_phis(np.array(p, float))
        self.w = 0.5 * (self.chis + self.chis.T) @ np.array(p, float)
        self.fresh()

    def random(self):
        self.script.real(11)
        self.f.reinitialize_random()
        self.script.reset([], [self.world.q])
        self.w = self.f.omegas.copy()
        require(self.w.shape == (self.S, self.world.M) and np.isfinite(self.w).all() and np.ptp(self.w) > 0, "random fields")
        self.fresh()

    def reset(self):
        self.f.reset_revive()
        self.budget = self.full

    def interaction(self, chis, kw=None, reset=None):
        import flory
        obj = flory.FloryHugginsBlockInteraction(self.S, np.array(chis, float), np.array(self.groups)) if self.world.d.get("groups") else flory.FloryHugginsInteraction(self.S, np.array(chis, float))
        self.f.set_interaction(obj, **({} if reset is None else dict(if_reset_revive=reset)), **(kw or {}))
        self.chis = np.array(chis, float)
        self.shift = {**self.world.kwargs, **(kw or {})}.get("additional_chis_shift", 1.0)
        if reset is not False:
            self.budget = self.full

    def entropy(self, sizes, reset=None, poly=None, kw=None):
        import flory
        poly = bool(self.world.d.get("groups")) if poly is None else poly
        obj = flory.IdealGasPolydispersedEntropy(self.S, np.array(sizes, float), np.array(self.groups)) if poly else flory.IdealGasEntropy(self.S, np.array(sizes, float))
        self.f.set_entropy(obj, **({} if reset is None else dict(if_reset_revive=reset)), **(kw or {}))
        self.sizes = np.array(sizes, float)
        if reset is not False:
            self.budget = self.full

    def ensemble(self, ens, reset=None, kw=None):
        import flory
        cls = flory.CanonicalEnsemble if ens[0] == "can" else flory.GrandCanonicalEnsemble
        self.f.set_ensemble(cls(len(self.sizes), np.array(ens[1], float)), **({} if reset is None else dict(if_reset_revive=reset)), **(kw or {}))
        self.ens = ens
        if reset is not False:
            self.budget = self.full

    def constraints(self, cons, *, individual=None, common=None, reset=None, single=False, spy=True, tup=False):
        objs = [build.constraint(c, self.S) for c in cons] + ([self.spy] if spy else [])
        arg = objs[0] if single else (tuple(objs) if tup else objs)
        if not objs:
            arg = None
        kw = dict(common or {})
        if individual is not None:
            kw["kwargs_individual"] = dict(individual[0]) if single else [dict(x) for x in individual] + ([{}] if spy else [])
        if reset is not None:
            kw["if_reset_revive"] = reset
        self.f.set_constraints(arg, **kw)
        self.set_model_cons(cons, individual or [{}] * len(cons), common or {}, spy)
        if reset is not False:
            self.budget = self.full

    def clear_multipliers(self):
        self.f.reinitialize_constraint()
        for c in self.cons:
            c.init(self.world.M)

    def run(self, max_steps=None, interval=None, tolerance=None, compare=True):
        """run both; compare everything observable"""
        o = self.world.opts
        mx = o["max_steps"] if max_steps is None else max_steps
        iv = o["interval"] if interval is None else interval
        tol = o["tolerance"] if tolerance is None else tolerance
        kw = {k: v for k, v in (("max_steps", max_steps), ("interval", interval), ("tolerance", tolerance)) if v is not None}
        assert mx % iv == 0
        sys = self.system()
        sys.cons = self.cons
        st = ref.RefState(sys, self.w, self.budget, self.J)
        st.cons = [c.copy() for c in self.cons]
        steps = 0
        rec = None
        while steps < mx:
            for _ in range(iv):
                kick = None
                if self.has_spy:
                    kick = self.world.kicks[self.t] if self.t < len(self.world.kicks) else None
                    self.t += 1
                rec = ref.step(sys, self.par, st, kick, 0.0, self.world.q)
                big = max(np.abs(rec["w_after"]).max(), np.abs(rec["J_after"]).max(), np.abs(rec["phi"]).max() / 1e3)
                if not np.isfinite(big) or big > BIG:
                    raise Skip
            steps += iv
            vals = [rec["inc"], rec["dw"], rec["dJ"], rec["res"]]
            if rec["near"] or any(abs(v - tol) < 1e-6 * tol for v in vals):
                raise Skip
            if rec["safe"] and all(v < tol for v in vals):
                break
        self.w, self.J, self.budget, self.cons = st.w, st.J, st.budget, st.cons
        res = self.f.run(**kw)
        self.last = rec
        if compare:
            self.check(rec, res, steps)
        return res

    def check(self, rec, res, steps, rtol=1e-8, atol=1e-10):
        from mc import trace

        class R:
            finder, par = self.f, self.par
        trace.check_after(R, rec, res, steps, rtol, 1e-9)

    def check_idle(self):
        """between runs the fields are those of the model"""
        close("fields", self.f.omegas, self.w, 1e-8, 1e-9)
