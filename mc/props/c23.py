"""C23: doubtful input and unreliable results are announced, others are not."""
import contextlib
import io
import itertools
import logging
import os
import tempfile

import numpy as np

from mc import alphabet as al

LEVEL = "model_checking"
RULE = ("every constructor and setter x every matrix over a small set of entries (symmetric or not) and every vector of mean fractions over "
        "a grid; every number of compartments and every set of compartments that are dead at the end of a run; every sequence of scripted "
        "residues that decides when a run may converge: the messages logged are compared with the condition, silent runs must print nothing")
BOUNDS = {"quick": "matrices up to 3x3 over 3 values, fractions on a grid of 0.25 for up to 3 components, 1-8 compartments, 4 checks per run",
          "thorough": "matrices over 4 values, grid of 0.125, 1-10 compartments, 6 checks per run"}
ASSUMPTIONS = ["asymmetries and deviations of the sum below 1e-6 are not judged", "exactly at half of the compartments (odd numbers) both outcomes are accepted"]


def shards(tier):
    return [dict(part="chis", k=k) for k in range(2)] + [dict(part="means"), dict(part="living"), dict(part="stop"), dict(part="errors")]


class Log(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, r):
        r.text = r.getMessage()  # the message must be formattable
        self.records.append(r)


@contextlib.contextmanager
def listening():
    logging.disable(logging.NOTSET)
    root = logging.getLogger()
    old, h = root.level, Log()
    keep = list(root.handlers)
    root.handlers = [h]
    root.setLevel(1)
    try:
        yield h
    finally:
        root.handlers = keep
        root.setLevel(old)
        logging.disable(logging.CRITICAL)


def warned(h):
    return [r.text for r in h.records if r.levelno == logging.WARNING and r.name.split(".")[0] not in ("numba", "matplotlib", "scipy", "py")]


def explore(ctx, shard):
    import flory
    from flory.common import ComponentNumberError, FeatureNumberError, VolumeFractionError
    from mc import build, trace
    from mc.core import Skip, require

    def expect(h, want, what):
        w = warned(h)
        require(bool(w) == want, lambda: f"{what}: " + (f"warned without reason: {w}" if w else "no warning"))
        ctx.step()

    if shard["part"] == "chis":
        vals = (0.0, 1.0, -2.5, 3.0)[: 4 if ctx.thorough else 3]

        def targets(n):
            eye = [[0.0] * n for _ in range(n)]
            fh = flory.FloryHugginsInteraction(n, eye)
            fe = flory.FloryHuggins(n, eye)
            bl = flory.FloryHugginsBlockInteraction(n, eye, [2] * n)
            return [("FloryHugginsInteraction", lambda m: flory.FloryHugginsInteraction(n, m)),
                    ("FloryHuggins", lambda m: flory.FloryHuggins(n, m)),
                    ("FloryHugginsBlockInteraction", lambda m: flory.FloryHugginsBlockInteraction(n, m, 2)),
                    ("FloryHugginsInteraction.chis", lambda m: setattr(fh, "chis", m)),
                    ("FloryHuggins.chis", lambda m: setattr(fe, "chis", m)),
                    ("FloryHugginsBlockInteraction.chis_feat", lambda m: setattr(bl, "chis_feat", m))]

        def chis(n, m, how):
            a = np.array(m).reshape(n, n)
            asym = float(np.abs(a - a.T).max()) > 1e-3
            for name, put in targets(n):
                x = a if how == "array" else a.tolist() if how == "list" else a.astype(int)
                with listening() as h:
                    put(x)
                expect(h, asym if how != "int" else bool((a.astype(int) != a.astype(int).T).any()), f"{name} of {m}")
            ctx.state(a)
            ctx.outcome(asym)

        k = 0
        for n in (1, 2, 3):
            for m in itertools.product(vals, repeat=n * n):
                k += 1
                if n == 3 and (k // 2) % (7 if not ctx.thorough else 13):
                    # all symmetric ones and those asymmetric in exactly one pair, and every seventh other one
                    a = np.array(m).reshape(3, 3)
                    if (a != a.T).sum() not in (0, 2) or a[0, 0] or a[1, 1]:
                        continue
                if k % 2 == shard["k"]:
                    for how in ("array", "list", "int") if n < 3 else ("array",):
                        ctx.case(dict(n=n, m=list(m), how=how), chis, n, m, how)
        if shard["k"] == 0:
            def convenience(n, chi, vd):
                with listening() as h:
                    flory.FloryHugginsInteraction.from_uniform(n, chi, vanishing_diagonal=vd)
                    flory.FloryHugginsInteraction.from_random_normal(n, chi, 1.0, vanishing_diagonal=vd, rng=np.random.default_rng(1))
                    flory.FloryHuggins.from_uniform(n, chi, vanishing_diagonal=vd)
                    flory.FloryHuggins.from_random_normal(n, chi, 1.0, vanishing_diagonal=vd, rng=np.random.default_rng(1))
                    flory.FloryHugginsInteraction(n, chi)
                    flory.IdealGasEntropy(n, 2.0)
                expect(h, False, f"uniform and random interactions of {n} components")
            for n, chi, vd in itertools.product((1, 2, 3, 5), (0, 1, 2.5, -1.0), (True, False)):
                ctx.case(dict(uniform=n, chi=chi, vd=vd), convenience, n, chi, vd)
        return

    if shard["part"] == "means":
        g = 8 if ctx.thorough else 4

        def means(m, how):
            n = len(m)
            bad = abs(sum(m) - 1) > 1e-3
            x = {"array": np.array(m), "list": list(m), "int": np.array(m).astype(int)}[how]
            if how == "int":
                bad = int(x.sum()) != 1
            with listening() as h:
                e = flory.CanonicalEnsemble(n, x)
            expect(h, bad, f"mean fractions {m}")
            for start in ([1.0 / n] * n, [0.9] * n):
                e = flory.CanonicalEnsemble(n, start)
                with listening() as h:
                    e.phi_means = x
                expect(h, bad, f"mean fractions {m} set after {start}")
            with listening() as h:
                flory.GrandCanonicalEnsemble(n, np.array(m) + 0.1)
            expect(h, False, "grand canonical ensemble")
            ctx.state(np.array(m))
            ctx.outcome(bad)
        for n in (1, 2, 3, 4):
            for t in itertools.product(range(g + 1 if n < 4 else 3), repeat=n):
                for how in ("array", "list", "int"):
                    ctx.case(dict(means=t, how=how), means, [a / g for a in t], how)

        def default(n):
            with listening() as h:
                flory.CanonicalEnsemble(n)
            expect(h, False, f"default fractions of {n} components")
        for n in range(1, 40):
            ctx.case(dict(default=n), default, n)
        return

    if shard["part"] == "living":
        def living(rig, w0, kicks, T, progress=False):
            recs, _ = rig.reference(w0, T, kicks)
            if len(recs) < T or recs[-1]["near"]:
                raise Skip
            rig.start(w0, kicks)
            with listening() as h:
                rig.run(T)
            n = int((recs[-1]["J_after"] > rig.par.thr).sum())
            M = rig.d["M"]
            if M // 2 <= n < M / 2 or n == 0:
                raise Skip
            expect(h, n < M / 2, f"{n} of {M} compartments are alive")
            if n < M / 2:
                require(any(str(n) in w and str(M) in w for w in warned(h)), lambda: f"warning does not tell the numbers {n} and {M}: {warned(h)}")
            ctx.state(M, n)
            ctx.outcome(n, M)
        for d0 in al.IDEAL_CAN[1:3]:
            for M in range(1, 11 if ctx.thorough else 9):
                d = dict(d0, M=M)
                for budget, thr in ((0, 0.0), (0, 0.3), (1, 0.0)):
                    rig = trace.Rig(d, dict(acceptance_Js=0.3, acceptance_omega=0.02, Js_step_upper_bound=50.0, max_revive_per_compartment=budget, kill_threshold=thr))
                    subs = [s for k in range(0, M) for s in itertools.combinations(range(M), k)]
                    if len(subs) > 60 and not ctx.thorough:
                        subs = [s for i, s in enumerate(subs) if i % (len(subs) // 60) == 0 or len(s) in (M // 2, M // 2 + 1) and i % 3 == 0]
                    for s in subs:
                        for T, at in ((1, 0), (2, 0), (2, 1)):
                            kicks = np.zeros((T, M))
                            kicks[at, list(s)] = 14.0
                            ctx.case(dict(sys=d["tag"], M=M, budget=budget, thr=thr, dead=list(s), T=T, at=at), living, rig, build.field(2, M, 0, 0.4), kicks, T)
        return

    if shard["part"] == "stop":
        # the residues decide when a run may stop; everything else is converged
        d = al.comp("N2stop", [[0.0, 1.0], [1.0, 0.0]], [1.0, 1.0], ("can", [0.5, 0.5]), 2)
        rig = trace.Rig(d, dict(acceptance_Js=0.01, acceptance_omega=0.05, Js_step_upper_bound=0.01), horizon=64)
        # reach a converged state first
        rig.start(build.field(2, 2, 0, 0.3))
        rig.finder.run(max_steps=100_000, interval=1000, tolerance=1e-12)
        w = rig.finder.omegas.copy()
        K = 6 if ctx.thorough else 4
        tol = 1e-6

        def stop(res, interval, progress):
            rig.start(w, None, res)
            fd, path = tempfile.mkstemp(dir=ctx.work)
            err = os.dup(2), os.dup(1)
            os.dup2(fd, 2)
            os.dup2(fd, 1)
            so, se = io.StringIO(), io.StringIO()
            try:
                with listening() as h, contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
                    rig.finder.run(max_steps=K * interval, interval=interval, tolerance=tol, progress=progress)
            finally:
                os.dup2(err[0], 2)
                os.dup2(err[1], 1)
                for x in (*err, fd):
                    os.close(x)
            with open(path) as f:
                out = f.read() + so.getvalue() + se.getvalue()
            os.unlink(path)
            first = next((k for k in range(K) if res[(k + 1) * interval - 1] < tol), None)
            want = K * interval if first is None else (first + 1) * interval
            require(rig.finder.diagnostics["steps"] == want, lambda: f"{rig.finder.diagnostics['steps']} steps instead of {want}")
            info = [r.text for r in h.records if r.levelno == logging.INFO and str(want) in r.text]
            require(bool(info) == (first is not None), lambda: f"message about reaching the stationary state: {info}, although " + ("reached" if first is not None else "not reached"))
            expect(h, False, "a run with all compartments alive")
            require(bool(out) == progress, lambda: f"output of a run with progress={progress}: {out[:200]!r}")
            ctx.state(np.array(res), interval)
            ctx.outcome(want, progress)
        for interval in (1, 2, 3):
            for pat in itertools.product((0.0, 1.0), repeat=K):
                res = [1.0] * (K * interval)
                for k, x in enumerate(pat):
                    res[(k + 1) * interval - 1] = x
                for progress in (False, True):
                    ctx.case(dict(pattern=pat, interval=interval, progress=progress), stop, res, interval, progress)
        return

    # ---------------------------------------------------------------- rejected requests are explained
    def error(name, exc, func):
        with listening() as h:
            try:
                func()
            except exc:
                pass
            else:
                require(False, f"{name} was accepted")
        err = [r for r in h.records if r.levelno >= logging.ERROR]
        require(err, lambda: f"{name}: rejected without an explanation in the log")
        ctx.step()
        ctx.state(name)
        ctx.outcome(name)

    fe = flory.FloryHuggins(2, 1.0)
    f = build.finder(al.IDEAL_CAN[1], rng=np.random.default_rng(1))
    reqs = [("composition of wrong length", VolumeFractionError, lambda: fe.free_energy_density([0.2, 0.3, 0.5])),
            ("negative composition", VolumeFractionError, lambda: fe.free_energy_density([-0.2, 1.2])),
            ("negative composition in a batch", VolumeFractionError, lambda: fe.chemical_potentials([[0.5, 0.5], [-0.2, 1.2]])),
            ("free energy of misfit parts", ComponentNumberError, lambda: flory.FreeEnergyBase(flory.FloryHugginsInteraction(2, 1.0), flory.IdealGasEntropy(3))),
            ("interaction", FeatureNumberError, lambda: f.set_interaction(flory.FloryHugginsInteraction(3, 1.0))),
            ("entropy", (ComponentNumberError, FeatureNumberError), lambda: f.set_entropy(flory.IdealGasEntropy(3))),
            ("ensemble", ComponentNumberError, lambda: f.set_ensemble(flory.CanonicalEnsemble(3))),
            ("constraint", FeatureNumberError, lambda: f.set_constraints(flory.LinearLocalConstraint(3, [1, 1, 1], [0.5]))),
            ("field", ValueError, lambda: f.reinitialize_from_omegas(np.zeros((3, 3)))),
            ("fractions", ValueError, lambda: f.reinitialize_from_phis(np.zeros((3, 3)))),
            ("finder of misfit parts", FeatureNumberError, lambda: flory.CoexistingPhasesFinder(
                flory.FloryHugginsInteraction(3, 1.0), flory.IdealGasEntropy(2), flory.CanonicalEnsemble(2), progress=False))]
    for name, exc, func in reqs:
        ctx.case(dict(rejected=name), error, name, exc, func)
