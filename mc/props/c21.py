"""C21: user-defined parts are used exactly like built-in ones."""
import itertools

import numpy as np

from mc import alphabet as al

LEVEL = "model_checking"
FAST_COMPILE = True
RULE = ("every combination of built-in and user-defined interaction, entropy, ensemble and constraints (written from the documented "
        "interfaces only) x systems x step settings x fields x sets of dying compartments: the real finder is stepped together with "
        "the reference model of those parts; converged states are judged by the energy of the parts; free energies of user-defined "
        "parts are compared with the analytic derivatives; options declared by a part are followed through constructor and setters")
BOUNDS = {"quick": "3 interactions x 2 entropies x 3 ensembles (every pair of them) x 2 of 5 constraint sets, 5 iterations, <=3 components, <=3 features, <=4 compartments",
          "thorough": "all combinations, 10 iterations, all kill sets, more fields and settings"}
ASSUMPTIONS = ["user-defined parts implement the members documented in the base classes and nothing else"]

F2, F3 = np.eye(2).tolist(), np.eye(3).tolist()
# name, chis, sizes, F (components x features), means, fixed
SYS = [
    ("A2", [[0.0, 2.6], [2.6, 0.3]], [1.0, 2.0], F2, [0.4, 0.6], 3),
    ("A3", [[0.2, 1.5, 2.2], [1.5, 0.0, -0.4], [2.2, -0.4, 0.5]], [1.0, 1.5, 0.8], F3, [0.3, 0.3, 0.4], 4),
    ("A1", [[0.9]], [1.4], [[1.0]], [1.0], 2),
]
COPOLY = [
    ("C23", [[0.0, 2.0, 1.0], [2.0, 0.0, 2.5], [1.0, 2.5, 0.0]], [1.0, 2.0], [[0.7, 0.3, 0.0], [0.0, 0.2, 0.8]], [0.45, 0.55], 3),
    ("C32", [[0.0, 2.5], [2.5, 0.4]], [1.0, 1.5, 2.0], [[1.0, 0.0], [0.5, 0.5], [0.1, 0.9]], [0.3, 0.3, 0.4], 3),
    ("C12", [[0.0, 1.5], [1.5, 0.0]], [1.2], [[0.4, 0.6]], [1.0], 2),
]
INTER = ("fh", "cubic", "coef")
ENTR = ("ideal", "copoly")
ENS = ("can", "gc", "mixed")
CONS = ("none", "spy", "L", "sq", "sqL")


def shards(tier):
    out = []
    for (a, i), (b, e), (c, x) in itertools.product(enumerate(INTER), enumerate(ENTR), enumerate(ENS)):
        if tier == "thorough":
            out.append(dict(part="steps", inter=i, entr=e, ens=x, cons=list(CONS)))
        elif (a + b + c) % 2 == 0:  # every pair of parts occurs
            out.append(dict(part="steps", inter=i, entr=e, ens=x, cons=[["sqL", "none"], ["sqL", "L"], ["sq", "spy"]][(a + b) % 3]))
    out += [dict(part="fixed", k=k) for k in range(3)]
    out += [dict(part="options"), dict(part="thermo")]
    return out


def explore(ctx, shard):
    import flory
    from flory.common import ComponentNumberError, FeatureNumberError
    from mc import build, custom, ref, trace
    from mc.core import Skip, close, raises, require, same
    from mc.rng import Script, scripted
    from mc.spy import Spy

    def parts(s, inter, entr, ens, cons, M=None):
        """flory objects and the reference for one combination"""
        name, chis, sizes, F, means, M0 = s
        M = M or M0
        N, S = len(sizes), len(chis)
        kw = dict(strength=1.0, slope=0.0, t=0.0)
        if inter == "fh":
            i = flory.FloryHugginsInteraction(S, np.array(chis))
        else:
            kind = "clone" if inter == "clone" else inter
            i = custom.Interaction(N, chis, kind, F)
            kw["t"] = i.t
            kw["slope"] = 0.8 if kind == "coef" else 0.0
        e = flory.IdealGasEntropy(N, np.array(sizes)) if entr == "ideal" else custom.Entropy(sizes, F)
        if ens == "can":
            x, fixed = flory.CanonicalEnsemble(N, np.array(means)), [True] * N
        elif ens == "gc":
            x, fixed = flory.GrandCanonicalEnsemble(N, np.array(means)), [False] * N
        elif ens == "clone":
            x, fixed = custom.Ensemble(means, [True] * N), [True] * N
        else:
            fixed = [k % 2 == 0 for k in range(N)]
            x = custom.Ensemble(means, fixed)
        c1 = [1.0, -0.5, 0.7][:S]
        L = flory.LinearLocalConstraint(S, np.array([c1]), np.array([0.2]))
        rL = ref.RefConstraint("local", [c1], [0.2], 1.0, 1.0)
        q, rq = custom.Square(c1, 0.3), custom.RefSquare(c1, 0.3)
        spy = Spy(S, M, 16) if cons != "none" else None
        lst, rl = {"none": ([], []), "spy": ([spy], []), "L": ([L, spy], [rL]), "sq": ([q, spy], [rq]), "sqL": ([q, L, spy], [rq, rL])}[cons]
        r = custom.RefCustom(chis, sizes, F, means, fixed, cons=rl, **kw)
        return i, e, x, lst, spy, r, M

    class Rig(trace.Rig):
        def __init__(self, s, inter, entr, ens, cons, opts, M=None):
            i, e, x, lst, self.spy, self.sys, M = parts(s, inter, entr, ens, cons, M)
            self.d = dict(M=M)
            self.script = Script().real(7)
            self.finder = flory.CoexistingPhasesFinder(i, e, x, lst or None, num_part=M, rng=scripted(self.script), progress=False,
                                                       tolerance=1e-30, **opts)
            self.par = build.par_of(opts)
            self.budget = opts.get("max_revive_per_compartment", 16) * M

        def start(self, w0, kicks=None, q=0.4987):
            self.script.reset([], [q])
            if self.spy is not None:
                self.spy.restart(kicks)
            self.finder.reinitialize_from_omegas(np.array(w0, float))

    T = 10 if ctx.thorough else 5
    SETS = [dict(acceptance_Js=0.1, acceptance_omega=0.1, Js_step_upper_bound=0.5, max_revive_per_compartment=0),
            dict(acceptance_Js=0.3, acceptance_omega=0.05, Js_step_upper_bound=0.02, max_revive_per_compartment=1, kill_threshold=0.2),
            dict(acceptance_Js=0.3, acceptance_omega=0.1, Js_step_upper_bound=50.0, max_revive_per_compartment=1)]

    def one(rig, w0, kicks):
        recs, _ = rig.reference(w0, T, kicks)
        n = len(recs)
        if not n:
            raise Skip
        rig.start(w0, kicks)
        for t in range(n):
            if t and recs[t - 1]["near"]:
                return
            res = rig.run(1)
            if rig.spy is not None:
                trace.check_spy(rig, [recs[t]], t)
            trace.check_after(rig, recs[t], res, 1)
            ctx.state(rig.finder.omegas, recs[t]["J_after"])
            ctx.step()
        ctx.outcome(rig.finder.omegas, res.volumes)

    if shard["part"] == "steps":
        inter, entr, ens = shard["inter"], shard["entr"], shard["ens"]
        systems = SYS + (COPOLY if entr == "copoly" and inter != "fh" else [])
        inters = (inter, "clone") if inter == "cubic" else (inter,)
        if entr == "copoly" and inter == "fh":
            systems = SYS + COPOLY  # the built-in interaction acts on features
        for cons, s, it in itertools.product(shard["cons"], systems, inters):
            for e in (ens, "clone") if ens == "mixed" else (ens,):
                for si, opts in enumerate(SETS):
                    rig = Rig(s, it, entr, e, cons, opts)
                    M, S = rig.d["M"], rig.sys.S
                    kills = [None]
                    if cons != "none":
                        kills += [k for n in range(1, M) for k in itertools.combinations(range(M), n)][: None if ctx.thorough else 2]
                    for v, amp in ((0, 0.8), (1, 0.5), (3, 1.5), (2, 0.7), (4, 1.0))[:5 if ctx.thorough else 3]:
                        w0 = build.field(S, M, v, amp)
                        for kill in kills:
                            kicks = None
                            if kill is not None:
                                kicks = np.zeros((T, M))
                                kicks[0, list(kill)] = 14.0
                                if si == 1:
                                    kicks[:, list(kill)] = 14.0
                            ctx.case(dict(sys=s[0], inter=it, entr=entr, ens=e, cons=cons, setting=si, field=v, kill=kill), one, rig, w0, kicks)
                        # fields from fractions
                        if si == 0:
                            def from_phis():
                                phi = np.abs(w0) + 0.1
                                rig.finder.reinitialize_from_phis(phi)
                                close("fields from fractions", rig.finder.omegas, rig.sys.potential(phi))
                                ctx.step()
                            ctx.case(dict(sys=s[0], inter=it, entr=entr, ens=e, cons=cons, phis=True, field=v), from_phis)
        return

    if shard["part"] == "fixed":
        # converged states of user-defined parts are in balance
        def mu(s, t, F_m):
            name, chis, sizes, F, _, _ = s
            F, chi, l = np.array(F), np.array(chis), np.array(sizes)
            x = F_m @ F
            g = x @ chi
            g[:, 0] += 2 * t * x[:, 0] * x[:, -1]
            g[:, -1] += t * x[:, 0] ** 2
            j = g @ F.T + (np.log(F_m) + 1) / l
            f = 0.5 * np.einsum("mi,ij,mj->m", x, chi, x) + t * x[:, 0] ** 2 * x[:, -1] + (F_m * np.log(F_m) / l).sum(1)
            return f[:, None] - (F_m * j).sum(1)[:, None] + j

        def conv(s, inter, entr, ens, v, amp, tol, M):
            i, e, x, lst, spy, r, M = parts(s, inter, entr, ens, "none", M)
            f = flory.CoexistingPhasesFinder(i, e, x, num_part=M, progress=False, rng=np.random.default_rng(3), acceptance_Js=0.005,
                                             acceptance_omega=0.05, Js_step_upper_bound=0.01, max_revive_per_compartment=0)
            f.reinitialize_from_omegas(build.field(r.S, M, v, amp))
            res = f.run(max_steps=40000, interval=200, tolerance=tol)
            d = f.diagnostics
            if not max(d["max_abs_incomp"], d["max_abs_omega_diff"], d["max_abs_js_diff"], d["max_constraint_residue"]) < tol:
                ctx.count("not converged")
                raise Skip
            ctx.count("converged")
            P = np.asarray(res.fractions)
            if len(np.unique(np.round(P, 3), axis=0)) > 1:
                ctx.count("distinct phases")
            m = mu(s, r.t, P)
            require(np.abs(P.sum(1) - 1).max() < 1.01 * tol + 1e-12, "incompressibility")
            require(np.ptp(m, axis=0).max() < 6 * tol + 1e-9, lambda: f"chemical potentials {m} at tolerance {tol}")
            if ens != "gc":
                am = np.array(s[4])
                fx = r.fixed
                close("mean composition", (res.volumes @ P / res.volumes.sum())[fx], am[fx], 0, 20 * tol)
            ctx.step(d["steps"])
            ctx.state(P)
            ctx.outcome(P)

        k = 0
        for s, inter, entr, ens in itertools.product(SYS + COPOLY, ("cubic", "coef", "clone"), ("ideal", "copoly"), ("can", "mixed")):
            if entr == "ideal" and s in COPOLY:
                continue
            k += 1
            if k % 3 != shard["k"]:
                continue
            if ens == "mixed":
                s = s[:4] + ([0.7 * a for a in s[4]],) + s[5:]
            for v, amp, tol in itertools.product((0, 1, 3), (0.5, 2.0) if not ctx.thorough else (0.2, 0.5, 1.0, 2.0, 4.0), (1e-4, 1e-7)):
                ctx.case(dict(fixed=s[0], inter=inter, entr=entr, ens=ens, field=v, amp=amp, tol=tol), conv, s, inter, entr, ens, v, amp, tol, 4)
        return

    if shard["part"] == "thermo":
        def thermo(s, kind, ifr, entr, phis, index):
            name, chis, sizes, F, _, _ = s
            N = len(sizes)
            if kind == "fh":
                inter = flory.FloryHugginsInteraction(N, np.array(chis))
                t = 0.0
            else:
                inter = custom.Interaction(N, chis, kind, F, fractions=ifr)
                t = inter.t
            e = {"ideal": lambda: flory.IdealGasEntropy(N, np.array(sizes)), "own": lambda: custom.Entropy(sizes, F),
                 "limit": lambda: custom.Entropy(sizes, F, fractions=True)}[entr]()
            fe = flory.FreeEnergyBase(inter, e)
            Fm, chi, l = np.array(F), np.array(chis), np.array(sizes)
            phis = np.array(phis, float)

            def ref1(p):
                x = p @ Fm
                g = x @ chi
                g[0] += 2 * t * x[0] * x[-1]
                g[-1] += t * x[0] ** 2
                pos = p > 0
                lg = np.where(pos, np.log(np.where(pos, p, 1.0)), -np.inf)
                j = g @ Fm.T + (lg + 1) / l
                en = np.where(pos, p * np.where(pos, lg, 0.0), 0.0)
                f = 0.5 * x @ chi @ x + t * x[0] ** 2 * x[-1] + (en / l).sum()
                H = chi.copy()
                S = len(chi)
                H[0, 0] += 2 * t * x[-1]
                H[0, S - 1] += 2 * t * x[0]
                H[S - 1, 0] += 2 * t * x[0]
                with np.errstate(divide="ignore"):
                    h = Fm @ H @ Fm.T + np.diag(1 / (l * p))
                pj = (p * (g @ Fm.T)).sum() + ((en + p) / l).sum()
                return f, j, h, f - pj + j
            flat = phis.reshape(-1, N)
            want = [ref1(p) for p in flat]
            sh = phis.shape[:-1]
            fin = bool((flat > 0).all())
            close("free energy density", fe.free_energy_density(phis), np.array([w[0] for w in want]).reshape(sh))
            J = np.array([w[1] for w in want])
            close("Jacobian", fe.jacobian(phis), J.reshape(sh + (N,)))
            m = np.array([w[3] for w in want]).reshape(sh + (N,))
            close("chemical potentials", np.reshape(fe.chemical_potentials(phis), m.shape), m)
            if fin:
                close("Hessian", fe.hessian(phis), np.array([w[2] for w in want]).reshape(sh + (N, N)))
                close("pressure", np.reshape(fe.pressure(phis, index), sh), -m[..., index])
                close("exchange chemical potentials", fe.exchange_chemical_potentials(phis, index), (J - J[:, [index]]).reshape(sh + (N,)))
                keep = [a for a in range(N) if a != index % N]
                close("Jacobian with a dependent component", fe.jacobian(phis, index), (J - J[:, [index]])[:, keep].reshape(sh + (N - 1,)))
                if len(sh) == 1 and sh[0] > 1:
                    close("equilibration error", fe.equilibration_error(phis), np.sqrt(((m - m.mean(0)) ** 2).sum(1)))
            require(fe.num_comp == N, "number of components")
            ctx.step(6)
            ctx.state(phis)
            ctx.outcome(m)

        for s in SYS + COPOLY:
            N = len(s[2])
            grid = [np.array(p) for p in itertools.product((0.0, 0.15, 0.4, 1.0), repeat=N)]
            for kind, ifr, entr in itertools.product(("cubic", "clone", "fh"), (False, True), ("ideal", "own", "limit")):
                if kind == "fh" and (ifr or s in COPOLY):
                    continue
                for index in range(-N, N):
                    for p in grid:
                        if entr == "own" and not (p > 0).all():
                            continue  # without a finite limit the products are not defined
                        ctx.case(dict(thermo=s[0], kind=kind, ifr=ifr, entr=entr, index=index, p=p.tolist()), thermo, s, kind, ifr, entr, p, index)
                    pos = [p for p in grid if (p > 0).all()]
                    ctx.case(dict(thermo=s[0], kind=kind, ifr=ifr, entr=entr, index=index, batch=1), thermo, s, kind, ifr, entr, pos, index)
                    ctx.case(dict(thermo=s[0], kind=kind, ifr=ifr, entr=entr, index=index, batch=2), thermo, s, kind, ifr, entr,
                             np.array(pos * 2).reshape(2, -1, N), index)
        # numbers of components must fit
        def misfit(a, b):
            raises(ComponentNumberError, flory.FreeEnergyBase, custom.Interaction(a, np.eye(a), "clone", np.eye(a)), custom.Entropy([1.0] * b, np.eye(b)))
        for a, b in itertools.product((1, 2, 3), repeat=2):
            if a != b:
                ctx.case(dict(misfit=[a, b]), misfit, a, b)
        return

    # ---------------------------------------------------------------- options declared by the parts
    s = SYS[0]
    S, N, M = 2, 2, 3
    opts = SETS[0]

    def system(strength=1.0, factor=1.0, kappa=0.4):
        return custom.RefCustom(s[1], s[2], s[3], (np.array(s[4]) * factor).tolist(), [True, False], strength=strength, t=0.7,
                                cons=[custom.RefSquare([1.0, -0.5], 0.3, kappa)])

    def objs():
        return (custom.Interaction(N, s[1], "cubic", s[3]), custom.Entropy(s[2], s[3]), custom.Ensemble(s[4], [True, False]),
                [custom.Square([1.0, -0.5], 0.3)])

    def follow(f, sys, w0, tag):
        st = ref.RefState(sys, w0, 0)
        par = build.par_of(opts)
        f.reinitialize_from_omegas(w0)
        for t in range(3):
            r = ref.step(sys, par, st)
            f.run(max_steps=1, interval=1, tolerance=1e-30)
            close(f"{tag}: fields after iteration {t}", f.omegas, r["w_after"])
            ctx.step()
            ctx.state(f.omegas)

    def options(ctor, later):
        i, e, x, c = objs()
        f = flory.CoexistingPhasesFinder(i, e, x, c, num_part=M, progress=False, rng=np.random.default_rng(1), **opts, **ctor)
        cur = dict(strength=1.0, factor=1.0, kappa=0.4)
        cur.update({k: v for k, v in ctor.items() if k in cur})
        w0 = build.field(S, M, 0, 0.8)
        follow(f, system(**cur), w0, "constructed")
        base = dict(cur)
        for what, kw in later:
            if what == "inter":
                f.set_interaction(i, **kw)
                cur["strength"] = kw.get("strength", base["strength"])
            elif what == "entr":
                f.set_entropy(e, **kw)
            elif what == "ens":
                f.set_ensemble(x, **kw)
                cur["factor"] = kw.get("factor", base["factor"])
            elif what == "cons":
                f.set_constraints(c, **kw)
                cur["kappa"] = kw.get("kappa", base["kappa"])
            elif what == "ind":
                f.set_constraints(c, kwargs_individual=[kw], kappa=9.0)
                cur["kappa"] = kw.get("kappa", 9.0)
            elif what == "bad":
                raises(FeatureNumberError, f.set_interaction, custom.Interaction(3, np.eye(3), "cubic", np.eye(3)))
                raises((ComponentNumberError, FeatureNumberError), f.set_entropy, custom.Entropy([1.0] * 3, np.eye(3)))
                raises(FeatureNumberError, f.set_entropy, custom.Entropy([1.0] * 2, np.ones((2, 3)) / 3))
                raises(ComponentNumberError, f.set_entropy, custom.Entropy([1.0] * 3, np.ones((3, 2)) / 2))
                raises(ComponentNumberError, f.set_ensemble, custom.Ensemble([0.2] * 3, [True] * 3))
                raises(FeatureNumberError, f.set_constraints, custom.Square([1.0] * 3, 0.1))
            follow(f, system(**cur), w0, f"after {what} {kw}")
        ctx.outcome(f.omegas)

    # any way of declaring an option, any type of value: what the part is given is what was said last
    seen = {}

    def recording(base, tag):
        class Positional(base):
            def _compiled_impl(self, opt_f=0.5, opt_i=3, opt_b=False, opt_t=True, opt_n=None, opt_s="x", opt_l=(1, 2)):
                seen[tag] = dict(opt_f=opt_f, opt_i=opt_i, opt_b=opt_b, opt_t=opt_t, opt_n=opt_n, opt_s=opt_s, opt_l=opt_l)
                return super()._compiled_impl()

        class KeywordOnly(base):
            def _compiled_impl(self, *, opt_f=0.5, opt_i=3, opt_b=False, opt_t=True, opt_n=None, opt_s="x", opt_l=(1, 2)):
                seen[tag] = dict(opt_f=opt_f, opt_i=opt_i, opt_b=opt_b, opt_t=opt_t, opt_n=opt_n, opt_s=opt_s, opt_l=opt_l)
                return super()._compiled_impl()

        class Few(base):
            def _compiled_impl(self, opt_b: bool = False, *, opt_n: "float | None" = None):
                seen[tag] = dict(opt_b=opt_b, opt_n=opt_n)
                return super()._compiled_impl()

        return dict(positional=Positional, keyword=KeywordOnly, few=Few)

    defaults = dict(opt_f=0.5, opt_i=3, opt_b=False, opt_t=True, opt_n=None, opt_s="x", opt_l=(1, 2))
    arr = np.arange(3.0)
    other = dict(opt_f=0.0, opt_i=0, opt_b=True, opt_t=False, opt_n=arr, opt_s="", opt_l=None)
    third = dict(opt_f=-2.5, opt_i=7, opt_b=None, opt_t=1, opt_n=0, opt_s="yz", opt_l=[4])
    kinds = {"inter": recording(flory.FloryHugginsInteraction, "inter"), "entr": recording(flory.IdealGasEntropy, "entr"),
             "ens": recording(flory.CanonicalEnsemble, "ens"), "cons": recording(flory.LinearLocalConstraint, "cons"),
             "cons2": recording(flory.LinearGlobalConstraint, "cons2")}

    def expect(tag, *layers):
        names = ("opt_b", "opt_n") if style == "few" else defaults
        want = {}
        for n in names:
            want[n] = defaults[n]
            for l in layers:
                if n in l:
                    want[n] = l[n]
        got = seen.pop(tag, None)
        require(got is not None and list(got) == list(want) and all(got[n] is want[n] or (type(got[n]) is type(want[n]) and got[n] == want[n]) for n in want),
                lambda: f"{tag} was given {got} instead of {want}")
        ctx.step()

    def record(ctor, later, ind):
        k = {n: c[style] for n, c in kinds.items()}
        i, e, x = k["inter"](2, 1.0), k["entr"](2), k["ens"](2)
        c, c2 = k["cons"](2, [1.0, -1.0], 0.1), k["cons2"](2, [1.0, 1.0], 1.0)
        f = flory.CoexistingPhasesFinder(i, e, x, [c, c2], num_part=2, progress=False, rng=np.random.default_rng(1), **ctor)
        for n in ("inter", "entr", "ens", "cons", "cons2"):
            expect(n, ctor)
        f.set_interaction(i, **later)
        expect("inter", ctor, later)
        f.set_entropy(e, **later)
        expect("entr", ctor, later)
        f.set_ensemble(x, **later)
        expect("ens", ctor, later)
        f.set_constraints(c, **later)
        expect("cons", ctor, later)
        f.set_constraints([c, c2], **later)
        expect("cons", ctor, later)
        expect("cons2", ctor, later)
        f.set_constraints(c, kwargs_individual=ind, **later)
        expect("cons", ctor, later, ind)
        f.set_constraints((c2, c), kwargs_individual=({}, ind), **later)
        expect("cons2", ctor, later)
        expect("cons", ctor, later, ind)
        for n, g in (("inter", lambda: f.set_interaction(i)), ("entr", lambda: f.set_entropy(e)), ("ens", lambda: f.set_ensemble(x)), ("cons", lambda: f.set_constraints(c))):
            g()
            expect(n, ctor)
        # used alone
        i.compiled(**later)
        expect("inter", later)
        e.compiled(whatever=3, **ctor)
        expect("entr", ctor)
        fe = flory.FreeEnergyBase(i, e)
        fe.interaction_compiled(**later)
        expect("inter", later)
        fe.entropy_compiled(**later)
        expect("entr", later)
        ctx.outcome(style, str(ctor), str(later))

    names = list(defaults)
    subsets = [()] + [(n,) for n in names] + [tuple(names)] + [tuple(names[:3]), tuple(names[3:])]
    for style in ("positional", "keyword", "few"):
        for a, b, c in itertools.product(subsets, subsets, subsets if ctx.thorough else [(), ("opt_b",), tuple(names)]):
            ctx.case(dict(style=style, ctor=a, later=b, individual=c), record, {n: other[n] for n in a}, {n: third[n] for n in b}, {n: other[n] for n in c})

    ctors = [dict(), dict(strength=2.0), dict(factor=0.8), dict(kappa=0.1), dict(strength=0.5, factor=1.1, kappa=0.9),
             dict(strength=3.0, unknown=5, additional_chis_shift=7.0, constraint_elasticity=4.0)]
    ops = [("inter", {}), ("inter", dict(strength=4.0)), ("inter", dict(kappa=5.0, factor=3.0)), ("entr", dict(strength=9.0)), ("ens", {}),
           ("ens", dict(factor=0.5)), ("cons", {}), ("cons", dict(kappa=0.2)), ("ind", dict(kappa=0.3)), ("ind", {}), ("bad", {})]
    for ctor in ctors:
        for seq in itertools.product(ops, repeat=3 if ctx.thorough else 2):
            ctx.case(dict(ctor=ctor, ops=[[a, b] for a, b in seq]), options, ctor, seq)
