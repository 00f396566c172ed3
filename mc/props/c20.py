"""C20: equivalent descriptions of a system give equivalent runs and the same phases."""
import itertools

import numpy as np

from mc import alphabet as al

LEVEL = "model_checking"
FAST_COMPILE = True
RULE = ("every system of all families (with and without constraints, with dying compartments) is paired with all its equivalent "
        "descriptions - rescaled energy unit, rescaled or merged or reordered constraints, components split into identical parts or "
        "padded with absent ones inside a feature, every compartment doubled, changed acceptances (residuals of one state) - and the two real finders are "
        "compared iteration by iteration; converged states are continued with changed numerical parameters or interactions that "
        "differ only by linear terms and must keep their phases")
BOUNDS = {"quick": "5 iterations, all systems, 3 energy scales, 3 kill patterns, 3 initial fields; about 100 converged states",
          "thorough": "10 iterations, 5 energy scales, 6 kill patterns, 5 initial fields; more converged states"}
ASSUMPTIONS = ["pairs are compared up to rounding", "revived compartments get equal random numbers (constant quantile)",
               "converged states are compared up to a multiple of the tolerance"]

BASE = dict(acceptance_Js=0.1, acceptance_omega=0.1, Js_step_upper_bound=0.4)


def shards(tier):
    sig = al.signatures() if tier == "thorough" else al.THIN
    out = [dict(part="pairs", fam=f, cv=c) for f, c in sig]
    out += [dict(part="fixed", fam=f) for f in al.FAMILIES]
    return out


def explore(ctx, shard):
    import flory
    from mc import build, trace
    from mc.core import Skip, close, require

    def desc_scaled(d, s):
        """energy unit changed: all energies are s times as large"""
        e = dict(d, chis=(s * np.array(d["chis"], float)).tolist(), sizes=(np.array(d["sizes"], float) / s).tolist(),
                 shift=s * d.get("shift", 1.0))
        if d["ens"][0] == "gc":
            e["ens"] = d["ens"]
        e["cons"] = [dict(c, kappa=s * d["cons"][0]["kappa"], acc=s * d["cons"][0]["acc"]) for c in d.get("cons") or []]
        return e

    def desc_cons(d, how):
        c = d["cons"]
        if how == "reversed":
            return dict(d, cons=[dict(x, kappa=c[0]["kappa"], acc=c[0]["acc"]) for x in reversed(c)])
        if how == "rows apart":
            return dict(d, cons=[dict(x, Cs=[r], Ts=[t], kappa=c[0]["kappa"], acc=c[0]["acc"]) for x in c for r, t in zip(x["Cs"], x["Ts"])])
        if how == "rows reversed":
            return dict(d, cons=[dict(x, Cs=x["Cs"][::-1], Ts=x["Ts"][::-1]) for x in c])
        if how == "sign":
            return dict(d, cons=[dict(x, Cs=(-np.array(x["Cs"])).tolist(), Ts=(-np.array(x["Ts"])).tolist()) for x in c])
        if how.startswith("times"):
            a = float(how.split()[1])
            return dict(d, cons=[dict(x, Cs=(a * np.array(x["Cs"])).tolist(), Ts=(a * np.array(x["Ts"])).tolist(),
                                      kappa=c[0]["kappa"] / a**2, acc=c[0]["acc"] / a**2) for x in c])
        raise KeyError(how)

    def desc_split(d, i, frac):
        """component i replaced by two identical ones (fractions of its amount); only inside a feature"""
        g = list(d["groups"])
        f = int(np.searchsorted(np.cumsum(g), i, side="right"))
        g[f] += 1
        sz = list(d["sizes"])
        sz.insert(i, sz[i])
        par = list(d["ens"][1])
        par[i:i + 1] = [par[i] * frac, par[i] * (1 - frac)]
        return dict(d, groups=g, sizes=sz, ens=(d["ens"][0], par))

    def desc_pad(d, f, size):
        """an absent component added to feature f"""
        g = list(d["groups"])
        i = sum(g[:f + 1])
        g[f] += 1
        sz = list(d["sizes"])
        sz.insert(i, size)
        par = list(d["ens"][1])
        par.insert(i, 0.0)
        return dict(d, groups=g, sizes=sz, ens=(d["ens"][0], par))

    rigs = {}

    def rig(tag, d, opts):
        k = (tag, repr(sorted(opts.items())))
        if k not in rigs:
            rigs[k] = trace.Rig(d, opts, horizon=16)
        return rigs[k]

    T = 10 if ctx.thorough else 5

    def lockstep(A, B, w0, kicks, mapw=lambda w: w, mapphi=None, mapM=lambda x: x, sdw=1.0, sdJ=1.0, sres=1.0, kscale=1.0, comps=None):
        """A and B started from mapped states stay mapped"""
        recs, _ = A.reference(w0, T, kicks)
        if len(recs) < 1:
            raise Skip
        A.start(w0, kicks)
        B.start(mapw(mapM(w0)), None if kicks is None else [kscale * mapM(k) for k in kicks])
        for t in range(len(recs)):
            if recs[t]["near"]:
                if t == 0:
                    raise Skip
                break
            a, b = A.run(1), B.run(1)
            tag = f"iteration {t}: "
            close(tag + "fields", B.finder.omegas, mapw(mapM(A.finder.omegas)), 1e-7, 1e-9)
            close(tag + "volumes seen", B.spy.rec_J[t], mapM(A.spy.rec_J[t]), 1e-7, 1e-9)
            close(tag + "living compartments", B.spy.rec_mask[t], mapM(A.spy.rec_mask[t]))
            close(tag + "feature fractions", B.spy.rec_phi[t], mapM(A.spy.rec_phi[t]), 1e-7, 1e-9)
            da, db = A.finder.diagnostics, B.finder.diagnostics
            close(tag + "incompressibility", db["max_abs_incomp"], da["max_abs_incomp"], 1e-7, 1e-9)
            close(tag + "field error", db["max_abs_omega_diff"], sdw * da["max_abs_omega_diff"], 1e-6, 1e-8)
            close(tag + "volume error", db["max_abs_js_diff"], sdJ * da["max_abs_js_diff"], 1e-6, 1e-8)
            close(tag + "constraint residue", db["max_constraint_residue"], sres * da["max_constraint_residue"], 1e-7, 1e-9)
            alive = recs[t]["J_after"] > A.par.thr
            fb = b.fractions if comps is None else comps(b.fractions)
            mb = mapM(alive.astype(float)) > 0.5
            close(tag + "fractions", fb[mb], mapM(a.fractions.T).T[mb], 1e-7, 1e-9)
            if alive.all():
                close(tag + "volumes", b.volumes, mapM(a.volumes), 1e-7, 1e-9)
            ctx.step(2)
            ctx.state(B.finder.omegas, b.volumes)
        ctx.outcome(b.fractions, b.volumes)

    def kick_menu(M):
        out = [None]
        pats = [(0,), (M - 1,)] if not ctx.thorough else [(m,) for m in range(M)] + [(0, M - 1)]
        for p in pats:
            if len(set(p)) >= M:
                continue
            k = np.zeros((2, M))
            k[0, list(set(p))] = 12.0
            out.append(k)
        return out

    if shard["part"] == "pairs":
        fam, cv = shard["fam"], shard["cv"]
        for d0 in al.FAMILIES[fam]:
            for var in al.CONS_BY_KIND[cv]:
                d = al.with_cons(d0, var)
                M = d["M"]
                S = len(build.groups_of(d))
                for extra in (dict(max_revive_per_compartment=0), dict(max_revive_per_compartment=1, kill_threshold=0.2)):
                    opts = dict(BASE, **extra)
                    A = rig(d["tag"], d, opts)
                    for v, amp in ((0, 0.8), (2, 0.6), (3, 0.5), (1, 1.2), (4, 1.0))[:5 if ctx.thorough else 3]:
                        w0 = build.field(S, M, v, amp)
                        for ki, kicks in enumerate(kick_menu(M)):
                            key = dict(sys=d["tag"], opts=sorted(extra.items()), field=v, kick=ki)
                            # energy unit
                            for s in (0.5, 2.0, 3.0, 0.1, 7.0)[:5 if ctx.thorough else 3]:
                                o = dict(opts, acceptance_Js=opts["acceptance_Js"] / s)
                                B = rig((d["tag"], "scale", s), desc_scaled(d, s), o)
                                ctx.case(dict(key, pair="energy unit", s=s), lockstep, A, B, w0, kicks, lambda w: s * w, sdw=s, sdJ=s, kscale=s)
                            # constraints
                            if var != "none":
                                hows = ["rows apart", "rows reversed", "sign", "times 2.0"] + (["reversed"] if len(d["cons"]) > 1 else [])
                                for how in hows:
                                    B = rig((d["tag"], how), desc_cons(d, how), opts)
                                    ctx.case(dict(key, pair=how), lockstep, A, B, w0, kicks, sres=2.0 if how.startswith("times") else 1.0)
                            # identical and absent components inside a feature
                            if d.get("groups"):
                                for i in range(len(d["sizes"])) if ctx.thorough else (0, len(d["sizes"]) - 1):
                                    B = rig((d["tag"], "split", i), desc_split(d, i, 0.3), opts)

                                    def merge(f, i=i):
                                        return np.concatenate([f[:, :i], f[:, i:i + 1] + f[:, i + 1:i + 2], f[:, i + 2:]], axis=1)
                                    ctx.case(dict(key, pair="identical components", i=i), lockstep, A, B, w0, kicks, comps=merge)
                                for fi in range(S) if ctx.thorough else (0, S - 1):
                                    B = rig((d["tag"], "pad", fi), desc_pad(d, fi, 1.7), opts)
                                    pos = sum(d["groups"][:fi + 1])
                                    ctx.case(dict(key, pair="absent component", f=fi), lockstep, A, B, w0, kicks, comps=lambda f, pos=pos: np.delete(f, pos, axis=1))
                            # all compartments twice
                            if extra["max_revive_per_compartment"] == 0 and len({c["kind"] for c in d.get("cons") or []}) < 2:
                                c2 = [dict(c, kappa=d["cons"][0]["kappa"] / (2 if c["kind"] == "global" else 1), acc=d["cons"][0]["acc"]) for c in d.get("cons") or []]
                                B = rig((d["tag"], "double"), dict(d, M=2 * M, cons=c2), opts)
                                ctx.case(dict(key, pair="compartments twice"), lockstep, A, B, w0, kicks, mapM=lambda x: np.concatenate([x, x], axis=-1))
                                B = rig((d["tag"], "twin"), dict(d, M=2 * M, cons=c2), opts)
                                ctx.case(dict(key, pair="compartments in pairs"), lockstep, A, B, w0, kicks, mapM=lambda x: np.repeat(x, 2, axis=-1))
                        # residuals of a state do not depend on the step settings
                        if extra["max_revive_per_compartment"] == 0:
                            def residuals(w0=w0):
                                want = None
                                for o in al.SETTINGS + [dict(revive_scaler=2.0, max_revive_per_compartment=0), dict(kill_threshold=0.9)]:
                                    R = rig(d["tag"], d, o)
                                    R.start(w0)
                                    R.run(1)
                                    q = R.finder.diagnostics
                                    got = [q[k] for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue")]
                                    if want is None:
                                        want = got
                                    close(f"residuals with {o}", got, want, 1e-8, 1e-10)
                                    ctx.step()
                                ctx.outcome(np.array(want))
                            ctx.case(dict(sys=d["tag"], residuals=True, field=v), residuals)
                rigs.clear()
        return

    # ---------------------------------------------------------------- converged states
    tol = 1e-7
    fam = shard["fam"]

    def conv(f, n=60000):
        f.run(max_steps=n, interval=100, tolerance=tol)
        q = f.diagnostics
        return max(q["max_abs_incomp"], q["max_abs_omega_diff"], q["max_abs_js_diff"], q["max_constraint_residue"]) < tol

    def fixed(d, w0, changes):
        opts = dict(acceptance_Js=0.005, acceptance_omega=0.05, Js_step_upper_bound=0.01, max_revive_per_compartment=0, kill_threshold=0.01)
        f = build.finder(d, rng=np.random.default_rng(1), **opts)
        f.reinitialize_from_omegas(w0)
        if not conv(f):
            ctx.count("not converged")
            raise Skip
        r0 = f.run(max_steps=1, interval=1, tolerance=10 * tol)
        if len(np.unique(np.round(r0.fractions, 3), axis=0)) > 1:
            ctx.count("distinct phases")
        ctx.count("converged")
        inter, entr, ens = build.parts(d)
        chis = np.array(d["chis"], float)
        for what, val in changes:
            if what == "shift":
                # only the numerics change: still converged at once
                f.set_interaction(inter, additional_chis_shift=val)
                r = f.run(max_steps=1, interval=1, tolerance=tol)
                q = f.diagnostics
                worst = max(q["max_abs_incomp"], q["max_abs_omega_diff"], q["max_abs_js_diff"], q["max_constraint_residue"])
                S = len(chis)
                require(worst < 20 * tol * (1 + abs(val)) * S * S, lambda: f"converged state has residual {worst} after changing the shift to {val}")
                close("phases after changing the shift", r.fractions, r0.fractions, 0, 1e-4)
            elif what == "same":
                f.set_interaction(inter)
                f.set_entropy(entr)
                f.set_ensemble(ens)
                r = f.run(max_steps=1, interval=1, tolerance=tol)
                close("phases after setting the same parts", r.fractions, r0.fractions, 0, 1e-4)
            else:
                # interactions that differ by linear terms only
                a = np.array([val * (1.0, -0.6, 0.4, 0.9)[i] for i in range(len(chis))])
                c2 = chis + a[:, None] + a[None, :]
                if d.get("groups"):
                    f.set_interaction(flory.FloryHugginsBlockInteraction(len(chis), c2, np.array(d["groups"])))
                else:
                    f.set_interaction(flory.FloryHugginsInteraction(len(chis), c2))
                if not conv(f):
                    ctx.count("linear terms: not converged")
                    f.set_interaction(inter)
                    if not conv(f):
                        raise Skip
                    continue
                r = f.run(max_steps=1, interval=1, tolerance=10 * tol)
                close("phases for interactions differing by linear terms", r.fractions, r0.fractions, 0, 2e-4)
                close("volumes for interactions differing by linear terms", r.volumes, r0.volumes, 0, 2e-3)
                ctx.count("linear terms")
                f.set_interaction(inter)
                if not conv(f):
                    raise Skip
            ctx.step()
            ctx.state(r.fractions, r.volumes)
        ctx.outcome(r.fractions)

    for d0 in al.FAMILIES[fam]:
        if fam.endswith("can") and abs(sum(d0["ens"][1]) - 1) > 1e-9:
            continue
        S = len(build.groups_of(d0))
        M = d0["M"]
        can = d0["ens"][0] == "can"
        for v, amp in itertools.product((0, 1, 2, 3), (0.5, 2.0) if not ctx.thorough else (0.2, 0.5, 1.0, 2.0, 4.0)):
            ch = [("same", 0), ("shift", 0.3), ("shift", 4.0), ("shift", 1.0)]
            if can:
                ch += [("linear", 0.4), ("linear", -0.5)]
            ctx.case(dict(fixed=d0["tag"], field=v, amp=amp), fixed, d0, build.field(S, M, v, amp), ch)
