"""C07: composition and volume are conserved in every canonical run."""
import itertools

import numpy as np

from mc import alphabet as al

LEVEL = "model_checking"
FAST_COMPILE = True
RULE = ("every assignment of a set of dying compartments to each of the first iterations x revive "
        "budget x threshold x system; the conservation law is evaluated on the volumes and fractions "
        "every single iteration saw, and on the returned result after every iteration; plus free runs "
        "of every length in a menu for all systems, fields and step settings")
BOUNDS = {"quick": "kill schedules of length 2 over all subsets of 3 compartments (length 3 for one system), free runs up to 3000 iterations",
          "thorough": "kill schedules of length 3 for all systems, 4 compartments, free runs up to 20000 iterations"}
ASSUMPTIONS = ["user-defined constraint used as observer (documented extension point)"]
KILL_OPT = dict(acceptance_Js=0.3, acceptance_omega=0.05, Js_step_upper_bound=50.0)


def shards(tier):
    s = [dict(part="kill", fam=f, cons=c) for f in ("ideal_can", "poly_can") for c in ("none", "L", "G", "LG")]
    s += [dict(part="free", fam=f, k=k) for f in ("ideal_can", "poly_can") for k in range(3)]
    return s


def explore(ctx, shard):
    from mc import build, trace
    from mc.core import Skip, close, require

    def check_iter(rig, n):
        """the law at every iteration, on feature fractions"""
        d, spy = rig.d, rig.spy
        mean_f = np.zeros(rig.sys.S)
        np.add.at(mean_f, rig.sys.feat, rig.sys.par)
        for t in range(n):
            J, mask, phi = spy.rec_J[t], spy.rec_mask[t], spy.rec_phi[t]
            require(np.array_equal(mask > 0, J > rig.par.thr), lambda: f"iteration {t}: mask {mask} for volumes {J}")
            require(np.all(J[mask == 0] == 0) and np.all(phi[:, mask == 0] == 0),
                    lambda: f"iteration {t}: a dead compartment holds something: J={J} phi={phi}")
            close(f"iteration {t}: mean feature fractions", (J * phi).sum(1) / J.sum(), mean_f, 1e-9, 1e-11)
            ctx.state(J, phi)

    def check_res(rig, res, t, near_ok=True):
        """component resolved law and the returned result after iteration index t"""
        spy = rig.spy
        require(np.all(res.volumes > 0), lambda: f"volumes {res.volumes}")
        require(np.all(res.fractions >= 0), "negative fractions")
        J, mask = spy.rec_J[t], spy.rec_mask[t]
        return J, mask

    def scheduled(rig, w0, kicks, T):
        recs, _ = rig.reference(w0, T, kicks)
        n = len(recs)
        if n == 0:
            raise Skip
        rig.start(w0, kicks)
        rig.run(n)
        check_iter(rig, n)
        # component resolved: run iteration by iteration, compartments dead after it are excluded
        rig.start(w0, kicks)
        for t in range(n):
            res = rig.run(1)
            check_res(rig, res, t)
            J, mask = rig.spy.rec_J[t], rig.spy.rec_mask[t]
            if recs[t]["safe"] and not recs[t]["near"] and mask.all():
                close(f"iteration {t}: mean component fractions", J @ res.fractions / J.sum(), rig.sys.par, 1e-9, 1e-11)
                # volumes may only have moved by the last update
                lim = 2.0001 * rig.par.bound * np.abs(res.fractions).max() + 1e-9
                dev = np.abs(res.mean_fractions - rig.sys.par).max()
                require(dev <= lim, lambda: f"mean fractions off by {dev} > {lim}")
        ctx.step(2 * n)
        ctx.outcome(res.volumes, res.fractions)

    def free(rig, w0, n, tol, par):
        rig.start(w0)
        res = rig.finder.run(max_steps=n, interval=max(1, n // 7), tolerance=tol)
        it = rig.spy.iterations
        if not np.all(np.isfinite(rig.finder.omegas)):
            raise Skip
        check_iter(rig, min(it, len(rig.spy.rec_J)))
        require(np.all(res.volumes > 0), lambda: f"volumes {res.volumes}")
        dg = rig.finder.diagnostics
        conv = all(dg[k] < tol for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue"))
        dev = np.abs(res.mean_fractions - par).max()
        mx = np.abs(res.fractions).max()
        dead_before = None
        rig.spy.restart()
        budget = dg["revive_count_left"]
        # was a compartment killed in the last iteration?  seen by the next iteration
        total = res.volumes.sum()
        survived = abs(total - round(total)) < 1e-6
        acc = rig.opts.get("acceptance_Js", 0.0002)
        if survived:
            lim = 2.0001 * (acc * tol if conv else rig.par.bound) * mx + 1e-8
            require(dev <= lim, lambda: f"mean fractions off by {dev} > {lim} (converged: {conv})")
        ctx.count("converged", int(conv))
        ctx.step(it)
        ctx.outcome(res.volumes, res.fractions)

    if shard["part"] == "kill":
        for d0 in al.FAMILIES[shard["fam"]]:
            for cv in al.CONS_BY_KIND[shard["cons"]]:
                if cv != "none" and len(d0.get("groups") or d0["sizes"]) < 2:
                    continue
                d = al.with_cons(dict(d0, M=4 if ctx.thorough else 3), cv)
                M = d["M"]
                T = 4
                depth = 3 if ctx.thorough or (cv == "none" and d0["tag"] in ("N3", "P121")) else 2
                subs = [s for k in range(0, M) for s in itertools.combinations(range(M), k)]
                for thr, per in ((0.0, 0), (0.0, 1), (0.25, 0), (0.25, 2)):
                    rig = trace.Rig(d, dict(KILL_OPT, kill_threshold=thr, max_revive_per_compartment=per))
                    w0 = build.field(rig.sys.S, M, 0, 0.7)
                    for plan in itertools.product(subs, repeat=depth):
                        kicks = np.zeros((T, M))
                        for t, s in enumerate(plan):
                            kicks[t, list(s)] = 14.0
                        ctx.case(dict(sys=d["tag"], thr=thr, per=per, plan=[list(p) for p in plan]),
                                 scheduled, rig, w0, kicks, T)
        return

    lengths = (1, 2, 3, 7, 40, 300, 3000) + ((20000,) if ctx.thorough else ())
    fam = al.FAMILIES[shard["fam"]]
    extra = [al.comp("N5M40", al.chi_n(5, 2.5), [1.0, 2.0, 1.5, 1.0, 3.0], ("can", [0.1, 0.3, 0.2, 0.25, 0.15]), 40),
             al.comp("N6M9", al.chi_n(6, 3.0), [1.0] * 6, ("can", [0.1, 0.3, 0.2, 0.25, 0.05, 0.1]), 9)] if shard["fam"] == "ideal_can" else []
    for i, d in enumerate(fam + extra):
        if abs(sum(d["ens"][1]) - 1) > 1e-9:
            continue
        for M in sorted({d["M"], 2, 7}):
            dd = dict(d, M=M)
            for si, opt in enumerate((dict(), dict(acceptance_Js=0.002, acceptance_omega=0.02, Js_step_upper_bound=0.01),
                                      dict(acceptance_Js=0.02, acceptance_omega=0.02, Js_step_upper_bound=0.05, kill_threshold=0.05),
                                      dict(acceptance_Js=0.1, acceptance_omega=0.02, Js_step_upper_bound=0.3, max_revive_per_compartment=1))):
                if (i + si) % 3 != shard["k"]:
                    continue
                rig = trace.Rig(dd, opt, horizon=64)
                for v, amp in itertools.product((0, 1, 2), (0.5, 3.0)):
                    w0 = build.field(rig.sys.S, M, v, amp)
                    for n in lengths:
                        for tol in (1e-4,) if n < 100 else (1e-2, 1e-4):
                            ctx.case(dict(sys=d["tag"], M=M, setting=si, field=v, amp=amp, steps=n, tol=tol),
                                     free, rig, w0, n, tol, np.asarray(d["ens"][1]))
