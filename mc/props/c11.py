"""C11: compartments die and are revived only as documented."""
import itertools

import numpy as np

from mc import alphabet as al

LEVEL = "model_checking"
RULE = ("every schedule assigning a set of dying compartments to each of the first iterations x revive "
        "budget x threshold x revive scaler x random quantile x splitting into runs; compared with the "
        "reference protocol iteration by iteration; separately every pattern of dead/equal/alive volumes "
        "for the revival helpers with distinct scripted random numbers")
BOUNDS = {"quick": "3 compartments, kill schedules of length 3 (7^3), budgets per compartment -1,0,1,2; helpers up to 4 compartments, 3 features",
          "thorough": "4 compartments, kill schedules of length 3 (15^3) for all systems, helpers up to 6 compartments"}
ASSUMPTIONS = ["user-defined constraint used as observer and to make compartments die (documented extension point)",
               "random numbers of compiled code are enumerated through the bit generator interface"]
OPT = dict(acceptance_Js=0.3, acceptance_omega=0.05, Js_step_upper_bound=50.0)


def shards(tier):
    return ([dict(part="proto", fam=f, k=k) for f in ("ideal_can", "poly_can") for k in range(3)]
            + [dict(part="proto", fam="ideal_gc", k=0), dict(part="helpers", k=0), dict(part="draws", k=0)])


def explore(ctx, shard):
    from mc import build, ref, trace
    from mc.core import Skip, close, require, same
    from mc.rng import Script, scripted

    def proto(rig, w0, kicks, T, q, split):
        recs, _ = rig.reference(w0, T, kicks, q=q)
        n = len(recs)
        if n == 0:
            raise Skip
        rig.start(w0, kicks, q=q)
        if split:
            t = 0
            for k in split:
                k = min(k, n - t)
                if k <= 0:
                    break
                res = rig.run(k)
                trace.check_spy(rig, recs[t:t + k], t)
                t += k
                trace.check_after(rig, recs[t - 1], res, k)
        else:
            res = rig.run(n, interval=max(1, n // 2))
            n = rig.spy.iterations
            trace.check_spy(rig, recs[:n])
            trace.check_after(rig, recs[n - 1], res, n)
        for r in recs:
            ctx.state(r["J"], r["mask"], r["w"], r["budget"])
            ctx.count("revivals", r["revived"])
        ctx.step(n)
        ctx.outcome(rig.finder.omegas, rig.finder.diagnostics["revive_count_left"])

    if shard["part"] == "proto":
        fam = [d for d in al.FAMILIES[shard["fam"]] if len(d["sizes"]) > 1]
        j = -1
        for d0 in fam:
            M = 4 if ctx.thorough else 3
            d = dict(d0, M=M)
            T = 5
            subs = [s for k in range(0, M) for s in itertools.combinations(range(M), k)]
            for per, thr, sc, q in itertools.product((-1, 0, 1, 2), (0.0, 0.3), (1.0, 0.5, 2.0), (0.03, 0.4987, 0.93)):
                if per <= 0 and (sc != 1.0 or q != 0.4987):
                    continue
                if not ctx.thorough and (sc, q) not in ((1.0, 0.4987), (0.5, 0.03), (2.0, 0.93)):
                    continue
                j += 1
                if shard["fam"] != "ideal_gc" and j % 3 != shard["k"]:
                    continue
                full = ctx.thorough or d0["tag"] in ("N3", "P121", "N2")
                rig = trace.Rig(d, dict(OPT, kill_threshold=thr, max_revive_per_compartment=per, revive_scaler=sc))
                w0 = build.field(rig.sys.S, M, 0, 0.7)
                for plan in itertools.product(subs, repeat=3 if full else 2):
                    kicks = np.zeros((T, M))
                    for t, s in enumerate(plan):
                        kicks[t, list(s)] = 14.0
                    for split in ((), (1, 1, 1, 1, 1), (2, 1, 2)) if sum(map(len, plan)) <= 3 else ((),):
                        ctx.case(dict(sys=d["tag"], per=per, thr=thr, scaler=sc, q=q, plan=[list(p) for p in plan], split=list(split)),
                                 proto, rig, w0, kicks, T, q, split)
        return

    if shard["part"] == "helpers":
        from mc.internals import helper as internal

        impl = "flory.mcmp._finder_impl"
        revive_compartments_by_random = internal(impl, "revive_compartments_by_random", ["Js", "targets", "threshold", "rng", "scaler"])
        count_valid_compartments = internal(impl, "count_valid_compartments", ["Js", "threshold"])
        make_valid_compartment_masks = internal(impl, "make_valid_compartment_masks", ["Js", "threshold"])
        if None in (revive_compartments_by_random, count_valid_compartments, make_valid_compartment_masks):
            ctx.count("helpers not available")
            return

        script = Script()
        gen = scripted(script)

        def helper(J, thr, S, v, scaler):
            J0 = np.array(J, float)
            M = len(J0)
            w0 = build.field(S, M, v, 1.5) + 0.2
            J, w = J0.copy(), w0.copy()
            dead = J0 <= thr
            n = int(dead.sum()) * S
            qs = [(0.17 + 0.61803398875 * i) % 1.0 for i in range(n)]
            script.reset(qs, [0.777])
            cnt = revive_compartments_by_random(J, w, float(thr), gen, float(scaler))
            require(cnt == dead.sum(), lambda: f"reported {cnt} revivals for {dead.sum()} dead compartments")
            same("volumes", J, np.where(dead, 1.0, J0))
            same("living fields", w[:, ~dead], w0[:, ~dead])
            lo, hi = w0.min(1)[:, None], w0.max(1)[:, None]
            if n and (hi > lo).all():
                u = ((w[:, dead] - 0.5 * (lo + hi)) / (0.5 * (hi - lo) * scaler) + 1) / 2
                got = np.sort(u.ravel())
                close("random numbers used for the revived fields", got, np.sort(qs), 1e-7, 1e-9)
            elif n:
                close("fields for a vanishing range", w[:, dead], np.broadcast_to(lo, (S, M))[:, dead])
            require(script.n == n, lambda: f"{script.n} random numbers drawn for {n} fields")
            c = count_valid_compartments(J0, float(thr))
            m = make_valid_compartment_masks(J0, float(thr))
            require(c == (~dead).sum(), "count of living compartments")
            close("masks", np.asarray(m, float), (~dead).astype(float))
            ctx.step(3)
            ctx.state(J0, thr)
            ctx.outcome(w, J)

        maxM = 6 if ctx.thorough else 4
        for thr in (0.0, 0.2, 1.0, -0.1):
            vals = [thr - 0.3, thr, thr + 1e-9, thr + 0.9, thr - 1e-9]
            for M in range(1, maxM + 1):
                for J in itertools.product(vals[:4] if M > 3 else vals, repeat=M):
                    for S, v, sc in ((1, 0, 1.0), (2, 1, 0.5), (3, 2, 2.0), (2, 4, 1.0)) if M <= 4 else ((2, 1, 1.5),):
                        ctx.case(dict(helper="random", J=list(J), thr=thr, S=S, field=v, scaler=sc), helper, J, thr, S, v, sc)
        for M in (17, 64, 100):
            for k in range(0, M, 7):
                J = [0.0 if (i * 5 + k) % 11 < 4 else 1.3 for i in range(M)]
                ctx.case(dict(helper="random", M=M, k=k), helper, J, 0.0, 3, 1, 1.0)
        return

    # distinct random numbers inside a run: fields frozen, one revival event, all kill sets
    def draws(rig, w0, sub, qs):
        M, S = rig.d["M"], rig.sys.S
        kicks = np.zeros((2, M))
        kicks[0, list(sub)] = 30.0
        recs, _ = rig.reference(w0, 1, kicks)
        dead = recs[0]["J_after"] <= rig.par.thr
        if recs[0]["near"] or dead.all():
            raise Skip
        rig.script.reset([0.4987], [0.4987])
        rig.spy.restart(kicks)
        rig.finder.reinitialize_from_omegas(w0)
        rig.run(1)
        before = rig.finder.omegas.copy()
        n = int(dead.sum()) * S
        # the final copy of `run` also draws; only the first n numbers matter for the fields
        rig.script.reset(qs[:n], [0.777])
        rig.run(1)
        after = rig.finder.omegas
        close("fields of the living", after[:, ~dead], before[:, ~dead])
        lo, hi = before.min(1)[:, None], before.max(1)[:, None]
        u = ((after[:, dead] - 0.5 * (lo + hi)) / (0.5 * (hi - lo) * rig.par.scaler) + 1) / 2
        close("random numbers used", np.sort(u.ravel()), np.sort(qs[:n]), 1e-7, 1e-9)
        close("volumes after the revival", rig.spy.rec_J[1], np.where(dead, 1.0, recs[0]["J_after"]))
        ctx.step(2)
        ctx.state(after)
        ctx.outcome(dead, after)

    for fam in ("ideal_can",):
        for d0 in al.FAMILIES[fam]:
            for M in (2, 3, 4, 6) if not ctx.thorough else (2, 3, 4, 5, 6, 7, 8):
                d = dict(d0, M=M)
                for sc in (1.0, 0.3, 3.0):
                    rig = trace.Rig(d, dict(acceptance_Js=0.3, acceptance_omega=0.0, Js_step_upper_bound=50.0, revive_scaler=sc))
                    for v in (0, 1):
                        w0 = build.field(rig.sys.S, M, v, 0.8)
                        subs = [s for k in range(1, M) for s in itertools.combinations(range(M), k)]
                        for s in subs if len(subs) < 20 else subs[:: max(1, len(subs) // 20)]:
                            qs = [(0.11 + 0.7548776662 * i) % 1.0 for i in range(64)]
                            ctx.case(dict(draws=d["tag"], M=M, scaler=sc, field=v, kill=list(s)), draws, rig, w0, s, qs)
