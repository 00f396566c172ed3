"""C10: every iteration performs the documented self-consistent update."""
import itertools

import numpy as np

from mc import alphabet as al

LEVEL = "model_checking"
FAST_COMPILE = True
RULE = ("all combinations of system x constraint set x step setting x initial field x set of "
        "compartments made to die at iteration 0 or 1; the real finder and the reference model "
        "are stepped together and compared after every iteration")
BOUNDS = {"quick": "4 iterations, <=4 components/features, <=5 compartments (plus larger spot systems), 6 step settings, 5 field shapes",
          "thorough": "8 iterations, 2 more amplitudes, all kill subsets up to 5 compartments at iterations 0..2"}
ASSUMPTIONS = ["IEEE double arithmetic; comparisons to rel. 1e-8", "numba-compiled code as installed"]


def shards(tier):
    s = [dict(fam=f, cons=c) for f, c in al.signatures()]
    s.append(dict(fam="large", cons="none"))
    return s


def explore(ctx, shard):
    from mc import build, trace
    from mc.core import close

    T = 8 if ctx.thorough else 4
    amps = (0.5, 2.0, 4.0) if ctx.thorough else (0.5, 2.0)

    def one(rig, w0, kicks, T=T):
        recs, _ = rig.reference(w0, T, kicks)
        if not recs:
            return
        n = len(recs)
        # one iteration per run: state, diagnostics and result after every iteration
        rig.start(w0, kicks)
        for t in range(n):
            res = rig.run(1)
            trace.check_spy(rig, [recs[t]], t)
            trace.check_after(rig, recs[t], res, 1)
            ctx.state(rig.finder.omegas, recs[t]["J_after"])
        # all iterations in one run
        rig.start(w0, kicks)
        res = rig.run(n)
        trace.check_spy(rig, recs)
        trace.check_after(rig, recs[-1], res, n)
        # invariant of the statement, judged on the implementation only
        for t in range(1, n):
            alive = rig.spy.rec_mask[t - 1] > 0
            if (rig.spy.rec_J[t][alive] > rig.par.thr).all():
                close("mean volume of the living compartments", rig.spy.rec_J[t][alive].mean(), 1.0)
        ctx.step(2 * n)
        ctx.outcome(rig.finder.omegas, res.volumes, res.fractions)

    if shard["fam"] == "large":
        big = [al.comp(f"big{n}x{m}", al.chi_n(n), [1.0 + 0.25 * (i % 5) for i in range(n)],
                       ("can", [(i + 1) / (n * (n + 1) / 2) for i in range(n)]), m)
               for n, m in ((5, 7), (6, 16), (8, 33), (12, 24), (16, 5), (2, 100), (9, 128))]
        for d in big:
            for si, opt in enumerate(al.SETTINGS):
                rig = trace.Rig(d, dict(opt, max_revive_per_compartment=0))
                for v, amp in itertools.product(range(4), amps):
                    w0 = build.field(rig.sys.S, d["M"], v, amp)
                    ctx.case(dict(sys=d["tag"], setting=si, field=v, amp=amp), one, rig, w0, None)
        return

    for d0 in al.FAMILIES[shard["fam"]]:
        for cv in al.CONS_BY_KIND[shard["cons"]]:
            if cv != "none" and len(d0.get("groups") or d0["sizes"]) < 2:
                continue
            d = al.with_cons(d0, cv)
            M = d["M"]
            subsets = [()] + [s for k in range(1, M) for s in itertools.combinations(range(M), k)]
            if not ctx.thorough:
                subsets = subsets[:8] if M <= 3 else subsets[:1] + subsets[1:4] + subsets[-2:]
            for si, opt in enumerate(al.SETTINGS):
                for pos in ((0, 1) if shard["cons"] != "none" else (0,)):
                    if pos and si:
                        continue
                    rig = trace.Rig(d, dict(opt, max_revive_per_compartment=0), spy_pos=None if not pos else 0)
                    for v, amp in itertools.product(range(5), amps):
                        w0 = build.field(rig.sys.S, M, v, amp)
                        for sub in subsets:
                            for t in ((0, 1, 2) if ctx.thorough else (0, 1)):
                                if not sub and t:
                                    continue
                                if sub and not (opt.get("acceptance_Js", 0) * 30 > 2 and opt.get("Js_step_upper_bound", 0) >= 10 or si == 3):
                                    continue
                                kicks = np.zeros((T, M))
                                if si == 3:  # bounded step: several kicks in a row
                                    kicks[t:, list(sub)] = 6.0
                                else:
                                    kicks[t, list(sub)] = 30.0
                                ctx.case(dict(sys=d["tag"], setting=si, pos=pos, field=v, amp=amp, kill=list(sub), at=t),
                                         one, rig, w0, kicks)
