"""C12: returned results replace dead compartments without losing anything."""
import itertools

import numpy as np

from mc import alphabet as al

LEVEL = "model_checking"
RULE = ("every pattern of volumes over {negative, zero, at threshold, barely living, at twice the threshold, "
        "large} x threshold x every sequence of choices of the generator (depth-first over the draws that are "
        "actually made); plus real runs in which every subset of compartments is dead at the end")
BOUNDS = {"quick": "up to 4 compartments with all choices (6 quantile levels per draw, covering every index of up to 6 candidates), 5-100 compartments with extreme choice streams",
          "thorough": "up to 5 compartments with all choices"}
ASSUMPTIONS = ["random choices of compiled code are enumerated through the bit generator interface"]
LEVELS = [(k + 0.43) / 6 for k in range(6)]


def shards(tier):
    return [dict(part="helper", thr=t, k=k) for t in (0.0, 0.2, 0.01) for k in range(2)] + [dict(part="run", k=0), dict(part="many", k=0)]


def explore(ctx, shard):
    from mc import build, trace
    from mc.core import Skip, Violation, close, require, same
    from mc.internals import helper
    from mc.rng import Script, scripted

    revive_compartments_by_copy = helper("flory.mcmp._finder_impl", "revive_compartments_by_copy", ["Js", "targets", "threshold", "rng"])
    if revive_compartments_by_copy is None and shard["part"] != "run":
        ctx.count("helper not available")
        return
    script = Script()
    gen = scripted(script)

    def judge(J0, X0, J, X, thr, cnt):
        alive = J0 > thr
        same("living compositions", X[:, alive], X0[:, alive])
        require(np.all(J > 0), lambda: f"volumes {J0} -> {J}: non-positive volume")
        parents = X0[:, alive]
        for m in np.flatnonzero(~alive):
            require(any(np.array_equal(X[:, m], parents[:, k]) for k in range(parents.shape[1])),
                    lambda: f"compartment {m} has a composition of no living one")
        close("living volume", J.sum(), J0[alive].sum(), 1e-12, 1e-13)
        close("amounts", X @ J, X0[:, alive] @ J0[alive], 1e-11, 1e-12)
        require(np.all(J[alive] <= J0[alive]), "a living compartment grew")
        # every parent keeps its material: group by composition
        for p in np.flatnonzero(alive):
            grp = [m for m in range(len(J)) if np.array_equal(X[:, m], X0[:, p])]
            close("volume of the descendants of a compartment", J[grp].sum(), J0[p], 1e-12, 1e-13)
        small = J <= thr
        if small.any():
            require(not np.any(J > 2 * thr), lambda: f"volumes {J0} -> {J} (threshold {thr}): split below the threshold although a larger one existed")
        require(cnt == (~alive).sum(), lambda: f"reported {cnt} revivals of {(~alive).sum()}")

    def call(J0, thr, S, qs, tail):
        J0 = np.array(J0, float)
        M = len(J0)
        X0 = np.abs(np.sin(1.0 + np.arange(S)[:, None] * 1.7 + np.arange(M) * 0.61)) + 0.01 * np.arange(M)
        J, X = J0.copy(), X0.copy()
        script.reset(qs, [tail])
        cnt = revive_compartments_by_copy(J, X, float(thr), gen)
        judge(J0, X0, J, X, thr, cnt)
        ctx.step(int((J0 <= thr).sum()))
        ctx.state(J0, thr)
        ctx.outcome(J0, J, thr)
        return script.n

    def dfs(desc, J0, thr, S, prefix):
        n = ctx.case(dict(desc, q=prefix), call, J0, thr, S, prefix, LEVELS[0])
        if n is None and ctx.only is not None:  # replay: walk the tree without judging
            try:
                n = call(J0, thr, S, prefix, LEVELS[0])
            except Violation:
                return
        if n is None:
            return
        for i in range(len(prefix), min(n, 6)):
            for lv in LEVELS[1:]:
                dfs(desc, J0, thr, S, prefix + [LEVELS[0]] * (i - len(prefix)) + [lv])

    if shard["part"] == "helper":
        thr = shard["thr"]
        t = thr if thr else 0.0
        vals = [-0.3, 0.0, t, 1.5 * t, 2.0 * t, 2.5 * t, 1.0, 3.0] if t else [-0.3, 0.0, 1e-12, 1.0, 3.0]
        vals = sorted(set(vals))
        maxM = 5 if ctx.thorough else 4
        for M in range(1, maxM + 1):
            pats = list(itertools.product(vals, repeat=M))
            for i, J in enumerate(pats):
                if i % 2 != shard["k"]:
                    continue
                if not any(j > thr for j in J):
                    continue
                if M == 4 and not ctx.thorough and len([j for j in J if j <= thr]) > 2 and i % 3:
                    # all choices for three dead ones only for every third pattern; two streams for the rest
                    for tail in (LEVELS[0], LEVELS[5]):
                        ctx.case(dict(J=list(J), thr=thr, tail=tail), call, J, thr, 2, [], tail)
                    continue
                dfs(dict(J=list(J), thr=thr), J, thr, 2, [])
        return

    if shard["part"] == "many":
        for M in (5, 6, 8, 13, 32, 100):
            for thr in (0.0, 0.01, 0.3):
                for n_alive in sorted({1, 2, 3, M // 2, M - 1}):
                    if n_alive >= M or n_alive < 1:
                        continue
                    for big in (1.0, 0.9 * M, 2.2 * thr, 1.1 * thr):
                        if big <= thr:
                            continue
                        for shift in (0, 1, M - n_alive):
                            for dv in (-0.5, 0.0, thr):
                                J = [dv] * M
                                for k in range(n_alive):
                                    J[(shift + k * (M // n_alive)) % M] = big * (1 + 0.01 * k)
                                for tail in (0.0003, 0.3331, 0.5003, 0.9997):
                                    ctx.case(dict(M=M, thr=thr, alive=n_alive, big=big, shift=shift, dead=dv, tail=tail),
                                             call, J, thr, 3, [], tail)
        return

    # results of real runs: every subset of compartments dead after the last iteration
    def run_case(rig, w0, kicks, T, q):
        recs, _ = rig.reference(w0, T, kicks, q=q)
        if len(recs) < T or recs[-1]["near"]:
            raise Skip
        rig.start(w0, kicks, q=q)
        res = rig.run(T)
        trace.check_result(rig, recs[-1], res)
        alive = recs[-1]["J_after"] > rig.par.thr
        if not alive.any():
            raise Skip
        ctx.step(T)
        ctx.state(recs[-1]["J_after"])
        ctx.outcome(res.volumes)

    for d0 in al.IDEAL_CAN + al.IDEAL_GC[:0]:
        for M in (2, 3, 4, 5):
            d = dict(d0, M=M)
            subs = [s for k in range(1, M) for s in itertools.combinations(range(M), k)]
            for thr in (0.0, 0.3):
                rig = trace.Rig(d, dict(acceptance_Js=0.3, acceptance_omega=0.05, Js_step_upper_bound=50.0,
                                        max_revive_per_compartment=0, kill_threshold=thr))
                for v in (0, 1):
                    w0 = build.field(rig.sys.S, M, v, 0.7)
                    for s in subs:
                        for at, T in ((0, 1), (0, 2), (1, 2)):
                            kicks = np.zeros((T, M))
                            kicks[at, list(s)] = 14.0
                            for q in LEVELS:
                                ctx.case(dict(sys=d["tag"], M=M, thr=thr, field=v, kill=list(s), at=at, T=T, q=q),
                                         run_case, rig, w0, kicks, T, q)
