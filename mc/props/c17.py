"""C17: labels do not matter and runs are reproducible."""
import itertools

import numpy as np

from mc import alphabet as al

LEVEL = "model_checking"
FAST_COMPILE = True
RULE = ("all permutations of the components (features and components within features) and of the compartments, applied to all parameters, "
        "fields and scripted kills, compared iteration by iteration; all pairs of equal generator states over kinds of generators, with and "
        "without progress display, different global random states, histories of the process and options")
BOUNDS = {"quick": "1-4 components, 1-4 compartments, 5 iterations, 5 kill patterns, all families with and without constraints; 24 seeds/kinds x programs",
          "thorough": "1-5 components and compartments, 8 iterations"}
ASSUMPTIONS = ["labels are compared for equal random numbers in revivals (constant quantile)", "values compared up to rounding"]


def shards(tier):
    sig = [("ideal_can", "none"), ("ideal_can", "L"), ("ideal_can", "LG"), ("ideal_gc", "none"), ("ideal_gc", "G"), ("poly_can", "none"), ("poly_can", "LG"), ("poly_gc", "none")]
    return [dict(part="perm", fam=f, cons=c) for f, c in sig] + [dict(part="repro", fam=f) for f in ("ideal_can", "poly_gc")]


def comp_perms(d):
    """(feature permutation, component permutation) that keep the grouping meaningful"""
    g = d.get("groups")
    if not g:
        for p in itertools.permutations(range(len(d["sizes"]))):
            yield list(p), list(p)
        return
    start = np.concatenate([[0], np.cumsum(g)])
    for fp in itertools.permutations(range(len(g))):
        for inner in itertools.product(*[list(itertools.permutations(range(g[f]))) for f in fp]):
            cp = []
            for f, pi in zip(fp, inner):
                cp += [int(start[f]) + i for i in pi]
            yield list(fp), cp


def permuted(d, fp, cp):
    out = dict(d)
    c = np.array(d["chis"])
    out["chis"] = c[np.ix_(fp, fp)].tolist()
    out["sizes"] = [d["sizes"][i] for i in cp]
    out["ens"] = (d["ens"][0], [d["ens"][1][i] for i in cp])
    if d.get("groups"):
        out["groups"] = [d["groups"][f] for f in fp]
    if d.get("cons"):
        out["cons"] = [dict(k, Cs=np.array(k["Cs"])[:, fp].tolist()) for k in d["cons"]]
    return out


def explore(ctx, shard):
    from mc import build, trace
    from mc.core import close, require

    if shard["part"] == "perm":
        T = 8 if ctx.thorough else 5
        opts = dict(acceptance_Js=0.3, acceptance_omega=0.1, Js_step_upper_bound=20.0, max_revive_per_compartment=1)

        def observe(rig, w0, kicks):
            rig.start(w0, kicks, q=0.37)
            rows = []
            for t in range(T):
                r = rig.run(1)
                rows.append((rig.finder.omegas.copy(), r.volumes, r.fractions, build.diag(rig.finder)))
            return dict(J=rig.spy.rec_J[:T].copy(), phi=rig.spy.rec_phi[:T].copy(), mask=rig.spy.rec_mask[:T].copy(), step=rig.spy.rec_step[:T].copy(), rows=rows)

        def compare(a, b, fp, cp, mp, tag, all_alive):
            """b is the permuted system"""
            close(f"{tag}: volumes seen", b["J"], a["J"][:, mp], 1e-7, 1e-9)
            close(f"{tag}: masks", b["mask"], a["mask"][:, mp])
            close(f"{tag}: fractions seen", b["phi"], a["phi"][:, fp][:, :, mp], 1e-7, 1e-9)
            close(f"{tag}: step sizes", b["step"], a["step"], 1e-7, 1e-300)
            trivial = mp == list(range(len(mp)))
            for t, ((wa, va, fa, da), (wb, vb, fb, db)) in enumerate(zip(a["rows"], b["rows"])):
                close(f"{tag}: fields after {t}", wb, wa[fp][:, mp], 1e-7, 1e-9)
                for k in da:
                    close(f"{tag}: {k} after {t}", db[k], da[k], 1e-7, 1e-9)
                if trivial or all_alive[t]:  # copies of living compartments depend on their order
                    close(f"{tag}: volumes after {t}", vb, va[mp], 1e-7, 1e-9)
                    close(f"{tag}: fractions after {t}", fb, fa[mp][:, cp], 1e-7, 1e-9)
                # the amount of every component and the total volume never depend on labels
                close(f"{tag}: total volume after {t}", vb.sum(), va.sum(), 1e-7)
                close(f"{tag}: amounts after {t}", vb @ fb, (va @ fa)[cp], 1e-7, 1e-9)
            ctx.step(T)

        for d0 in al.FAMILIES[shard["fam"]]:
            if shard["cons"] != "none" and len(d0.get("groups") or d0["sizes"]) < 2:
                continue
            d = al.with_cons(d0, al.CONS_BY_KIND[shard["cons"]][-1])
            M = d["M"]
            rig = trace.Rig(d, opts, horizon=T)
            S = rig.sys.S
            plans = [{}]
            if M > 1:
                plans += [{0: (0,)}, {1: (M - 1,)}, {0: (0,), 1: (0,), 2: (0,)}, {t: (t % M,) for t in range(T)}]
            perms_m = list(itertools.permutations(range(M))) if M <= (5 if ctx.thorough else 4) else [tuple((i + s) % M for i in range(M)) for s in range(M)] + [tuple(reversed(range(M)))]
            for plan in plans:
                for wv in (0, 2):
                    kicks = np.zeros((T, M))
                    for t, s in plan.items():
                        kicks[t, list(s)] = 14.0
                    w0 = build.field(S, M, wv, 0.6)
                    recs, _ = rig.reference(w0, T, kicks, q=0.37)
                    if len(recs) < T or any(r["near"] for r in recs):
                        ctx.count("left out: rounding or overflow")
                        continue
                    all_alive = [bool(np.all(r["J_after"] > 0)) for r in recs]
                    a = observe(rig, w0, kicks)
                    key = dict(sys=d["tag"], field=wv, kills={str(k): list(v) for k, v in plan.items()})
                    for mp in perms_m:
                        mp = list(mp)

                        def pm():
                            b = observe(rig, w0[:, mp], kicks[:, mp])
                            compare(a, b, list(range(S)), list(range(rig.sys.N)), mp, f"compartments {mp}", all_alive)
                            ctx.state(d["tag"], wv, str(plan), mp)
                            ctx.outcome(b["J"], b["phi"])
                        ctx.case(dict(key, compartments=mp), pm)
                    for fp, cp in comp_perms(d):
                        def pc():
                            r2 = trace.Rig(permuted(d, fp, cp), opts, horizon=T)
                            b = observe(r2, w0[fp], kicks)
                            compare(a, b, fp, cp, list(range(M)), f"components {cp}", all_alive)
                            ctx.state(d["tag"], wv, str(plan), cp)
                            ctx.outcome(b["J"], b["phi"])
                        ctx.case(dict(key, components=cp), pc)
        return

    # ---------------------------------------------------------------- reproducibility
    import io
    import random
    import sys

    d = al.FAMILIES[shard["fam"]][-1]
    KINDS = {"PCG64": np.random.PCG64, "MT19937": np.random.MT19937, "Philox": np.random.Philox, "SFC64": np.random.SFC64, "PCG64DXSM": np.random.PCG64DXSM}

    def program(gen, progress, n):
        """a life with random fields and revivals"""
        f = build.finder(dict(d, M=6), rng=gen, acceptance_Js=0.3, acceptance_omega=0.1, Js_step_upper_bound=3.0, kill_threshold=0.7,
                         max_revive_per_compartment=2, random_std=1.0, tolerance=1e-30, progress=progress)
        out = [f.omegas.copy()]
        for k in range(n):
            r = f.run(max_steps=4, interval=2)
            out += [f.omegas.copy(), r.volumes, r.fractions, np.array(list(build.diag(f).values()), float)]
            if k == 0:
                f.reinitialize_random()
                out.append(f.omegas.copy())
        return out

    def one(kind, seed, n, progress, pollute):
        err = sys.stderr
        sys.stderr = io.StringIO()
        try:
            g1, g2 = np.random.Generator(KINDS[kind](seed)), np.random.Generator(KINDS[kind](seed))
            np.random.seed(1)
            random.seed(1)
            a = program(g1, False, n)
            np.random.seed(2)
            random.seed(2)
            if pollute:
                program(np.random.default_rng(77), False, 2)  # another finder in between
                np.random.random(5)
            st, st2 = np.random.get_state(), random.getstate()
            b = program(g2, progress, n)
        finally:
            sys.stderr = err
        now = np.random.get_state()
        require(now[2] == st[2] and np.array_equal(now[1], st[1]) and random.getstate() == st2, "a global random number generator was used")
        for k, (x, y) in enumerate(zip(a, b)):
            close(f"observation {k}", y, x, 1e-11, 1e-12)
        x, y = g1.random(4), g2.random(4)
        close("state of the generator afterwards", y, x, 0, 0)
        fresh = np.random.Generator(KINDS[kind](seed)).random(4)
        require(not np.allclose(fresh, x), "the given generator was not used")
        ctx.step(8 * n)
        ctx.state(kind, seed, n, progress, pollute)
        ctx.outcome(*a)

    for kind in KINDS:
        for seed in range(8 if ctx.thorough else 4):
            for n in (1, 2, 3):
                for progress in (False, True):
                    for pollute in (False, True):
                        ctx.case(dict(kind=kind, seed=seed, runs=n, progress=progress, pollute=pollute, sys=d["tag"]), one, kind, seed, n, progress, pollute)

    # generators in the same state that got there in different ways, and a generator shared by two finders in turn
    def shared(seed):
        g1 = np.random.default_rng(seed)
        a = program(g1, False, 1) + program(g1, False, 2)
        g2 = np.random.default_rng(seed)
        b = program(g2, False, 1)
        g3 = np.random.default_rng(0)
        g3.bit_generator.state = g2.bit_generator.state
        b += program(g3, True, 2)
        for k, (x, y) in enumerate(zip(a, b)):
            close(f"observation {k}", y, x, 1e-11, 1e-12)
        ctx.step(24)
        ctx.state("shared", seed)
    for seed in range(20):
        ctx.case(dict(shared=seed, sys=d["tag"]), shared, seed)

    # without a generator the finder makes its own and still leaves the global ones alone
    def own():
        st, st2 = np.random.get_state(), random.getstate()
        program(None, False, 2)
        now = np.random.get_state()
        require(now[2] == st[2] and np.array_equal(now[1], st[1]) and random.getstate() == st2, "a global random number generator was used")
    ctx.case(dict(own_generator=True, sys=d["tag"]), own)
