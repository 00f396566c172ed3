"""C06: a rejected request changes nothing."""
import itertools

import numpy as np

from mc import alphabet as al

LEVEL = "model_checking"
RULE = ("every invalid request inserted at every position of all short sequences of valid operations on a finder (after kills and "
        "revivals), checked against the reference model that ignores it; all combinations of mismatching sizes at creation; every "
        "invalid assignment to every parameter object at every position of sequences of valid assignments")
BOUNDS = {"quick": "3 worlds, 30-40 invalid requests, valid sequences of length <= 2 over 6-7 operations; sizes 1..4 at creation; parameter objects with 1-4 components",
          "thorough": "valid sequences of length <= 3 and all pairs of invalid requests"}
ASSUMPTIONS = ["random numbers are equal in model and finder (constant quantile)"]


def shards(tier):
    n = {"quick": 1, "thorough": 4}[tier]
    return [dict(part="finder", world=w, k=k, n=n) for w in ("comp", "poly", "cons") for k in range(n)] + [dict(part="create"), dict(part="params"), dict(part="phases")]


def explore(ctx, shard):
    import flory
    from flory.common import ComponentNumberError, FeatureNumberError, VolumeFractionError
    from mc import build, observe
    from mc.core import close, raises, require

    EITHER = (ComponentNumberError, FeatureNumberError)

    if shard["part"] == "finder":
        from mc.life import Pair, World
        M = 3
        kicks = np.zeros((64, M))
        for t in range(64):
            if t % 3 != 2:
                kicks[t, (t * 2) % M] = 14.0
        chiA, chiB = [[0.0, 2.0], [2.0, 0.0]], [[-1.0, 1.5], [1.5, 0.5]]
        L1 = dict(kind="local", Cs=[[1.0, -1.0]], Ts=[0.1])
        L2 = dict(kind="local", Cs=[[0.5, 1.0], [1.0, 0.0]], Ts=[0.4, 0.3])
        w = shard["world"]
        kw = {}
        if w == "poly":
            d = al.comp("P21", chiA, [1.0, 1.5, 0.5], ("can", [0.4, 0.4, 0.2]), M, groups=[2, 1])
            N, sz, en = 3, [2.0, 0.7, 1.1], ("can", [0.1, 0.6, 0.3])
        else:
            d = al.comp("N2", chiA, [1.0, 1.5], ("can", [0.4, 0.6]), M)
            N, sz, en = 2, [2.0, 0.7], ("can", [0.1, 0.9])
            if w == "cons":
                d["cons"] = [L1]
                kw = dict(constraint_acceptance_ratio=0.7, constraint_elasticity=0.3)
        wA, wB = build.field(2, M, 0, 0.6), build.field(2, M, 2, 0.3)
        world = World(d, {}, kw, kicks)
        valid = {"run1": lambda p: p.run(max_steps=1, interval=1), "run": lambda p: p.run(), "omegas": lambda p: p.omegas(wB),
                 "inter keep": lambda p: p.interaction(chiB, reset=False), "entropy keep": lambda p: p.entropy(sz, reset=False),
                 "ens keep": lambda p: p.ensemble(en, reset=False)}
        if w == "cons":
            valid["cons keep"] = lambda p: p.constraints([L2], reset=False)

        FI, B, E, P, C, G = (flory.FloryHugginsInteraction, flory.FloryHugginsBlockInteraction, flory.IdealGasEntropy,
                             flory.IdealGasPolydispersedEntropy, flory.CanonicalEnsemble, flory.GrandCanonicalEnsemble)
        inv = {}

        def bad(name, exc, meth, *a, **k):
            inv[name] = (exc, lambda f: getattr(f, meth)(*a, **k))
        for n in (1, 3, 4):
            for rs in ({}, dict(if_reset_revive=False)):
                t = " keep" if rs else ""
                bad(f"interaction {n}{t}", FeatureNumberError, "set_interaction", FI(n, 5.0), **rs)
                bad(f"block interaction {n}{t}", FeatureNumberError, "set_interaction", B(n, 5.0, 2), **rs)
                bad(f"local {n}{t}", FeatureNumberError, "set_constraints", flory.LinearLocalConstraint(n, np.ones(n), 0.3), **rs)
                bad(f"no constraint {n}{t}", FeatureNumberError, "set_constraints", [flory.NoConstraint(n)], **rs)
        g2 = flory.LinearGlobalConstraint(2, [1.0, 2.0], 0.3)
        for n in (1, 3):
            g = flory.LinearGlobalConstraint(n, np.ones((2, n)), 0.3)
            bad(f"valid and global {n}", FeatureNumberError, "set_constraints", [g2, g])
            bad(f"global {n} and valid", FeatureNumberError, "set_constraints", (g, g2), if_reset_revive=False)
            bad(f"two global {n}", FeatureNumberError, "set_constraints", (g, g), constraint_elasticity=3.0)
        for n in (1, 2, 3, 4):
            if n != N:
                for rs in ({}, dict(if_reset_revive=False)):
                    t = " keep" if rs else ""
                    bad(f"can {n}{t}", ComponentNumberError, "set_ensemble", C(n), **rs)
                    bad(f"gc {n}{t}", ComponentNumberError, "set_ensemble", G(n, 0.5), **rs)
                    bad(f"entropy {n}{t}", EITHER if n != 2 else ComponentNumberError, "set_entropy", E(n, 2.0), **rs)
        if w == "poly":
            bad("entropy features 3", FeatureNumberError, "set_entropy", P(3, 2.0, 1))
            bad("entropy features 1 keep", FeatureNumberError, "set_entropy", P(1, 2.0, 3), if_reset_revive=False)
            bad("entropy components 4", ComponentNumberError, "set_entropy", P(2, 2.0, 2))
            bad("ideal entropy 3", FeatureNumberError, "set_entropy", E(3, 2.0))
        else:
            bad("entropy features 1", FeatureNumberError, "set_entropy", P(1, 2.0, 2), if_reset_revive=False)
            bad("entropy components 3", ComponentNumberError, "set_entropy", P(2, 2.0, [1, 2]))
        for meth in ("reinitialize_from_omegas", "reinitialize_from_phis"):
            s = meth.split("_")[-1]
            for sh in ((2, M + 1), (3, M), (2, M - 1), (1, M), (2, 1), (M, 2), (2 * M,), (M,), (1, 2, M), (2, M, 1), ()):
                bad(f"{s} {sh}", ValueError, meth, np.full(sh, 0.4))
            bad(f"{s} ragged", ValueError, meth, [[0.1, 0.2, 0.3], [0.4]])
            bad(f"{s} list", ValueError, meth, [[0.1] * (M + 1)] * 2)
            bad(f"{s} empty", ValueError, meth, [])

        def one(seq, at):
            """at: {position: names of invalid requests}"""
            p = Pair(world, wA)
            p.run(max_steps=3, interval=3, compare=False)
            for i in range(len(seq) + 1):
                for name in at.get(i, ()):
                    exc, call = inv[name]
                    raises(exc, call, p.f)
                    p.check_idle()
                    ctx.step()
                if i < len(seq):
                    valid[seq[i]](p)
                    ctx.step()
            p.run(max_steps=2, interval=1)
            p.run()
            ctx.step(6)
            ctx.state(w, seq, str(at), p.w, p.J, p.budget)
            ctx.outcome(p.w, p.J, p.budget)

        def shapes(meth, pre):
            """every shape with up to three dimensions out of the sizes in play"""
            p = Pair(world, wA)
            p.run(max_steps=3, interval=3, compare=False)
            if pre:
                valid[pre](p)
            for nd in range(4):
                for sh in itertools.product((0, 1, 2, M, M + 1, 2 * M), repeat=nd):
                    if sh == (2, M):
                        continue
                    for value in (np.full(sh, 0.4), np.full(sh, 0.4).tolist()):
                        if np.shape(value) == sh:
                            raises(ValueError, getattr(p.f, meth), value)
                            ctx.step()
                    ctx.state(w, meth, sh)
            p.check_idle()
            p.run(max_steps=2, interval=1)
            p.run()
        for meth in ("reinitialize_from_omegas", "reinitialize_from_phis"):
            for pre in (None, *valid):
                ctx.case(dict(world=w, shapes=meth, after=pre), shapes, meth, pre)

        jobs = []
        for L in range(0, (4 if ctx.thorough else 3)):
            for seq in itertools.product(valid, repeat=L):
                for pos in range(L + 1):
                    for name in inv:
                        jobs.append((seq, {pos: (name,)}))
        if ctx.thorough:
            jobs += [(("run1",), {0: (a,), 1: (b,)}) for a in inv for b in inv]
        else:
            jobs += [(("run1",), {0: (a, b)}) for a in inv for b in list(inv)[::7]]
        if not ctx.thorough:  # all requests at the end, a third of them elsewhere (each valid sequence with each kind)
            names = list(inv)
            jobs = [(s, a) for i, (s, a) in enumerate(jobs) if len(s) < 2 or i % 3 == 0]
        for i, (seq, at) in enumerate(jobs):
            if i % shard["n"] == shard["k"]:
                ctx.case(dict(world=w, ops=list(seq), invalid={str(k): list(v) for k, v in at.items()}), one, seq, at)
        return

    if shard["part"] == "create":
        def create(ni, gi, ne, ge, nens, ncs, M):
            """sizes: interaction features, entropy groups, ensemble components, constraint features"""
            inter = flory.FloryHugginsInteraction(ni, 1.0) if gi is None else flory.FloryHugginsBlockInteraction(ni, 1.0, gi)
            entr = flory.IdealGasEntropy(ne, 1.0) if ge is None else flory.IdealGasPolydispersedEntropy(ne, None, ge)
            Nc, S = int(entr.num_comp), ne
            ens = flory.CanonicalEnsemble(nens) if (nens + ne) % 2 else flory.GrandCanonicalEnsemble(nens, 0.5)
            cons = [flory.LinearLocalConstraint(n, np.ones(n), 0.3) if i % 2 else flory.LinearGlobalConstraint(n, np.ones(n), 0.3) for i, n in enumerate(ncs)]
            feat_bad = ni != S or any(n != S for n in ncs)
            comp_bad = nens != Nc
            want = (FeatureNumberError,) * feat_bad + (ComponentNumberError,) * comp_bad
            make = lambda: flory.CoexistingPhasesFinder(inter, entr, ens, cons, num_part=M, progress=False, rng=np.random.default_rng(1))
            if want:
                raises(want, make)
            else:
                close("shape of fields", make().omegas.shape, (S, M))
            ctx.step()
            ctx.state(ni, str(gi), ne, str(ge), nens, ncs)
            ctx.outcome(str(want))
        top = 5 if ctx.thorough else 4
        for ni, ne, nens in itertools.product(range(1, top + 1), repeat=3):
            for gi, ge in ((None, None), (1, None), (None, 2), (2, 2), (2, 1)):
                for ncs in ((), (ne,), (ne + 1,), (ne, ne), (ne, 1), (2, ne)):
                    ctx.case(dict(interaction=[ni, gi], entropy=[ne, ge], ensemble=nens, constraints=list(ncs)), create, ni, gi, ne, ge, nens, ncs, 2)
        for a, b in itertools.product(range(1, 6), repeat=2):
            def fe():
                if a != b:
                    raises(ComponentNumberError, flory.FreeEnergyBase, flory.FloryHugginsInteraction(a, 1.0), flory.IdealGasEntropy(b))
                else:
                    flory.FreeEnergyBase(flory.FloryHugginsInteraction(a, 1.0), flory.IdealGasEntropy(b))
                ctx.step()
            ctx.case(dict(free_energy=[a, b]), fe)
        for n in (0, -1, -3):
            for cls, a in ((flory.CanonicalEnsemble, ()), (flory.GrandCanonicalEnsemble, (0.5,))):
                ctx.case(dict(ensemble=cls.__name__, num_comp=n), lambda: raises(ValueError, cls, n, *a))
        return

    if shard["part"] == "params":
        def wrong_vec(n):
            out = [np.ones(n + 1), np.ones(n + 2), np.ones((n, n + 1)), np.ones((2, n)), np.ones((1, 1, n + 1)), [0.5] * (n + 1), []]
            if n > 2:
                out.append(np.ones(n - 1))
            return out

        def wrong_mat(r, c):
            out = [np.ones((r + 1, c)), np.ones((r, c + 1)), np.ones((r + 1, c + 1)), np.ones(c + 1), np.ones((2, r, c)), [[1.0] * (c + 1)] * r, []]
            if r > 2:
                out.append(np.ones((r - 1, c)))
            return out
        for n in range(1, 5):
            g = [1 + i % 2 for i in range(n)]
            N = sum(g)
            K = 2
            specs = [
                ("interaction", lambda: flory.FloryHugginsInteraction(n, 1.5), observe.inter, {"chis": (wrong_mat(n, n), [2.0, np.arange(float(n * n)).reshape(n, n)])}),
                ("free energy", lambda: flory.FloryHuggins(n, 1.5, 2.0), observe.fe, {"chis": (wrong_mat(n, n), [2.0]), "sizes": (wrong_vec(n), [3.0, np.arange(1.0, n + 1)])}),
                ("block", lambda: flory.FloryHugginsBlockInteraction(n, 1.5, g), observe.block, {"chis_feat": (wrong_mat(n, n), [2.0, np.arange(float(n * n)).reshape(n, n)])}),
                ("entropy", lambda: flory.IdealGasEntropy(n, 2.0), observe.entropy, {"sizes": (wrong_vec(n), [3.0, np.arange(1.0, n + 1)])}),
                ("poly", lambda: flory.IdealGasPolydispersedEntropy(n, 2.0, g), observe.entropy, {"sizes": (wrong_vec(N), [3.0, np.arange(1.0, N + 1)])}),
                ("can", lambda: flory.CanonicalEnsemble(n), observe.can, {"phi_means": (wrong_vec(n), [0.5, np.arange(1.0, n + 1)])}),
                ("gc", lambda: flory.GrandCanonicalEnsemble(n, 0.5), observe.gc, {"scaled_activity": (wrong_vec(n), [0.7, np.arange(1.0, n + 1)])}),
                ("local", lambda: flory.LinearLocalConstraint(n, np.ones((K, n)), 0.5), observe.cons, {"Cs": (wrong_mat(K, n), [2.0]), "Ts": (wrong_vec(K), [0.3, [0.1, 0.2]])}),
                ("global", lambda: flory.LinearGlobalConstraint(n, np.ones((K, n)), 0.5), observe.cons, {"Cs": (wrong_mat(K, n), [2.0]), "Ts": (wrong_vec(K), [0.3, [0.1, 0.2]])}),
            ]
            for name, make, obs, attrs in specs:
                good = [(a, v) for a, (_, vs) in attrs.items() for v in vs]
                badl = [(a, v) for a, (b, _) in attrs.items() for v in b]

                def one(seq, attr, value, pos):
                    o, twin = make(), make()
                    for i in range(len(seq) + 1):
                        if i == pos:
                            c = o.compiled() if hasattr(o, "compiled") else None
                            raises(ValueError, setattr, o, attr, value)
                            for k, (x, y) in enumerate(zip(obs(o), obs(twin))):
                                close(f"after rejection [{k}]", x, y, 0, 0)
                        if i < len(seq):
                            setattr(o, *seq[i])
                            setattr(twin, *seq[i])
                        ctx.step()
                    for k, (x, y) in enumerate(zip(obs(o), obs(twin))):
                        close(f"at the end [{k}]", x, y, 0, 0)
                    ctx.state(name, n, str(seq), attr, np.shape(value))
                    ctx.outcome(*obs(o))
                for L in (0, 1, 2):
                    for seq in itertools.product(range(len(good)), repeat=L):
                        for k, (a, v) in enumerate(badl):
                            if L == 2 and k > 2 and not ctx.thorough:
                                continue
                            for pos in range(L + 1):
                                ctx.case(dict(cls=name, n=n, seq=list(seq), invalid=[a, str(np.shape(v))], position=pos), one, [good[s] for s in seq], a, v, pos)
                # the same values are rejected by the constructor
            ctors = {"interaction": (flory.FloryHugginsInteraction, wrong_mat(n, n), ()), "free energy": (flory.FloryHuggins, wrong_mat(n, n), ()),
                     "block": (flory.FloryHugginsBlockInteraction, wrong_mat(n, n), (g,)), "entropy": (flory.IdealGasEntropy, wrong_vec(n), ()),
                     "poly": (flory.IdealGasPolydispersedEntropy, wrong_vec(N), (g,)), "can": (flory.CanonicalEnsemble, wrong_vec(n), ()),
                     "gc": (flory.GrandCanonicalEnsemble, wrong_vec(n), ()), "mu": (flory.GrandCanonicalEnsemble.from_chemical_potential, wrong_vec(n), ()),
                     "local": (flory.LinearLocalConstraint, [np.ones((2, n + 1)), np.ones(n + 1), np.ones((2, 2, n)), np.ones((1, 1, n)), np.ones((2, n + 3))], (0.5,)),
                     "global": (flory.LinearGlobalConstraint, [np.ones((2, n + 1)), np.ones(n + 1), np.ones((2, 2, n)), np.ones((1, 1, n)), np.ones((2, n + 3))], (0.5,))}
            for nm, (cls, vals, rest) in ctors.items():
                for v in vals:
                    ctx.case(dict(constructor=nm, n=n, shape=str(np.shape(v))), lambda: (raises(ValueError, cls, n, v, *rest), ctx.step()))
            for cls in (flory.LinearLocalConstraint, flory.LinearGlobalConstraint):
                for v in wrong_vec(2):
                    ctx.case(dict(constructor=cls.__name__, n=n, Ts=str(np.shape(v))), lambda: (raises(ValueError, cls, n, np.ones((2, n)), v), ctx.step()))
            for v in wrong_vec(n):
                ctx.case(dict(constructor="mu sizes", n=n, shape=str(np.shape(v))), lambda: (raises(ValueError, flory.GrandCanonicalEnsemble.from_chemical_potential, n, np.zeros(n), v), ctx.step()))
                ctx.case(dict(constructor="free energy sizes", n=n, shape=str(np.shape(v))), lambda: (raises(ValueError, flory.FloryHuggins, n, 1.0, v), ctx.step()))
                ctx.case(dict(constructor="groups", n=n, shape=str(np.shape(v))), lambda: (raises(ValueError, flory.FloryHugginsBlockInteraction, n, 1.0, np.asarray(v, int)), ctx.step()))
        return

    # collections of phases
    for a, b, c in itertools.product(range(0, 4), repeat=3):
        for vs, fs in [((a,), (b, c)), ((a, 1), (b, c)), ((a,), (b,)), ((a,), (b, c, 1)), ((), (b, c)), ((a,), ())]:
            def ph():
                ok = len(vs) == 1 and len(fs) == 2 and vs[0] == fs[0]
                for cls in (flory.Phases, flory.common.PhasesResult):
                    if ok:
                        p = cls(np.ones(vs), np.ones(fs))
                        close("volumes", p.volumes, np.ones(vs))
                    else:
                        raises(ValueError, cls, np.ones(vs), np.ones(fs))
                    ctx.step()
                ctx.state(vs, fs)
            ctx.case(dict(volumes=list(vs), fractions=list(fs)), ph)
