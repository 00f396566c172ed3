"""C02: updating a parameter object is equivalent to building it anew."""
import itertools

import numpy as np

LEVEL = "model_checking"
FAST_COMPILE = True
RULE = ("all sequences up to the depth over the setters and set methods of every parameter class, interleaved "
        "with compiling and evaluating; after every operation the object is compared with one freshly built from "
        "the parameters the reference model holds, and everything compiled earlier with what it was when compiled")
BOUNDS = {"quick": "depth 3 over 10-14 operations for 1-3 components", "thorough": "depth 4"}
ASSUMPTIONS = ["fixed numeric alphabet for the parameters"]


def shards(tier):
    s = [dict(cls=c, n=n) for c in ("inter", "fe") for n in (1, 2, 3, 4)]
    s += [dict(cls=c, n=n) for c in ("block", "entropy", "poly", "can", "gc", "local", "global") for n in (1, 2, 3)]
    return s


def explore(ctx, shard):
    import flory
    from mc.core import close, raises, require, same

    n, kind = shard["n"], shard["cls"]
    depth = 4 if ctx.thorough else 3

    # ---- alphabets ------------------------------------------------------------
    A = np.array([[0.5 * ((i + 1) * (j + 1) % 5) - 0.7 for j in range(n)] for i in range(n)])
    B = np.array([[(2 * i + 3 * j) % 4 for j in range(n)] for i in range(n)])  # asymmetric integers
    phi = 0.1 + 0.8 * np.abs(np.sin(1.0 + np.arange(2)[:, None] + 1.3 * np.arange(8)))

    def sym(x):
        x = np.broadcast_to(np.asarray(x, float), (n, n))
        return 0.5 * (x + x.T)

    def uniform(c, diag):
        x = np.full((n, n), float(c))
        if diag:
            np.fill_diagonal(x, 0.0)
        return x

    def rand(seed, mean, std, diag):
        """what a fresh object gets from the same generator"""
        return flory.FloryHugginsInteraction.from_random_normal(n, mean, std, vanishing_diagonal=diag, rng=np.random.default_rng(seed)).chis.copy()

    # ---- compiled behaviour ------------------------------------------------------
    def comp_inter(c, S):
        X = phi[:, :1].repeat(3, 1)[:1].repeat(S, 0) * (1 + np.arange(S)[:, None]) * np.array([0.3, 0.5, 0.9])
        pot = c.potential(X)
        return [np.array(c.num_feat), pot, c.volume_derivative(pot, X), np.asarray(c.incomp_coef(X))]

    def comp_entropy(c, N, S):
        w = np.sin(np.arange(S)[:, None] + np.arange(3) * 0.7)
        J = np.array([0.5, 1.0, 1.5])
        p = np.zeros((N, 3))
        Q = c.partition(p, w, J)
        pf = np.zeros((S, 3))
        c.comp_to_feat(pf, p)
        return [np.array(c.num_comp), np.array(c.num_feat), Q, p, pf, c.volume_derivative(p)]

    def comp_ens(c, N):
        p = np.abs(np.cos(np.arange(N)[:, None] * 0.8 + np.arange(3))) + 0.1
        inc = c.normalize(p, 0.5 + 0.1 * np.arange(N), np.array([1.0, 0.0, 1.0]))
        return [np.array(c.num_comp), p, inc]

    def comp_cons(c, S):
        """stateful: behaviour from a fresh start"""
        out = []
        c.initialize(3)
        J, m = np.array([0.5, 1.0, 1.5]), np.ones(3)
        for k in range(2):
            X = np.abs(np.sin(np.arange(S)[:, None] + np.arange(3) * 0.7 + k))
            c.prepare(X, J, m)
            out += [c.potential.copy(), c.volume_derivative.copy(), np.asarray(c.evolve(0.4, m))]
        return out

    def compare(tag, got, want):
        require(len(got) == len(want), tag)
        for i, (g, w) in enumerate(zip(got, want)):
            close(f"{tag} [{i}]", g, w, 1e-10, 1e-12)

    # ---- per class: start, ops, fresh, observe ------------------------------------------
    if kind in ("inter", "fe"):
        def make():
            chis, sizes = A.copy(), np.arange(1, n + 1)
            obj = flory.FloryHugginsInteraction(n, chis) if kind == "inter" else flory.FloryHuggins(n, chis, sizes)
            return obj, dict(chis=sym(A), sizes=np.arange(1.0, n + 1))

        def inter(o):
            return o if kind == "inter" else o.interaction

        def setc(v):
            def op(o, m):
                arg = v.copy() if isinstance(v, np.ndarray) else v
                o.chis = arg
                m["chis"] = sym(v)
                if isinstance(arg, np.ndarray):
                    arg[...] = 77  # the caller keeps using its array
            return op

        def uni(c, dg):
            def op(o, m):
                inter(o).set_uniform_chis(c, vanishing_diagonal=dg)
                m["chis"] = uniform(c, dg)
            return op

        def rnd(seed, mean, std, dg):
            def op(o, m):
                inter(o).set_random_chis(mean, std, vanishing_diagonal=dg, rng=np.random.default_rng(seed))
                m["chis"] = rand(seed, mean, std, dg)
            return op

        def edit(o, m):  # the pattern used in the docs: read, edit, assign
            x = o.chis.copy()
            x[0, n - 1] += 0.5
            o.chis = x
            y = m["chis"].copy()
            y[0, n - 1] += 0.5
            m["chis"] = 0.5 * (y + y.T)

        ops = {"chis=A": setc(A), "chis=B": setc(B), "chis=2": setc(2), "chis=-1.5": setc(-1.5), "uni3": uni(3, True),
               "uni-0.5full": uni(-0.5, False), "uni4full": uni(4, False), "rnd": rnd(3, 0.5, 2.0, True), "rndfull": rnd(4, -1, 0.5, False), "edit": edit}
        if n > 1:
            ops["chis=A.T order F"] = setc(np.asfortranarray(A * 1.5))
        if kind == "fe":
            def sets(v):
                def op(o, m):
                    arg = np.array(v) if np.ndim(v) else v
                    o.sizes = arg
                    m["sizes"] = np.broadcast_to(np.asarray(v, float), (n,)).copy()
                    if np.ndim(v):
                        arg[...] = 55
                return op
            ops["sizes=2"] = sets(2)
            ops["sizes=ints"] = sets(list(range(2, n + 2)))
            ops["sizes=floats"] = sets([0.5 + 0.3 * i for i in range(n)])

        def fresh(m):
            return flory.FloryHugginsInteraction(n, m["chis"].copy()) if kind == "inter" else flory.FloryHuggins(n, m["chis"].copy(), m["sizes"].copy())

        def observe(o, m):
            x = phi[:, :n]
            i = inter(o)
            close("chis", o.chis, m["chis"], 1e-12, 1e-14)
            close("chis symmetric", o.chis, np.asarray(o.chis).T, 0, 0)
            close("independent entries", i.independent_entries, m["chis"][np.triu_indices(n)], 1e-12, 1e-14)
            fr = fresh(m)
            fe = o if kind == "fe" else flory.FreeEnergyBase(o, flory.IdealGasEntropy(n))
            fe2 = fr if kind == "fe" else flory.FreeEnergyBase(fr, flory.IdealGasEntropy(n))
            close("energy", fe.free_energy_density(x), fe2.free_energy_density(x), 1e-12)
            close("jacobian", fe.jacobian(x), fe2.jacobian(x), 1e-12)
            close("hessian", fe.hessian(x), fe2.hessian(x), 1e-12)
            if kind == "fe":
                close("sizes", o.sizes, m["sizes"], 0, 0)

        def compiled(o, m):
            c = [(inter(o).compiled(), comp_inter, (n,), comp_inter(inter(fresh(m)).compiled(), n)),
                 (inter(o).compiled(additional_chis_shift=2.5), comp_inter, (n,), comp_inter(inter(fresh(m)).compiled(additional_chis_shift=2.5), n))]
            if kind == "fe":
                c.append((o.entropy_compiled(), comp_entropy, (n, n), comp_entropy(fresh(m).entropy.compiled(), n, n)))
                c.append((o.interaction_compiled(), comp_inter, (n,), comp_inter(fresh(m).interaction.compiled(), n)))
            return c

    elif kind == "block":
        groups = [1, 2, 1][:n] if n > 1 else [2]
        N = sum(groups)
        feat = np.repeat(np.arange(n), groups)

        def make():
            return flory.FloryHugginsBlockInteraction(n, A.copy(), groups), dict(chis=sym(A))

        def setc(v):
            def op(o, m):
                arg = v.copy() if isinstance(v, np.ndarray) else v
                o.chis_feat = arg
                m["chis"] = sym(v)
                if isinstance(arg, np.ndarray):
                    arg[...] = 77
            return op
        ops = {"A": setc(A), "B": setc(B), "2": setc(2), "-1.5": setc(-1.5), "2A": setc(2 * A), "0": setc(0)}

        def fresh(m):
            return flory.FloryHugginsBlockInteraction(n, m["chis"].copy(), groups)

        def observe(o, m):
            close("chis_feat", o.chis_feat, m["chis"], 1e-12, 1e-14)
            close("chis", o.chis, m["chis"][np.ix_(feat, feat)], 1e-12, 1e-14)
            close("groups", o.num_comp_per_feat, groups)
            x = phi[:, :N]
            e, e2 = flory.IdealGasPolydispersedEntropy(n, None, groups), None
            f1, f2 = flory.FreeEnergyBase(o, e), flory.FreeEnergyBase(fresh(m), e)
            for name in ("free_energy_density", "jacobian", "hessian"):
                close(name, getattr(f1, name)(x), getattr(f2, name)(x), 1e-12)

        def compiled(o, m):
            return [(o.compiled(), comp_inter, (n,), comp_inter(fresh(m).compiled(), n)),
                    (o.compiled(additional_chis_shift=0.3), comp_inter, (n,), comp_inter(fresh(m).compiled(additional_chis_shift=0.3), n))]

    elif kind in ("entropy", "poly"):
        groups = [1] * n if kind == "entropy" else ([2, 1, 2][:n])
        N = sum(groups)

        def new(s):
            if kind == "entropy":
                return flory.IdealGasEntropy(n, s)
            return flory.IdealGasPolydispersedEntropy(n, s, groups)

        def make():
            return new(None), dict(sizes=np.ones(N))

        def sets(v):
            def op(o, m):
                arg = np.array(v) if np.ndim(v) else v
                o.sizes = arg
                m["sizes"] = np.broadcast_to(np.asarray(v, float), (N,)).copy()
                if np.ndim(v):
                    arg[...] = 55
            return op

        def inplace(o, m):
            s = np.array(o.sizes, float)
            s[0] += 0.5
            o.sizes = s
            m["sizes"] = m["sizes"].copy()
            m["sizes"][0] += 0.5
        ops = {"2": sets(2), "0.5": sets(0.5), "ints": sets(list(range(2, N + 2))), "floats": sets([0.5 + 0.3 * i for i in range(N)]),
               "rev": sets([3.0 - 0.3 * i for i in range(N)]), "one": sets([1.5]), "edit": inplace}

        def fresh(m):
            return new(m["sizes"].copy())

        def observe(o, m):
            close("sizes", o.sizes, m["sizes"], 0, 0)
            x = phi[:, :N]
            z = flory.FloryHugginsInteraction(N, 0.0)
            f1, f2 = flory.FreeEnergyBase(z, o), flory.FreeEnergyBase(z, fresh(m))
            for name in ("free_energy_density", "jacobian", "hessian", "chemical_potentials"):
                close(name, getattr(f1, name)(x), getattr(f2, name)(x), 1e-12)

        def compiled(o, m):
            return [(o.compiled(), comp_entropy, (N, n), comp_entropy(fresh(m).compiled(), N, n))]

    elif kind in ("can", "gc"):
        attr = "phi_means" if kind == "can" else "scaled_activity"

        def new(v):
            return flory.CanonicalEnsemble(n, v) if kind == "can" else flory.GrandCanonicalEnsemble(n, v)

        def make():
            if kind == "can":
                return new(None), dict(v=np.full(n, 1 / n))
            return new(2), dict(v=np.full(n, 2.0))

        def setv(v):
            def op(o, m):
                arg = np.array(v) if np.ndim(v) else v
                setattr(o, attr, arg)
                m["v"] = np.broadcast_to(np.asarray(v, float), (n,)).copy()
                if np.ndim(v):
                    arg[...] = 55
            return op
        w = np.arange(1.0, n + 1)
        ops = {"w": setv((w / w.sum()).tolist()), "rev": setv((w[::-1] / w.sum()).tolist()), "scalar": setv(1 / n), "int": setv(1),
               "unit": setv([1] + [0] * (n - 1)), "one": setv([0.25]), "big": setv((2 * w).tolist())}

        def fresh(m):
            return new(m["v"].copy())

        def observe(o, m):
            close(attr, getattr(o, attr), m["v"], 0, 0)
            require(o.num_comp == n, "number of components")

        def compiled(o, m):
            return [(o.compiled(), comp_ens, (n,), comp_ens(fresh(m).compiled(), n))]

    else:
        cls = flory.LinearLocalConstraint if kind == "local" else flory.LinearGlobalConstraint
        K = 2

        def make():
            return cls(n, np.array([[1.0 + i for i in range(n)], [0.5 * i for i in range(n)]]), [0.1, 0.2]), dict(
                C=np.array([[1.0 + i for i in range(n)], [0.5 * i for i in range(n)]]), T=np.array([0.1, 0.2]))

        def setC(v):
            def op(o, m):
                arg = np.array(v) if np.ndim(v) else v
                o.Cs = arg
                m["C"] = np.broadcast_to(np.asarray(v, float), (K, n)).copy()
                if np.ndim(v):
                    arg[...] = 55
            return op

        def setT(v):
            def op(o, m):
                arg = np.array(v) if np.ndim(v) else v
                o.Ts = arg
                m["T"] = np.broadcast_to(np.asarray(v, float), (K,)).copy()
                if np.ndim(v):
                    arg[...] = 55
            return op
        ops = {"C1": setC([[1.0 - i for i in range(n)], [2.0] * n]), "Cint": setC([[i for i in range(n)], [1] * n]), "Crow": setC([0.5 + i for i in range(n)]),
               "Cscalar": setC(2), "T1": setT([0.3, -0.4]), "Tint": setT([1, 0]), "Tscalar": setT(0.7), "T2": setT(2)}

        def fresh(m):
            return cls(n, m["C"].copy(), m["T"].copy())

        def observe(o, m):
            close("Cs", o.Cs, m["C"], 0, 0)
            close("Ts", o.Ts, m["T"], 0, 0)
            require(o.num_cons == K and o.num_feat == n, "sizes")

        def compiled(o, m):
            kw = dict(constraint_elasticity=0.4, constraint_acceptance_ratio=3.0)
            return [(o.compiled(), comp_cons, (n,), comp_cons(fresh(m).compiled(), n)),
                    (o.compiled(**kw), comp_cons, (n,), comp_cons(fresh(m).compiled(**kw), n))]

    # ---- exploration ----------------------------------------------------------------
    def one(seq, compile_at):
        obj, model = make()
        old = []
        observe(obj, model)
        for i, name in enumerate(seq):
            if compile_at & (1 << i):
                old += compiled(obj, model)
                ctx.step()
            ops[name](obj, model)
            observe(obj, model)
            ctx.step()
            ctx.state(kind, n, seq[: i + 1], *[v for v in model.values()])
        for c, f, a, want in compiled(obj, model):
            compare("compiled object", f(c, *a), want)
        for c, f, a, want in old:
            compare("object compiled earlier", f(c, *a), want)
        ctx.outcome(kind, n, *[v for v in model.values()])

    names = list(ops)
    for L in range(0, depth + 1):
        for seq in itertools.product(names, repeat=L):
            masks = (0, (1 << L) - 1) if L < 3 else (1 << (L - 1),)
            for cm in sorted(set(masks)):
                ctx.case(dict(cls=kind, n=n, seq=list(seq), compiled_before=cm), one, seq, cm)
