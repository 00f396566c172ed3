"""C19: random initial data are valid for every stream of random numbers."""
import itertools

import numpy as np

LEVEL = "model_checking"
RULE = ("the generator's raw 64-bit words are decided by the explorer: all streams with up to two (three) words from an alphabet of extreme and "
        "ordinary words at every position, the rest ordinary; for every size, mean, standard deviation and diagonal option; each word is also "
        "changed alone to see which entries depend on it; averages over the whole grid of quantiles of all draws give the documented distributions")
BOUNDS = {"quick": "1-5 components, 13 words, up to 2 special words at the first 8 positions; compositions of 1-6 components with 4 special words; fields of 1-3 features x 1-4 compartments",
          "thorough": "up to 3 special words, 1-7 components"}
ASSUMPTIONS = ["streams are finite prefixes over the alphabet followed by ordinary words"]

TOP = 2**64 - 1
WORDS = [0, TOP, 1, 2**63, 2**63 - 1, 0x0123456789ABCDEF, 0xFF, 0x1FF, 0xFFFFFFFFFFFFF0FF, 0x8000000000000100, 0x7FFFFFFFFFFFF800, TOP - 0xFF, TOP - 0x1FF]


def plain(n, salt=0):
    """ordinary, accepted-at-once words, all different"""
    return [((((0x9E3779B97F4A7C15 * (i + 3 + 101 * salt)) ^ 0x5851F42D4C957F2D) & TOP) % 2**51) << 9 | ((7 * i + salt) % 2) << 8 | ((11 * i + 5 + salt) % 120 + 20) for i in range(n)]


def shards(tier):
    n = 7 if tier == "thorough" else 5
    return [dict(part="chi", n=k) for k in range(1, n + 1)] + [dict(part="comp", n=k) for k in range(1, n + 2)] + [dict(part="field", S=s) for s in (1, 2, 3)] + [dict(part="state"), dict(part="quantiles")]


def explore(ctx, shard):
    import random

    import flory
    from flory.common.phases import get_uniform_random_composition as composition
    from mc.core import close, raises, require
    from mc.rng import Script, scripted

    if shard["part"] == "quantiles":
        return quantiles(ctx, composition)

    script = Script()
    rng = scripted(script)

    def guarded(func):
        """run; the global generators must not move"""
        st, st2 = np.random.get_state(), random.getstate()
        out = func()
        now = np.random.get_state()
        require(now[2] == st[2] and np.array_equal(now[1], st[1]) and random.getstate() == st2, "a global random number generator was used")
        return out

    def streams(length, special):
        base = plain(length + 40)
        yield base
        for r in range(1, special + 1):
            for pos in itertools.combinations(range(length), r):
                for ws in itertools.product(WORDS, repeat=r):
                    s = list(base)
                    for p, w in zip(pos, ws):
                        s[p] = w
                    yield s

    if shard["part"] == "chi":
        n = shard["n"]
        special = 3 if ctx.thorough else 2

        def makers():
            def fresh(mean, std, dg):
                return flory.FloryHugginsInteraction.from_random_normal(n, mean, std, vanishing_diagonal=dg, rng=rng).chis

            def fe(mean, std, dg):
                o = flory.FloryHuggins.from_random_normal(n, mean, std, vanishing_diagonal=dg, rng=rng, sizes=2.0)
                require(np.all(np.asarray(o.sizes) == 2.0), "sizes")
                return o.chis

            def reset(mean, std, dg):
                o = flory.FloryHugginsInteraction(n, np.full((n, n), 3.25))
                o.set_random_chis(mean, std, vanishing_diagonal=dg, rng=rng)
                return o.chis

            def uni(mean, std, dg):
                o = flory.FloryHugginsInteraction.from_uniform(n, 2, vanishing_diagonal=not dg)
                o.set_random_chis(mean, std, vanishing_diagonal=dg, rng=rng)
                return o.chis
            return dict(fresh=fresh, fe=fe, reset=reset, uniform=uni)
        MK = makers()

        def draw(stream, mk, mean, std, dg):
            script.reset(stream, [0.4987, 0.31, 0.77])
            c = guarded(lambda: np.array(MK[mk](mean, std, dg)))
            require(c.shape == (n, n), "shape")
            require(np.isfinite(c).all(), "entries")
            require(np.array_equal(c, c.T), lambda: f"not symmetric: {c}")
            if dg:
                require(np.all(np.diag(c) == 0), lambda: f"diagonal does not vanish: {c}")
            return c

        free = {True: [(i, j) for i in range(n) for j in range(i + 1, n)], False: [(i, j) for i in range(n) for j in range(i, n)]}

        def one(stream, dg):
            z = draw(stream, "fresh", 0, 1, dg)
            m = np.zeros((n, n), bool)
            for i, j in free[dg]:
                m[i, j] = m[j, i] = True
            for mk, mean, std in (("fresh", 0.5, 2.0), ("fe", -3, 0.25), ("reset", 1.5, 1), ("uniform", 0, 0), ("reset", 2, 0), ("fresh", 4.0, -1.0 if False else 3.0)):
                c = draw(stream, mk, mean, std, dg)
                close(f"{mk} with mean {mean} and deviation {std}", c, np.where(m, mean + std * z, 0.0), 1e-12, 1e-13)
                ctx.step()
            ctx.state(n, dg, z)
            ctx.outcome(z)

        def own(dg):
            """every independent entry follows a word of its own"""
            base = plain(80)
            z = draw(base, "fresh", 0, 1, dg)
            vals = [z[i, j] for i, j in free[dg]]
            require(len(set(vals)) == len(vals), lambda: f"entries share a random number: {z}")
            require(all(v != 0 for v in vals), lambda: f"entry not drawn: {z}")
            moved = set()
            for k in range(n * n + 2):
                s = list(base)
                s[k] = plain(80, salt=5)[k]
                z2 = draw(s, "fresh", 0, 1, dg)
                ch = [(i, j) for i, j in free[dg] if z2[i, j] != z[i, j]]
                require(len(ch) <= 1, lambda: f"random number {k} decides several entries {ch}")
                moved.update(ch)
                ctx.step()
            require(moved == set(free[dg]), lambda: f"entries {set(free[dg]) - moved} do not follow the generator")
            # default arguments: vanishing diagonal, mean 0, deviation 1
            script.reset(base, [0.4987])
            close("defaults", flory.FloryHugginsInteraction.from_random_normal(n, rng=rng).chis, draw(base, "fresh", 0, 1, True), 0, 0)
            script.reset(base, [0.4987])
            o = flory.FloryHugginsInteraction(n, 7.0)
            o.set_random_chis(rng=rng)
            close("defaults", o.chis, draw(base, "fresh", 0, 1, True), 0, 0)
            script.reset(base, [0.4987])
            close("defaults", flory.FloryHuggins.from_random_normal(n, rng=rng).chis, draw(base, "fresh", 0, 1, True), 0, 0)

        for dg in (True, False):
            ctx.case(dict(n=n, vanishing=dg, what="own number per entry"), own, dg)
            L = max(1, min(8 if special == 2 else 6, len(free[dg])))
            for s in streams(L, min(special, L)):
                ctx.case(dict(n=n, vanishing=dg, stream=[hex(x) for x in s[:L]]), one, s, dg)
        return

    if shard["part"] == "comp":
        n = shard["n"]

        def one(stream, tail):
            script.reset(stream, tail)
            p = guarded(lambda: composition(n, rng))
            require(p.shape == (n,), "shape")
            require(np.all(p >= 0) and np.all(p <= 1), lambda: f"fractions {p}")
            close("sum", p.sum(), 1.0, 1e-12)
            script.reset(stream, tail)
            close("equal generator states", composition(n, rng), p, 0, 0)
            ctx.step()
            ctx.state(n, p)
            ctx.outcome(p)
        L = 6
        sp = 3 if ctx.thorough else (4 if n <= 3 else 2)
        for tail in ([0.4987, 0.21, 0.77], [0.001, 0.999]):
            if sp == 4:
                for ws in itertools.product(WORDS, repeat=4):
                    ctx.case(dict(n=n, words=[hex(x) for x in ws], tail=tail), one, list(ws), tail)
            for s in streams(L, min(sp, 3)):
                ctx.case(dict(n=n, stream=[hex(x) for x in s[:L]], tail=tail), one, s, tail)
        # seeds and None are accepted
        for seed in range(200):
            def seeds():
                a, b = composition(n, seed), composition(n, np.random.default_rng(seed))
                close("seed or generator", a, b, 0, 0)
                require(np.all(a >= 0) and abs(a.sum() - 1) < 1e-12, lambda: f"fractions {a}")
                ctx.step()
            ctx.case(dict(n=n, seed=seed), seeds)
        return

    if shard["part"] == "field":
        S = shard["S"]

        def finder(std, M, g):
            kw = {} if std is None else dict(random_std=std)
            return flory.CoexistingPhasesFinder(flory.FloryHugginsBlockInteraction(S, 1.0, g), flory.IdealGasPolydispersedEntropy(S, None, g), flory.CanonicalEnsemble(S * g),
                                                num_part=M, rng=rng, progress=False, **kw)

        def one(stream, M, g):
            outs = {}
            for std in (1.0, 2.5, 0.0, None, 4):
                script.reset(stream, [0.4987, 0.31, 0.77])
                f = guarded(lambda: finder(std, M, g))
                first = f.omegas.copy()
                used = script.n
                guarded(f.reinitialize_random)
                outs[std] = (first, f.omegas.copy())
                require(first.shape == (S, M) and f.omegas.shape == (S, M), "shape")
                require(np.isfinite(first).all(), "entries")
                if std is None or std > 0:
                    require(used >= S * M, "fields do not follow the generator")
                ctx.step(2)
            for std in (2.5, 0.0, None, 4):
                s = 5.0 if std is None else std
                for k in (0, 1):
                    close(f"fields for amplitude {s}", outs[std][k], s * outs[1.0][k], 1e-12, 1e-13)
            ctx.state(S, M, outs[1.0][0])
            ctx.outcome(*outs[1.0])

        def own(M, g):
            base = plain(3 * S * M + 60)
            script.reset(base, [0.4987])
            z = finder(1.0, M, g).omegas.copy()
            require(len(set(z.flat)) == z.size, "fields share random numbers")
            moved = np.zeros(z.shape, bool)
            for k in range(S * M + 2):
                s = list(base)
                s[k] = plain(3 * S * M + 60, salt=5)[k]
                script.reset(s, [0.4987])
                ch = finder(1.0, M, g).omegas != z
                require(ch.sum() <= 1, lambda: f"random number {k} decides several fields")
                moved |= ch
                ctx.step()
            require(moved.all(), "fields that do not follow the generator")

        for g in (1, 2):
            for M in (1, 2, 3, 4):
                ctx.case(dict(S=S, M=M, comps=g, what="own number per field"), own, M, g)
                for s in streams(min(4, S * M), 2 if (S * M <= 4 or ctx.thorough) else 1):
                    ctx.case(dict(S=S, M=M, comps=g, stream=[hex(x) for x in s[:4]]), one, s, M, g)
        return

    # ---- equal generator states of ordinary generators --------------------------------
    def equal(seed, n):
        g = [np.random.default_rng(seed) for _ in range(2)]
        outs = []
        for r in g:
            o = [flory.FloryHugginsInteraction.from_random_normal(n, 1.0, 2.0, rng=r).chis.copy(), flory.FloryHuggins.from_random_normal(n, 1.0, 2.0, vanishing_diagonal=False, rng=r).chis.copy(),
                 composition(n, r)]
            f = flory.CoexistingPhasesFinder(flory.FloryHugginsInteraction(n, 1.0), flory.IdealGasEntropy(n), flory.CanonicalEnsemble(n), num_part=3, rng=r, progress=False)
            o.append(f.omegas.copy())
            f.reinitialize_random()
            o.append(f.omegas.copy())
            require(not np.array_equal(o[-1], o[-2]), "reinitialized to the same fields")
            outs.append(o)
            np.random.seed(seed + 5)
            random.seed(seed + 5)
        for k, (x, y) in enumerate(zip(*outs)):
            close(f"datum {k}", x, y, 0, 0)
        close("generator afterwards", g[0].random(3), g[1].random(3), 0, 0)
        ctx.step(5)
        ctx.state(seed, n)
        ctx.outcome(*outs[0])
    for seed in range(60):
        for n in (1, 2, 3, 5):
            ctx.case(dict(seed=seed, n=n), equal, seed, n)


def quantiles(ctx, composition):
    """averages over a grid of all quantiles the generator can return: the distribution is the documented one"""
    import flory
    from mc.core import Skip, close
    from mc.quantile import Quantiles

    def average(func):
        """mean of func over the whole grid of quantiles"""
        q = Quantiles()
        func(q)
        k = q.used
        if q.foreign() or k == 0:
            raise Skip
        K = max(2, int(8000 ** (1 / k))) if k > 1 else 2001
        if k > 6:
            raise Skip
        K = min(K, 2001)
        grid = (np.arange(K) + 0.5) / K
        tot, n = None, 0
        for us in itertools.product(grid, repeat=k):
            q.load(us)
            x = func(q)
            tot = x if tot is None else tot + x
            n += 1
        if q.foreign():
            raise Skip
        ctx.step(n)
        ctx.state(n, k, np.asarray(tot))
        return tot / n, K

    def simplex(n):
        def moments(q):
            x = composition(n, q)
            return np.concatenate([x, np.outer(x, x).ravel()])
        m, K = average(moments)
        tol = 0.003 if K > 60 else (0.01 if K > 20 else 0.025)
        close("mean of the random compositions", m[:n], np.full(n, 1 / n), 0, tol)
        second = (np.ones((n, n)) + np.eye(n)) / (n * (n + 1))
        close("second moments of the random compositions", m[n:], second.ravel(), 0, tol)

    def chi(n, dg, mean, std, how):
        def moments(q):
            if how == "interaction":
                c = flory.FloryHugginsInteraction.from_random_normal(n, mean, std, vanishing_diagonal=dg, rng=q).chis
            else:
                c = flory.FloryHuggins.from_random_normal(n, mean, std, vanishing_diagonal=dg, rng=q).chis
            z = (np.array(c) - mean) / std
            off = z[np.triu_indices(n, 1 if dg else 0)]
            return np.concatenate([off, off**2])
        m, K = average(moments)
        k = len(m) // 2
        tol = 0.02 if K > 60 else (0.06 if K > 20 else 0.2)
        close("mean of the interactions", m[:k], np.zeros(k), 0, tol)
        close("variance of the interactions", m[k:], np.ones(k), 0, tol)

    for n in (2, 3, 4):
        ctx.case(dict(part="quantiles", composition=n), simplex, n)
    for n, dg in ((1, False), (2, True), (2, False), (3, True)):
        for mean, std in ((0.0, 1.0), (2.0, 0.5), (-1.0, 3.0)):
            for how in ("interaction", "free energy"):
                ctx.case(dict(part="quantiles", chi=n, diag=dg, mean=mean, std=std, how=how), chi, n, dg, mean, std, how)
