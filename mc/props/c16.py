"""C16: phase post-processing conserves material and is order independent."""
import itertools
import math

import numpy as np

LEVEL = "model_checking"
RULE = ("all collections built from up to 4 well separated phases with small displacements (all multiplicities, volumes from an alphabet, "
        "all or cyclic orders of the input, several cut-offs) and all chains of get_clusters, sort and normalize up to the depth, "
        "for both kinds of collections; the model groups, adds and averages by exact summation")
BOUNDS = {"quick": "1-4 components, 1-4 phases, up to 7 compartments with all permutations up to 5 (cyclic and reversed beyond), 40 compartments, pairs at distances around the cut-off in all directions with volumes over 15 orders of magnitude, chains of length <= 3",
          "thorough": "all permutations up to 6 compartments, chains of length <= 4"}
ASSUMPTIONS = ["with three or more compartments, phases of a group are closer than 0.9 of the cut-off and groups are separated by more than 10 times the cut-off (pairs: everything that is not within 0.1 % of the cut-off)"]


def shards(tier):
    return [dict(n=n, part=p, k=k, of=n) for n in (4, 3, 2, 1) for p in ("groups", "chains") for k in range(n)]


def bases(n):
    """well separated compositions"""
    if n == 1:
        return [[(1.0,)]]
    pts = []
    for k in range(n):
        pts.append(tuple(0.85 if i == k else 0.15 / (n - 1) for i in range(n)))
    mid = tuple(0.45 + 0.1 * (i == 0) if i < 2 else 0.0 for i in range(n)) if n > 1 else (1.0,)
    mid = tuple(x / sum(mid) for x in mid)
    tail = tuple((i + 1) * 2 / (n * (n + 1)) for i in range(n))
    allp = pts + [mid, tail]
    out = []
    for r in (1, 2, 3, 4):
        for c in itertools.combinations(allp, r):
            if all(math.dist(a, b) > 0.12 for a, b in itertools.combinations(c, 2)):
                out.append(list(c))
    return out


def explore(ctx, shard):
    import flory
    from flory.common import PhasesResult
    from mc.core import close, require

    n = shard["n"]
    mine = [b for i, b in enumerate(bases(n)) if i % shard["of"] == shard["k"]]

    def member(base, k, eps):
        """k-th compartment of a phase, displaced by at most eps, still summing to one"""
        d = [math.cos(1.7 * k + 2.3 * i) for i in range(n)]
        m = sum(d) / n
        s = eps * (k > 0) / (1 + max(abs(x - m) for x in d))
        return [b + s * (x - m) for b, x in zip(base, d)]

    def wmean(vs, fs):
        t = math.fsum(vs)
        return [math.fsum(v * f[i] for v, f in zip(vs, fs)) / t for i in range(n)]

    def as_set(name, ph, want):
        """equal up to the order of the phases"""
        require(ph.num_phases == len(want), lambda: f"{name}: {ph.num_phases} phases instead of {len(want)}: {ph}")
        got = sorted([(tuple(f), v) for v, f in zip(np.asarray(ph.volumes, float).tolist(), np.asarray(ph.fractions, float).tolist())], key=lambda x: [round(y, 5) for y in x[0]])
        exp = sorted([(tuple(f), v) for v, f in want], key=lambda x: [round(y, 5) for y in x[0]])
        left = list(exp)
        for f, v in got:
            for j, (f2, v2) in enumerate(left):
                if max(abs(a - b) for a, b in zip(f, f2)) < 1e-9 and abs(v - v2) < 1e-9 * max(1.0, abs(v2)):
                    left.pop(j)
                    break
            else:
                require(False, f"{name}: phase {f} with volume {v} not expected; expected {left}")

    def sorted_by_rich(ph):
        am = np.argmax(np.asarray(ph.fractions), axis=1)
        top = np.sort(np.asarray(ph.fractions), axis=1)
        clear = np.ones(len(am), bool) if n == 1 else (top[:, -1] - top[:, -2] > 1e-6)
        a = am[clear]
        require(np.all(np.diff(a) >= 0), lambda: f"not sorted by the most concentrated component: {ph.fractions}")

    INFO = {"steps": 3, "nested": {"a": 1}}

    def build(cls, V, Fr):
        V, Fr = np.array(V, float), np.array(Fr, float).reshape(len(V), n)
        if cls == "phases":
            return flory.Phases(V, Fr)
        if cls == "from":
            return PhasesResult.from_phases(flory.Phases(V, Fr), info=dict(INFO))
        return PhasesResult(V, Fr, info=dict(INFO))

    def kind_ok(cls, p, q):
        require(type(q) is type(p), lambda: f"{type(p).__name__} became {type(q).__name__}")
        if cls != "phases":
            require(q.info == p.info == INFO, "extra information lost")

    def check_one(cls, V, Fr, cut, want, order):
        V = [V[i] for i in order]
        Fr = [Fr[i] for i in order]
        p = build(cls, V, Fr)
        v0, f0 = p.volumes.copy(), p.fractions.copy()
        q = p.get_clusters() if cut is None else p.get_clusters(cut)
        as_set("clusters", q, want)
        sorted_by_rich(q)
        kind_ok(cls, p, q)
        close("total volume", q.total_volume, math.fsum(V), 1e-12)
        close("mean composition", q.mean_fractions, wmean(V, Fr), 1e-10)
        if cls != "phases" and len(V) > 1:
            q.info["steps"] = 99
            require(p.info == INFO, "extra information shared with the derived collection")
        s = p.sort()
        kind_ok(cls, p, s)
        as_set("sort", s, list(zip(V, Fr)))
        sorted_by_rich(s)
        m = p.normalize()
        kind_ok(cls, p, m)
        close("normalized volume", m.total_volume, 1.0, 1e-12)
        close("normalized volumes", m.volumes, [v / math.fsum(V) for v in V], 1e-12)
        close("normalized fractions", m.fractions, Fr, 1e-12)
        close("original volumes", p.volumes, v0, 0, 0)
        close("original fractions", p.fractions, f0, 0, 0)
        require(p.num_components == n and p.num_phases == len(V), "numbers of phases and components")
        close("mean composition of the original", p.mean_fractions, wmean(V, Fr), 1e-10)
        ctx.step(3)
        ctx.state(n, np.array(V), np.array(Fr), str(cut))
        ctx.outcome(q.volumes, q.fractions)

    def orders(k):
        full = 6 if ctx.thorough else 5
        if k <= full:
            return list(itertools.permutations(range(k)))
        base = list(range(k))
        out = [tuple(base[i:] + base[:i]) for i in range(k)]
        return out + [tuple(reversed(base))] + [tuple(base[::2] + base[1::2])]

    VOLS = [1.0, 0.25, 3.0, 0.01, 1.0, 7.5, 0.5]

    def partitions(k, total):
        if k == 1:
            yield (total,)
            return
        for i in range(1, total - k + 2):
            for r in partitions(k - 1, total - i):
                yield (i, *r)

    if shard["part"] == "groups":
        for b in mine:
            for total in range(len(b), min(len(b) + 4, 8)):
                for mult in partitions(len(b), total):
                    for cut, rel, shrink in ((None, 0.1, 1), (None, 0.22, 1), (0.01, 0.1, 1), (0.005, 0.22, 1), (0.0125, 0.1, 1), (0.0005, 0.22, 0.05), (0.05, 0.22, 1)):
                        if cut not in (None, 0.01) and total > 5:
                            continue
                        if cut == 0.05 and any(math.dist(x, y) < 0.5 for x, y in itertools.combinations(b, 2)):
                            continue
                        eps = rel * (0.01 if cut is None else cut)
                        V, Fr, want = [], [], []
                        k = 0
                        for base, mlt in zip(b, mult):
                            vs = [VOLS[(k + i) % 7] for i in range(mlt)]
                            if shrink != 1:
                                base = [shrink * x + (1 - shrink) * y for x, y in zip(base, b[0])]
                            fs = [member(base, i, eps) for i in range(mlt)]
                            k += mlt
                            V += vs
                            Fr += fs
                            want.append((math.fsum(vs), wmean(vs, fs)))
                        for o, order in enumerate(orders(total)):
                            if total >= 5 and not ctx.thorough and o % 3 and total <= 5:
                                continue
                            cls = ("phases", "result", "from")[o % 3]
                            ctx.case(dict(n=n, bases=[list(x) for x in b], mult=list(mult), cut=cut, spread=rel, order=list(order), cls=cls), check_one, cls, V, Fr, cut, want, order)
        # two phases merge exactly if their distance does not exceed the cut-off; extreme volumes
        if shard["k"] == 0:
            c = [0.4, 0.3, 0.2, 0.1][:n] if n > 1 else [0.5]
            dirs = [[float(j == i) - float(j == k) for j in range(n)] for i, k in itertools.combinations(range(n), 2)] + [[float(j == i) for j in range(n)] for i in range(n)] + [[1.0] * n]
            for d in dirs:
                L = math.sqrt(sum(x * x for x in d))
                for cut in (None, 0.01, 0.001, 0.04):
                    for r in (0.0, 0.5, 0.95, 0.999, 1.001, 1.05, 1.4, 2.5):
                        s = r * (0.01 if cut is None else cut) / L
                        Fr = [list(c), [x + s * y for x, y in zip(c, d)]]
                        for V in ([1.0, 1.0], [1e-6, 1.0], [1.0, 1e-6], [1e6, 3.0], [0.25, 0.75], [1e-9, 1e-9]):
                            want = [(math.fsum(V), wmean(V, Fr))] if r < 1 else list(zip(V, Fr))
                            for order in ((0, 1), (1, 0)):
                                for cls in ("phases", "result"):
                                    ctx.case(dict(n=n, direction=d, cut=cut, distance=r, volumes=V, order=list(order), cls=cls), check_one, cls, V, Fr, cut, want, order)
        # many compartments, as a finder returns them
        for b in mine:
            for rep in (10, 40):
                V, Fr, want = [], [], []
                for j, base in enumerate(b):
                    vs = [VOLS[(i + j) % 7] for i in range(rep)]
                    fs = [member(base, i, 0.001) for i in range(rep)]
                    V, Fr = V + vs, Fr + fs
                    want.append((math.fsum(vs), wmean(vs, fs)))
                L = len(V)
                for step in (1, 3, 7, 11):
                    if math.gcd(step, L) == 1:
                        order = [(i * step) % L for i in range(L)]
                        ctx.case(dict(n=n, bases=[list(x) for x in b], rep=rep, order_step=step), check_one, "phases", V, Fr, None, want, order)
        return

    # ---- chains of operations ----------------------------------------------------
    OPS = {"cluster": lambda p: p.get_clusters(), "cluster wide": lambda p: p.get_clusters(0.012), "sort": lambda p: p.sort(), "normalize": lambda p: p.normalize()}
    depth = 4 if ctx.thorough else 3

    def chain(cls, V, Fr, groups, ops):
        p = build(cls, V, Fr)
        clustered, normed = False, False
        hist = [(p, p.volumes.copy(), p.fractions.copy())]
        tot, mean = math.fsum(V), wmean(V, Fr)
        for o in ops:
            q = OPS[o](p)
            kind_ok(cls, p, q)
            clustered |= o.startswith("cluster")
            normed |= o == "normalize"
            t = 1.0 if normed else tot
            close(f"total volume after {o}", q.total_volume, t, 1e-11)
            close(f"mean composition after {o}", q.mean_fractions, mean, 1e-10)
            want = [(v / (tot if normed else 1.0), f) for v, f in (groups if clustered else list(zip(V, Fr)))]
            as_set(f"after {o}", q, want)
            if o != "normalize":
                sorted_by_rich(q)
            for (x, v, f) in hist:
                close("volumes of an earlier collection", x.volumes, v, 0, 0)
                close("fractions of an earlier collection", x.fractions, f, 0, 0)
            hist.append((q, np.array(q.volumes), np.array(q.fractions)))
            p = q
            ctx.step()
            ctx.state(n, p.volumes, p.fractions)
        ctx.outcome(p.volumes, p.fractions)

    for b in mine:
        for mult in ([1] * len(b), [2] * len(b), [1 + i % 3 for i in range(len(b))], [3 - i % 3 for i in range(len(b))]):
            V, Fr, groups = [], [], []
            k = 0
            for base, m in zip(b, mult):
                vs = [VOLS[(k + i) % 7] for i in range(m)]
                fs = [member(base, i, 0.001) for i in range(m)]
                k += m
                V, Fr = V + vs, Fr + fs
                groups.append((math.fsum(vs), wmean(vs, fs)))
            for rev in (False, True):
                V2, F2 = (V[::-1], Fr[::-1]) if rev else (V, Fr)
                for L in range(1, depth + 1):
                    for ops in itertools.product(OPS, repeat=L):
                        for cls in ("phases", "result", "from"):
                            ctx.case(dict(n=n, bases=[list(x) for x in b], mult=list(mult), reverse=rev, ops=list(ops), cls=cls), chain, cls, V2, F2, groups, ops)
