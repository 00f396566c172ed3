"""C14: constraints act as the documented penalty and multiplier terms."""
import itertools

import numpy as np

LEVEL = "model_checking"
RULE = ("all sequences of initialize / prepare / evolve over a menu of states (fractions, volumes, masks) "
        "up to the depth, for every constraint kind, coefficient matrix, target, elasticity and acceptance "
        "ratio; potentials and volume derivatives are compared with complex-step derivatives of the documented "
        "energy, multipliers and residues with the documented evolution")
BOUNDS = {"quick": "depth 4 over 7-8 operations, 1-3 constraints, 1-4 features, 1-4 compartments",
          "thorough": "depth 5, more parameter values"}
ASSUMPTIONS = ["finder contract: volumes of dead compartments are zero when constraints are prepared"]


def shards(tier):
    return [dict(kind=k, j=j) for k in ("local", "global") for j in range(4)] + [dict(kind="none", j=0)]


def systems():
    """(S, Cs, Ts) in different shapes"""
    return [
        (1, [[2.0]], [0.3]),
        (2, [1.0, -1.0], 0.0),
        (2, [[0.5, 2.0]], [1.2]),
        (2, [[1.0, -1.0], [0.3, 0.3]], [0.1, 0.4]),
        (3, [-1.0, 0.0, 1.0], 0.2),
        (3, [[-1, 0, 1], [2, 1, 0]], [0, 1]),
        (3, [[1.0, 0.0, 0.0], [0.0, 1.5, 0.0], [1.0, 1.0, 1.0]], [0.2, 0.3, 1.0]),
        (4, [[0.1, -0.7, 2.0, 1.0], [0.0, 0.0, 0.0, 0.0]], 0.5),
    ]


def menu(S):
    """states: (M, phis, Js, masks)"""
    out = []
    for M, dead in ((1, ()), (2, ()), (2, (0,)), (3, (1,)), (4, ()), (4, (0, 3))):
        phi = 0.2 + 0.6 * np.abs(np.sin(1.0 + 1.7 * np.arange(S)[:, None] + 0.9 * np.arange(M)))
        J = 0.5 + 0.4 * np.arange(M)
        mask = np.ones(M)
        mask[list(dead)] = 0.0
        out.append((M, phi, J * mask, mask, "keep" if dead == (1,) else "zero"))
    return out


def explore(ctx, shard):
    import flory
    from mc.core import close, require, same

    if shard["kind"] == "none":
        def none_case(S, Ms):
            for obj in (flory.NoConstraint(S).compiled(), flory.NoConstraint(S).compiled(constraint_elasticity=3.0)):
                require(obj.num_feat == S, "number of features")
                for M in Ms:
                    obj.initialize(M)
                    phi = np.full((S, M), 0.3)
                    obj.prepare(phi, np.ones(M), np.ones(M))
                    same("potential", np.broadcast_to(obj.potential, (S, M)), np.zeros((S, M)))
                    same("volume derivative", np.broadcast_to(obj.volume_derivative, (M,)), np.zeros(M))
                    require(obj.evolve(0.3, np.ones(M)) == 0, "residue of no constraint")
                    same("potential", np.broadcast_to(obj.potential, (S, M)), np.zeros((S, M)))
                    ctx.step(3)
            ctx.state(S, Ms)
            ctx.outcome(S)

        for S in range(1, 6):
            for Ms in itertools.product((1, 2, 5), repeat=2):
                ctx.case(dict(kind="none", S=S, M=list(Ms)), none_case, S, Ms)
        return

    local = shard["kind"] == "local"
    cls = flory.LinearLocalConstraint if local else flory.LinearGlobalConstraint
    depth = 5 if ctx.thorough else 4

    def energy(Cs, Ts, kappa, xi, phi, J, mask):
        """documented energy of the living compartments"""
        J = J * mask
        r = np.einsum("ar,rm->am", Cs, phi) - Ts[:, None]
        if local:
            return (J * (xi * r + kappa * r * r)).sum()
        R = (J * r).sum(1)
        return (xi * R).sum() + kappa * (R * R).sum()

    def derivatives(Cs, Ts, kappa, xi, phi, J, mask):
        h = 1e-30
        pot = np.zeros(phi.shape)
        vd = np.zeros(phi.shape[1])
        for m in np.flatnonzero(mask):
            for r in range(phi.shape[0]):
                p = phi.astype(complex)
                p[r, m] += 1j * h
                pot[r, m] = energy(Cs, Ts, kappa, xi, p, J, mask).imag / h / J[m]
            j = J.astype(complex)
            j[m] += 1j * h
            vd[m] = energy(Cs, Ts, kappa, xi, phi, j, mask).imag / h
        return pot, vd

    cache = {}

    def one(si, kappa, acc, seq):
        S, Cs_in, Ts_in = systems()[si]
        Cs = np.atleast_2d(np.asarray(Cs_in, float))
        Ts = np.broadcast_to(np.atleast_1d(np.asarray(Ts_in, float)), (len(Cs),)).copy()
        obj = cls(S, Cs_in, Ts_in)
        c = obj.compiled(constraint_elasticity=kappa, constraint_acceptance_ratio=acc)
        require(c.num_feat == S, "number of features")
        states = menu(S)
        M, xi, res, cur = None, None, None, None
        for op in seq:
            if op[0] == "I":
                M = op[1]
                c.initialize(M)
                xi = np.zeros((len(Cs), M)) if local else np.zeros(len(Cs))
                res = None
            elif op[0] == "P":
                m, phi, J, mask, mode = states[op[1]]
                phi = phi.copy() if mode == "keep" else phi * mask
                a, b, d = phi.copy(), J.copy(), mask.copy()
                c.prepare(phi, J, mask)
                same("prepare changed the fractions", phi, a)
                same("prepare changed the volumes", J, b)
                same("prepare changed the masks", mask, d)
                cur = (phi, J, mask)
                pot, vd = derivatives(Cs, Ts, kappa, xi, phi, J, mask)
                close("potential", c.potential, pot, 1e-10, 1e-12)
                close("volume derivative", c.volume_derivative, vd, 1e-10, 1e-12)
                r = (np.einsum("ar,rm->am", Cs, phi) - Ts[:, None]) * mask
                res = r if local else (r * J).sum(1) / J.sum()
            else:
                mask = cur[2]
                got = c.evolve(op[1], mask)
                close("residue", got, np.abs(res).max(), 1e-10, 1e-13)
                xi = xi + op[1] * acc * res
                if local:
                    xi = xi * mask
            ctx.step()
        # make the multipliers visible
        if cur is not None and xi.shape[-1] and (not local or cur[0].shape[1] == xi.shape[1]):
            c.prepare(*cur)
            pot, vd = derivatives(Cs, Ts, kappa, xi, *cur)
            close("final potential", c.potential, pot, 1e-10, 1e-12)
            close("final volume derivative", c.volume_derivative, vd, 1e-10, 1e-12)
            ctx.state(si, kappa, acc, xi, *cur)
            ctx.outcome(c.potential)

    def sequences(M):
        """valid sequences: initialize first, states of matching size, evolve after prepare"""
        idx = [i for i, s in enumerate(menu(1)) if s[0] == M]
        alphabet = [("P", i) for i in idx] + [("E", 0.25), ("E", 1.5), ("I", M)]
        for n in range(1, depth + 1):
            for seq in itertools.product(alphabet, repeat=n):
                ok, prepared = True, False
                for op in seq:
                    if op[0] == "P":
                        prepared = True
                    elif op[0] == "I":
                        prepared = False
                    elif not prepared:
                        ok = False
                        break
                if ok:
                    yield (("I", M),) + seq

    params = [(1.0, 1.0), (0.0, 0.7), (2.5, 0.0), (0.3, 2.0)]
    kappa, acc = params[shard["j"]]
    for si in range(len(systems())):
        for M in (1, 2, 3, 4):
            for seq in sequences(M):
                ctx.case(dict(kind=shard["kind"], sys=si, kappa=kappa, acc=acc, seq=[list(o) for o in seq]), one, si, kappa, acc, seq)
        # changing the number of compartments on the way
        for M1, M2 in itertools.permutations((1, 2, 3, 4), 2):
            i1 = [i for i, s in enumerate(menu(1)) if s[0] == M1][-1]
            i2 = [i for i, s in enumerate(menu(1)) if s[0] == M2][0]
            seq = (("I", M1), ("P", i1), ("E", 0.5), ("P", i1), ("E", 0.5), ("I", M2), ("P", i2), ("E", 1.0), ("P", i2))
            ctx.case(dict(kind=shard["kind"], sys=si, kappa=kappa, acc=acc, seq=[list(o) for o in seq]), one, si, kappa, acc, seq)
