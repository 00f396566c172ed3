"""C01: thermodynamic functions are the exact derivatives of the documented energy."""
import itertools

import numpy as np

from mc import alphabet as al

LEVEL = "model_checking"
RULE = ("all compositions of a lattice (on and off the simplex, absent components included) x all interaction "
        "matrices x all size vectors of a menu x batch shapes x eliminated component; every function is compared "
        "with an independent scalar evaluation of the documented formula, entry by entry")
BOUNDS = {"quick": "1-5 components, lattice of 1/4 steps (1/3 for 4-5), 5 interaction matrices and 6 size vectors per number of components",
          "thorough": "1-6 components, lattice of 1/6 steps"}
ASSUMPTIONS = ["fixed numeric alphabet; IEEE double arithmetic, compared to rel. 1e-9"]


def shards(tier):
    return [dict(n=n, kind=k) for n in ((1, 2, 3, 4, 5, 6, 8) if tier == "thorough" else (1, 2, 3, 4, 5)) for k in ("plain", "block")] + [dict(n=9, kind="plain")]


def chis_for(n):
    out = [0.0, 2.0]
    full = [[round(((3 * i + 5 * j + i * j) % 7) * 0.9 - 2.0, 3) for j in range(n)] for i in range(n)]
    sym = [[0.5 * (full[i][j] + full[j][i]) for j in range(n)] for i in range(n)]
    out.append(sym)
    out.append(al.chi_n(n))
    out.append([[(i + j) % 3 - 1 for j in range(n)] for i in range(n)])  # integers
    return out


def sizes_for(n):
    return [None, 1, 2.5, [1.0 + 0.5 * i for i in range(n)], [i + 1 for i in range(n)], [3.0 / (i + 1) for i in range(n)], [10.0 ** ((i * 2) % 5 - 1) for i in range(n)]]


def explore(ctx, shard):
    import flory
    from flory.common import VolumeFractionError
    from mc import thermo as th
    from mc.core import close, raises, require, same

    n = shard["n"]
    steps = (6 if n <= 3 else 4 if n == 4 else 3) if ctx.thorough else (4 if n <= 3 else 3 if n == 4 else 2)
    grid = [p for p in itertools.product(range(steps + 1), repeat=n)]
    if n > 5:
        grid = [tuple((i * k + k) % (steps + 1) for i in range(n)) for k in range(12)]
    lattice = [tuple(x / steps for x in p) for p in grid]
    lattice += [tuple((i + 1.0) / (n * (n + 1) / 2) for i in range(n)), tuple(1e-8 if i else 0.3 for i in range(n)), tuple(1e-200 if i == n - 1 else 0.4 for i in range(n)),
                tuple(0.21 + 0.13 * i for i in range(n))]
    for k in range(n):  # traces of one component, and compositions far off the simplex
        for x in (1e-6, 1e-12, 1e-17, 1e-30, 1e-100, 1e-300, 3.0, 250.0):
            lattice.append(tuple(x if i == k else 0.9 / n for i in range(n)))
    extra = n * 8 + 4

    def build(chi, l):
        if shard["kind"] == "plain":
            fe = flory.FloryHuggins(n, chi, l)
        else:
            groups = {1: [1], 2: [2], 3: [1, 2], 4: [2, 1, 1], 5: [3, 2], 6: [1, 4, 1], 8: [2, 2, 4]}[n]
            fe = flory.FreeEnergyBase(
                flory.FloryHugginsBlockInteraction(len(groups), chi if np.ndim(chi) == 0 else np.array(chi)[: len(groups), : len(groups)], groups),
                flory.IdealGasPolydispersedEntropy(len(groups), l, groups))
            full = np.array(chi if np.ndim(chi) else np.full((len(groups),) * 2, chi), float)[: len(groups), : len(groups)]
            feat = np.repeat(np.arange(len(groups)), groups)
            return fe, full[np.ix_(feat, feat)].tolist()
        C = np.broadcast_to(np.asarray(chi, float), (n, n))
        return fe, (0.5 * (C + C.T)).tolist()

    def values(fe, chi, l, phi):
        """all single composition values"""
        L = np.broadcast_to(1.0 if l is None else np.asarray(l, float), (n,)).tolist()
        p = np.array(phi, float)
        keep = p.copy()
        pos = all(x > 0 for x in phi)
        close("free energy", np.reshape(fe.free_energy_density(p), ()), th.f(phi, chi, L), 1e-11, 1e-12)
        j = np.array(th.jac(phi, chi, L))
        close("jacobian", fe.jacobian(p), j, 1e-11, 1e-12)
        mu = np.array(th.mu(phi, chi, L))
        close("chemical potentials", np.reshape(fe.chemical_potentials(p), (n,)), mu, 1e-10, 1e-11)
        for i in range(-n, n):
            if np.isfinite(j[i]):
                close(f"jacobian without {i}", fe.jacobian(p, i), th.reduced(j, i), 1e-10, 1e-11)
                close(f"exchange chemical potentials {i}", fe.exchange_chemical_potentials(p, i), j - j[i], 1e-10, 1e-11)
            close(f"pressure {i}", np.reshape(fe.pressure(p, i), ()), -mu[i], 1e-10, 1e-11)
        ctx.step(3 + 3 * 2 * n)
        if pos:
            h = np.array(th.hess(phi, chi, L))
            close("hessian", fe.hessian(p), h, 1e-11, 1e-12)
            for i in range(-n, n):
                close(f"hessian without {i}", fe.hessian(p, i), th.reduced(h, i), 1e-10, 1e-9)
            for cons in (True, False):
                u = th.unstable(phi, chi, L, cons)
                if u is not None:
                    require(int(fe.num_unstable_modes(p, conserved=cons)) == u, lambda: f"unstable modes {fe.num_unstable_modes(p, conserved=cons)} instead of {u} (conserved={cons})")
                    require(bool(fe.is_stable(p, conserved=cons)) == (u == 0), "stability flag")
                    if cons:
                        require(int(fe.num_unstable_modes(p)) == u and bool(fe.is_stable(p)) == (u == 0), "default of conserved")
            ctx.step(3 + 2 * n)
        same("composition was modified", p, keep)
        ctx.state(shard["kind"], chi, L, phi)
        ctx.outcome(th.f(phi, chi, L), mu)

    def batch(fe, chi, l, pts, shape):
        L = np.broadcast_to(1.0 if l is None else np.asarray(l, float), (n,)).tolist()
        p = np.array(pts, float).reshape(shape + (n,))
        keep = p.copy()
        flat = [tuple(x) for x in p.reshape(-1, n)]

        def want(func, tail):
            return np.array([func(x) for x in flat], float).reshape(shape + tail)

        close("free energies", fe.free_energy_density(p), want(lambda x: th.f(x, chi, L), ()), 1e-11, 1e-12)
        close("jacobians", fe.jacobian(p), want(lambda x: th.jac(x, chi, L), (n,)), 1e-11, 1e-12)
        mus = want(lambda x: th.mu(x, chi, L), (n,))
        close("chemical potentials", fe.chemical_potentials(p), mus, 1e-10, 1e-11)
        for i in {0, n - 1, -1}:
            close("jacobians (reduced)", fe.jacobian(p, i), want(lambda x: th.reduced(th.jac(x, chi, L), i), (n - 1,)), 1e-10, 1e-11)
            close("hessians (reduced)", fe.hessian(p, i), want(lambda x: th.reduced(th.hess(x, chi, L), i), (n - 1, n - 1)), 1e-10, 1e-9)
            close("pressures", fe.pressure(p, i), -mus[..., i], 1e-10, 1e-11)
            jj = want(lambda x: th.jac(x, chi, L), (n,))
            close("exchange chemical potentials", fe.exchange_chemical_potentials(p, i), jj - jj[..., [i]], 1e-10, 1e-11)
        close("hessians", fe.hessian(p), want(lambda x: th.hess(x, chi, L), (n, n)), 1e-11, 1e-12)
        for cons in (True, False):
            us = [th.unstable(x, chi, L, cons) for x in flat]
            if None not in us:
                close("unstable modes", fe.num_unstable_modes(p, conserved=cons), np.array(us).reshape(shape))
                close("stability", fe.is_stable(p, conserved=cons), (np.array(us) == 0).reshape(shape))
        if len(shape) == 1:
            dev = mus - mus.mean(axis=0)
            for order in (None, 1, 2, np.inf):
                for axis in (0, 1):
                    close(f"equilibration error axis={axis} order={order}", fe.equilibration_error(p, order, axis), np.linalg.norm(dev, ord=order, axis=axis), 1e-9, 1e-10)
            close("equilibration error (all)", fe.equilibration_error(p, axis=None), np.sqrt((dev**2).sum()), 1e-9, 1e-10)
            close("equilibration error (default)", fe.equilibration_error(p), np.sqrt((dev**2).sum(1)), 1e-9, 1e-10)
            # other spellings of the same batch
            close("list input", fe.free_energy_density(p.tolist()), fe.free_energy_density(p), 1e-13)
            close("strided input", fe.chemical_potentials(np.asfortranarray(p)), mus, 1e-10, 1e-11)
            close("reversed input", fe.jacobian(p[::-1]), fe.jacobian(p)[::-1], 1e-13)
        same("compositions were modified", p, keep)
        ctx.step(20)
        ctx.state("batch", shape, chi, L)
        ctx.outcome(mus)

    def mixed(fe, chi, l, pts):
        """batches in which some compositions lack components, and large batches"""
        L = np.broadcast_to(1.0 if l is None else np.asarray(l, float), (n,)).tolist()
        for sel in (pts, pts[::-1], (pts * (1 + 1500 // len(pts)))[:1500]):
            p = np.array(sel, float)
            close("free energies", fe.free_energy_density(p), [th.f(x, chi, L) for x in sel], 1e-11, 1e-12)
            close("jacobians", fe.jacobian(p), [th.jac(x, chi, L) for x in sel], 1e-11, 1e-12)
            mus = np.array([th.mu(x, chi, L) for x in sel])
            close("chemical potentials", fe.chemical_potentials(p), mus, 1e-10, 1e-11)
            for i in range(n):
                close("pressures", fe.pressure(p, i), -mus[:, i], 1e-10, 1e-11)
            ok = np.all(p > 0, axis=1)
            hs = fe.hessian(p)
            close("hessians", hs[ok], [th.hess(x, chi, L) for x in sel if all(a > 0 for a in x)], 1e-11, 1e-12)
            ctx.step(len(sel))
            ctx.state("mixed", p)

    def absent(fe, chi, l, pts):
        """a component absent from all phases does not contribute to the equilibration error"""
        L = np.broadcast_to(1.0 if l is None else np.asarray(l, float), (n,)).tolist()
        for k in range(n):
            p = np.array(pts, float)
            p[:, k] = 0.0
            mus = np.array([th.mu(tuple(x), chi, L) for x in p])
            dev = mus - mus.mean(axis=0)
            dev[:, k] = 0
            close("equilibration error", fe.equilibration_error(p), np.sqrt((dev**2).sum(1)), 1e-9, 1e-10)
            ctx.step()
        # absent from some of the phases only: the infinite values count as zero, the others are kept
        cells = list(itertools.product(range(len(pts)), range(n)))
        sets = [c for r in (range(len(cells) + 1) if n <= 2 else (1, 2)) for c in itertools.combinations(cells, r)]
        for c in sets:
            Z = np.zeros((len(pts), n), bool)
            for ij in c:
                Z[ij] = True
            p = np.where(Z, 0.0, np.array(pts, float))
            mus = np.array([th.mu(tuple(x), chi, L) for x in p])
            dev = np.where(Z, 0.0, mus)
            dev = dev - dev.mean(axis=0)
            close("equilibration error with absent components", fe.equilibration_error(p), np.sqrt((dev**2).sum(1)), 1e-9, 1e-10)
            close("equilibration error with absent components by component", fe.equilibration_error(p, axis=0), np.sqrt((dev**2).sum(0)), 1e-9, 1e-10)
            close("total equilibration error with absent components", fe.equilibration_error(p, axis=None), np.sqrt((dev**2).sum()), 1e-9, 1e-10)
            ctx.step(3)

    def rejected(fe):
        funcs = [fe.free_energy_density, fe.jacobian, fe.hessian, fe.chemical_potentials,
                 lambda x: fe.exchange_chemical_potentials(x, 0), lambda x: fe.pressure(x, 0),
                 fe.num_unstable_modes, fe.is_stable, fe.equilibration_error, lambda x: fe.jacobian(x, 0), lambda x: fe.hessian(x, 0)]
        for g in funcs:
            for bad in (np.full(n + 1, 0.1), np.full((3, n + 1), 0.1), np.full((n, n + 2), 0.1)) + ((np.full(n - 1, 0.1), np.full((n, n - 1), 0.1)) if n > 1 else ()):
                raises(VolumeFractionError, g, bad)
                ctx.step()
            for k in range(n):
                x = np.full(n, 0.2)
                for small in (-1e-9, -1e-13, -1e-17, -5e-324):
                    x[k] = small
                    raises(VolumeFractionError, g, x)
                    raises(VolumeFractionError, g, x.tolist())
                y = np.full((3, n), 0.2)
                y[k % 3, k] = -0.5
                raises(VolumeFractionError, g, y)
                ctx.step(2)

    for ci, chi in enumerate(chis_for(n)):
        for li, l in enumerate(sizes_for(n)):
            fe, C = build(chi, l)
            close("number of components", fe.num_comp, n)
            name = dict(kind=shard["kind"], n=n, chi=ci, sizes=li)
            lat = lattice if len(lattice) < 300 or ctx.thorough else lattice[:-extra][:: len(lattice) // 200] + lattice[-extra:]
            for phi in lat:
                ctx.case(dict(name, phi=list(phi)), values, fe, C, l, phi)
            pts = [tuple(0.05 + ((i * 7 + k * 3) % 11) / 11.0 for i in range(n)) for k in range(12)]
            for shape in ((1,), (2,), (n,), (12,), (3, 4), (2, 3, 2), (1, 1), (n, n) if n * n <= 12 else (4, 3)):
                m = int(np.prod(shape))
                if m <= 12:
                    ctx.case(dict(name, batch=list(shape)), batch, fe, C, l, pts[:m], shape)
            if li in (0, 3) and ci in (1, 2):
                ctx.case(dict(name, mixed=True), mixed, fe, C, l, [tuple(map(float, x)) for x in lat[:40] + lat[-12:]])
            if n > 1:
                ctx.case(dict(name, absent=True), absent, fe, C, l, pts[:3])
            ctx.case(dict(name, rejected=True), rejected, fe)
            # integer valued compositions
            for k in range(n):
                e = [0] * n
                e[k] = 1
                ctx.case(dict(name, unit=k), values, fe, C, l, tuple(e))

            def unit_int():
                e = np.eye(n, dtype=int)
                close("integer composition", fe.free_energy_density(e), fe.free_energy_density(e.astype(float)))
                close("integer composition", fe.chemical_potentials(e), fe.chemical_potentials(e.astype(float)))
                close("integer composition", fe.jacobian(e), fe.jacobian(e.astype(float)))
                ctx.step(3)
            ctx.case(dict(name, unit="int"), unit_int)
