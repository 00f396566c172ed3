"""C25: an interrupted call does no lasting damage."""
import logging
import os
import sys
import warnings

import numpy as np

LEVEL = "model_checking"
FAST_COMPILE = True
RULE = ("every operation of finders, parts, free energies, phases and the shortcut is interrupted just before every line of the package that it executes; afterwards the fields of "
        "an interrupted run are those after a whole number of checks and it can be continued as if nothing had happened, repeating the operation and reinitializing gives the behaviour of "
        "a fresh object, all defaults are in force, no other object, input or global setting of the process has changed")
BOUNDS = {"quick": "4 worlds x 16 finder operations, 24 operations of other objects, every line, 3-4 checks per run",
          "thorough": "6 worlds, pairs of interruptions (two lines of the same or of consecutive calls), longer runs"}
ASSUMPTIONS = ["compiled functions and library calls are atomic (they are not interrupted inside)", "the budget of revivals after an interrupted run is not compared"]

WORLDS = ["can-L", "gc-G", "poly-LG", "can-none", "polygc-L", "can-kill"]


def shards(tier):
    q = tier == "quick"
    n = 2 if q else 4
    ws = WORLDS[:3] + ["can-kill"] if q else WORLDS
    return [dict(world="objects", k=0, n=1)] + [dict(world=w, k=k, n=n) for w in ws for k in range(n)]


def environment():
    """global settings of the process that no call may change"""
    import scipy
    rs = np.random.get_state()
    return dict(err=np.geterr(), print=str(sorted(np.get_printoptions().items(), key=str)), filters=len(warnings.filters), cwd=os.getcwd(), env=dict(os.environ),
                root=(logging.getLogger().level, len(logging.getLogger().handlers)), disabled=logging.root.manager.disable,
                random=(rs[0], rs[1].tobytes(), rs[2:]), stdout=id(sys.stdout), stderr=id(sys.stderr), recursion=sys.getrecursionlimit(),
                switch=sys.getswitchinterval())


def explore(ctx, shard):
    import flory
    from mc import linesched
    from mc.core import close, fail, require

    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")  # numpy's default
    env0 = environment()

    def check_env():
        now = environment()
        for k in env0:
            require(now[k] == env0[k], f"global setting '{k}' changed: {now[k]} instead of {env0[k]}")

    if shard["world"] == "objects":
        return objects(ctx, shard, check_env)

    kind, cv = shard["world"].split("-")
    S, M = 2, 4
    poly = kind.startswith("poly")
    gc = kind.endswith("gc")
    N = 3 if poly else 2
    thr = 0.9 if cv == "kill" else 0.0
    groups = [2, 1]
    V = {"old": dict(chis=[[0.0, 2.5], [2.5, 0.5]], sizes=[1.0, 1.5, 0.75][:N], ens=[0.4, 0.35, 0.25] if poly else [0.4, 0.6]),
         "new": dict(chis=[[-1.0, 1.0], [1.0, 0.25]], sizes=[2.0, 0.5, 1.25][:N], ens=[0.2, 0.5, 0.3] if poly else [0.7, 0.3])}

    def make_cons(v):
        new = v == "new"
        L = flory.LinearLocalConstraint(S, [0.5, 0.5] if new else [1.0, -1.0], 0.25 if new else 0.125)
        G = flory.LinearGlobalConstraint(S, [[0.5, -0.5], [1.0, 1.0]] if new else [[1.0, 0.5], [0.25, 1.0]], [0.1, 0.9] if new else [0.5, 0.4])
        return {"L": [L], "G": [G], "LG": [L, G], "none": None, "kill": [L]}[cv]

    def part(what, v):
        a = V[v]
        if what == "interaction":
            return flory.FloryHugginsBlockInteraction(S, a["chis"], groups) if poly else flory.FloryHugginsInteraction(S, a["chis"])
        if what == "entropy":
            return flory.IdealGasPolydispersedEntropy(S, a["sizes"], groups) if poly else flory.IdealGasEntropy(S, a["sizes"])
        if what == "ensemble":
            return flory.GrandCanonicalEnsemble(N, a["ens"]) if gc else flory.CanonicalEnsemble(N, a["ens"])
        return make_cons(v)

    WHAT = ("interaction", "entropy", "ensemble", "constraints")
    PARTS = {(w, v): part(w, v) for w in WHAT for v in ("old", "new")}
    w0 = np.array([[1.0, -1.0, 0.5, 0.2], [-0.5, 1.0, 0.0, 0.7]])
    w1 = w0[:, ::-1] * 0.5 + 0.125
    opts = dict(num_part=M, progress=False, max_steps=9, interval=3, tolerance=1e-7, acceptance_Js=0.05, acceptance_omega=0.1, Js_step_upper_bound=0.1,
                kill_threshold=thr, max_revive_per_compartment=0, constraint_elasticity=0.5)

    def build(versions, rng):
        f = flory.CoexistingPhasesFinder(*(PARTS[w, versions[w]] for w in WHAT), rng=rng, **opts)
        return f

    OLD = {w: "old" for w in WHAT}

    def observe(f, p):
        d = f.diagnostics
        return [p.volumes, p.fractions] + [d[k] for k in sorted(d) if k not in ("time", "revive_count_left")] + [f.omegas.copy()]

    def same(name, got, want):
        for i, (a, b) in enumerate(zip(got, want)):
            close(f"{name}, item {i}", a, b, 1e-10, 1e-12)

    # what a fresh finder does from the fields w with given parts
    fresh = {}

    def behaviour(versions, w):
        key = tuple(versions[x] for x in WHAT), w.tobytes()
        if key not in fresh:
            f = build(versions, np.random.default_rng(3))
            f.reinitialize_from_omegas(w)
            fresh[key] = observe(f, f.run())
        return fresh[key]

    # trajectory of an uninterrupted run: fields after every check and results of continuing
    NCHK = 4
    traj = []
    f = build(OLD, np.random.default_rng(3))
    f.reinitialize_from_omegas(w0)
    traj.append(f.omegas.copy())
    cont = []
    for k in range(NCHK + 2):
        r = f.run(max_steps=3, interval=3)
        cont.append(observe(f, r))
        traj.append(f.omegas.copy())

    def prepared():
        f = build(OLD, np.random.default_rng(3))
        f.reinitialize_from_omegas(w0)
        return f

    def ops():
        """name -> (operation, kind)"""
        res = {
            "run": (lambda f: f.run(max_steps=9, interval=3), "run"),
            "run_defaults": (lambda f: f.run(), "run"),
            "run_progress": (lambda f: f.run(max_steps=6, interval=3, progress=True), "run"),
            "run_other": (lambda f: f.run(max_steps=3, interval=3, tolerance=1e3), "run"),
            "run_tiny": (lambda f: f.run(max_steps=6, interval=3, tolerance=1e-12), "run"),
            "reinit_omegas": (lambda f: f.reinitialize_from_omegas(w1), "init"),
            "reinit_phis": (lambda f: f.reinitialize_from_phis(w1 * 0.25), "init"),
            "reinit_random": (lambda f: f.reinitialize_random(), "init"),
            "reinit_constraint": (lambda f: f.reinitialize_constraint(), "init"),
            "reset_revive": (lambda f: f.reset_revive(), "init"),
            "rejected_field": (lambda f: f.reinitialize_from_omegas(np.zeros((S, M + 1))), "init"),
            "rejected_part": (lambda f: f.set_interaction(flory.FloryHugginsInteraction(S + 1, 1.0)), "init"),
        }
        for w in WHAT:
            kw = dict(constraint_elasticity=2.5) if w == "constraints" else dict(additional_chis_shift=2.5)
            res["set_" + w] = (lambda f, w=w, kw=kw: getattr(f, "set_" + w)(PARTS[w, "new"], **kw), w)
        return res


    def call(op, f):
        old = sys.stderr
        with open(os.devnull, "w") as null:
            sys.stderr = null
            try:
                return op(f)
            except linesched.Interrupt:
                raise
            except Exception:  # rejected requests
                return None
            finally:
                sys.stderr = old

    def after(f, kind, name):
        """judge the interrupted finder"""
        if kind == "run":
            now = f.omegas.copy()
            ks = [k for k in range(NCHK) if np.allclose(now, traj[k], rtol=1e-10, atol=1e-12)]
            require(ks, lambda: f"fields of the interrupted run are not those after a whole number of checks: {now.tolist()}")
            k = ks[0]
            same(f"continued after {k} checks", observe(f, f.run(max_steps=3, interval=3)), cont[k])
            ctx.outcome(name, k)
        elif kind == "init":
            pass
        else:  # set_*: repeat with the new part, or put the old one back
            pass
        variants = [OLD] if kind in ("run", "init") else [OLD, {**OLD, kind: "new"}]
        for versions in variants:
            if kind not in ("run", "init"):
                getattr(f, "set_" + kind)(PARTS[kind, versions[kind]])
            for w in (w0, w1):
                f.reinitialize_from_omegas(w)
                same(f"{name}, reinitialized ({versions.get(kind, '-')})", observe(f, f.run()), behaviour(versions, w))

    env_parts = [behaviour(OLD, w0), *[behaviour({**OLD, w: "new"}, w0) for w in WHAT]]
    OPS = ops()
    idx = 0

    def one(name, points):
        op, kind = OPS[name]
        f = prepared()
        for at in points:
            hit, _ = linesched.interrupted(lambda: call(op, f), at)
            if not hit and at == points[0]:
                ctx.count("completed")
        check_env()
        after(f, kind, name)
        # another finder from the same parts
        g = build(OLD, np.random.default_rng(3))
        g.reinitialize_from_omegas(w0)
        same("another finder", observe(g, g.run()), behaviour(OLD, w0))
        check_env()
        ctx.step(len(points))
        ctx.state(name, points)

    for name, (op, kind) in OPS.items():
        f = prepared()
        call(op, f)
        g = prepared()
        n = linesched.lines(lambda: call(op, g))
        ctx.count("lines", n)
        for i in range(n + 1):
            if idx % shard["n"] == shard["k"]:
                ctx.case(dict(op=name, points=[i]), one, name, [i])
                if ctx.thorough:
                    for j in range(0, n, 2):
                        ctx.case(dict(op=name, points=[i, j]), one, name, [i, j])
            idx += 1

    # interrupted construction: the parts stay what they were
    def construct(i):
        linesched.interrupted(lambda: build(OLD, np.random.default_rng(3)), i)
        check_env()
        g = build(OLD, np.random.default_rng(3))
        g.reinitialize_from_omegas(w0)
        same("finder built afterwards", observe(g, g.run()), behaviour(OLD, w0))
        ctx.step()

    n = linesched.lines(lambda: build(OLD, np.random.default_rng(3)))
    for i in range(n):
        if i % shard["n"] == shard["k"]:
            ctx.case(dict(op="construct", points=[i]), construct, i)


def objects(ctx, shard, check_env):
    import flory
    from mc import linesched
    from mc.core import close, fail, require

    chis = np.array([[0.0, 3.0], [3.0, 0.25]])
    chis2 = np.array([[0.5, 1.0], [1.0, 0.0]])
    comps = np.array([[0.3, 0.7], [0.5, 0.5], [0.25, 0.75]])
    comps0 = np.array([[0.0, 1.0], [0.5, 0.5], [1.0, 0.0]])
    vol = np.array([1.0, 0.5, 2.0, 0.25, 1.5])
    frac = np.array([[0.1, 0.9], [0.9, 0.1], [0.1005, 0.8995], [0.5, 0.5], [0.9, 0.1]])
    inputs = dict(chis=chis, chis2=chis2, comps=comps, comps0=comps0, vol=vol, frac=frac)
    backup = {k: v.copy() for k, v in inputs.items()}

    def look(o):
        """observable behaviour of any of the objects"""
        if isinstance(o, flory.FloryHuggins):
            return [o.chis, o.sizes, o.free_energy_density(comps0), o.jacobian(comps), o.hessian(comps, 0), o.chemical_potentials(comps0), o.pressure(comps, 0), o.num_unstable_modes(comps),
                    o.equilibration_error(comps), o.interaction.compiled().potential(comps[:2].copy())]
        if isinstance(o, flory.FloryHugginsBlockInteraction):
            return [o.chis_feat, o.chis, o.energy(np.array([0.2, 0.3, 0.5])) if hasattr(o, "energy") else 0, o.compiled().potential(comps[:2].copy())]
        if isinstance(o, flory.FloryHugginsInteraction):
            return [o.chis, o.independent_entries, o.compiled().potential(comps[:2].copy())]
        if isinstance(o, flory.IdealGasPolydispersedEntropy) or isinstance(o, flory.IdealGasEntropy):
            z = o.compiled()
            out = np.zeros((z.num_comp, 3))
            Q = z.partition(out, np.array([[0.5, 0.0, 1.0], [0.25, -1.0, 0.0]]), np.array([1.0, 0.5, 1.5]))
            return [o.sizes, out, Q]
        if isinstance(o, (flory.CanonicalEnsemble, flory.GrandCanonicalEnsemble)):
            z = o.compiled()
            out = np.array([[0.5, 0.25, 1.0], [0.25, 1.0, 0.5]])
            inc = z.normalize(out, np.array([0.5, 2.0]), np.ones(3))
            return [o.phi_means if isinstance(o, flory.CanonicalEnsemble) else o.scaled_activity, out, inc]
        if isinstance(o, (flory.LinearLocalConstraint, flory.LinearGlobalConstraint)):
            z = o.compiled()
            z.initialize(3)
            z.prepare(np.array([[0.5, 0.25, 1.0], [0.25, 1.0, 0.5]]), np.array([1.0, 0.5, 1.5]), np.ones(3))
            return [o.Cs, o.Ts, z.potential.copy(), z.volume_derivative.copy(), z.evolve(0.1, np.ones(3))]
        if isinstance(o, flory.Phases):
            return [o.volumes, o.fractions, o.mean_fractions, o.total_volume]
        fail(f"unknown object {o!r}")

    FH = lambda: flory.FloryHuggins(2, chis, [1.0, 2.0])
    INT = lambda: flory.FloryHugginsInteraction(2, chis)
    BLK = lambda: flory.FloryHugginsBlockInteraction(2, chis, [2, 1])
    rng = lambda: np.random.default_rng(5)

    def setter(name, value):
        return lambda o: setattr(o, name, value() if callable(value) else value)

    MUT = [  # (fresh object, operation): interrupted and then repeated
        ("FH.chis", FH, setter("chis", chis2)), ("FH.chis_scalar", FH, setter("chis", 2)), ("FH.sizes", FH, setter("sizes", [3.0, 0.5])), ("FH.sizes_scalar", FH, setter("sizes", 2)),
        ("INT.chis", INT, setter("chis", chis2)), ("INT.uniform", INT, lambda o: o.set_uniform_chis(2, vanishing_diagonal=False)), ("INT.random", INT, lambda o: o.set_random_chis(1.0, 2.0, rng=rng())),
        ("INT.random_diag", INT, lambda o: o.set_random_chis(1.0, 2.0, vanishing_diagonal=False, rng=rng())),
        ("BLK.chis_feat", BLK, setter("chis_feat", chis2)),
        ("ENT.sizes", lambda: flory.IdealGasEntropy(2, [1.0, 2.0]), setter("sizes", [3, 1])),
        ("POL.sizes", lambda: flory.IdealGasPolydispersedEntropy(2, [1.0, 2.0, 1.5], [2, 1]), setter("sizes", [3.0, 1.0, 0.5])),
        ("CAN.phi_means", lambda: flory.CanonicalEnsemble(2, [0.4, 0.6]), setter("phi_means", [0.75, 0.25])),
        ("GC.activity", lambda: flory.GrandCanonicalEnsemble(2, [0.4, 0.6]), setter("scaled_activity", [0.75, 0.5])),
        ("LOC.Cs", lambda: flory.LinearLocalConstraint(2, [1.0, -1.0], 0.5), setter("Cs", [[0.5, 2.0]])), ("LOC.Ts", lambda: flory.LinearLocalConstraint(2, [1.0, -1.0], 0.5), setter("Ts", 0.25)),
        ("GLO.Cs", lambda: flory.LinearGlobalConstraint(2, [1.0, -1.0], 0.5), setter("Cs", [[0.5, 2.0]])), ("GLO.Ts", lambda: flory.LinearGlobalConstraint(2, [1.0, -1.0], 0.5), setter("Ts", 0.25)),
    ]
    USE = [  # (fresh object, operation): the object must stay as it is
        (n, FH, f) for n, f in {
            "energy": lambda o: o.free_energy_density(comps0), "jacobian": lambda o: o.jacobian(comps, 1), "hessian": lambda o: o.hessian(comps, 1), "mu": lambda o: o.chemical_potentials(comps0),
            "exchange": lambda o: o.exchange_chemical_potentials(comps, 0), "pressure": lambda o: o.pressure(comps, 0), "modes": lambda o: o.num_unstable_modes(comps), "stable": lambda o: o.is_stable(comps),
            "equil": lambda o: o.equilibration_error(comps), "mu_negative": lambda o: o.chemical_potentials([-0.1, 1.1]), "equil_negative": lambda o: o.equilibration_error([[0.5, 0.5], [-0.1, 1.1]]), "equil_absent": lambda o: o.equilibration_error(comps0), "modes_size": lambda o: o.num_unstable_modes([0.2, 0.3, 0.5]), "stable_negative": lambda o: o.is_stable([-0.1, 1.1]), "compiled": lambda o: o.interaction.compiled(additional_chis_shift=2.0)}.items()
    ] + [(n, lambda: flory.Phases(vol, frac), f) for n, f in {
        "clusters": lambda o: o.get_clusters(0.05), "sort": lambda o: o.sort(), "normalize": lambda o: o.normalize(), "str": lambda o: str(o)}.items()
    ] + [("result." + n, lambda: flory.common.PhasesResult(vol, frac, info={"a": 1}), f) for n, f in {"clusters": lambda o: o.get_clusters(0.05), "sort": lambda o: o.sort(), "normalize": lambda o: o.normalize()}.items()]

    def same(name, got, want):
        for i, (a, b) in enumerate(zip(got, want)):
            close(f"{name}, item {i}", a, b, 1e-12, 1e-14)

    def call(op, o):
        try:
            return op(o)
        except linesched.Interrupt:
            raise
        except Exception:
            return None

    def finish():
        check_env()
        for k, v in inputs.items():
            require(np.array_equal(v, backup[k]), f"input {k} was changed")
        ctx.step()

    def mutate(name, make, op, want, points):
        o = make()
        for at in points:
            linesched.interrupted(lambda: call(op, o), at)
        op(o)
        same(name, look(o), want)
        same("another object", look(make()), base[name])
        finish()
        ctx.state(name, points)

    def use(name, make, op, points):
        o = make()
        for at in points:
            linesched.interrupted(lambda: call(op, o), at)
        same(name, look(o), base[name])
        finish()
        ctx.state(name, points)

    base = {}
    for name, make, op in MUT:
        base[name] = [np.copy(x) for x in look(make())]
        o = make()
        op(o)
        want = [np.copy(x) for x in look(o)]
        n = linesched.lines(lambda: call(op, make()))
        for i in range(n):
            ctx.case(dict(op=name, points=[i]), mutate, name, make, op, want, [i])
            if ctx.thorough:
                for j in range(n):
                    ctx.case(dict(op=name, points=[i, j]), mutate, name, make, op, want, [i, j])
    for name, make, op in USE:
        base[name] = [np.copy(x) for x in look(make())]
        n = linesched.lines(lambda: call(op, make()))
        for i in range(n + 1):
            ctx.case(dict(op=name, points=[i]), use, name, make, op, [i])
            if ctx.thorough:
                for j in range(n):
                    ctx.case(dict(op=name, points=[i, j]), use, name, make, op, [i, j])

    # the shortcut
    def short():
        r = flory.find_coexisting_phases(2, chis, [0.4, 0.6], sizes=[1.0, 2.0], rng=rng(), num_part=4, progress=False, max_steps=6, interval=3, constraints=cons)
        return [r.volumes, r.fractions] + [r.info[k] for k in sorted(r.info) if k != "time"]

    cons = flory.LinearGlobalConstraint(2, [1.0, -1.0], 0.5)
    cons_look = [np.copy(x) for x in look(cons)]
    short()
    want = short()

    def shortcut(i):
        linesched.interrupted(short, i)
        same("shortcut afterwards", short(), want)
        same("constraint", look(cons), cons_look)
        finish()

    for i in range(linesched.lines(short)):
        ctx.case(dict(op="shortcut", points=[i]), shortcut, i)
