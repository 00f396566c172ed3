"""C24: flory can be used from several threads at once."""
import itertools

import numpy as np

LEVEL = "model_checking"
FAST_COMPILE = True
RULE = ("two threads, each executing one of the programs (thermodynamics, building and running a finder, shortcut, changing and rerunning a finder, phases, "
        "random interactions) on shared parts and input arrays but with finders and generators of their own; a scheduler lets one thread proceed at a time and "
        "passes control at every line of the package (all schedules up to the preemption bound); each thread must obtain what it obtains alone")
BOUNDS = {"quick": "all pairs of 7 programs, both orders, all schedules with one preemption (and return at the end)",
          "thorough": "all pairs of 7 programs, both orders, all schedules with two preemptions on every third line"}
ASSUMPTIONS = ["compiled functions and library calls are atomic steps (they hold the interpreter lock)", "objects shared by the threads are only read",
               "schedules in which a thread waits for a lock of the other one are skipped and counted"]

NAMES = ["thermo", "finder", "shortcut", "change", "phases", "random", "parts"]
PAIRS = list(itertools.combinations_with_replacement(NAMES, 2))


def shards(tier):
    n = 8 if tier == "quick" else 56
    return [dict(k=k, n=n) for k in range(n)]


def explore(ctx, shard):
    import flory
    from mc import linesched
    from mc.core import close, fail, require

    chis = np.array([[0.0, 3.0], [3.0, 0.25]])
    chis2 = np.array([[0.5, 1.0], [1.0, 0.0]])
    sizes = np.array([1.0, 2.0])
    mean = np.array([0.4, 0.6])
    comps = np.array([[0.3, 0.7], [0.5, 0.5], [0.0, 1.0]])
    vol = np.array([1.0, 0.5, 2.0, 0.25, 1.5])
    frac = np.array([[0.1, 0.9], [0.9, 0.1], [0.1005, 0.8995], [0.5, 0.5], [0.9, 0.1]])
    w = np.array([[1.0, -1.0, 0.5, 0.2], [-0.5, 1.0, 0.0, 0.7]])
    inputs = dict(chis=chis, chis2=chis2, sizes=sizes, mean=mean, comps=comps, vol=vol, frac=frac, w=w)
    backup = {k: v.copy() for k, v in inputs.items()}
    fe = flory.FloryHuggins(2, chis, sizes)
    ens = flory.CanonicalEnsemble(2, mean)
    cons = flory.LinearGlobalConstraint(2, [1.0, -0.5], 0.1)
    inter2 = flory.FloryHugginsInteraction(2, chis2)
    shared = flory.Phases(vol, frac)
    opts = dict(num_part=4, progress=False, max_steps=8, interval=4, acceptance_Js=0.05, acceptance_omega=0.1, Js_step_upper_bound=0.1)

    def result(f, p):
        d = f.diagnostics
        return [p.volumes, p.fractions, np.array([d[k] for k in sorted(d) if k != "time"], float), f.omegas.copy()]

    def thermo(me):
        x = comps if me == 0 else comps[:2] * 0.5
        y = comps[:2] if me == 0 else comps[:2][::-1] * 0.5
        return [fe.free_energy_density(x), fe.jacobian(y), fe.jacobian(y, 1), fe.hessian(y), fe.hessian(y, 0), fe.chemical_potentials(x), fe.exchange_chemical_potentials(y, 0),
                fe.pressure(y, 1), fe.num_unstable_modes(y), fe.is_stable(y), fe.equilibration_error(y), fe.chis, fe.sizes]

    def finder(me):
        f = flory.CoexistingPhasesFinder(fe.interaction, fe.entropy, ens, cons, rng=np.random.default_rng(me), constraint_elasticity=1.0 + me, additional_chis_shift=0.5 + me, **opts)
        return result(f, f.run(tolerance=1e-4 * (1 + me)))

    def shortcut(me):
        r = flory.find_coexisting_phases(2, chis if me == 0 else chis2, mean, sizes=sizes if me == 0 else None, rng=np.random.default_rng(10 + me), **opts)
        return [r.volumes, r.fractions, np.array([r.info[k] for k in sorted(r.info) if k != "time"], float)]

    def change_start(me):
        return flory.CoexistingPhasesFinder(fe.interaction, fe.entropy, ens, cons, rng=np.random.default_rng(20 + me), **opts)

    def change(me, f):
        f.set_interaction(inter2 if me == 0 else fe.interaction, additional_chis_shift=0.25 + me)
        f.set_constraints([cons], constraint_acceptance_ratio=2.0 + me)
        f.set_ensemble(ens)
        f.set_entropy(fe.entropy)
        f.reinitialize_from_phis(0.25 * w * (1 + me))
        a = result(f, f.run(max_steps=4 + me, interval=2))
        f.reinitialize_from_omegas(w * (1 - 2 * me))
        b = result(f, f.run())
        f.reinitialize_random()
        return a + b + [f.omegas.copy()]

    def phases(me):
        p = shared
        c = p.get_clusters(0.05 if me == 0 else 0.6)
        s = p.sort()
        n = c.normalize()
        r = flory.common.PhasesResult.from_phases(n, info={"me": me}).sort()
        return [c.volumes, c.fractions, s.volumes, s.fractions, n.volumes, n.fractions, r.volumes, r.info["me"], p.mean_fractions, p.total_volume, str(p).count("0")]

    def random(me):
        rng = np.random.default_rng(30 + me)
        i = flory.FloryHugginsInteraction.from_random_normal(2 + me, 1.0 + me, 0.5, vanishing_diagonal=me == 0, rng=rng)
        a = i.chis.copy()
        i.set_random_chis(0.5, 1.0 + me, vanishing_diagonal=me == 1, rng=rng)
        b = i.chis.copy()
        i.set_uniform_chis(1.5 + me)
        g = flory.FloryHuggins.from_random_normal(2 + me, 1.0, 1.0, sizes=2.0 + me, rng=rng)
        h = flory.FloryHuggins.from_uniform(2 + me, 2.0 + me)
        return [a, b, i.chis.copy(), i.independent_entries, g.chis, g.sizes, h.chis, flory.common.phases.get_uniform_random_composition(3 + me, rng)]

    def parts(me):
        f = flory.FloryHuggins(2, chis if me == 0 else chis2, sizes)
        f.chis = chis2 if me == 0 else chis
        f.sizes = sizes[::-1] * (1 + me)
        e = flory.CanonicalEnsemble(2, mean if me == 0 else mean[::-1])
        g = flory.GrandCanonicalEnsemble.from_chemical_potential(2, np.array([0.5, -0.5]) * (1 + me), sizes)
        b = flory.FloryHugginsBlockInteraction(2, chis if me == 0 else chis2, [2, 1])
        q = flory.IdealGasPolydispersedEntropy(2, [1.0, 2.0 + me, 3.0], [2, 1])
        c = flory.LinearLocalConstraint(2, [1.0, 1.0 + me], 0.5)
        out = [f.chis, f.sizes, f.free_energy_density(comps[:2]), e.phi_means, g.scaled_activity, b.chis, q.sizes, c.Cs, c.Ts]
        for part, kw in ((f.interaction, dict(additional_chis_shift=0.5 + me)), (b, dict(additional_chis_shift=1.5 + me)), (f.entropy, {}), (q, {}), (e, {}), (g, {}),
                         (c, dict(constraint_elasticity=2.0 + me))):
            z = part.compiled(**kw)
            if hasattr(z, "potential") and hasattr(z, "incomp_coef"):
                out += [z.potential(w), z.incomp_coef(w)]
            elif hasattr(z, "prepare"):
                z.initialize(4)
                z.prepare(w, np.ones(4), np.ones(4))
                out += [z.potential.copy(), z.volume_derivative.copy(), z.evolve(0.1, np.ones(4))]
        return out

    table = dict(thermo=thermo, finder=finder, shortcut=shortcut, phases=phases, random=random, parts=parts)

    def program(name, me):
        if name == "change":
            f = change_start(me)
            return lambda: change(me, f)
        return lambda: table[name](me)

    alone, length = {}, {}
    for name in NAMES:
        for me in (0, 1):
            program(name, me)()  # compile
            alone[name, me] = program(name, me)()
            length[name, me] = linesched.lines(program(name, me))

    def same(who, got, want):
        require(len(got) == len(want), f"{who}: {len(got)} results")
        for i, (a, b) in enumerate(zip(got, want)):
            close(f"{who}: result {i}", a, b, 1e-12, 1e-14)

    def one(names, first, plan):
        p = linesched.Pair([program(names[0], 0), program(names[1], 1)], first, plan)
        ok = p.run()
        if not ok:
            ctx.count("schedules_not_followed_because_of_locks")
            return
        for me in (0, 1):
            if p.error[me] is not None:
                fail(f"thread {me} ({names[me]}): {type(p.error[me]).__name__}: {p.error[me]}")
            same(f"thread {me} ({names[me]})", p.result[me], alone[names[me], me])
        for k, v in inputs.items():
            require(np.array_equal(v, backup[k]), f"input {k} was changed")
        ctx.step(p.events)
        ctx.count("preemptions", p.switches)
        ctx.state(names, first, plan)
        ctx.outcome(names, *[np.asarray(r, float) for r in p.result[0]])

    idx = 0
    for names in PAIRS:
        for first in (0, 1):
            n1, n2 = length[names[first], first], length[names[1 - first], 1 - first]
            if not ctx.thorough:
                for i in range(n1):
                    if idx % shard["n"] == shard["k"]:
                        ctx.case(dict(programs=names, first=first, plan=[i]), one, names, first, [i])
                    idx += 1
            else:
                for i in range(0, n1, 3):
                    if idx % shard["n"] == shard["k"]:
                        for j in range(0, n2, 3):
                            ctx.case(dict(programs=names, first=first, plan=[i, j]), one, names, first, [i, j])
                    idx += 1
    # the programs alone once more: nothing was left behind
    for name in NAMES:
        for me in (0, 1):
            ctx.case(dict(programs=name, alone=me), lambda: same(name, program(name, me)(), alone[name, me]))
