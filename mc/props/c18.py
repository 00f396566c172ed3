"""C18: the one-call shortcut equals the explicit pipeline."""
import itertools

import numpy as np

from mc import alphabet as al

LEVEL = "model_checking"
RULE = ("a grid of systems (1-4 components, spellings of chi, fractions, sizes) x options of the finder, varied one by one and in all pairs, "
        "x generator states: the shortcut against the explicit pipeline; converged results against the prescribed composition")
BOUNDS = {"quick": "8 systems, 13 options singly and in pairs, 3 generator states", "thorough": "additionally all triples of options and 8 generator states"}
ASSUMPTIONS = ["equal generator states", "time is not compared"]

OPTS = {
    "num_part": dict(num_part=5), "max_steps": dict(max_steps=30, interval=30), "interval": dict(interval=7, max_steps=70), "tolerance": dict(tolerance=1e-2, interval=10, max_steps=2000),
    "random_std": dict(random_std=1.5), "acceptance_Js": dict(acceptance_Js=0.01), "acceptance_omega": dict(acceptance_omega=0.05),
    "bound": dict(Js_step_upper_bound=0.5), "kill": dict(kill_threshold=0.8), "scaler": dict(revive_scaler=1.4), "revive": dict(max_revive_per_compartment=0),
    "shift": dict(additional_chis_shift=0.25), "unknown": dict(unknown_option=1),
}
SYS = [
    ("N1", (1, [[0.5]], [1.0]), {}),
    ("N2", (2, [[0.0, 4.0], [4.0, 0.0]], [0.5, 0.5]), {}),
    ("N2s", (2, np.array([[0, 3], [3, 0]]), np.array([0.25, 0.75])), dict(sizes=[1, 2])),
    ("N2u", (2, 2.5, 0.5), dict(sizes=1.5)),
    ("N3", (3, al.CHI3, [0.16, 0.68, 0.16]), dict(sizes=[2.0, 2.0, 1.0])),
    ("N3a", (3, [[0.0, 1.0, 4.0], [2.0, 0.0, 3.0], [4.0, 1.0, 0.0]], (0.3, 0.3, 0.4)), dict(sizes=None)),
    ("N3n", (3, al.CHI3B, None), {}),
    ("N4", (4, al.CHI4, [0.1, 0.2, 0.3, 0.4]), dict(sizes=(1.0, 2.0, 0.7, 1.3))),
]


def shards(tier):
    return [dict(k=k, n=8) for k in range(8)] + [dict(part="cons"), dict(part="converged")]


def explore(ctx, shard):
    import flory
    from mc.core import close, require

    def pipeline(args, sizes_kw, opts, rng):
        n, chis, phi = args
        fe = flory.FloryHuggins(n, chis, **sizes_kw)
        f = flory.CoexistingPhasesFinder(fe.interaction, fe.entropy, flory.CanonicalEnsemble(n, phi), rng=rng, **opts)
        p = f.run()
        return p.get_clusters(0.01).sort().normalize(), f.diagnostics, p

    def one(args, sizes_kw, opts, seed, raw=False):
        base = dict(max_steps=60, interval=20, progress=False)
        base.update(opts)
        r1, r2 = np.random.default_rng(seed), np.random.default_rng(seed)
        want, info, phases = pipeline(args, sizes_kw, base, r1)
        got = flory.find_coexisting_phases(*args, **sizes_kw, rng=r2, **base)
        require(type(got) is flory.common.PhasesResult, "kind of the result")
        close("volumes", got.volumes, want.volumes, 1e-10, 1e-12)
        close("fractions", got.fractions, want.fractions, 1e-10, 1e-12)
        require(set(got.info) == set(info), lambda: f"information {sorted(got.info)} instead of {sorted(info)}")
        for k in info:
            if k != "time":
                close(k, got.info[k], info[k], 1e-10, 1e-12)
        require(np.isfinite(got.info["time"]) and got.info["time"] >= 0, "time")
        close("sum of volumes", got.volumes.sum(), 1.0, 1e-12)
        require(np.all(got.volumes > 0), "volumes")
        close("number of components", got.num_components, args[0])
        close("generator afterwards", r2.random(3), r1.random(3), 0, 0)
        # conservation of what the finder returned
        close("mean composition", got.mean_fractions, phases.mean_fractions, 1e-9, 1e-10)
        ctx.step(int(info["steps"]))
        ctx.state(str(args), str(opts), seed)
        ctx.outcome(got.volumes, got.fractions)
        return got

    if shard.get("part") == "cons":
        L, G = flory.LinearLocalConstraint, flory.LinearGlobalConstraint
        for tag, args, skw in SYS[1:]:
            n = args[0]
            for c, cons in (("L", L(n, np.arange(n) - 0.5, 0.1)), ("[G]", [G(n, np.ones((2, n)) * np.array([[1], [2]]), [1.0, 2.0])]), ("None", None), ("LG", (L(n, np.ones(n), 1.0), G(n, np.arange(n), 0.5)))):
                for kw in ({}, dict(constraint_elasticity=0.2), dict(constraint_acceptance_ratio=3.0, num_part=4)):
                    ctx.case(dict(sys=tag, constraints=c, options=list(kw)), one, args, skw, dict(constraints=cons, **kw), 1)
        return

    if shard.get("part") == "converged":
        def conv(args, skw, opts, seed):
            got = one(args, skw, opts, seed)
            i = got.info
            tol = opts["tolerance"]
            if all(i[k] < tol for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue")):
                ctx.count("converged")
                n = args[0]
                phi = np.broadcast_to(np.full(n, 1 / n) if args[2] is None else np.asarray(args[2], float), (n,))
                close("prescribed composition", got.mean_fractions, phi, 0, 50 * tol)
                close("sum of fractions", got.fractions.sum(1), np.ones(got.num_phases), 0, 50 * tol)
        for tag, args, skw in SYS:
            if tag == "N2u":
                continue
            for acc in (dict(acceptance_Js=0.0002, acceptance_omega=0.002), dict(acceptance_Js=0.002, acceptance_omega=0.02)):
                for std in (0.5, 3.0):
                    for tol in (1e-4, 1e-6):
                        for seed in range(8 if ctx.thorough else 3):
                            o = dict(acc, random_std=std, tolerance=tol, max_steps=60000, interval=1000)
                            ctx.case(dict(sys=tag, options={k: v for k, v in o.items()}, seed=seed), conv, args, skw, o, seed)
        # the documented call without any options but the generator
        def docs(seed):
            r1, r2 = np.random.default_rng(seed), np.random.default_rng(seed)
            a = flory.find_coexisting_phases(2, [[0, 4.0], [4.0, 0]], [0.5, 0.5], rng=r1, progress=False)
            w, info, _ = pipeline((2, [[0, 4.0], [4.0, 0]], [0.5, 0.5]), {}, dict(progress=False), r2)
            close("volumes", a.volumes, w.volumes, 1e-9)
            close("fractions", a.fractions, w.fractions, 1e-9)
            close("steps", a.info["steps"], info["steps"])
        for seed in range(3):
            ctx.case(dict(documented_call=seed), docs, seed)
        return

    combos = [()] + [(a,) for a in OPTS] + list(itertools.combinations(OPTS, 2))
    if ctx.thorough:
        combos += list(itertools.combinations(OPTS, 3))
    jobs = [(tag, args, skw, c, seed) for tag, args, skw in SYS for c in combos for seed in range(8 if ctx.thorough else 3)]
    for i, (tag, args, skw, c, seed) in enumerate(jobs):
        if i % shard["n"] == shard["k"]:
            opts = {}
            for k in c:
                opts.update(OPTS[k])
            ctx.case(dict(sys=tag, options=list(c), seed=seed), one, args, skw, opts, seed)
