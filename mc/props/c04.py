"""C04: finders are isolated from each other, from their inputs and from their results."""
import itertools

import numpy as np

LEVEL = "model_checking"
RULE = ("all interleavings of the programs of two finders that share all part objects and input arrays, with one environment "
        "action (editing input arrays, updating the shared parts, editing the arrays the parts expose, editing returned results and "
        "diagnostics, compiling or running a third finder) at every position; every result is compared with the program "
        "run alone, inputs and all earlier results must stay unchanged")
BOUNDS = {"quick": "2 finders x 5 operations (252 interleavings, up to exchanging the finders in 3 of the worlds), 9 environment actions at every position, 5 worlds (types of parts), long programs of one finder",
          "thorough": "2 finders x 6 operations (924 interleavings), 5 worlds, two environment actions"}
ASSUMPTIONS = ["each finder has its own random number generator"]

WORLDS = ["can-L", "gc-G", "poly-LG", "can-none", "polygc-L"]


def shards(tier):
    n = {"quick": 2, "thorough": 4}[tier]
    return [dict(world=w, k=k, n=n) for w in WORLDS for k in range(n)]


def explore(ctx, shard):
    import flory
    from mc import build
    from mc.core import Skip, close, require

    kind, cv = shard["world"].split("-")
    S = 2
    poly = kind.startswith("poly")
    N = 3 if poly else 2
    M = 4

    VAL = {
        "A": dict(chis=[[0.0, 2.5], [2.5, 0.5]], sizes=[1.0, 1.5, 0.75][:N], ens=[0.4, 0.35, 0.25] if poly else [0.4, 0.6], Cl=[[1.0, -1.0]], Tl=[0.125], Cg=[[1.0, 0.5], [0.25, 1.0]], Tg=[0.5, 0.4], groups=[2, 1]),
        "B": dict(chis=[[-1.0, 1.0], [1.0, 0.25]], sizes=[2.0, 0.5, 1.25][:N], ens=[0.2, 0.5, 0.3] if poly else [0.7, 0.3], Cl=[[0.5, 0.5]], Tl=[0.25], Cg=[[0.5, -0.5], [1.0, 1.0]], Tg=[0.1, 0.9], groups=[2, 1]),
    }

    class Env:
        """shared arrays and objects"""

        def __init__(self, version="A"):
            self.a = {k: np.array(v, int if k == "groups" else float) for k, v in VAL[version].items()}
            a = self.a
            if poly:
                self.inter = flory.FloryHugginsBlockInteraction(S, a["chis"], a["groups"])
                self.entr = flory.IdealGasPolydispersedEntropy(S, a["sizes"], a["groups"])
            else:
                self.fe = flory.FloryHuggins(S, a["chis"], a["sizes"])
                self.inter, self.entr = self.fe.interaction, self.fe.entropy
            self.ens = flory.GrandCanonicalEnsemble(N, a["ens"]) if kind.endswith("gc") else flory.CanonicalEnsemble(N, a["ens"])
            self.loc = flory.LinearLocalConstraint(S, a["Cl"], a["Tl"])
            self.glo = flory.LinearGlobalConstraint(S, a["Cg"], a["Tg"])
            self.cons = {"L": [self.loc], "G": [self.glo], "LG": [self.loc, self.glo], "none": []}[cv]
            self.kwargs = {"constraint_elasticity": 0.5}
            self.kw_ind = [{"constraint_acceptance_ratio": 2.0}] * len(self.cons)
            self.version = version
            self.spoiled = False

        def chis_attr(self):
            return "chis_feat" if poly else "chis"

        def snapshot(self):
            out = [np.array(v, copy=True) for v in self.a.values()]
            out += [np.array(getattr(self.inter, self.chis_attr())), np.array(self.entr.sizes), np.array(self.ens.scaled_activity if kind.endswith("gc") else self.ens.phi_means),
                    np.array(self.loc.Cs), np.array(self.loc.Ts), np.array(self.glo.Cs), np.array(self.glo.Ts)]
            return out

        def update(self):
            """set version B through the public interface, leaving the input arrays alone"""
            b = VAL["B"]
            setattr(self.inter, self.chis_attr(), b["chis"])
            self.entr.sizes = b["sizes"]
            setattr(self.ens, "scaled_activity" if kind.endswith("gc") else "phi_means", b["ens"])
            self.loc.Cs, self.loc.Ts, self.glo.Cs, self.glo.Ts = b["Cl"], b["Tl"], b["Cg"], b["Tg"]
            self.version = "B"

        def scribble_exposed(self):
            arrs = [getattr(self.inter, self.chis_attr()), self.inter.chis, self.entr.sizes, self.loc.Cs, self.loc.Ts, self.glo.Cs, self.glo.Ts,
                    self.ens.scaled_activity if kind.endswith("gc") else self.ens.phi_means]
            if poly:
                arrs.append(self.inter.num_comp_per_feat)
            for x in arrs:
                if x.flags.writeable:
                    x[...] = 3
            self.version = None

        def inplace_methods(self):
            if poly:
                self.scribble_exposed()
            else:
                self.inter.set_random_chis(1.0, 2.0, rng=np.random.default_rng(0))
                self.version = None

        def scribble_inputs(self):
            for x in self.a.values():
                x[...] = 7

    W = [build.field(S, M, 0, 0.7), build.field(S, M, 2, 0.4)]
    P = [np.array([[0.2, 0.4, 0.6, 0.9], [0.7, 0.5, 0.5, 0.2]]), np.array([[0.5, 0.1, 0.8, 0.3], [0.3, 0.9, 0.1, 0.6]])]
    PROG = ["create", "run", "omegas", "set", "run"] + (["phis-run"] if ctx.thorough else [])

    class Prog:
        """one finder and its inputs and outputs"""

        def __init__(self, i, env):
            self.i, self.env = i, env
            self.w = W[i].copy()
            self.p = P[i].copy()
            self.pc = 0
            self.used = []
            self.out = []   # observations
            self.live = []  # (returned object, copy)

        def step(self):
            op = PROG[self.pc]
            self.pc += 1
            env = self.env
            if op == "create":
                self.used.append(env.version)
                self.f = flory.CoexistingPhasesFinder(env.inter, env.entr, env.ens, env.cons, num_part=M, progress=False, rng=np.random.default_rng(self.i),
                                                      acceptance_Js=0.2, acceptance_omega=0.1, Js_step_upper_bound=5.0, random_std=0.7, tolerance=1e-30,
                                                      kill_threshold=0.6, max_revive_per_compartment=1, **env.kwargs)
                self.out.append(self.f.omegas.copy())
            elif op == "run":
                self.run()
            elif op == "omegas":
                self.f.reinitialize_from_omegas(self.w)
            elif op == "set":
                self.used.append(env.version)
                self.f.set_interaction(env.inter)
                self.f.set_constraints(env.cons, kwargs_individual=env.kw_ind)
                self.f.set_ensemble(env.ens, if_reset_revive=False)
                self.f.set_entropy(env.entr, if_reset_revive=False)
            elif op == "phis-run":
                self.f.reinitialize_from_phis(self.p)
                self.run()

        def run(self):
            r = self.f.run(max_steps=3, interval=3)
            d = build.diag(self.f)
            obs = [self.f.omegas.copy(), r.volumes.copy(), r.fractions.copy(), np.array(list(d.values()), float)]
            self.out += obs
            self.live.append((r, obs[1:3], self.f.diagnostics, dict(d)))

        def check_live(self):
            for r, (v, fr), dg, d in self.live:
                close("volumes of an earlier result", r.volumes, v, 0, 0)
                close("fractions of an earlier result", r.fractions, fr, 0, 0)
                require(all(dg[k] == d[k] for k in d), "diagnostics handed out earlier changed")

    solo = {}

    def alone(i, versions):
        """the program run alone, from parts that have these versions when they are used"""
        key = (i, versions)
        if key not in solo:
            env = Env(versions[0])
            p = Prog(i, env)
            for k in range(len(PROG)):
                if PROG[k] == "set" and len(versions) > 1 and versions[1] != env.version:
                    p.env = Env(versions[1])
                p.step()
            solo[key] = p.out
        return solo[key]

    def actions():
        def inputs(env, ps):
            env.scribble_inputs()

        def update(env, ps):
            env.update()

        def exposed(env, ps):
            env.scribble_exposed()

        def methods(env, ps):
            env.inplace_methods()

        def results(env, ps):
            for p in ps:
                for r, *_ in p.live:
                    for x in (r.volumes, r.fractions):
                        if x.flags.writeable:
                            x[...] = -3.0
                p.live = []

        def diagnostics(env, ps):
            for p in ps:
                for _, _, dg, _ in p.live:
                    dg.clear()
                p.live = []

        def fields(env, ps):
            for p in ps:
                if p.pc > PROG.index("omegas"):
                    p.w[...] = 11.0

        def third(env, ps):
            f = flory.CoexistingPhasesFinder(env.inter, env.entr, env.ens, env.cons, num_part=M, progress=False, rng=np.random.default_rng(9), tolerance=1e-30,
                                             acceptance_Js=0.2, acceptance_omega=0.1, Js_step_upper_bound=5.0, **env.kwargs)
            f.run(max_steps=2, interval=1)
            f.reinitialize_random()
            f.set_constraints(env.cons)
            f.run(max_steps=2, interval=1)

        def compiled(env, ps):
            for o in (env.inter, env.entr, env.ens, env.loc, env.glo):
                o.compiled()

        def lists(env, ps):
            env.kwargs["constraint_elasticity"] = 9.0
            env.kw_ind.clear()
            env.cons.clear()
            env.spoiled = True
        return dict(nothing=None, inputs=inputs, update=update, exposed=exposed, methods=methods, results=results, diagnostics=diagnostics, fields=fields,
                    third=third, compiled=compiled, lists=lists)
    ACT = actions()
    PURE = ("nothing", "third", "compiled", "results", "diagnostics")

    def one(order, plan):
        """order: which finder moves; plan: {position: action}"""
        env = Env("A")
        before = env.snapshot()
        ps = [Prog(0, env), Prog(1, env)]
        for pos in range(len(order) + 1):
            if pos in plan and ACT[plan[pos]] is not None:
                ACT[plan[pos]](env, ps)
            if pos < len(order):
                if (env.version is None or env.spoiled) and PROG[ps[order[pos]].pc] in ("create", "set"):
                    raise Skip  # what the scribbled object now describes is not specified
                ps[order[pos]].step()
                ctx.step()
            for p in ps:
                p.check_live()
        if all(a in PURE for a in plan.values()):
            for k, (x, y) in enumerate(zip(env.snapshot(), before)):
                close(f"input {k} after use", x, y, 0, 0)
        for p in ps:
            want = alone(p.i, tuple(p.used)) if p.used else []
            require(len(want) >= len(p.out), "observations")
            for k, (x, y) in enumerate(zip(p.out, want)):
                close(f"finder {p.i}: observation {k}", x, y, 1e-9, 1e-11)
            if p.pc > PROG.index("omegas") and "fields" not in plan.values():
                close("fields given to the finder", p.w, W[p.i], 0, 0)
            close("fractions given to the finder", p.p, P[p.i], 0, 0)
        ctx.state(shard["world"], order, str(plan))
        ctx.outcome(*[x for p in ps for x in p.out])

    n = len(PROG)
    jobs = []
    for sel in itertools.combinations(range(2 * n), n):
        if sel[0] != 0 and not ctx.thorough and shard["world"] not in ("can-L", "poly-LG"):
            continue  # the finder that is created first is called 0
        order = [0 if i in sel else 1 for i in range(2 * n)]
        jobs.append((order, {}))
        for pos in range(1, 2 * n + 1):
            for a in ACT:
                if a != "nothing":
                    jobs.append((order, {pos: a}))
    # a single finder with an action at every pair of positions
    for pos in itertools.combinations(range(1, n + 1), 2):
        for a, b in itertools.product([x for x in ACT if x != "nothing"], repeat=2):
            jobs.append(([0] * n, {pos[0]: a, pos[1]: b}))
    for i, (order, plan) in enumerate(jobs):
        if i % shard["n"] == shard["k"]:
            ctx.case(dict(world=shard["world"], order="".join(map(str, order)), actions={str(k): v for k, v in plan.items()}), one, order, plan)
