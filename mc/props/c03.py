"""C03: every accepted way of writing a parameter describes the same system."""
import itertools

import numpy as np

LEVEL = "model_checking"
FAST_COMPILE = True
RULE = ("for every parameter class and size, all spellings of several parameter values (scalar, list, tuple, dtypes, memory "
        "layouts, byte order, read-only, broadcast forms, asymmetric forms, defaults, convenience constructors) are built and "
        "compared in getters, thermodynamic values and compiled behaviour; finders are built from all combinations of "
        "spellings of their parts, fields, number of compartments and defaults and compared along the trajectory")
BOUNDS = {"quick": "1-4 components, 2-3 values per parameter; full product of 4-6 spellings per part in finders",
          "thorough": "1-5 components, full product of all spellings per part in finders"}
ASSUMPTIONS = ["parameter values are exactly representable in single precision; single precision spellings are compared to single precision"]

FIND = [("can", "none"), ("can", "L"), ("gc", "G"), ("poly", "none"), ("poly", "L"), ("fields", "none"), ("defaults", "none"), ("can", "LG"), ("options", "none")]


def shards(tier):
    N = 5 if tier == "thorough" else 4
    return [dict(part="find", kind=k, cons=c) for k, c in reversed(FIND)] + [dict(part="obj", n=n) for n in range(N, 0, -1)]


def layouts(a):
    """different arrays, sequences and scalars with the same values"""
    a = np.asarray(a, float)
    yield "float64", a.copy()
    yield "list", a.tolist()
    yield "float32", a.astype(np.float32)
    yield "bigendian", a.astype(">f8")
    ro = a.copy()
    ro.setflags(write=False)
    yield "readonly", ro
    if a.ndim >= 1:
        yield "tuple", tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist())
        big = np.full(tuple(2 * s for s in a.shape), 9.75)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        yield "strided", big[tuple(slice(None, None, 2) for _ in a.shape)]
        rev = np.ascontiguousarray(a[..., ::-1])
        yield "reversed view", rev[..., ::-1]
        yield "list of arrays", [np.array(x) for x in a]
    if a.ndim == 2:
        yield "fortran", np.asfortranarray(a)
        yield "transposed view", np.ascontiguousarray(a.T).T
    if a.ndim == 0:
        yield "python", float(a)
        yield "numpy scalar", np.float64(a)
        yield "length one", [float(a)]
    if np.all(a == np.round(a)):
        yield "int64", a.astype(int)
        yield "int list", a.astype(int).tolist()
        yield "int32", a.astype(np.int32)
        yield "int8", a.astype(np.int8)
        if a.ndim == 0:
            yield "int", int(a)
        if np.all(a >= 0):
            yield "uint8", a.astype(np.uint8)


def broadcasts(a):
    """shorter forms that broadcast to the array `a`"""
    a = np.asarray(a, float)
    yield "full", a
    if a.size and np.all(a == a.flat[0]):
        yield "scalar", np.array(a.flat[0])
        yield "one", np.array([a.flat[0]])
        if a.ndim == 2:
            yield "one by one", np.array([[a.flat[0]]])
    if a.ndim == 2 and a.shape[0] > 1 and np.all(a == a[0]):
        yield "row", a[0]
        yield "one row", a[:1]
    if a.ndim == 2 and a.shape[0] == 1:
        yield "1d", a[0]


def spell(a):
    seen = set()
    for b, x in broadcasts(a):
        for l, y in layouts(x):
            if b != "full" and l not in ("float64", "list", "int", "python", "int64", "float32", "readonly"):
                continue
            yield f"{b}/{l}", y


def sym_spell(a):
    """spellings of a symmetric matrix, including asymmetric ones with the same symmetric part"""
    a = np.asarray(a, float)
    n = len(a)
    yield from spell(a)
    if n > 1:
        sk = np.array([[(i - j) * 0.5 for j in range(n)] for i in range(n)])
        yield "asymmetric", a + sk
        yield "asymmetric fortran", np.asfortranarray(a - 2 * sk)
        yield "asymmetric list", (a + sk).tolist()
        tri = 2 * np.triu(a, 1) + np.diag(np.diag(a))
        yield "upper triangle", tri
        yield "lower triangle", tri.T.copy()


def sym_values(n):
    yield "zero", np.zeros((n, n))
    yield "two", np.full((n, n), 2.0)
    yield "minus half", np.full((n, n), -0.5)
    yield "ints", np.array([[float((i * j + i + j) % 5 - 1) for j in range(n)] for i in range(n)])
    yield "dyadic", np.array([[0.25 * ((3 * i * j + i + j) % 11) - 0.5 for j in range(n)] for i in range(n)])
    r = np.array([0.5 * i * i + 0.25 for i in range(n)])
    yield "from row", 0.5 * (r[None, :] + r[:, None])
    off = np.full((n, n), 3.0)
    np.fill_diagonal(off, 0.0)
    yield "uniform", off


def vec_values(n):
    yield "ones", np.ones(n)
    yield "two", np.full(n, 2.0)
    yield "ints", np.arange(1.0, n + 1)
    yield "dyadic", np.array([0.5 + 0.25 * ((5 * i) % 7) for i in range(n)])


def explore(ctx, shard):
    import flory
    from mc import build, observe
    from mc.core import close, require

    def compare(got, want, tag):
        require(len(got) == len(want), tag)
        for i, (g, w) in enumerate(zip(got, want)):
            tol = (1e-5, 1e-6) if "float32" in tag else (1e-9, 1e-11)  # single precision input may be evaluated in single precision
            close(f"{tag}: observation {i}", g, w, *tol)
        ctx.step(len(got))
        ctx.state(tag, *got)
        ctx.outcome(*got)

    if shard["part"] == "obj":
        n = shard["n"]

        def family(cls, what, value, obs, ctors):
            """all constructors must give the same observation as the first"""
            ref = None
            for name, make in ctors:
                tag = f"{cls} {what} {value} {name}"

                def one():
                    o = make()
                    got = obs(o)
                    if ref is not None:
                        compare(got, ref, tag)
                    return got
                got = ctx.case(dict(cls=cls, n=n, param=what, value=value, spelling=name), one)
                if ref is None:
                    ref = got if ctx.only is None else one()
                if ref is None:
                    return

        F, FI, B, E, P, C, G = (flory.FloryHuggins, flory.FloryHugginsInteraction, flory.FloryHugginsBlockInteraction, flory.IdealGasEntropy,
                                flory.IdealGasPolydispersedEntropy, flory.CanonicalEnsemble, flory.GrandCanonicalEnsemble)

        def updated(o, attr, v):
            setattr(o, attr, v)
            return o

        for val, a in sym_values(n):
            sp = list(sym_spell(a))
            if val == "from row":
                sp += [("row/" + l, x) for l, x in layouts([0.5 * i * i + 0.25 for i in range(n)])]
                sp += [("column", np.array([[0.5 * i * i + 0.25] for i in range(n)]))]
            extra, extraf = [], []
            if val == "uniform":
                for c in (3, 3.0, np.float32(3), np.int64(3)):
                    extra += [(f"from_uniform {type(c).__name__}", lambda c=c: FI.from_uniform(n, c)),
                              (f"from_uniform vanishing {type(c).__name__}", lambda c=c: FI.from_uniform(n, c, vanishing_diagonal=True))]
                    extraf += [(f"from_uniform {type(c).__name__}", lambda c=c: F.from_uniform(n, c))]
            if val in ("two", "minus half", "zero"):
                c = a.flat[0]
                extra += [("from_uniform full", lambda c=c: FI.from_uniform(n, c, vanishing_diagonal=False))]
                extraf += [("from_uniform full", lambda c=c: F.from_uniform(n, c, vanishing_diagonal=False))]
            ctors = [(s, lambda x=x: FI(n, x)) for s, x in sp] + extra
            ctors += [("keywords", lambda: FI(num_comp=n, chis=a)), ("numpy count", lambda: FI(np.int64(n), a))]
            ctors += [("set " + s, lambda x=x: updated(FI(n, 7), "chis", x)) for s, x in sp]
            family("interaction", "chis", val, observe.inter, ctors)
            ctors = [(s, lambda x=x: F(n, x)) for s, x in sp] + extraf
            ctors += [("set " + s, lambda x=x: updated(F(n, 7), "chis", x)) for s, x in sp] + [("sizes None", lambda: F(n, a, None)), ("sizes 1", lambda: F(n, a, 1)), ("keyword sizes", lambda: F(n, a, sizes=np.ones(n)))]
            family("free energy", "chis", val, observe.fe, ctors)
            for groups in ([1] * n, [2] * n, [1 + i % 2 for i in range(n)]):
                g = np.array(groups)
                gs = [("array", g), ("list", groups), ("tuple", tuple(groups)), ("int32", g.astype(np.int32))]
                if len(set(groups)) == 1:
                    gs += [("int", groups[0]), ("one", [groups[0]])]
                ctors = [(f"{s} groups {gn}", lambda x=x, gv=gv: B(n, x, gv)) for s, x in sp for gn, gv in gs]
                if groups == [1] * n:
                    ctors += [(f"{s} groups omitted", lambda x=x: B(n, x)) for s, x in sp]
                family("block interaction", f"chis groups {groups}", val, observe.block, ctors)
            if n <= 3:
                family("block as component", "chis", val, observe.inter,
                       [("components", lambda: FI(n, a)), ("blocks of one", lambda: B(n, a, 1))])
        for val, a in vec_values(n):
            sp = list(spell(a))
            ctors = [(s, lambda x=x: E(n, x)) for s, x in sp]
            if val == "ones":
                ctors += [("omitted", lambda: E(n)), ("None", lambda: E(n, None))]
            ctors += [("set " + s, lambda x=x: updated(E(n, 3), "sizes", x)) for s, x in sp]
            family("entropy", "sizes", val, observe.entropy, ctors)
            ctors = [(s, lambda x=x: F(n, 1.5, x)) for s, x in sp] + [("set " + s, lambda x=x: updated(F(n, 1.5, 3), "sizes", x)) for s, x in sp]
            if val == "ones":
                ctors += [("omitted", lambda: F(n, 1.5))]
            ctors += [("from_uniform", lambda: F.from_uniform(n, 1.5, sizes=a, vanishing_diagonal=False))]
            family("free energy", "sizes", val, observe.fe, ctors)
            for groups in ([n], [1] * n, [1, n - 1] if n > 1 else [1]):
                S = len(groups)
                gs = [("list", groups), ("array", np.array(groups)), ("int32", np.array(groups, np.int32))] + ([("int", groups[0])] if len(set(groups)) == 1 else [])
                ctors = [(f"{s} groups {gn}", lambda x=x, gv=gv: P(S, x, gv)) for s, x in sp for gn, gv in gs]
                if groups == [1] * n:
                    ctors += [(f"{s} groups omitted", lambda x=x: P(S, x)) for s, x in sp]
                if val == "ones":
                    ctors += [(f"omitted groups {gn}", lambda gv=gv: P(S, num_comp_per_feat=gv)) for gn, gv in gs]
                ctors += [("set " + s, lambda x=x: updated(P(S, 3, groups), "sizes", x)) for s, x in sp]
                family("polydisperse entropy", f"sizes groups {groups}", val, observe.entropy, ctors)
            family("polydisperse as component", "sizes", val, observe.entropy, [("components", lambda: E(n, a)), ("groups of one", lambda: P(n, a, 1))])
            ctors = [(s, lambda x=x: G(n, x)) for s, x in sp] + [("set " + s, lambda x=x: updated(G(n, 3), "scaled_activity", x)) for s, x in sp]
            family("grand canonical", "activity", val, observe.gc, ctors)
        for val, a in [("equal", np.full(n, 1 / n)), ("unit", np.array([1.0] + [0.0] * (n - 1))), ("dyadic", np.array([0.5 ** (i + 1) for i in range(n - 1)] + [0.5 ** (n - 1)]))]:
            exact = val != "equal" or n in (1, 2, 4)
            sp = [(s, x) for s, x in spell(a) if exact or "float32" not in s]
            ctors = [(s, lambda x=x: C(n, x)) for s, x in sp] + [("set " + s, lambda x=x: updated(C(n, np.ones(n) / n), "phi_means", x)) for s, x in sp]
            if val == "equal":
                ctors += [("omitted", lambda: C(n)), ("None", lambda: C(n, None))]
            family("canonical", "phi_means", val, observe.can, ctors)
        # grand canonical from chemical potentials: activity l*exp(l*mu)
        for val, mu in [("zero", np.zeros(n)), ("minus one", -np.ones(n)), ("dyadic", np.array([0.25 * i - 0.5 for i in range(n)]))]:
            for sv, l in [("omitted", None)] + list(vec_values(n)):
                ll = np.ones(n) if l is None else l
                ctors = [("activity", lambda: G(n, ll * np.exp(ll * mu)))]
                sls = [("omitted", None)] if l is None else list(spell(l))
                for s, x in spell(mu):
                    if "float32" in s or "int8" in s:
                        continue
                    for s2, y in sls:
                        if s2.split("/")[1:] and s2.split("/")[1] in ("float32", "int8", "uint8"):
                            continue
                        ctors.append((f"mu {s} sizes {s2}", (lambda x=x: G.from_chemical_potential(n, x)) if y is None else (lambda x=x, y=y: G.from_chemical_potential(n, x, y))))
                family("grand canonical", f"mu sizes {sv}", val, observe.gc, ctors)
        for cname, cls in (("local", flory.LinearLocalConstraint), ("global", flory.LinearGlobalConstraint)):
            for val, Cm, T in [("one", np.array([[1.0 - 0.5 * i for i in range(n)]]), np.array([0.25])),
                               ("two", np.array([[1.0] * n, [1.0] * n]), np.array([0.5, 0.5])),
                               ("mixed", np.array([[float(i) for i in range(n)], [1.0 - i for i in range(n)]]), np.array([1.0, 0.0])),
                               ("three", np.array([[0.5 * ((i + 2 * j) % 3) for i in range(n)] for j in range(3)]), np.array([0.5, 0.25, 0.125]))]:
                K = len(Cm)
                csp = [(s, x) for s, x in spell(Cm) if not (K > 1 and s.split("/")[0] not in ("full",))]
                ctors = [(f"Cs {s} Ts {s2}", lambda x=x, y=y: cls(n, x, y)) for s, x in csp for s2, y in spell(T)]
                ctors += [(f"set Cs {s}", lambda x=x: updated(cls(n, np.zeros((K, n)), T), "Cs", x)) for s, x in spell(Cm)]
                ctors += [(f"set Ts {s}", lambda y=y: updated(cls(n, Cm, np.zeros(K)), "Ts", y)) for s, y in spell(T)]
                if n == 1 and K == 1:
                    ctors += [("scalar", lambda: cls(n, Cm[0, 0], T[0]))]
                family(cname, "Cs Ts", val, observe.cons, ctors)
        # keyword arguments a part does not know are ignored by it
        kw = dict(additional_chis_shift=2.5, constraint_acceptance_ratio=2.5, constraint_elasticity=0.25, unknown=1, sizes=3, chis=None)
        for nm, obj, ob, known in [
                ("interaction", FI(n, 1.5), observe.inter_compiled, dict(additional_chis_shift=2.5)),
                ("block", B(n, 1.5, 2), observe.inter_compiled, dict(additional_chis_shift=2.5)),
                ("entropy", E(n, 2), observe.entropy_compiled, {}), ("poly", P(n, 2, 2), observe.entropy_compiled, {}),
                ("can", C(n), observe.ens_compiled, {}), ("gc", G(n, 0.5), observe.ens_compiled, {}),
                ("local", flory.LinearLocalConstraint(n, np.ones(n), 0.5), observe.cons_compiled, dict(constraint_acceptance_ratio=2.5, constraint_elasticity=0.25)),
                ("global", flory.LinearGlobalConstraint(n, np.ones(n), 0.5), observe.cons_compiled, dict(constraint_acceptance_ratio=2.5, constraint_elasticity=0.25)),
                ("no", flory.NoConstraint(n), observe.cons_compiled, {})]:
            ctx.case(dict(cls=nm, n=n, what="unknown keyword arguments"), lambda: compare(ob(obj.compiled(**kw)), ob(obj.compiled(**known)), nm))
        return

    # ------------------------------------------------------------------ finders
    kind, cv = shard["kind"], shard["cons"]
    chis = np.array([[0.0, 2.0, 1.0], [2.0, 0.0, 3.0], [1.0, 3.0, 0.0]])
    sizes = np.array([1.0, 2.0, 0.5])
    means = np.array([0.25, 0.25, 0.5])
    n, M = 3, 4

    def some(gen, names):
        out = [(s, x) for s, x in gen if ctx.thorough or any(k == s for k in names)]
        return out

    inter_sp = some(sym_spell(chis), ["full/float64", "full/list", "full/int32", "asymmetric fortran", "full/fortran"])
    size_sp = some(spell(sizes), ["full/float64", "full/tuple", "full/float32", "full/strided"])
    mean_sp = some(spell(means), ["full/float64", "full/list", "full/float32", "full/reversed view", "full/readonly"])
    Cl, Tl = np.array([[1.0, -1.0, 0.0]]), np.array([0.0])
    Cg, Tg = np.array([[1.0, 0.0, 2.0], [0.0, 1.0, 1.0]]), np.array([0.5, 0.5])
    L, Gc = flory.LinearLocalConstraint, flory.LinearGlobalConstraint
    none_sp = [("omitted", "omit"), ("None", None), ("list", []), ("tuple", ()), ("NoConstraint", flory.NoConstraint(3)), ("[NoConstraint]", [flory.NoConstraint(3)])]
    cl, cg = L(3, Cl, Tl), Gc(3, Cg, Tg)
    cons_sp = {"none": none_sp,
               "L": [("single", cl), ("list", [cl]), ("tuple", (cl,)), ("1d", L(3, Cl[0], 0)), ("1d list", [L(3, [1, -1, 0], [0])]), ("fortran", L(3, np.asfortranarray(Cl), Tl))],
               "G": [("single", cg), ("list", [cg]), ("tuple", (cg,)), ("scalar target", Gc(3, Cg.tolist(), 0.5)), ("fortran", (Gc(3, np.asfortranarray(Cg), [0.5]),)), ("ints", [Gc(3, Cg.astype(int), Tg)])],
               "LG": [("list", [cl, cg]), ("tuple", (cl, cg)), ("1d", [L(3, Cl[0], 0), Gc(3, np.asfortranarray(Cg), 0.5)])]}[cv]

    if kind == "poly":
        groups = [1, 2, 1]
        psz = np.array([1.0, 2.0, 0.5, 1.0])
        inters = [(s + g, flory.FloryHugginsBlockInteraction(3, x, gv)) for s, x in inter_sp for g, gv in ((" list", groups), (" array", np.array(groups)))]
        entrs = [(s, flory.IdealGasPolydispersedEntropy(3, x, groups)) for s, x in some(spell(psz), ["full/float64", "full/tuple", "full/int8"])]
        enss = [("none", flory.CanonicalEnsemble(4)), ("scalar", flory.CanonicalEnsemble(4, 0.25)), ("list", flory.CanonicalEnsemble(4, [0.25] * 4))]
    else:
        inters = [(s, flory.FloryHugginsInteraction(3, x)) for s, x in inter_sp] + [("free energy", flory.FloryHuggins(3, chis, sizes).interaction)]
        entrs = [(s, flory.IdealGasEntropy(3, x)) for s, x in size_sp] + [("free energy", flory.FloryHuggins(3, chis, sizes).entropy)]
        if kind == "gc":
            enss = [(s, flory.GrandCanonicalEnsemble(3, x)) for s, x in mean_sp]
        else:
            enss = [(s, flory.CanonicalEnsemble(3, x)) for s, x in mean_sp]

    opts = dict(num_part=M, progress=False, acceptance_Js=0.1, acceptance_omega=0.1, Js_step_upper_bound=0.5, random_std=1.0,
                constraint_elasticity=0.5, constraint_acceptance_ratio=2.0, additional_chis_shift=0.5)

    def make(i, e, s, c, **kw):
        args = (i, e, s) if isinstance(c, str) else (i, e, s, c)
        return flory.CoexistingPhasesFinder(*args, **{**opts, **kw, "rng": np.random.default_rng(5)})

    base = observe.finder(make(inters[0][1], entrs[0][1], enss[0][1], cons_sp[0][1]))

    if kind == "fields":
        w = np.array([[float((3 * r + 5 * m) % 7 - 3) for m in range(M)] for r in range(3)])
        p = np.array([[0.25 * ((r + m) % 3) + 0.25 for m in range(M)] for r in range(3)])
        f = make(inters[0][1], entrs[0][1], enss[0][1], "omit")
        for meth, a in (("reinitialize_from_omegas", w), ("reinitialize_from_phis", p)):
            want = None
            for s, x in spell(a):
                def one():
                    getattr(f, meth)(x)
                    return observe.finder(f)
                if want is None:
                    want = one()
                else:
                    ctx.case(dict(method=meth, spelling=s), lambda: compare(one(), want, f"{meth} {s}"))
        # numbers of compartments and steps as numpy integers, floats for steps
        for s, kw in [("num_part numpy", dict(num_part=np.int64(M))), ("unknown", dict(foo=1, bar="x")), ("progress", dict(progress=True)),
                      ("max_steps float", dict(max_steps=5.0))]:
            ctx.case(dict(option=s), lambda: compare(observe.finder(make(inters[0][1], entrs[0][1], enss[0][1], "omit", **kw)), base, s))
        return

    if kind == "options":
        # numeric options written as int, float or numpy scalars; an option given as zero is not an omitted one
        parts = inters[0][1], entrs[0][1], enss[0][1]
        cl2 = flory.LinearLocalConstraint(3, Cl, Tl)
        cg2 = flory.LinearGlobalConstraint(3, Cg, Tg)
        run0 = dict(max_steps=24, interval=6, tolerance=1.0 / 1024)
        fin0 = dict(num_part=M, kill_threshold=0.0, acceptance_Js=1.0, acceptance_omega=1.0, Js_step_upper_bound=1.0, revive_scaler=1.0,
                    random_std=2.0, max_revive_per_compartment=2, constraint_elasticity=1.0, constraint_acceptance_ratio=1.0, additional_chis_shift=2.0)

        def go(cons=None, run=run0, **kw):
            f = flory.CoexistingPhasesFinder(*parts, cons, progress=False, rng=np.random.default_rng(5), **{**fin0, **kw})
            r = f.run(**run)
            d = f.diagnostics
            return [r.volumes, r.fractions, f.omegas.copy(), np.array([d[k] for k in (
                "steps", "max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue", "revive_count_left")], float)]

        def spellings(x):
            out = [float(x), np.float64(x), np.float32(x)]
            return out + [int(x), np.int64(x), np.int32(x)] if x == int(x) else out

        want = go()
        wantc = go([cl2, cg2])
        full = spellings if ctx.thorough else (lambda x: [int(x), np.float32(x)])
        for k in ("kill_threshold", "acceptance_Js", "acceptance_omega", "Js_step_upper_bound", "revive_scaler"):
            for x in full(fin0[k]):
                ctx.case(dict(option=k, spelling=repr(x)), lambda: compare(go(**{k: x}), want, f"{k}={x!r}"))
        for k in ("random_std", "additional_chis_shift"):
            for x in spellings(fin0[k]):
                ctx.case(dict(option=k, spelling=repr(x)), lambda: compare(go(**{k: x}), want, f"{k}={x!r}"))
        for k in ("constraint_elasticity", "constraint_acceptance_ratio"):
            for x in spellings(1.0):
                ctx.case(dict(option=k, spelling=repr(x)), lambda: compare(go([cl2, cg2], **{k: x}), wantc, f"{k}={x!r}"))
        for k in ("num_part", "max_revive_per_compartment"):
            for x in [np.int64(fin0[k]), np.int32(fin0[k])]:
                ctx.case(dict(option=k, spelling=repr(x)), lambda: compare(go(**{k: x}), want, f"{k}={x!r}"))
        for k in run0:
            for x in spellings(run0[k]):
                if k == "interval" and not isinstance(x, (int, np.integer)):
                    continue
                ctx.case(dict(option=k, spelling=repr(x)), lambda: compare(go(run={**run0, k: x}), want, f"{k}={x!r}"))
                ctx.case(dict(option=k, spelling=repr(x), where="constructor"), lambda: compare(
                    go(run={a: b for a, b in run0.items() if a != k}, **{k: x}), want, f"{k}={x!r} in the constructor"))
        # zero is a value like any other: the limit of small values
        for k in ("additional_chis_shift", "constraint_elasticity", "constraint_acceptance_ratio", "acceptance_Js", "acceptance_omega",
                  "revive_scaler", "random_std"):
            lim = go([cl2, cg2], **{k: 1e-200})
            for x in (0.0, 0) if ctx.thorough or k not in fin0 or k.startswith(("c", "add", "random")) else (0.0,):
                ctx.case(dict(option=k, zero=repr(x)), lambda: compare(go([cl2, cg2], **{k: x}), lim, f"{k}={x!r}"))
        return

    if kind == "defaults":
        documented = dict(num_part=24, max_steps=1_000_000, convergence_criterion="standard", tolerance=1e-5, interval=10_000, progress=True, random_std=5.0,
                          acceptance_Js=0.0002, acceptance_omega=0.002, Js_step_upper_bound=0.001, kill_threshold=0.0, revive_scaler=1.0,
                          max_revive_per_compartment=16)
        parts = inters[0][1], entrs[0][1], enss[0][1]

        def new(**kw):
            return flory.CoexistingPhasesFinder(*parts, rng=np.random.default_rng(5), **kw)

        def life(**kw):
            f = new(**kw)
            out = observe.finder(f, 6)
            f.reinitialize_from_omegas(np.sin(np.arange(72.0)).reshape(3, 24))
            r = f.run(progress=False)
            out += [f.omegas.copy(), r.volumes, r.fractions, np.array([f.diagnostics["steps"], f.diagnostics["revive_count_left"]], float)]
            return out
        want = life(**documented)
        for k in documented:
            def one():
                compare(life(**{a: b for a, b in documented.items() if a != k}), want, f"default of {k}")
            ctx.case(dict(default_of=k), one)
        ctx.case(dict(defaults="all omitted"), lambda: compare(life(), want, "defaults"))
        ctx.case(dict(default_of="num_part=None"), lambda: compare(life(num_part=None), want, "num_part None"))

        # 8 compartments per component for every size and grouping
        def parts_count(N, S):
            g = [N // S + (1 if i < N % S else 0) for i in range(S)]
            f = flory.CoexistingPhasesFinder(flory.FloryHugginsBlockInteraction(S, 1.0, g), flory.IdealGasPolydispersedEntropy(S, None, g), flory.CanonicalEnsemble(N), progress=False)
            close("shape of the fields", f.omegas.shape, (S, 8 * N))
        for N in range(1, 6):
            for S in range(1, N + 1):
                ctx.case(dict(default_of="num_part", N=N, S=S), parts_count, N, S)

        # additional keyword defaults of the parts
        def shift(kw):
            compare(observe.finder(make(*parts, flory.LinearLocalConstraint(3, Cl, Tl), **kw)), ref, str(kw))
        ref = observe.finder(make(*parts, flory.LinearLocalConstraint(3, Cl, Tl), additional_chis_shift=1.0, constraint_elasticity=1.0, constraint_acceptance_ratio=1.0))
        keys = ["additional_chis_shift", "constraint_elasticity", "constraint_acceptance_ratio"]
        for r in range(1, 4):
            for om in itertools.combinations(keys, r):
                def dflt():
                    kw = {k: v for k, v in opts.items() if k not in keys}
                    kw.update({k: 1.0 for k in keys if k not in om})
                    f = flory.CoexistingPhasesFinder(*parts, flory.LinearLocalConstraint(3, Cl, Tl), rng=np.random.default_rng(5), **kw)
                    compare(observe.finder(f), ref, str(om))
                ctx.case(dict(omitted=list(om)), dflt)
        return

    for (i, iv), (e, ev), (s, sv), (c, cvv) in itertools.product(inters, entrs, enss, cons_sp):
        ctx.case(dict(finder=kind, interaction=i, entropy=e, ensemble=s, constraints=c),
                 lambda: compare(observe.finder(make(iv, ev, sv, cvv)), base, f"finder {i} {e} {s} {c}"))
