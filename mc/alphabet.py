"""Small, sharp sets of systems shared by the explorations."""

CHI2 = [[0.0, 3.0], [3.0, 0.0]]
CHI2B = [[-1.0, 2.5], [2.5, 0.7]]
CHI3 = [[3.27, -0.34, 0.0], [-0.34, -3.96, 0.0], [0.0, 0.0, 0.0]]
CHI3B = [[0.0, 2.0, 3.5], [2.0, 0.0, 1.0], [3.5, 1.0, 0.0]]
CHI4 = [[0.0, 3.0, 1.0, 2.0], [3.0, 0.5, -1.0, 4.0], [1.0, -1.0, 0.0, 2.5], [2.0, 4.0, 2.5, -0.5]]


def chi_n(n, a=1.7, b=0.9):
    return [[0.0 if i == j else round(a + b * ((i * j + i + j) % 3 - 1), 3) for j in range(n)] for i in range(n)]


def comp(tag, chis, sizes, ens, M, **kw):
    return dict(tag=tag, chis=chis, sizes=sizes, ens=ens, M=M, **kw)


# component based ("ideal"), canonical
IDEAL_CAN = [
    comp("N1", [[0.8]], [1.0], ("can", [1.0]), 2),
    comp("N2", CHI2, [1.0, 1.0], ("can", [0.5, 0.5]), 2),
    comp("N2sizes", CHI2B, [1.0, 2.5], ("can", [0.3, 0.7]), 3),
    comp("N2M1", CHI2B, [2.0, 1.0], ("can", [0.6, 0.4]), 1),
    comp("N3", CHI3, [2.0, 2.0, 1.0], ("can", [0.16, 0.68, 0.16]), 3, shift=0.5),
    comp("N3absent", CHI3B, [1.0, 0.5, 3.0], ("can", [0.4, 0.0, 0.6]), 4),
    comp("N3sum", CHI3B, [1.0, 1.5, 1.0], ("can", [0.4, 0.3, 0.2]), 2),
    comp("N4", CHI4, [1.0, 2.0, 0.7, 1.3], ("can", [0.1, 0.2, 0.3, 0.4]), 5, shift=2.0),
]
IDEAL_GC = [
    comp("N1gc", [[0.8]], [2.0], ("gc", [1.2]), 2),
    comp("N2gc", CHI2, [1.0, 1.0], ("gc", [0.8, 1.3]), 2),
    comp("N2gcsizes", CHI2B, [1.0, 2.5], ("gc", [0.4, 2.0]), 3, shift=2.0),
    comp("N2gcM1", CHI2B, [2.0, 1.0], ("gc", [1.1, 0.6]), 1),
    comp("N3gc", CHI3, [2.0, 2.0, 1.0], ("gc", [0.5, 1.5, 0.2]), 4),
]
POLY_CAN = [
    comp("P1", [[0.4]], [1.0, 2.0], ("can", [0.3, 0.7]), 2, groups=[2]),
    comp("P22", [[0.0, 4.0], [4.0, 0.0]], [1.0, 2.0, 1.0, 2.0], ("can", [0.2, 0.3, 0.2, 0.3]), 3, groups=[2, 2]),
    comp("P13", CHI2B, [2.0, 1.0, 0.5, 3.0], ("can", [0.4, 0.1, 0.2, 0.3]), 2, groups=[1, 3], shift=0.3),
    comp("P31", CHI2B, [2.0, 1.0, 0.5, 3.0], ("can", [0.4, 0.1, 0.2, 0.3]), 2, groups=[3, 1]),
    comp("P121", CHI3B, [1.0, 2.0, 1.5, 0.8], ("can", [0.25, 0.15, 0.35, 0.25]), 4, groups=[1, 2, 1]),
    comp("P111", CHI3, [2.0, 2.0, 1.0], ("can", [0.16, 0.68, 0.16]), 3, groups=[1, 1, 1]),
]
POLY_GC = [
    comp("P22gc", [[0.0, 2.0], [2.0, 0.0]], [1.0, 2.0, 1.0, 2.0], ("gc", [0.2, 0.3, 0.6, 0.3]), 3, groups=[2, 2]),
    comp("P21gc", CHI2B, [2.0, 1.0, 0.5], ("gc", [0.4, 0.1, 0.9]), 2, groups=[2, 1]),
]
FAMILIES = {"ideal_can": IDEAL_CAN, "ideal_gc": IDEAL_GC, "poly_can": POLY_CAN, "poly_gc": POLY_GC}


def with_cons(d, variant):
    """attach constraints to a description"""
    S = len(d.get("groups") or d["sizes"])
    if variant == "none":
        return d
    c1 = [1.0, -1.0, 0.5, 2.0, -0.3, 1.1][:S]
    c2 = [0.0, 1.0, -2.0, 1.0, 0.2, 0.7][:S]
    L1 = dict(kind="local", Cs=[c1], Ts=[0.1], acc=0.7, kappa=1.5)
    L2 = dict(kind="local", Cs=[c1, c2], Ts=[0.1, -0.2], acc=2.0, kappa=0.5)
    G1 = dict(kind="global", Cs=[c1], Ts=[0.1], acc=0.7, kappa=1.5)
    G2 = dict(kind="global", Cs=[c1, c2], Ts=[0.3, -0.2], acc=2.0, kappa=0.5)
    cons = {"L": [L1], "L2": [L2], "G": [G1], "G2": [G2], "LG": [L1, G2], "GL": [G1, L2],
            "LL": [L1, L2], "GG": [G1, G2]}[variant]
    out = dict(d, cons=cons)
    out["tag"] = d["tag"] + "+" + variant
    return out


# signatures: family x kinds of constraints in the tuple (a spy is always present)
def signatures():
    return [(fam, cv) for fam in FAMILIES for cv in ("none", "L", "G", "LG")]


# every family and every kind of constraint set, every constraint in a canonical and a grand canonical system
THIN = [("poly_can", "LG"), ("ideal_can", "LG"), ("poly_can", "G"), ("ideal_can", "L"), ("ideal_gc", "G"), ("poly_gc", "L"),
        ("ideal_can", "none"), ("poly_can", "none"), ("ideal_gc", "none"), ("poly_gc", "none")]

CONS_BY_KIND = {"none": ["none"], "L": ["L", "L2"], "G": ["G", "G2"], "LG": ["LG"]}

SETTINGS = [
    dict(),
    dict(acceptance_Js=0.01, acceptance_omega=0.1, Js_step_upper_bound=0.001),
    dict(acceptance_Js=0.3, acceptance_omega=0.2, Js_step_upper_bound=10.0),
    dict(acceptance_Js=1.0, acceptance_omega=0.05, Js_step_upper_bound=0.2, kill_threshold=0.1),
    dict(acceptance_Js=0.0, acceptance_omega=0.3, Js_step_upper_bound=0.01),
    dict(acceptance_Js=0.05, acceptance_omega=0.0, Js_step_upper_bound=1.0, kill_threshold=0.5),
]
