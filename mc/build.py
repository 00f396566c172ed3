"""Helpers that build flory objects and the matching reference system from one description.

description: dict(chis, sizes, groups=None, ens=("can"|"gc", params), shift=1.0,
                  cons=[dict(kind, Cs, Ts, acc, kappa)], M)
"""
import numpy as np

import flory
from mc import ref
from mc.spy import Spy

DEFAULTS = dict(acceptance_Js=0.0002, acceptance_omega=0.002, Js_step_upper_bound=0.001,
                kill_threshold=0.0, revive_scaler=1.0, max_revive_per_compartment=16)


def groups_of(d):
    return d.get("groups") or [1] * len(d["sizes"])


def parts(d):
    """(interaction, entropy, ensemble) of the description"""
    N = len(d["sizes"])
    if d.get("groups"):
        S = len(d["groups"])
        inter = flory.FloryHugginsBlockInteraction(S, np.array(d["chis"], float), np.array(d["groups"]))
        entr = flory.IdealGasPolydispersedEntropy(S, np.array(d["sizes"], float), np.array(d["groups"]))
    else:
        inter = flory.FloryHugginsInteraction(N, np.array(d["chis"], float))
        entr = flory.IdealGasEntropy(N, np.array(d["sizes"], float))
    kind, par = d["ens"]
    if kind == "can":
        ens = flory.CanonicalEnsemble(N, np.array(par, float))
    else:
        ens = flory.GrandCanonicalEnsemble(N, np.array(par, float))
    return inter, entr, ens


def constraint(c, S):
    cls = flory.LinearLocalConstraint if c["kind"] == "local" else flory.LinearGlobalConstraint
    return cls(S, np.array(c["Cs"], float), np.array(c["Ts"], float))


def cons_kwargs(d):
    """constraint keyword arguments are common to all constraints of a finder"""
    c = d.get("cons") or []
    if not c:
        return {}
    return dict(constraint_acceptance_ratio=c[0].get("acc", 1.0), constraint_elasticity=c[0].get("kappa", 1.0))


def ref_system(d):
    cons = [ref.RefConstraint(c["kind"], c["Cs"], c["Ts"],
                              (d["cons"][0]).get("acc", 1.0), (d["cons"][0]).get("kappa", 1.0))
            for c in d.get("cons") or []]
    return ref.RefSystem(d["chis"], d["sizes"], groups_of(d), d["ens"], d.get("shift", 1.0), cons)


def finder(d, *, spy=None, rng=None, spy_pos=None, **opts):
    """finder for a description; `spy` is put in front of the constraints (or at spy_pos)"""
    inter, entr, ens = parts(d)
    S = len(groups_of(d))
    cons = [constraint(c, S) for c in d.get("cons") or []]
    if spy is not None:
        cons.insert(len(cons) if spy_pos is None else spy_pos, spy)
    kw = dict(progress=False, num_part=d.get("M"), rng=rng)
    kw.update(cons_kwargs(d))
    if "shift" in d:
        kw["additional_chis_shift"] = d["shift"]
    kw.update(opts)
    return flory.CoexistingPhasesFinder(inter, entr, ens, cons or None, **kw)


def par_of(opts):
    o = {**DEFAULTS, **opts}
    return ref.Params(o["acceptance_Js"], o["acceptance_omega"], o["Js_step_upper_bound"],
                      o["kill_threshold"], o["revive_scaler"])


def field(S, M, variant=0, amp=1.0):
    """deterministic, well separated fields"""
    r, m = np.meshgrid(np.arange(S), np.arange(M), indexing="ij")
    if variant == 0:
        w = np.sin(1.3 * r + 2.1 * m + 0.4)
    elif variant == 1:
        w = np.cos(0.7 * r * (m + 1) + 0.9 * m) + 0.3 * r
    elif variant == 2:
        w = ((3 * r + 5 * m) % 7 - 3.0) / 2.0
    elif variant == 3:
        w = np.where((r + m) % 2 == 0, 1.0, -1.0) + 0.1 * m
    else:
        w = np.zeros((S, M))
    return amp * w


def diag(f):
    d = f.diagnostics
    return {k: d[k] for k in ("steps", "max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff",
                              "max_constraint_residue", "revive_count_left")}
