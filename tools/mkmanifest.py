"""Regenerate MANIFEST.json from the property modules (python3 tools/mkmanifest.py)."""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "explicit enumeration of all lattice systems/compositions on the real code against an independent reference evaluation",
 "C02": "explicit-state exploration of all setter histories up to a depth on the real objects against a reference model",
 "C03": "exhaustive enumeration of the product of parameter spellings on the real code (pairwise equivalence along trajectories)",
 "C04": "exhaustive exploration of all interleavings of two finder programs and environment actions on the real code",
 "C05": "explicit-state exploration of all operation sequences up to a depth, real finder against reference model in lockstep",
 "C06": "exhaustive fault insertion: every invalid request at every position of all short operation sequences, against reference model",
 "C07": "exhaustive enumeration of compartment-death schedules on the real iteration, invariant checked at every iteration",
 "C08": "exhaustive enumeration of tolerance classes, check positions and residue patterns against a reference model of the stopping rule",
 "C09": "exhaustive enumeration of systems, constraints, starts, settings and tolerances; invariant on every converged terminal state",
 "C10": "lockstep conformance of the real iteration with an explicit reference model over all enumerated states, settings and death patterns",
 "C11": "exhaustive enumeration of death/revival schedules and random choices, real code against reference protocol model",
 "C12": "stateless depth-first exploration of all random choices of the real copy routine over all volume patterns",
 "C13": "exhaustive enumeration of budgets, intervals, convergence positions and all splits of a run",
 "C14": "explicit-state exploration of all initialize/prepare/evolve histories up to a depth on real constraint objects",
 "C15": "exhaustive enumeration of component groupings; bisimulation check between the two real descriptions",
 "C16": "explicit enumeration of phase collections, input orders and operation chains against an exact reference model",
 "C17": "exhaustive symmetry check over all permutations along real trajectories; all pairs of equal generator states",
 "C18": "exhaustive enumeration of systems and option combinations; equivalence of shortcut and explicit pipeline",
 "C19": "exhaustive exploration of random-number streams (raw words chosen by the explorer) on the real code",
 "C20": "exhaustive enumeration of equivalent descriptions; bisimulation check between the two real finders, iteration by iteration",
 "C21": "exhaustive enumeration of combinations of user-defined and built-in parts; lockstep conformance of the real iteration with the reference model",
 "C22": "exhaustive enumeration of systems, compositions and starts run to their terminal states, judged by the convex hull of the documented energy",
 "C23": "exhaustive enumeration of inputs, death patterns and check outcomes on the real code; messages compared with the condition",
 "C24": "stateless exploration of all thread schedules up to a preemption bound on the real code under a controlled line-level scheduler",
 "C25": "exhaustive fault injection: every operation interrupted at every line it executes, followed by comparison with the uninterrupted trajectory or a fresh object",
}
checks = []
for i in range(1, 26):
    pid = f"C{i:02d}"
    src = open(f"{here}/mc/props/{pid.lower()}.py").read()
    val = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "BOUNDS", "ASSUMPTIONS"):
            val[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid} --tier quick",
        "thorough_cmd": f"python3 check.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "model checking: " + TECH[pid],
        "level": val["LEVEL"],
        "level_note": "Complete within the stated bounds (quick: " + val["BOUNDS"]["quick"] + "; thorough: " + val["BOUNDS"]["thorough"] + "). Assumes: " + "; ".join(val["ASSUMPTIONS"]) + ". Trusts: the reference model in /verif/mc, numpy, numba, CPython.",
    })
json.dump({"version": 1,
           "setup_cmd": "python3 check.py --selftest",
           "checks": checks,
           "not_applicable": [],
           "notes": "No hooks in /repo: the machinery drives and observes the code through its public API, documented extension points (user-defined constraints) and the numpy bit-generator interface."},
          open(f"{here}/MANIFEST.json", "w"), indent=1)
