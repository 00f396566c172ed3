#!/usr/bin/env python3
"""Entry point: decide one property by bounded exhaustive exploration of the real code.

usage: check.py <PROPERTY> [--tier quick|thorough] | check.py --replay FILE | check.py --list

Exit 0: the property held on everything explored.  Exit 1: a line
``VIOLATION property=<id> replay=<path>`` was printed.  The exploration itself runs in
worker processes (one per shard) with the interpreter flory is installed in; a worker that
crashes, raises or hangs inside a case is a violation of that case.
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
if os.environ.get("VERIF_REEXEC") != "1" and os.path.exists(PYTHON):
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(PYTHON, [PYTHON, "-B", *sys.argv])
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
STALL_S = 300.0  # one single case without any progress
HARD_S = {"quick": 840.0, "thorough": 6 * 3600.0}


def known_findings():
    """entries `KNOWN property=<id> key=<case key substring> :: what fails`"""
    res = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    head, _, what = line[len("known: "):].partition(" :: ")
                    fields = dict(p.split("=", 1) for p in head.split(" ") if "=" in p)
                    res.append((fields["property"], fields["key"], what))
    except FileNotFoundError:
        pass
    return res


def worker_env(fast=False):
    env = dict(os.environ)
    if fast:  # compilation dominates: same code, fewer optimization passes
        env.setdefault("NUMBA_OPT", "1")
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH=f"{REPO}{os.pathsep}{HERE}",
        NUMBA_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        TQDM_DISABLE="0",
        PYTHONHASHSEED="0",
        VERIF_REPO=REPO,
    )
    return env


class Worker:
    def __init__(self, prop, shard, tier, seed, work, idx, only=None, fast=False):
        self.dir = os.path.join(work, f"w{idx}")
        os.makedirs(self.dir)
        self.shard = shard
        with open(os.path.join(self.dir, "job.json"), "w") as f:
            json.dump(dict(prop=prop, shard=shard, tier=tier, seed=seed, only=only), f)
        self.err = open(os.path.join(self.dir, "err"), "wb")
        self.proc = subprocess.Popen(
            [PYTHON, "-W", "ignore", "-m", "mc.worker", self.dir],
            cwd=self.dir, env=worker_env(fast), stdin=subprocess.DEVNULL,
            stdout=self.err, stderr=self.err, start_new_session=True,
        )
        self.last = b""
        self.last_t = self.t0 = time.time()

    def current(self):
        try:
            with open(os.path.join(self.dir, "current"), "rb") as f:
                return f.read().rstrip(b"\0 \n")
        except FileNotFoundError:
            return b""

    def progress(self):
        try:
            with open(os.path.join(self.dir, "beat"), "rb") as f:
                now = f.read()
        except FileNotFoundError:
            now = b""
        if now != self.last:
            self.last, self.last_t = now, time.time()
        return time.time() - self.last_t

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def result(self):
        try:
            with open(os.path.join(self.dir, "result.json")) as f:
                return json.load(f)
        except (FileNotFoundError, ValueError):
            return None

    def failure(self, why):
        cur = self.current().decode(errors="replace")
        try:
            cur = json.loads(cur)
        except ValueError:
            pass
        self.err.flush()
        try:
            with open(os.path.join(self.dir, "err"), "rb") as f:
                tail = f.read()[-3000:].decode(errors="replace")
        except OSError:
            tail = ""
        return dict(case=cur, message=why, log=tail, shard=self.shard)


def run(prop, tier, seed, only=None, shards=None, jobs=None):
    mod = importlib.import_module(f"mc.props.{prop.lower()}")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    jobs = jobs or max(1, min(8, os.cpu_count() or 1))
    fast = tier == "quick" and getattr(mod, "FAST_COMPILE", False)
    queue = list(enumerate(shards if shards is not None else mod.shards(tier)))
    active, results, violations = [], [], []
    capped = False
    known = [(k, w) for p, k, w in known_findings() if p == prop]
    seen_known = {}
    try:
        while (queue or active) and not violations:
            while queue and len(active) < jobs:
                i, s = queue.pop(0)
                active.append(Worker(prop, s, tier, seed, work, i, only, fast))
            time.sleep(0.05)
            for w in list(active):
                code = w.proc.poll()
                if code is None:
                    if w.progress() > STALL_S:
                        w.kill()
                        violations.append(w.failure(f"no progress for {STALL_S:.0f} s"))
                        active.remove(w)
                    continue
                active.remove(w)
                if os.environ.get("VERIF_TIMES"):
                    print(f"{time.time() - w.t0:7.1f} s {json.dumps(w.shard)}", file=sys.stderr)
                res = w.result()
                if code != 0 or res is None:
                    violations.append(w.failure(f"worker ended with code {code}"))
                    continue
                results.append(res)
                for v in res["violations"]:
                    v["shard"] = w.shard
                    key = json.dumps(v["case"], sort_keys=True)
                    hit = [x for x in known if x[0] in key]
                    if hit:
                        seen_known[hit[0][0]] = hit[0][1]
                    else:
                        violations.append(v)
            if time.time() - t0 > HARD_S[tier] and not violations:
                capped = True
                break
    finally:
        for w in active:
            w.kill()
        shutil.rmtree(work, ignore_errors=True)

    cov = dict(
        states=0, transitions=0, traces_validated_against_impl=0,
        samples=[], exhaustive=not capped and not violations,
        shards_completed=len(results), rule=mod.RULE, bounds=mod.BOUNDS[tier]
        if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        skipped_outcome_not_determined=0, distinct_outcomes=0,
    )
    extra = {}
    for r in results:
        cov["states"] += r["states"]
        cov["transitions"] += r["transitions"]
        cov["traces_validated_against_impl"] += r["traces"]
        cov["skipped_outcome_not_determined"] += r["skipped"]
        cov["distinct_outcomes"] += r["outcomes"]
        cov["samples"] += r["samples"][:2]
        for k, v in r["counters"].items():
            extra[k] = extra.get(k, 0) + v
    cov["samples"] = cov["samples"][:12]
    if extra:
        cov["counters"] = extra
    if capped:
        cov["cap"] = f"time cap {HARD_S[tier]} s hit; shards not completed: {len(queue) + len(active)}"
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
        assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    return mod, evidence, violations, seen_known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.list:
        for f in sorted(os.listdir(os.path.join(HERE, "mc", "props"))):
            if f.startswith("c") and f.endswith(".py"):
                print(f[:-3].upper())
        return 0
    if a.selftest:
        import flory, numba, numpy, scipy
        print("flory from", os.path.dirname(flory.__file__), "numba", numba.__version__,
              "numpy", numpy.__version__, "scipy", scipy.__version__)
        return 0
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        _, _, viol, _ = run(r["property"], r["tier"], r["seed"], only=r["case"],
                            shards=[r["shard"]], jobs=1)
        for v in viol:
            print(json.dumps(v["case"]))
            print(v["message"])
            print(v.get("log", ""))
        print("replay:", "violated" if viol else "held")
        return 1 if viol else 0
    prop = a.prop.upper()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    mod, evidence, violations, seen_known = run(prop, a.tier, seed, jobs=a.jobs)
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    c = evidence["coverage"]
    print(f"{prop} {a.tier}: states={c['states']} transitions={c['transitions']} "
          f"traces={c['traces_validated_against_impl']} outcomes={c['distinct_outcomes']} "
          f"skipped={c['skipped_outcome_not_determined']} exhaustive={c['exhaustive']} "
          f"wall={evidence['wall_s']}s")
    for k, what in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {what}")
    if violations:
        for i, v in enumerate(violations[:5]):
            path = os.path.join(evdir, f"{prop}.replay{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=a.tier, seed=seed, shard=v["shard"],
                               case=v["case"], message=v["message"], log=v.get("log", "")),
                          f, indent=1)
            print("  case:", json.dumps(v["case"])[:600])
            print("  " + v["message"].strip().replace("\n", "\n  ")[-1500:])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
