#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--runs N] [--wall S] [--workers N]"""
import argparse
import json
import os
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import core  # noqa: E402

BUDGET = json.load(open(os.path.join(core.VERIF, "sim", "budget.json")))


def known(prop):
    out = []
    with open(os.path.join(core.VERIF, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: ") and f"property={prop} " in line:
                tag = line[line.index("[") + 1:line.index("]")]
                out.append((tag, line[len("known: "):]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--digests")
    a = ap.parse_args()
    b = BUDGET[a.prop]
    n = a.runs or b[a.tier]["scenarios"]
    wall = a.wall or b[a.tier]["wall"]
    t0 = time.time()
    s = core.Search(a.prop, a.tier, a.seed, n, wall, a.workers)
    try:
        if a.replay:
            body = json.load(open(a.replay))
            r = s.replay(body["scenarios"], body["hashseed"])
            if r["status"] == "violation":
                print(r["cls"] + ": " + r["msg"])
                print(f"VIOLATION property={a.prop} replay={a.replay}")
                return 1
            print("replay: " + r["status"], r.get("msg", ""))
            return 0 if r["status"] == "ok" else 2
        viol = unconf = None
        for _ in range(3):
            if s.run(twice=b.get("twice", 29)) is None:
                break
            viol = s.confirm()
            if viol:
                break
            unconf = s.violation
            print(f"note: index {unconf['idx']} reported '{unconf['cls']}' but did not reproduce", file=sys.stderr)
            s.violation = None
            for w in s.workers:
                w.kill()
            s.seed += 1000003
        R = s.res
        el = max(1e-9, s.elapsed)
        findings = known(a.prop)
        ev = {
            "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "wall_s": round(time.time() - t0, 2),
            "violations": 1 if viol else 0,
            "coverage": {
                "evaluations": R["runs"], "distinct_nontrivial": R["nontrivial"],
                "rule": b["rule"] + " distinct: different digest of the run's trace (operations, outcomes, I/O events or schedule).",
                "samples": s.samples[:3],
                "scenarios": R["scenarios"], "seeds": R["scenarios"],
                "simulated_runs_per_hour": int(R["runs"] / el * 3600), "seeds_per_hour": int(R["scenarios"] / el * 3600),
                "simulated_time": {"logical_steps": R["steps"],
                                   "unit": "one mutating disk operation, one scheduled source line or one LLM call; the code under test reads no clock"},
                "faults_fired": R["faults"], "probes": R["stats"], "distinct_traces": len(R["digests"]),
                "determinism": {"scenarios_executed_twice": R["twice"], "digests_differ": R["differ"]},
                "real": b["real"], "stub": b["stub"], "workers": len(s.workers),
                "python_hash_seeds": [w.hashseed for w in s.workers],
            },
            "assumptions": b["assumptions"],
        }
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if a.digests:
            with open(a.digests, "w") as f:
                f.write("\n".join(sorted(R["digests"])))
        print(f"{a.prop} {a.tier}: {R['scenarios']} scenarios, {R['runs']} simulated runs, {R['nontrivial']} distinct non-trivial, "
              f"{R['steps']} logical steps, {el:.1f} s; faults fired {R['faults']}; probes {R['stats']}; "
              f"determinism {R['twice'] - R['differ']}/{R['twice']}")
        if viol:
            print(f"violated with seed {viol['idx']} of VERIF_SEED={a.seed}: {viol['cls']}: {viol['msg']}")
            print(f"VIOLATION property={a.prop} replay={viol['replay']}")
            return 1
        for tag, f in findings:
            if R["stats"].get("known_" + tag):
                print("KNOWN-FINDING: " + f)
        return 0
    except core.HarnessError as e:
        print("harness error:\n" + str(e), file=sys.stderr)
        return 2
    finally:
        s.close()


if __name__ == "__main__":
    sys.exit(main())
