#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      decide a property on /repo's working tree
   check.py --replay FILE                  re-run a recorded violation"""
import json, os, sys, time, traceback
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import harness, plans, findings
from harness import VERIF, MachineryError

LIBRARY = set(plans.OPS)
EVIDENCE = os.path.join(VERIF, "evidence")


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def describe(e):
    s = e["v"] if "v" in e["ops"] else e["j"] if "j" in e["ops"] else e["m"]
    return s[0] + (":" + s[1] if s[0] == "sem" else "")


def library_check(prop, tier, sd):
    plan = plans.build_plan(prop, tier, sd)
    cases = [(d, p) for d, p, _ in plan.cases]
    reps = 4 if prop == "C13" else 1
    limit = findings.LIMIT_MS
    events = harness.observe(cases, plans.OPS[prop], reps, limit_ms=limit)
    if prop == "C13":      # and in other processes
        for e, f in zip(events, harness.observe(cases, plans.OPS[prop], 2, limit_ms=limit)):
            if e and f:
                e["runs"] = e["runs"] + f["runs"]
    sources = [s for _, _, s in plan.cases]
    if None in events:     # too many cases did not terminate
        plan.groups = [g for g in plan.groups if all(events[i] for i in g)]
    if plan.groups:
        grouped = {i for g in plan.groups for i in g[1:]}
        for g in plan.groups:
            events[g[0]]["alt"] = [dict(events[i], alt=[]) for i in g[1:]]
        keep = [i for i in range(len(events)) if prop == "C02" or i not in grouped]
    else:
        keep = list(range(len(events)))
    keep = [i for i in keep if events[i]]
    batch = [events[i] for i in keep]
    bad, stats = harness.validate(prop, batch)
    violations = [{"reason": bad[k], "source": sources[keep[k]], "domain": batch[k]["d"],
                   "problem": batch[k]["p"] if batch[k]["hp"] == "y" else None,
                   "variants": [[a["d"], a["p"] if a["hp"] == "y" else None] for a in batch[k]["alt"]],
                   "observed": {x: batch[k][x] for x in ("v", "w", "v0", "w0", "j", "m", "nul", "cnt", "cls", "cyc", "runs")}}
                  for k in sorted(bad, key=lambda k: len(batch[k]["d"]) + len(batch[k]["p"]))]
    coverage = {
        "states": stats["states"] + sum(m["states"] for m in plan.models),
        "transitions": stats["transitions"] + sum(m["transitions"] for m in plan.models),
        "traces_validated_against_impl": len(batch),
        "models_of_the_specification": plan.models,
        "events_by_source": dict(Counter(sources)),
        "distinct_inputs": len(set(cases)),
        "verdicts": dict(Counter(describe(e) for e in batch).most_common()),
        "executions_of_the_implementation": len(cases) * (6 if prop == "C13" else 1),
        "samples": [{"source": sources[i], "domain": cases[i][0][:400], "problem": (cases[i][1] or "")[:200],
                     "observed": describe(events[i])} for i in plan.rng.sample(keep, min(3, len(keep)))],
    }
    return violations, coverage


def replay(path):
    r = json.load(open(path))
    prop = r["property"]
    if prop not in LIBRARY:
        import systems
        return systems.replay(r)
    harness.build()
    v = r["violation"]
    cases = [(v["domain"], v["problem"])] + [tuple(x) for x in v["variants"]]
    events = harness.observe(cases, plans.OPS[prop], 8 if prop == "C13" else 1)
    events[0]["alt"] = [dict(e, alt=[]) for e in events[1:]]
    bad, _ = harness.validate(prop, events[:1])
    print(json.dumps({k: events[0][k] for k in ("v", "w", "v0", "w0", "j", "m", "nul", "cls", "cyc", "runs")}))
    if bad:
        print(f"VIOLATION property={prop} replay={path}")
        print(bad[0])
        return 1
    print("no violation")
    return 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    sd = seed()
    start = time.time()
    harness.build(binaries=prop not in LIBRARY)
    if prop in LIBRARY:
        violations, coverage = library_check(prop, tier, sd)
    else:
        import systems
        violations, coverage = systems.check(prop, tier, sd)
    known = findings.report(prop)
    os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
    evidence = {"property": prop, "tier": tier, "seed": sd, "level": "model_checking", "coverage": coverage,
                "wall_s": round(time.time() - start, 1), "violations": len(violations),
                "known_findings": known}
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if violations:
        path = os.path.join(EVIDENCE, "replays", f"{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "violation": violations[0], "others": len(violations) - 1}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(violations[0].get("reason", ""))
        return 1
    print(f"ok: {prop} {tier} {coverage.get('traces_validated_against_impl')} traces, {coverage.get('states')} states, {evidence['wall_s']} s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except MachineryError as x:
        print("ERROR:", x)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
