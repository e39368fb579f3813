"""Command line: python -m rv.main C01 [--tier quick|thorough] [--seed N] [--replay FILE] ..."""
import argparse
import collections
import importlib
import json
import os
import re
import sys

from rv import core, vloop

FINDINGS = os.path.join(core.VERIF, "known_findings.txt")


def load_findings(prop):
    """'finding: property=<id> mechanism=<tag> <what fails>' lines; 'fixed:' lines suppress nothing."""
    out = {}
    try:
        with open(FINDINGS) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) mechanism=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only this scenario")
    ap.add_argument("--cases", type=int, help="override the number of cases per scenario")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    start = vloop._real_monotonic()
    core.setup_process()
    core.import_repo()
    mod = importlib.import_module(f"rv.checks.{args.property.lower()}")
    findings = load_findings(mod.PROPERTY)

    if args.replay:
        with open(args.replay) as f:
            case = json.load(f)
        res = core.run_case(mod, case["scenario"], case["seed"], case["tier"], 0)
        print(json.dumps(res, indent=1))
        sys.exit(1 if res["violation"] else 0)

    plan = mod.PLAN[args.tier]
    cases = []
    for scenario, n in plan.items():
        if args.only and scenario != args.only:
            continue
        n = args.cases or n
        cases += [(scenario, core.case_seed(mod.PROPERTY, scenario, args.seed, i), i) for i in range(n)]
    # spread the scenarios evenly over workers and time
    cases.sort(key=lambda c: (c[2] / max(1, args.cases or plan[c[0]]), c[0]))
    limit = getattr(mod, "WALL", {}).get(args.tier, 600 if args.tier == "quick" else 6 * 3600)
    results, timed_out, died = core.run_all(
        mod, cases, args.tier, limit, args.jobs, lambda v: v.get("mechanism") in findings
    )
    finish(mod, args, plan, cases, results, timed_out, died, findings, vloop._real_monotonic() - start)


def finish(mod, args, plan, cases, results, timed_out, died, findings, wall):
    prop = mod.PROPERTY
    counts = collections.Counter()
    per = collections.defaultdict(lambda: {"cases": 0, "distinct": set(), "nontrivial": 0, "events": 0})
    samples = []
    distinct = set()
    inconclusive = 0
    violations = []
    known = {}
    for r in results:
        counts.update(r["counts"])
        p = per[r["scenario"]]
        p["cases"] += 1
        p["events"] += r["events"]
        if r["nontrivial"]:
            p["nontrivial"] += 1
            p["distinct"].add(r["digest"])
            distinct.add((r["scenario"], r["digest"]))
        if r.get("sample") and sum(s["scenario"] == r["scenario"] for s in samples) < 1:
            samples.append({"scenario": r["scenario"], "seed": r["seed"], "observed": r["sample"]})
        if r["inconclusive"]:
            inconclusive += 1
        if r["violation"]:
            mech = r["violation"].get("mechanism")
            if mech in findings:
                known[mech] = findings[mech]
            else:
                violations.append(r)
    evidence = {
        "property": prop,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(distinct),
            "rule": getattr(mod, "RULE", "")
            or "Each case is a seeded random workload run on the real code in a virtual-time loop; non-trivial when its "
            "monitors judged at least one decisive event; distinct by the digest of the observed event log.",
            "samples": samples[:8],
            "scenarios": {
                k: {"cases": v["cases"], "nontrivial": v["nontrivial"], "distinct": len(v["distinct"]), "events": v["events"]}
                for k, v in sorted(per.items())
            },
            "monitor_counts": dict(sorted(counts.items())),
            "inconclusive_cases": inconclusive,
            "planned_cases": len(cases),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", []))
        + ["held on the executions listed only; code paths the workloads do not reach are not judged"],
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    path = os.path.join(core.VERIF, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)

    for mech, what in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    print(
        f"{prop} {args.tier}: {len(results)}/{len(cases)} cases, {len(distinct)} distinct non-trivial, "
        f"{counts['oracle_evaluations']} oracle evaluations, {wall:.1f}s"
    )
    if violations:
        violations.sort(key=lambda r: r["events"])
        r = violations[0]
        os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
        rp = os.path.join(core.VERIF, "replays", f"{prop}-{r['digest']}.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "scenario": r["scenario"], "seed": r["seed"], "tier": args.tier, "violation": r["violation"], "log_tail": r.get("log_tail")}, f, indent=1)
        print(f"  scenario {r['scenario']} seed {r['seed']}: {r['violation']['msg']}")
        if args.v:
            print(json.dumps(r["violation"]["witness"], indent=1)[:6000])
            for e in r.get("log_tail", [])[-60:]:
                print("   ", e)
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    problems = []
    if timed_out:
        problems.append("wall-clock limit reached")
    if died:
        problems.append(f"workers died: {died}")
    if inconclusive > len(results) * 0.02:
        problems.append(f"{inconclusive} inconclusive cases")
    if len(results) != len(cases) and not timed_out and not known:
        problems.append("cases missing")
    for scenario in plan:
        if args.only and scenario != args.only:
            continue
        if per[scenario]["cases"] and not per[scenario]["nontrivial"]:
            problems.append(f"scenario {scenario}: the deciding monitor was never reached")
    for name in getattr(mod, "REQUIRED_COUNTS", ()):
        if not counts[name] and not args.only:
            problems.append(f"monitor counter {name} is zero")
    if problems:
        print(f"INCONCLUSIVE property={prop}: " + "; ".join(problems))
        sys.exit(2)
    if args.v:
        print(json.dumps(evidence["coverage"]["monitor_counts"], indent=1), json.dumps(evidence["coverage"]["scenarios"], indent=1))


if __name__ == "__main__":
    main()
