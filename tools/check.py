#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decides one property of /repo's working tree.

Exit 0: held on everything explored.  Exit 1: a line `VIOLATION property=<id> replay=<path>`.  Exit 2: could not be decided.
`check.py --replay FILE` re-executes a recorded violation against the current tree and judges it again.
"""
import argparse, collections, json, os, re, shutil, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import orca
from orca import Job, ToolError
import plans


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(orca.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=orca.BUILD)
    try:
        if a.replay:
            return replay(a.replay, work)
        return check(a.property, a.tier, seed, work)
    except ToolError as e:
        print("ERROR", e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, work):
    t0 = time.time()
    plan = plans.plan(prop, tier, seed)
    found, coverage, assumptions = [], {}, list(plans.ASSUMPTIONS)
    results = plans.execute(plan, work)          # generates, replays, runs client vectors and model checking
    cases = [c for j in results.jobs for c in j.cases]
    judged = orca.judge(orca.select(cases), work) if cases else []
    primary = {(c["job"], c["trace"], c["step"]): c["replay"] for c in cases if "replay" in c}
    for c in judged:
        if prop in c["violates"]:
            found.append({"kind": "ledger step", "property": prop, "violates": c["violates"], "trace": c["job"] + "/" + c["trace"],
                          "step": c["step"], "sub": c["sub"], "why": c["why"], "pre": c["pre"], "tx": c["tx"],
                          "obs": c["obs"], "post": c["post"], "logs": c["logs"],
                          "replay": dict(c.get("replay") or primary.get((c["job"], c["trace"], c["step"]), {}), salt=c["job"])})
    for f in results.client:
        if prop in f["violates"]:
            found.append(f)
    other = collections.Counter(v for c in judged for v in c["violates"] if v != prop)

    coverage = plans.coverage(plan, results)
    known = [(m, text) for p, m, text in orca.known_findings() if p == prop]
    fresh, seen_known = [], set()
    for f in found:
        text = " | ".join(f["why"])
        hit = [k for k in known if re.search(k[0], text)]
        if hit:
            seen_known.add(hit[0])
        else:
            fresh.append(f)
    for m, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    coverage["divergences_from_specification"] = sum(j.stats["divergences"] for j in results.jobs) + len(results.client)
    orca.write_evidence(prop, tier, seed, plans.LEVEL[prop], coverage, assumptions, time.time() - t0, len(fresh))
    print("%s %s: %d transactions replayed from %d behaviours, %d client vectors, %d divergences, %.0f s%s" % (
        prop, tier, sum(j.stats["steps"] for j in results.jobs), sum(j.stats["traces"] for j in results.jobs),
        results.client_evaluations, coverage["divergences_from_specification"], time.time() - t0,
        "; other properties affected: " + ", ".join("%s" % k for k in sorted(other)) if other else ""))
    if fresh:
        fresh.sort(key=lambda f: (f.get("sub", 0) == 0 and f.get("tx", "").count("prog:") > 1, len(str(f))))
        path = orca.write_replay(prop, fresh[0])
        for w in fresh[0]["why"][:6]:
            print("  " + w[:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def replay(path, work):
    f = json.load(open(path))
    print(json.dumps({k: f[k] for k in ("kind", "property", "violates", "why")}, indent=1))
    if f["kind"] == "client vector":
        cases = orca.again_client(f, work)
        again = [c for c in cases if orca.CLIENT_PROPERTY[c["kind"]] == f["property"]]
    else:
        cases = orca.judge(orca.again_step(f["replay"], work), work)
        again = [c for c in cases if f["property"] in c["violates"]]
        for c in again[:1]:
            print("transaction", c["tx"], "\nobserved", c["obs"], "\nlog", *c["logs"], sep="\n  ")
    for c in again[:1]:
        for w in c["why"]:
            print("  " + w[:1000])
    print("VIOLATION property=%s replay=%s" % (f["property"], path) if again else "does not happen on this tree")
    return 1 if again else 0


if __name__ == "__main__":
    sys.exit(main())
