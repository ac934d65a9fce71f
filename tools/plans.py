"""What each check runs: which behaviours of the specification are generated and replayed, per property and tier."""
import concurrent.futures, hashlib, os
import graph, orca
from orca import Job

# properties of the closed design (spec/design.qnt), checked on every transition by TLC
DESIGN = ("C01", "C02", "C05", "C06", "C07", "C08", "C09", "C10", "C14", "C17")
# of these, proved inductive for all 64-bit magnitudes (spec/proof.qnt)
PROVED = ("C01", "C02", "C05", "C06", "C07", "C08", "C14", "C17")
LEVEL = {("C%02d" % i): "model_checking" if "C%02d" % i in DESIGN else "exploration" for i in range(1, 27)}

ASSUMPTIONS = [
    "The runtime the program runs on is the harness' own (memory layout, system calls, cross-program invocation, rent and "
    "privilege rules); the thorough tier executes every transaction on the real runtime (litesvm, /verif/reference) as well.",
    "The token program is spl-token 7.0.0 executed natively; the system and associated-token programs are re-implemented.",
    "Randomly generated behaviours sample the input space; sweeps enumerate the stated finite spaces completely.",
]

SWEEPS = {"subst0": 475, "subst1": 475, "subst2": 475, "subst3": 475, "worlds0": 519, "worlds1": 519, "worlds2": 519,
          "worlds3": 519, "worlds4": 519, "index0": 512, "index1": 512, "tags0": 673,
          "tags1": 673, "time0": 924, "time1": 924, "init0": 48, "rates0": 1000,
          "vectors": 150}

# per property: relevant program instructions, then scenario weights and sweeps for the quick tier
ALL = ("Stake", "Unstake", "Withdraw", "Initialize", "SetCooldown", "SetAuthority", "Raw")
MONEY = ("Stake", "Unstake", "Withdraw")
P = {
    "C01": (MONEY, ["flow", "drain", "fund", "flow", "extreme", "attack", "drain"], ["vectors"]),
    "C02": (MONEY, ["flow", "drain", "flow", "attack", "extreme", "drain"], ["vectors", "subst2", "worlds0", "worlds1"]),
    "C03": (("Stake",), ["flow", "flow", "extreme", "drain", "attack"], ["vectors", "rates0", "subst0"]),
    "C04": (("Unstake",), ["flow", "fund", "extreme", "drain", "attack"], ["vectors", "rates0", "index1"]),
    "C05": (MONEY, ["flow", "flow", "drain", "drain", "extreme", "fund"], ["vectors"]),
    "C06": (("Unstake", "Withdraw", "SetCooldown"), ["flow", "drain", "config", "extreme", "drain", "config"], ["time0", "time1", "vectors"]),
    "C07": (("Withdraw",), ["drain", "fund", "attack", "flow", "fund", "drain"], ["index0", "index1", "vectors"]),
    "C08": (("Withdraw",), ["drain", "drain", "config", "fund", "attack"], ["index0", "index1", "time0"]),
    "C09": (MONEY, ["attack", "attack", "attack", "flow"], ["subst0", "subst1", "subst2", "subst3", "worlds2"]),
    "C10": (("SetCooldown", "SetAuthority"), ["config", "config", "attack", "setup", "config", "wire"], ["subst3", "tags0", "worlds3"]),
    "C11": (("Initialize",), ["setup", "setup", "setup", "setup", "attack"], ["init0", "subst3", "tags1", "worlds4"]),
    "C12": (ALL, ["attack", "attack", "attack", "setup"], ["subst0", "subst1", "subst2", "subst3",
                                                           "worlds0", "worlds1", "worlds2", "worlds3", "worlds4"]),
    "C13": (("Unstake", "Initialize"), ["fund", "fund", "setup", "setup", "flow", "fund", "setup"], ["init0"]),
    "C14": (MONEY, ["extreme", "extreme", "extreme", "flow", "config"], ["vectors", "time0", "time1"]),
    "C15": (ALL, ["flow", "drain", "config", "flow", "fund", "extreme"], ["vectors", "index0"]),
    "C16": (ALL, ["wire", "wire", "wire", "setup"], ["tags0", "tags1", "time0", "index0"]),
    "C17": (ALL, ["flow", "fund", "attack", "config", "drain", "setup"], ["subst1", "index0"]),
    "C18": (("Stake", "Unstake"), ["flow", "extreme"], ["vectors"]),
    "C19": (ALL, ["flow", "fund"], ["index0", "index1"]),
    "C20": (ALL, ["flow", "config", "setup"], ["tags0"]),
    "C21": (ALL, ["flow", "config", "setup"], ["time0"]),
    "C22": (ALL, [], []),
    "C23": (ALL, ["attack", "extreme", "wire", "flow", "setup"], ["subst1", "subst2", "time0", "rates0", "worlds0"]),
    "C24": (ALL, [], []),
    "C25": (ALL, [], []),
    "C26": (ALL, [], []),
}
# client vectors: step action, steps per job, jobs in the quick tier
CLIENT = {
    "C15": [("stepEvent", 60, 3)],
    "C18": [],
    "C19": [("stepAddress", 50, 4), ("stepAll", 5, 3)],
    "C20": [("stepInstr", 60, 6)],
    "C21": [("stepRecord", 80, 6)],
    "C22": [("stepQuery", 60, 8)],
    "C23": [("stepErrors", 1, 1)],
    "C24": [("stepScript", 60, 8)],
    "C25": [("stepPending", 60, 5), ("stepStatus", 40, 3)],
    "C26": [("stepKeyFile", 30, 3), ("stepUpload", 40, 3)],
}
SCRIPTS = ("stepScript", "stepPending", "stepStatus", "stepKeyFile", "stepUpload")
CLIENT_RULE = {
    "C15": "an event and its bytes, decoded, encoded and truncated", "C18": "an amount with pool and supply, converted both ways",
    "C19": "a staker and an index (with two further addresses)", "C20": "an operation with arguments and accounts, built every way the client offers",
    "C21": "a record and its bytes, decoded, encoded and truncated", "C22": "a ledger and a limit, asked every query",
    "C23": "an entry of the error table",
    "C24": "a script with its arguments and a ledger, and everything it sends (the Rust harness only spells the vector out)",
    "C25": "a report with a ledger and a failure point, and what it prints (the Rust harness only spells the vector out)",
    "C26": "a tool with its arguments and files, and everything it writes or uploads (the Rust harness only spells the vector out)",
}
QUICK_SAMPLES, STEPS = 130, 12


def seed_of(seed, *parts):
    h = hashlib.sha256(("/".join(map(str, (seed,) + parts))).encode()).digest()
    return int.from_bytes(h[:6], "big")


def plan(prop, tier, seed):
    kinds, scenarios, sweeps = P[prop]
    jobs = []
    rounds = 1 if tier == "quick" else 6
    samples = QUICK_SAMPLES if tier == "quick" else 500
    if tier != "quick":
        scenarios = list(scenarios) + ["flow", "drain", "attack", "extreme", "setup", "config", "fund", "wire"]
        sweeps = list(sweeps) + [s for s in SWEEPS if s not in sweeps]
    checked = False
    for r in range(rounds):
        for i, s in enumerate(scenarios):
            main = s
            n = samples
            if i == 0:
                main, n = s + "_checked", samples * 2 // 3
            jobs.append(Job(main, n, STEPS, seed_of(seed, prop, r, i, s), step="stepThenDrain" if s == "drain" else "step"))
        for i, s in enumerate(sweeps):
            if s == "vectors":
                n = 4 if tier == "quick" else 8
                for k in range(n):
                    jobs.append(Job("rates", 1, SWEEPS[s] // 2, seed_of(seed, prop, r, i, s, k), file="vectors.qnt", keep=prop == "C18"))
            elif s.startswith("rates"):
                jobs.append(Job(s, 2, SWEEPS[s] // 2, seed_of(seed, prop, r, i, s), step="stepRates", file="sweeps.qnt"))
            elif r == 0:
                jobs.append(Job(s, 1, SWEEPS[s], 1, file="sweeps.qnt"))
    clients = [Job("scripts" if st in SCRIPTS else "client", 1, steps, seed_of(seed, prop, r, "client", st, k), step=st,
                   file="scripts.qnt" if st in SCRIPTS else "client.qnt")
               for r in range(rounds) for st, steps, n in CLIENT.get(prop, []) for k in range(n if st != "stepErrors" or r == 0 else 0)]
    models = []
    if prop in DESIGN:
        jobs.append(graph.GraphJob("graph", 4 if tier == "quick" else 5))
        models.append(graph.Model("limits", 4) if tier == "quick" else graph.Model("limits", memory="8g", workers=8))
        if tier != "quick":
            models.append(graph.Model("deep", 7, memory="8g", workers=8, timeout=1800))
    # the slow ones first
    jobs.sort(key=lambda j: (-1 if j.file == "graphs.qnt" else 0 if j.file == "sweeps.qnt" else 0.5 if j.file == "vectors.qnt" else 1 if j.main.endswith("_checked") else 2))
    return {"prop": prop, "tier": tier, "seed": seed, "kinds": kinds, "jobs": jobs, "clients": clients, "models": models}


class Results:
    def __init__(self):
        self.jobs, self.client, self.client_evaluations, self.client_samples, self.client_counts, self.client_distinct = [], [], 0, [], {}, 0


# features of the Rust client the check needs
FEATURES = {"C22": "queries", "C21": "json", "C15": "json"}


def execute(plan, work):
    r = Results()
    r.jobs = plan["jobs"]
    r.models, r.proof = [], []
    side = [lambda m=m: r.models.append(m.run(work)) for m in plan["models"]]
    if plan["tier"] != "quick" and plan["prop"] in PROVED:
        side.append(lambda: r.proof.extend(graph.prove(work)))
    c = orca.run_jobs(r.jobs, plan["clients"], work, FEATURES.get(plan["prop"]), others=side, reference=plan["tier"] != "quick")
    if c:
        r.client, r.client_samples, r.client_counts = c["found"], c["samples"], c["counts"]
        only_js = plan["prop"] in ("C24", "C25", "C26")   # the Rust harness only spells these vectors out
        ran = {w: n for w, n in c["counts"].items() if w == "js" or (w == "rust" and not only_js)}
        r.client_evaluations = sum(v for n in ran.values() for v in n.values())
        r.client_distinct = c["distinct"]
        if only_js:
            r.client_counts = {("vectors" if w == "rust" else w): n for w, n in c["counts"].items()}
    return r


def coverage(plan, r):
    kinds = set(plan["kinds"])
    rows = [(j, s) for j in r.jobs for s in j.steps_log]
    relevant = [(j, s) for j, s in rows if kinds & set(s[1].split(","))]
    samples = [{"job": j.name, "transaction": s[4], "accepted": s[2] == "true", "code": int(s[3])} for j, s in relevant if len(s) > 4 and s[4]][:6]
    samples += r.client_samples[:4]
    total = lambda k: sum(j.stats[k] for j in r.jobs)
    ixs = {}
    for j in r.jobs:
        for k, v in j.stats["instructions"].items():
            a = ixs.setdefault(k, {"executed": 0, "succeeded": 0})
            a["executed"] += v
            a["succeeded"] += j.stats["instructions_ok"].get(k, 0)
    codes = {}
    for j in r.jobs:
        for k, v in j.stats["codes"].items():
            codes[k] = codes.get(k, 0) + v
    c = {
        "evaluations": total("steps") + r.client_evaluations,
        "distinct_nontrivial": len({s[0] for _, s in relevant}) + r.client_distinct,
        "rule": "A case is one transaction of a behaviour generated from the specification, executed by the real program on "
                "the ledger the specification prescribes and compared in full (accounts, events, error). Distinct by ledger "
                "and transaction; non-trivial if it contains one of: " + ", ".join(plan["kinds"]),
        "samples": samples or [{"none": True}],
        "behaviours_replayed": total("traces"),
        "accepted": total("accepted"), "rejected": total("rejected"),
        "instructions": ixs, "rejection_codes": codes,
        "jobs": [{"module": j.main, "seed": j.seed, "behaviours": j.stats["traces"], "transactions": j.stats["steps"]} for j in r.jobs],
    }
    if any("reference_steps" in j.stats for j in r.jobs):
        c["on_reference_runtime"] = {"transactions": sum(j.stats.get("reference_steps", 0) for j in r.jobs),
                                     "diverging_only_there": sum(j.stats.get("reference_only", 0) for j in r.jobs)}
    listed = [j for j in r.jobs if j.file == "graphs.qnt"]
    if listed:
        tlc = [j.stats_tlc for j in listed] + r.models
        c["states"] = sum(m["states"] for m in tlc)
        c["transitions"] = sum(m["transitions"] for m in tlc)
        c["traces_validated_against_impl"] = c["behaviours_replayed"] + sum(j.stats["steps"] for j in listed)
        c["model_checking"] = tlc
        c["rule"] += (". States and transitions are those TLC explored in the instances of spec/design.qnt listed under model_checking, with the "
                      "property evaluated on every transition; validated traces are the random behaviours plus the listed design transitions, "
                      "each executed by the real program")
    if r.proof:
        c["design_proof"] = r.proof
    if r.client_evaluations:
        c["client_vectors"] = r.client_counts
        c["rule"] = (c["rule"] + ". A client case" if r.jobs else "A case") + (
            " is one vector generated from spec/client.qnt, spec/scripts.qnt or spec/vectors.qnt and run by one client: " + CLIENT_RULE[plan["prop"]])
        if not r.jobs:
            for k in ("behaviours_replayed", "accepted", "rejected", "instructions", "rejection_codes", "jobs"):
                del c[k]
    return c

