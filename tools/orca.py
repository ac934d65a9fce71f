"""Shared machinery of the checks: building the harness, running Quint, replaying traces, judging divergences."""
import collections, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XORCA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
CORES = os.cpu_count() or 4


class ToolError(Exception):
    """The check could not be carried out (exit 2); says nothing about the property."""


def rust_env():
    e = dict(os.environ)
    e.update(PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", ""), RUSTUP_TOOLCHAIN="1.88.0",
             CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
    return e


def cargo(crate, binary, wrapper=None, target=None, features=None):
    """Builds a harness crate against the current working tree and returns the binary."""
    env = rust_env()
    if wrapper:
        env["RUSTC_WRAPPER"] = os.path.join(VERIF, wrapper)
    target = target or os.path.join(BUILD, crate)
    cmd = ["cargo", "build", "--offline", "--bin", binary, "--target-dir", target]
    if features:
        cmd += ["--features", features]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("cargo build of %s failed:\n%s" % (crate, p.stdout[-4000:]))
    return os.path.join(target, "debug", binary)


def build_harness():
    return cargo("harness", "conformance", wrapper="harness/rustc-wrapper.sh")


def build_reference():
    """The same replay on the real runtime (litesvm); None if that cannot be built."""
    try:
        return cargo("reference", "reference", wrapper="harness/rustc-wrapper.sh")
    except ToolError as e:
        print("note: the reference runtime could not be built: %s" % str(e)[-400:], file=sys.stderr)
        return None


def quint_env():
    e = dict(os.environ)
    e.setdefault("NODE_OPTIONS", "--max-old-space-size=3500")
    return e


class Job:
    """One run of the specification that writes traces: a module of scenarios.qnt or sweeps.qnt."""

    def __init__(self, main, samples, steps, seed, step="step", file="scenarios.qnt", keep=False):
        self.keep = keep
        self.main, self.samples, self.steps, self.seed, self.step, self.file = main, samples, steps, seed, step, file
        self.name = "%s-%s" % (main if main not in ("client", "scripts") else step, seed)

    def generate(self, work):
        d = os.path.join(work, self.name)
        os.makedirs(d, exist_ok=True)
        cmd = ["quint", "run", "--main", self.main, "--step", self.step, "--max-samples", str(self.samples),
               "--max-steps", str(self.steps), "--n-traces", str(self.samples), "--seed", str(self.seed),
               "--invariant", "noViolation", "--out-itf", d + "/t_{seq}.itf.json", self.file]
        p = subprocess.run(cmd, cwd=SPEC, env=quint_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.dir = d
        self.spec_violation = "[violation]" in p.stdout
        if p.returncode != 0 and not self.spec_violation:
            raise ToolError("quint run %s failed:\n%s" % (self.main, p.stdout[-3000:]))
        if self.spec_violation:
            raise ToolError("the specification itself breaks a property (%s, seed %s):\n%s" % (self.main, self.seed, p.stdout[-3000:]))
        return self

    def replay(self, binary, reference=None):
        """Executes the behaviours; with `reference`, on the real runtime as well."""
        again = []
        if reference:
            p = subprocess.run([reference, "replay", self.dir, self.dir + ".ref.jsonl", self.dir + ".ref.json", self.name],
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            if p.returncode != 0:
                raise ToolError("replay of %s on the reference runtime failed (%d): %s" % (self.name, p.returncode, p.stderr[-3000:]))
            again = [dict(json.loads(l), runtime="litesvm") for l in open(self.dir + ".ref.jsonl")]
        cases, stats = self.dir + ".cases.jsonl", self.dir + ".stats.json"
        p = subprocess.run([binary, "replay", self.dir, cases, stats, self.name], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise ToolError("replay of %s failed (%d): %s" % (self.name, p.returncode, p.stderr[-3000:]))
        self.stats = json.load(open(stats))
        self.cases = [json.loads(l) for l in open(cases)]
        if reference:
            self.stats["reference_steps"] = json.load(open(self.dir + ".ref.json"))["steps"]
            have = {(c["trace"], c["step"], c["sub"]) for c in self.cases}
            more = [c for c in again if (c["trace"], c["step"], c["sub"]) not in have]
            self.stats["reference_only"] = len(more)
            self.cases += more
        for c in self.cases:
            c["job"] = self.name
        self.steps_log = [l.rstrip("\n").split("\t") for l in open(stats + ".steps") if l.strip()]
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)
        return self


def run_jobs(jobs, client_jobs, work, features, workers=CORES, others=(), reference=False):
    """Generates traces while the harnesses build, then replays them into the program and the clients.
    `others`: further work (model checking) done alongside; `reference`: replay on the real runtime too."""
    kept = [j for j in jobs if j.keep]
    with concurrent.futures.ThreadPoolExecutor(3) as ex, concurrent.futures.ThreadPoolExecutor(workers) as gen:
        b = ex.submit(build_harness) if jobs else None
        c = ex.submit(build_clients, features) if client_jobs or kept else None
        ref = ex.submit(build_reference) if jobs and reference else None
        try:
            side = [gen.submit(f) for f in others]
            cf = [gen.submit(j.generate, work) for j in client_jobs]
            futures = [gen.submit(j.generate, work) for j in jobs]
            rep = []
            if jobs:
                binary = b.result()
                second = ref.result() if ref else None
                rep = [gen.submit(f.result().replay, binary, second) for f in concurrent.futures.as_completed(futures)]
            for r in rep:
                r.result()
            for r in cf + side:
                r.result()
            return run_clients(c.result(), client_jobs + kept, work) if c else None
        finally:
            gen.shutdown(wait=True, cancel_futures=True)


def build_clients(features):
    return cargo("clients", "clients", features=features)


def js_on(vectors, out):
    p = subprocess.run(["node", "--max-old-space-size=3000", os.path.join(VERIF, "clients/js/run.mjs"), REPO, vectors, out + ".jsonl", out + ".json", out],
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise ToolError("the JavaScript client harness failed (%d): %s" % (p.returncode, p.stderr[-3000:]))
    stats = json.load(open(out + ".json"))
    return [json.loads(l) for l in open(out + ".jsonl")], stats["vectors"], sum(n for k in stats["notRun"].values() for n in k.values())


def clients_on(binary, traces, work, tag):
    """Runs both clients on traces; returns divergences, counts and sample vectors."""
    f = lambda n: os.path.join(work, "%s-%s" % (tag, n))
    p = subprocess.run([binary] + traces + [f("rust.jsonl"), f("vectors.jsonl"), f("rust.json")], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise ToolError("the Rust client harness failed (%d): %s" % (p.returncode, p.stderr[-3000:]))
    js, n, skipped = js_on(f("vectors.jsonl"), f("js"))
    cases = [json.loads(l) for l in open(f("rust.jsonl"))] + js
    counts = {"rust": json.load(open(f("rust.json")))["vectors"], "js": n}
    if skipped:
        counts["not_run_by_js"] = {"calls what the stand-ins do not model": skipped}
    samples, distinct = [], set()
    with open(f("vectors.jsonl")) as h:
        for i, l in enumerate(h):
            distinct.add(hash(l))
            if i % 97 == 0 and len(samples) < 4:
                samples.append({"client_vector": l[:700]})
    os.remove(f("vectors.jsonl"))
    return cases, counts, samples, distinct


def again_step(r, work):
    """Re-executes a recorded ledger step against the current tree; returns its divergences."""
    j = Job("again", 1, 1, 0)
    j.dir, j.name = os.path.join(work, "again"), r["salt"]
    os.makedirs(j.dir)
    json.dump(r["itf"], open(os.path.join(j.dir, r["id"] + ".itf.json"), "w"))
    os.makedirs(os.path.dirname(os.path.join(work, r["salt"])), exist_ok=True)
    return j.replay(build_harness()).cases


def again_client(f, work):
    binary = build_clients("queries" if f["vector"] == "QueryV" else "json" if f["vector"] in ("StateV", "ClaimV", "TokenV", "MintV", "EventV") else None)
    t = os.path.join(work, "again.itf.json")
    if f["client"] == "rust":
        key, item = ("conv", f["input"]) if f["vector"] == "Conv" else ("batch", {"tag": f["vector"], "value": f["input"]})
        json.dump({"states": [{key: [item]}]}, open(t, "w"))
        return clients_on(binary, [t], work, "again")[0]
    json.dump({"kind": f["vector"], "v": f["input"]}, open(t, "w"))
    return js_on(t, os.path.join(work, "again"))[0]


CLIENT_PROPERTY = {"Address": "C19", "Instr": "C20", "StateV": "C21", "ClaimV": "C21", "TokenV": "C21", "MintV": "C21",
                   "EventV": "C15", "ErrorV": "C23", "QueryV": "C22", "Conv": "C18", "Script": "C24", "Pending": "C25", "StatusV": "C25", "KeyFileV": "C26", "UploadV": "C26"}


def run_clients(binary, jobs, work):
    groups = [(j.name, sorted(glob.glob(j.dir + "/*.itf.json"))) for j in jobs]
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(lambda g: clients_on(binary, g[1], work, g[0]), groups))
    found, counts, samples, distinct = [], {}, [], set()
    for (name, _), (cases, n, smp, lines) in zip(groups, res):
        distinct |= lines
        for c in cases:
            p = CLIENT_PROPERTY[c["kind"]]
            found.append({"kind": "client vector", "client": c["client"], "vector": c["kind"], "property": p, "violates": [p], "why": c["why"],
                          "input": c["input"], "job": name})
        for who, kinds in n.items():
            for k, v in kinds.items():
                counts.setdefault(who, collections.Counter())[k] += v
        samples += smp[:2]
    for j in jobs:
        shutil.rmtree(j.dir, ignore_errors=True)
    return {"found": found, "counts": {w: dict(c) for w, c in counts.items()}, "samples": samples, "distinct": len(distinct)}


# ---------------------------------------------------------------------------------------------------- judging
def shape(c):
    """Cases that differ only in numbers and names are the same finding."""
    why = " | ".join(c["why"])
    why = re.sub(r'"(alice|bob|carol|mallory|donor|deployer)"', '"U"', why)
    why = re.sub(r"-?\d+", "#", why)
    kinds = re.findall(r"call: (\w+)", c["tx"])
    return (tuple(kinds), why[:400])


def select(cases, per_shape=3, limit=64):
    """Representative divergences (with their single-instruction refinements), from every job in turn."""
    groups = collections.OrderedDict()
    rank, seen = {}, collections.Counter()
    for i, c in enumerate(cases):
        seen[c["job"]] += 1
        rank[i] = seen[c["job"]]
    for i in sorted(rank, key=lambda i: (rank[i], i)):
        c = cases[i]
        if c["sub"] == 0:
            groups.setdefault(shape(c), []).append(c)
    subs = collections.defaultdict(list)
    for c in cases:
        if c["sub"]:
            subs[(c["job"], c["trace"], c["step"])].append(c)
    out = []
    for rnd in range(per_shape):
        for g in groups.values():
            if rnd < len(g) and len(out) < limit:
                c = g[rnd]
                out.append(c)
                out += subs[(c["job"], c["trace"], c["step"])]
    return out


def judge(cases, work, tag="judge", chunk=6):
    """Asks the specification which properties each observed step violates."""
    parts = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]

    def one(k):
        # every distinct account and address is a definition of its own: small definitions keep type checking fast
        f = os.path.join(work, "%s%d.qnt" % (tag, k))
        defs, names = [], {}

        def name(prefix, text, typ):
            if (typ, text) not in names:
                names[(typ, text)] = "%s%d" % (prefix, len(names))
                defs.append("  pure val %s: %s = %s" % (names[(typ, text)], typ, text))
            return names[(typ, text)]

        def ledger(items, c):
            m = ", ".join("%s -> %s" % (name("a", x, "Addr"), name("v", y, "Acct")) for x, y in items)
            t = "pure val l%d: Ledger = { now: %d, deg: %s, accts: Map(%s) }" % (len(defs), c["now"], str(c["deg"]).lower(), m)
            defs.append("  " + t)
            return t.split()[2][:-1]

        body = []
        for i, c in enumerate(parts[k]):
            pre, post = ledger(c["pre_items"], c), ledger(c["post_items"], c)
            defs.append("  pure val tx%d: List[Ix] = %s\n  pure val obs%d: Obs = %s" % (i, c["tx"], i, c["obs"]))
            body.append("verdict(%s, tx%d, obs%d, %s)" % (pre, i, i, post))
        rel = os.path.relpath(SPEC, work)
        with open(f, "w") as h:
            h.write('module judge {\n  import ledger.* from "%s/ledger"\n  import verdict.* from "%s/verdict"\n%s\n'
                    '  var out: List[Set[str]]\n  action init = out\' = [ %s ]\n  action step = out\' = out\n}\n'
                    % (rel, rel, "\n".join(defs), ",\n    ".join(body)))
        p = subprocess.run(["quint", "run", "--main", "judge", "--max-samples", "1", "--max-steps", "0", "--out-itf", f + ".itf.json", f],
                           env=quint_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("judging failed:\n" + "\n".join(l for l in p.stdout.splitlines() if "rror" in l)[-2000:])
        s = json.load(open(f + ".itf.json"))["states"][0]
        out = s.get("out", s.get("judge::out"))
        return [sorted(v["#set"]) for v in out]

    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(one, range(len(parts))))
    for c, v in zip(cases, [v for r in res for v in r]):
        c["violates"] = v
    return cases


# ---------------------------------------------------------------------------------------------------- reporting
def known_findings():
    """Lines `finding: property=<id> match=<regex> <what fails>`; `fixed:` lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def write_replay(prop, obj):
    d = os.path.join(BUILD, "violations")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:10]
    f = os.path.join(d, "%s-%s.json" % (prop, h))
    json.dump(obj, open(f, "w"), indent=1)
    return f


def write_evidence(prop, tier, seed, level, coverage, assumptions, wall, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
               "assumptions": assumptions, "wall_s": round(wall, 1), "violations": violations},
              open(os.path.join(d, prop + ".json"), "w"), indent=1)
