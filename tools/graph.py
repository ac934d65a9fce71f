"""Model checking of the small instances of the design (TLC), and conformance of the program with every transition found."""
import concurrent.futures, json, os, re, shutil, socket, subprocess, tempfile, time
import orca
from orca import ToolError

JARS = ":".join("/opt/veriftools/" + j for j in ("tla/tla2tools.jar", "tla/CommunityModules-deps.jar", "apalache-0.58.0/lib/apalache.jar"))


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def compile_tla(module, d):
    """Translates an instance of graphs.qnt to TLA+."""
    p = subprocess.run(["quint", "compile", "--target", "tlaplus", "--main", module, "--invariant", "sound",
                        "--server-endpoint", "localhost:%d" % free_port(), os.path.join(orca.SPEC, "graphs.qnt")],
                       cwd=d, env=orca.quint_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    m = re.search(r"^-+ MODULE (\w+) -+.*", p.stdout, re.S | re.M)
    if p.returncode != 0 or not m:
        raise ToolError("translation of %s to TLA+ failed:\n%s" % (module, (p.stdout + p.stderr)[-2000:]))
    text = m.group(0)
    prefix = re.search(r"^\s+(\w*)cur\s*$", text, re.M).group(1)
    return text.replace("MODULE " + m.group(1), "MODULE M", 1), prefix


def tlc(module, work, depth=None, listing=False, memory="6g", workers=orca.CORES, timeout=600):
    """Explores an instance; returns statistics and, with `listing`, its transitions."""
    t0 = time.time()
    d = os.path.join(work, "tlc-%s-%s" % (module, depth or "all"))
    os.makedirs(d)
    text, v = compile_tla(module, d)
    extra = "view_ == <<%scur, %swrong>>\n" % (v, v)
    cfg = "INIT q_init\nNEXT q_step\nINVARIANT q_inv\nCHECK_DEADLOCK FALSE\nVIEW view_\n"
    if listing:
        extra += ('list_ == PrintT("~~" \\o ToString(%(v)scur) \\o "~~" \\o ToString(%(v)snote\') \\o "~~" \\o '
                  '(IF %(v)scur\' = %(v)scur THEN "=" ELSE ToString(%(v)scur\')))\n' % {"v": v})
        cfg += "ACTION_CONSTRAINT list_\n"
    if depth:
        extra += 'depth_ == TLCGet("level") < %d\n' % depth
        cfg += "ACTION_CONSTRAINT depth_\n"
    text = re.sub(r"^EXTENDS (.*)$", "EXTENDS \\1, TLC, Sequences", text, 1, re.M)
    text = re.sub(r"\n=+\s*$", "\n" + extra.replace("\\", "\\\\") + "====\n", text)
    open(os.path.join(d, "M.tla"), "w").write(text)
    open(os.path.join(d, "M.cfg"), "w").write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + memory, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
           "-config", "M.cfg", "M.tla"]
    out = os.path.join(d, "out.txt")
    with open(out, "w") as h:
        try:
            p = subprocess.run(cmd, cwd=d, stdout=h, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s did not finish in %d s" % (module, timeout))
    lines, tail = [], []
    with open(out) as h:
        for l in h:
            if l.startswith('"~~'):
                lines.append(l)
            else:
                tail.append(l)
    tail = "".join(tail)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", tail)
    if p.returncode != 0 or not m:
        raise ToolError("TLC reports an error in the specification itself (%s):\n%s" % (module, tail[-3000:]))
    n = [int(x.replace(",", "")) for x in m[-1]]
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return {"instance": module, "transitions": n[0], "states": n[1], "depth": depth or "complete", "seconds": round(time.time() - t0, 1)}, lines


# ---------------------------------------------------------------------------------------------------- TLC values
TOKEN = re.compile(r'\s*(<<|>>|:>|@@|\|->|"[^"]*"|-?\d+|\w+|[\[\](){},])')


def value(text):
    toks = TOKEN.findall(text)
    pos = 0

    def peek():
        return toks[pos]

    def take(t=None):
        nonlocal pos
        x = toks[pos]
        assert t is None or x == t, (t, x, text)
        pos += 1
        return x

    def items(end):
        out = []
        while peek() != end:
            out.append(parse())
            if peek() == ",":
                take()
        take(end)
        return out

    def parse():
        t = take()
        if t == "<<":
            return items(">>")
        if t == "{":
            return items("}")
        if t == "[":
            r = {}
            while peek() != "]":
                k = take().strip('"')
                take("|->")
                r[k] = parse()
                if peek() == ",":
                    take()
            take("]")
            return r
        if t == "(":
            r = []
            while True:
                k = parse()
                take(":>")
                r.append((k, parse()))
                if take() == ")":
                    break
            return dict(r) if all(isinstance(k, str) for k, _ in r) else [[k, v] for k, v in r]
        if t[0] == '"':
            return t[1:-1]
        if t in ("TRUE", "FALSE"):
            return t == "TRUE"
        return int(t)

    return parse()


def transitions(lines):
    """States (in order of appearance) and edges [source, action, accepted, codes, target]."""
    states, index, edges, memo = [], {}, [], {}

    def state(s):
        if s not in index:
            index[s] = len(states)
            v = value(s)
            v["claims"] = [[k[0], k[1], c["amt"], c["ts"]] for k, c in (v["claims"] or [])]
            states.append(v)
        return index[s]

    for l in lines:
        _, a, n, b = l.strip().strip('"').replace('\\"', '"').split("~~")
        src = state(a)
        if n not in memo:
            memo[n] = value(n)
        e = memo[n]
        edges.append([src, e["a"], e["ok"], sorted(e["codes"]), src if b == "=" else state(b)])
    return states, edges


class GraphJob(orca.Job):
    """All transitions of a design instance, as a directory the conformance harness replays."""

    def __init__(self, module, depth, parts=8):
        super().__init__(module, 1, depth, 0, file="graphs.qnt")
        self.seed = None
        self.name, self.parts = "%s-%d" % (module, depth), parts

    def generate(self, work):
        self.stats_tlc, lines = tlc(self.main, work, self.steps, listing=True)
        states, edges = transitions(lines)
        self.stats_tlc["listed"] = len(edges)
        self.dirs = []
        for k in range(self.parts):
            d = os.path.join(work, "%s-part%d" % (self.name, k))
            os.makedirs(d)
            json.dump({"states": states, "edges": [e for e in edges if e[0] % self.parts == k]}, open(os.path.join(d, "graph.itf.json"), "w"))
            self.dirs.append(d)
        return self

    def replay(self, binary, reference=None):
        name, total = self.name, None
        cases, log = [], []
        with concurrent.futures.ThreadPoolExecutor(self.parts) as ex:
            for d, j in zip(self.dirs, ex.map(lambda d: self.part(d).replay(binary, reference), self.dirs)):
                for c in j.cases:
                    c["job"], c["trace"] = name, os.path.basename(d)
                cases += j.cases
                log += j.steps_log
                if total is None:
                    total = j.stats
                else:
                    for k, v in j.stats.items():
                        if isinstance(v, dict):
                            for a, n in v.items():
                                total[k][a] = total[k].get(a, 0) + n
                        else:
                            total[k] += v
        total["traces"] = 0
        self.cases, self.steps_log, self.stats = cases, log, total
        return self

    def part(self, d):
        j = orca.Job(self.main, 1, 1, 0)
        j.dir, j.name = d, self.name
        return j


class Model:
    """An instance that is only model checked (no listing)."""

    def __init__(self, module, depth=None, workers=4, memory="4g", timeout=600):
        self.module, self.depth, self.workers, self.memory, self.timeout = module, depth, workers, memory, timeout

    def run(self, work):
        return tlc(self.module, work, self.depth, workers=self.workers, memory=self.memory, timeout=self.timeout)[0]


def prove(work, port=None):
    """The inductive invariant of spec/proof.qnt (Apalache): base case and inductive step."""
    out = []
    for name, init, steps in (("base", "start", 0), ("step", "anywhere", 1)):
        t0 = time.time()
        d = os.path.join(work, "proof-" + name)
        os.makedirs(d)
        p = subprocess.run(["quint", "verify", "--main", "proof", "--init", init, "--invariant", "holds", "--max-steps", str(steps),
                            "--server-endpoint", "localhost:%d" % free_port(), os.path.join(orca.SPEC, "proof.qnt")],
                           cwd=d, env=orca.quint_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or "No violation found" not in p.stdout:
            raise ToolError("the inductive proof of the design fails (%s):\n%s" % (name, p.stdout[-3000:]))
        out.append({"obligation": "spec/proof.qnt, %s: %s" % (name, "start => Inv" if steps == 0 else "Inv and a step => Inv' and no property broken"),
                    "seconds": round(time.time() - t0, 1)})
    return out
