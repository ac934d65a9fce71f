#!/usr/bin/env python3
"""Mutation study of the ledger conformance (maintenance only; no check runs this).

  mutants.py pool DIR                      generate, once, the traces of every property's quick plan
  mutants.py run DIR OUT.jsonl [N] [I..]   mutate solana-program, replay the pool, record which properties each check reports
Mutants are textual edits of the program's sources; those that do not compile or that fail the unit tests are skipped.
"""
import json, os, re, subprocess, sys, glob, random, shutil, concurrent.futures as cf
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(H))
import orca, plans

FILES = ["instructions/stake.rs", "instructions/unstake.rs", "instructions/withdraw.rs", "instructions/initialize.rs",
         "instructions/set.rs", "assertions/account.rs", "entrypoint.rs", "util/account.rs", "util/math.rs", "pda.rs", "event.rs",
         "state/mod.rs", "state/state.rs", "state/pending_withdraw.rs", "instructions/mod.rs", "error.rs"]


def pool(d):
    for p in plans.P:
        jobs = [j for j in plans.plan(p, "quick", 1)["jobs"] if j.file != "graphs.qnt"]
        w = os.path.join(d, p)
        os.makedirs(w, exist_ok=True)
        with cf.ThreadPoolExecutor(6) as ex:
            list(ex.map(lambda j: None if os.path.exists(os.path.join(w, j.name, "done")) else (j.generate(w), open(os.path.join(w, j.name, "done"), "w")), jobs))
        print(p, len(jobs), flush=True)


def mutations(repo):
    """(file, line number, old line, new line) edits."""
    out = []
    for f in FILES:
        p = os.path.join(repo, "solana-program/src", f)
        lines = open(p).read().split("\n")
        stop = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
        i = 0
        while i < stop:
            l = lines[i]
            s = l.strip()
            if not s or s.startswith("//") or s.startswith("use ") or s.startswith("log!"):
                i += 1
                continue
            # whole statement: from here to the matching `;`
            if re.match(r"(assert_\w+|\w+::verify_\w+|make_owner\w+)(::<\w+>)?\(", s):
                j = i
                while not lines[j].rstrip().endswith(";") and j < i + 12:
                    j += 1
                out.append((f, i, j, [""], "drop statement"))
            if s.startswith("if ") and s.endswith("{") and "else" not in s:
                k = i
                out.append((f, i, i, [l.replace("if ", "if false && ", 1)], "never"))
            for a, b in [("<", "<="), ("< ", "> "), ("!=", "=="), ("==", "!="), ("> 0", "> 1"), ("== 0", "== 1"), ("checked_add", "checked_sub"),
                         ("checked_sub", "checked_add"), ("checked_mul", "checked_div"), ("checked_div", "checked_mul"), ("||", "&&"),
                         (" + ", " - "), (" - ", " + "), ("true,", "false,"), ("true)", "false)"), ("false,", "true,"),
                         ("saturating_sub", "wrapping_sub"), ("+=", "-="), ("SYSTEM_PROGRAM_ID", "SPL_TOKEN_PROGRAM_ID"),
                         ("&crate::ID", "&SYSTEM_PROGRAM_ID"), ("unstaker_account", "vault_account"), ("state_account", "vault_account"),
                         ("vault_account", "state_account"), ("xorca_mint", "orca_mint"), ("u128", "u64"),
                         (".checked_add(", ".wrapping_add("), (".checked_sub(", ".wrapping_sub("), (".checked_mul(", ".wrapping_mul("),
                         (".checked_sub(", ".saturating_sub("), (".checked_add(", ".saturating_add("), ("100;", "99;"), ("100;", "0;"),
                         ("staker_orca_ata", "vault_account"), (".invoke()?;", ".invoke().ok();")]:
                for m in re.finditer(re.escape(a), l):
                    if a == "<" and (l[m.start():m.start() + 2] == "<=" or re.search(r"<\w", l[m.start():]) or "->" in l):
                        continue
                    n = l[:m.start()] + b + l[m.end():]
                    out.append((f, i, i, [n], "%s -> %s" % (a, b)))
            for m in re.finditer(r"\b\d+\b", l):
                if "[u8" in l or "const " in l and "LEN" in l or "padding" in l:
                    continue
                n = int(m.group())
                out.append((f, i, i, [l[:m.start()] + str(n + 1) + l[m.end():]], "%d -> %d" % (n, n + 1)))
            if "ErrorCode::" in s:
                for e in ("InvalidSeeds", "ArithmeticError"):
                    n = re.sub(r"ErrorCode::\w+", "ErrorCode::" + e, l)
                    if n != l and f != "error.rs":
                        out.append((f, i, i, [n], "error " + e))
            m = re.match(r"(\s*)(\w[\w.]*) = (.*);$", l)
            if m and not s.startswith("let"):
                out.append((f, i, i, [""], "drop assignment"))
            m = re.match(r"(\s*)(\w+): (&?\*?[\w.]+),$", l)
            if m and f == "event.rs":
                pass
            i += 1
    seen, res = set(), []
    for x in out:
        k = (x[0], x[1], x[2], x[3][0])
        if k not in seen:
            seen.add(k)
            res.append(x)
    return res


class Worker:
    def __init__(self, n, d):
        self.root = os.path.join("/tmp/mutw", str(n))
        self.pool = d
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root + "/verif")
        os.makedirs(self.root + "/repo")
        subprocess.run("cd /repo && git archive HEAD | tar x -C %s/repo" % self.root, shell=True, check=True)
        subprocess.run("cd /verif && tar c --exclude=./build --exclude=./.git --exclude=./seeded . | tar x -C %s/verif" % self.root, shell=True, check=True)
        subprocess.run("find %s/verif -name Cargo.toml -not -path '*/vendor/*' | xargs sed -i 's#path = \"/repo#path = \"%s/repo#'" % (self.root, self.root), shell=True, check=True)

    def mutate(self, mut):
        f, a, b, new, what = mut
        p = os.path.join(self.root, "repo/solana-program/src", f)
        keep = open(p).read()
        lines = keep.split("\n")
        old = "\n".join(lines[a:b + 1])
        lines[a:b + 1] = new
        open(p, "w").write("\n".join(lines))
        try:
            return dict(file=f, line=a + 1, what=what, old=old.strip(), new=new[0].strip(), **self.evaluate())
        finally:
            open(p, "w").write(keep)

    def evaluate(self):
        env = orca.rust_env()
        v = self.root + "/verif"
        env["RUSTC_WRAPPER"] = v + "/harness/rustc-wrapper.sh"
        p = subprocess.run(["cargo", "build", "--offline", "--bin", "conformance", "--target-dir", v + "/build/harness"], cwd=v + "/harness", env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return {"result": "does not compile"}
        binary = v + "/build/harness/debug/conformance"
        work = self.root + "/work"
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        out, other, by = {}, {}, {}
        first = ["C12", "C23", "C14", "C11", "C15", "C06", "C16", "C13"]
        props = sorted(os.listdir(self.pool), key=lambda q: (first.index(q) if q in first else 99, q))
        self.last = props[-1]
        for prop in props:
            cases = []
            for j in sorted(os.listdir(os.path.join(self.pool, prop))):
                c, s = work + "/c", work + "/s"
                r = subprocess.run([binary, "replay", os.path.join(self.pool, prop, j), c, s, j], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
                if r.returncode:
                    return {"result": "tool error", "err": r.stderr[-300:]}
                for l in open(c):
                    x = json.loads(l)
                    x["job"] = j
                    x.pop("replay", None)
                    cases.append(x)
            if cases and os.environ.get("FULL") != "1":
                return {"result": "caught", "own": {prop: len(cases)}}
            by[prop] = orca.select(cases) if cases else []
            if prop == self.last or by[prop] and (os.environ.get("FULL") != "1"):
                # cases of the same shape are judged alike: at most three of each shape over all properties
                sample = {}
                for cs in by.values():
                    for c in cs:
                        k = (orca.shape(c), c["sub"] > 0)
                        if len(sample.setdefault(k, [])) < 3:
                            sample[k].append(c)
                chosen = [c for v in sample.values() for c in v][:150 if os.environ.get("FULL") == "1" else 16]
                if chosen:
                    orca.judge(chosen, work)
                verdict = {k: set(x for c in v for x in c.get("violates", [])) for k, v in sample.items()}
                for q, cs in by.items():
                    vs = set(x for c in cs for x in verdict[(orca.shape(c), c["sub"] > 0)])
                    if q in vs:
                        out[q] = sum(q in verdict[(orca.shape(c), c["sub"] > 0)] for c in cs)
                    for x in vs:
                        other[x] = other.get(x, 0) + 1
                    if cs and not vs:
                        out["unattributed"] = 1
                if set(out) - {"unattributed"} and os.environ.get("FULL") != "1":
                    break
        return {"result": "caught" if set(out) - {"unattributed"} else "missed", "own": out, "any": other}


def main():
    if sys.argv[1] == "pool":
        return pool(sys.argv[2])
    d, out = sys.argv[2], sys.argv[3]
    muts = mutations("/repo")
    random.Random(7).shuffle(muts)
    if os.environ.get("KINDS"):
        muts = [m for m in muts if re.search(os.environ["KINDS"], m[4])]
    n = int(sys.argv[4]) if len(sys.argv) > 4 else len(muts)
    skip = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    muts = muts[skip:skip + n]
    print(len(muts), "mutants")
    W = int(os.environ.get("W", "3"))
    import queue
    q = queue.Queue()
    for i in range(W):
        q.put(Worker(i, d))

    def go(m):
        w = q.get()
        try:
            return w.mutate(m)
        finally:
            q.put(w)
    with cf.ThreadPoolExecutor(W) as ex, open(out, "a") as h:
        for r in map(cf.Future.result, cf.as_completed([ex.submit(go, m) for m in muts])):
            h.write(json.dumps(r) + "\n")
            h.flush()


main()
