#!/usr/bin/env python3
"""Mutation study of the client conformance (maintenance only; no check runs this).

  client_mutants.py pool DIR                       generate, once, the vectors of every client property's quick plan
  client_mutants.py run DIR OUT.jsonl js|rust [N] [SKIP]
"""
import json, os, re, subprocess, sys, glob, random, shutil, queue, concurrent.futures as cf
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(H))
import orca, plans

SWAPS = [(" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), ("===", "!=="), ("!==", "==="), (" == ", " != "), (" != ", " == "),
         (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), ("true", "false"), ("false", "true"), ("&&", "||"), ("||", "&&"), ("??", "&&"),
         ("getU64", "getU32"), ("getU8", "getU16"), ("getI64", "getU64"), ("u64", "u32"), ("i64", "u64"), ("checked_add", "checked_sub"), ("checked_sub", "checked_add"),
         ("checked_mul", "checked_div"), ("checked_div", "checked_mul"), ("saturating_sub", "wrapping_sub"), ("u128", "u64"), ("BigInt(", "Number("),
         ("WRITABLE_SIGNER", "WRITABLE"), ("READONLY_SIGNER", "READONLY"), ("isWritable", "isSigner"), ("new_readonly", "new"), ("AccountMeta::new(", "AccountMeta::new_readonly("),
         ("Some(", "None.or(Some("), ("unwrap_or(", "unwrap_or_default(); ("), (".rev()", ""), ("?;", ".ok();"), ("await ", "")]


def sources(kind):
    if kind == "scripts":
        return ["ts-scripts/%s.ts" % n for n in ("constants", "stake", "unstake", "withdraw", "initialize", "set", "transfer-orca", "transfer-orca-to-vault",
                                                  "update-xorca-mint-authority", "pending-withdraws", "status")]
    base, ext = ("rust-client/src", "rs") if kind == "rust" else ("js-client/src", "ts")
    fs = [os.path.relpath(p, "/repo") for p in glob.glob("/repo/%s/**/*.%s" % (base, ext), recursive=True)]
    return [f for f in sorted(fs) if not re.search(r"test|/math/|index\.test", f)]


def mutations(kind):
    out, seen = [], set()
    for f in sources(kind):
        lines = open("/repo/" + f).read().split("\n")
        stop = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
        block = False
        for i in range(stop):
            l, s = lines[i], lines[i].strip()
            if re.match(r"(import|use|export) .*\{$", s) or s in ("import {", "export {"):
                block = True
            if block:
                block = not re.match(r"\}.*;$", s)
                continue
            if not re.search(r"[1-9A-Za-z]", s):
                continue
            if kind == "scripts" and s.startswith("console.") and not re.search("pending|status", f):
                continue
            if not s or s.startswith(("//", "*", "/*", "use ", "import", "export *", "pub use", "#[", "pub mod", "mod ")):
                continue
            new = []
            for a, b in SWAPS:
                for m in re.finditer(re.escape(a), l):
                    new.append((l[:m.start()] + b + l[m.end():], "%s -> %s" % (a.strip(), b.strip())))
            for m in re.finditer(r"(?<![\w.])\d+(?=n?\b)", l):
                new.append((l[:m.start()] + str(int(m.group()) + 1) + l[m.end():], "+1"))
            for m in re.finditer(r"'([^']{2,})'|\"([^\"]{2,})\"", l):
                t = m.group(0)
                new.append((l[:m.start()] + t[0] + "x" + t[2:] + l[m.end():], "string"))
            if re.match(r"(if|while) ?\(", s):
                new.append((re.sub(r"(if|while) ?\(", r"\1 (false && ", l, 1), "never"))
            if re.match(r"if .*\{$", s) and kind == "rust":
                new.append((l.replace("if ", "if false && ", 1), "never"))
            if re.match(r"[\w.\[\]]+ (\+|-)?= .*;$", s) or re.match(r"[\w.]+\(.*\);$", s) or re.match(r"(throw|return) .*;$", s):
                new.append(("", "drop"))
            if i + 1 < stop and re.match(r".*,$", s) and re.match(r".*,$", lines[i + 1].strip()) and len(s) < 90:
                new.append((lines[i + 1] + "\n" + l, "swap with next"))
            for n, w in new:
                if n != l and (f, i, n) not in seen:
                    seen.add((f, i, n))
                    out.append((f, i, n, w))
    return out


def pool(d):
    os.makedirs(d, exist_ok=True)
    clean = orca.build_clients("queries")
    jobs = []
    for p in plans.CLIENT:
        pl = plans.plan(p, "quick", 1)
        for j in pl["clients"] + [j for j in pl["jobs"] if j.keep]:
            jobs.append((p, j))

    def go(x):
        p, j = x
        w = os.path.join(d, p)
        os.makedirs(w, exist_ok=True)
        j.generate(w)
        ts = sorted(glob.glob(j.dir + "/*.itf.json"))
        b = j.dir
        subprocess.run([clean] + ts + [b + ".rust.jsonl", b + ".vectors.jsonl", b + ".rust.json"], check=True, stdout=subprocess.DEVNULL)
        return b
    with cf.ThreadPoolExecutor(4) as ex:
        print(len(list(ex.map(go, jobs))))


class Worker:
    def __init__(self, n, d, kind):
        self.kind, self.pool, self.root = kind, d, "/tmp/cmutw/%s%d" % (kind, n)
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root + "/verif/build")
        os.makedirs(self.root + "/repo")
        subprocess.run("cd /repo && git archive HEAD | tar x -C %s/repo" % self.root, shell=True, check=True)
        subprocess.run("cd /verif && tar c --exclude=./build --exclude=./.git --exclude=./seeded . | tar x -C %s/verif" % self.root, shell=True, check=True)
        subprocess.run("find %s/verif -name Cargo.toml -not -path '*/vendor/*' | xargs sed -i 's#path = \"/repo#path = \"%s/repo#'" % (self.root, self.root), shell=True, check=True)
        if kind == "rust":
            subprocess.run("cp -a /verif/build/clients %s/verif/build/" % self.root, shell=True, check=True)

    def mutate(self, mut):
        f, i, new, what = mut
        p = os.path.join(self.root, "repo", f)
        keep = open(p).read()
        lines = keep.split("\n")
        old = lines[i]
        emit = lambda t: subprocess.run(["/opt/veriftools/node/node_modules/@esbuild/linux-x64/bin/esbuild", "--loader=ts"], input=t, text=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
        if what == "swap with next":
            lines[i:i + 2] = new.split("\n")
        else:
            lines[i] = new
        if self.kind != "rust" and emit("\n".join(lines)) == emit(keep):
            return dict(file=f, line=i + 1, what=what, old=old.strip(), new=new.strip(), result="types only")
        open(p, "w").write("\n".join(lines))
        try:
            return dict(file=f, line=i + 1, what=what, old=old.strip(), new=new.strip(), **self.evaluate())
        except Exception as e:
            return dict(file=f, line=i + 1, what=what, old=old.strip(), new=new.strip(), result="error", err=str(e)[-300:])
        finally:
            open(p, "w").write(keep)

    def evaluate(self):
        out, tools = {}, []
        if self.kind == "rust":
            v = self.root + "/verif"
            p = subprocess.run(["cargo", "build", "--offline", "--bin", "clients", "--features", "queries", "--target-dir", v + "/build/clients"],
                               cwd=v + "/clients", env=orca.rust_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                return {"result": "does not compile"}
            binary = v + "/build/clients/debug/clients"
        for vec in sorted(glob.glob(self.pool + "/*/*.vectors.jsonl")):
            if (vec.split("/")[-2] in ("C24", "C25")) != (self.kind == "scripts"):
                continue
            prop, base = vec.split("/")[-2], vec[:-len(".vectors.jsonl")]
            o = self.root + "/o"
            if self.kind != "rust":
                p = subprocess.run(["node", "--max-old-space-size=3000", os.path.join(self.root, "verif/clients/js/run.mjs"), self.root + "/repo", vec, o + ".jsonl", o + ".json", o],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            else:
                p = subprocess.run([binary] + sorted(glob.glob(base + "/*.itf.json")) + [o + ".jsonl", o + ".v", o + ".json"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            if p.returncode:
                tools.append(prop + ": " + p.stderr[-200:])
                continue
            for l in open(o + ".jsonl"):
                q = orca.CLIENT_PROPERTY[json.loads(l)["kind"]]
                if q == prop:
                    out[prop] = out.get(prop, 0) + 1
            if out and os.environ.get("FULL") != "1":
                break
        return {"result": "caught" if out else "tool error" if tools else "missed", "own": out, "tools": tools[:2]}


def main():
    if sys.argv[1] == "pool":
        return pool(sys.argv[2])
    d, out, kind = sys.argv[2:5]
    muts = mutations(kind)
    random.Random(7).shuffle(muts)
    n = int(sys.argv[5]) if len(sys.argv) > 5 else len(muts)
    skip = int(sys.argv[6]) if len(sys.argv) > 6 else 0
    print(len(muts), "mutants", flush=True)
    muts = muts[skip:skip + n]
    W = int(os.environ.get("W", "2"))
    q = queue.Queue()
    for i in range(W):
        q.put(Worker(i, d, kind))

    def go(m):
        w = q.get()
        try:
            return w.mutate(m)
        finally:
            q.put(w)
    with cf.ThreadPoolExecutor(W) as ex, open(out, "a") as h:
        for r in map(cf.Future.result, cf.as_completed([ex.submit(go, m) for m in muts])):
            h.write(json.dumps(r) + "\n")
            h.flush()


main()
