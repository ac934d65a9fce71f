//! Replays behaviours generated from the specification into the real program and compares every step.

use crate::model::*;
use crate::vm::{Observed, Vm};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};

pub struct Predicted {
    ok: bool,
    idx: usize,
    codes: BTreeSet<i64>,
    events: Vec<Event>,
}

fn try_field<'a>(state: &'a Value, name: &str) -> Option<&'a Value> {
    if let Some(v) = state.get(name) {
        return Some(v);
    }
    let suffix = format!("::{name}");
    state.as_object().unwrap().iter().find(|(k, _)| k.ends_with(&suffix)).map(|(_, v)| v)
}
fn field<'a>(state: &'a Value, name: &str) -> &'a Value {
    try_field(state, name).expect(name)
}

#[derive(Default)]
pub struct Stats {
    pub traces: u64,
    pub steps: u64,
    pub txs_ok: u64,
    pub txs_rejected: u64,
    pub ixs: BTreeMap<String, u64>,
    pub ixs_ok: BTreeMap<String, u64>,
    pub codes: BTreeMap<i64, u64>,
    pub divergences: u64,
}

fn call_name(ix: &Ix) -> &'static str {
    match ix.call {
        Call::Stake(_) => "Stake",
        Call::Unstake(..) => "Unstake",
        Call::Withdraw(_) => "Withdraw",
        Call::Init(_) => "Initialize",
        Call::SetCooldown(_) => "SetCooldown",
        Call::SetAuthority(_) => "SetAuthority",
        Call::Raw { .. } => "Raw",
        Call::Lamports(_) => "SystemTransfer",
        Call::Send(_) => "TokenTransfer",
        Call::Burn(_) => "TokenBurn",
        Call::CreateAta => "CreateAta",
    }
}

pub struct Replayer {
    pub vm: Vm,
    pub stats: Stats,
    /// one line per replayed transaction: a hash of ledger and transaction, the kinds, the outcome (and some full texts)
    pub log: Vec<String>,
}

struct World {
    names: Names,
    known: BTreeSet<Addr>,
    deg: bool,
}

impl World {
    fn read(&mut self, vm: &Vm) -> Accts {
        let mut out = Accts::new();
        for a in &self.known {
            if a.0 == "prog" || a.0 == "none" {
                continue;
            }
            let k = self.names.of(a);
            if let Some(x) = vm.get(&k) {
                out.insert(a.clone(), self.names.decode(&x));
            }
        }
        out
    }
    fn raw(&mut self, vm: &Vm) -> Vec<(Pubkey, Account)> {
        let mut out = vec![];
        for a in &self.known.clone() {
            if a.0 == "prog" || a.0 == "none" {
                continue;
            }
            let k = self.names.of(a);
            if let Some(x) = vm.get(&k) {
                out.push((k, x));
            }
        }
        out
    }
}

fn differences(want: &Accts, got: &Accts) -> Vec<String> {
    let mut d = vec![];
    let keys: BTreeSet<&Addr> = want.keys().chain(got.keys()).collect();
    for k in keys {
        let (a, b) = (want.get(k), got.get(k));
        if a != b {
            let f = |x: Option<&Acct>| x.map(q_acct).unwrap_or_else(|| "absent".into());
            d.push(format!("{}: specified {}; observed {}", q_addr(k), f(a), f(b)));
        }
    }
    d
}

impl Replayer {
    pub fn new() -> Replayer {
        Replayer { vm: Vm::new(&[key(PROGRAM), clone_id()]), stats: Stats::default(), log: vec![] }
    }

    fn observe(&mut self, w: &mut World, ixs: &[Ix]) -> (Observed, Vec<Event>) {
        let list: Vec<_> = ixs.iter().map(|i| w.names.instruction(i)).collect();
        let o = self.vm.execute(&list);
        let ev = o.events.iter().map(|e| w.names.event(e)).collect();
        (o, ev)
    }

    /// Runs a list of single-operation numeric vectors (spec/vectors.qnt), each on a minimal ledger of its own.
    pub fn vectors(&mut self, id: &str, itf: &Value, salt: &str, cases: &mut Vec<Value>) {
        let mut w = World { names: Names::new(salt), known: BTreeSet::new(), deg: false };
        let u = |k: &str| addr(k, "alice", 0);
        let (state, vault) = (addr("state", "", 0), addr("vault", "", 0));
        let (orca, xorca) = (addr("mint", "orca", 0), addr("mint", "xorca", 0));
        let system = addr("prog", "system", 0);
        let token = addr("prog", "token", 0);
        let me = addr("prog", "self", 0);
        let meta = |a: &Addr, s: bool, w: bool| Meta { a: a.clone(), s, w };
        self.stats.traces += 1;
        for (step, st) in itf["states"].as_array().expect("states").iter().enumerate() {
            for (n, (v, want)) in list(field(st, "vecs")).iter().zip(list(field(st, "want"))).enumerate() {
                let g = |k: &str| int(&v[k]);
                let (op, vlt, esc, sup, amt) =
                    (g("op"), g("vault") as u64, g("escrow") as u64, g("supply") as u64, g("amt") as u64);
                let (funds, now, cd, ts) = (g("funds") as u64, g("now") as i64, g("cd") as i64, g("ts") as i64);
                let idx = (amt % 251) as u8;
                let pend = addr("pend", "alice", idx as i64);
                let holding = |m: &Addr, o: &Addr, n: u64| Acct {
                    lam: 2_039_280, prog: token.clone(),
                    data: Data::Token { mint: m.clone(), owner: o.clone(), amt: n, frozen: false, deleg: none() },
                };
                let minted = |a: Addr, n: u64| Acct {
                    lam: 1_461_600, prog: token.clone(),
                    data: Data::Mint { auth: a, freeze: none(), supply: n, dec: 6 },
                };
                let mut l = Accts::new();
                l.insert(u("w"), Acct { lam: 10_000_000_000, prog: system.clone(), data: Data::Nil });
                l.insert(orca.clone(), minted(none(), u64::MAX));
                l.insert(xorca.clone(), minted(state.clone(), sup));
                l.insert(vault.clone(), holding(&orca, &state, vlt));
                l.insert(state.clone(), Acct {
                    lam: 15_144_960, prog: me.clone(),
                    data: Data::State { escrow: esc, cooldown: cd, authority: addr("w", "mallory", 0), canon: true },
                });
                l.insert(u("orca"), holding(&orca, &u("w"), if op == 0 { funds } else { 0 }));
                l.insert(u("xorca"), holding(&xorca, &u("w"), if op == 1 { funds } else { 0 }));
                if op == 2 {
                    l.insert(pend.clone(), Acct {
                        lam: 8_017_920, prog: me.clone(),
                        data: Data::Pend { owner: u("w"), idx, amt, ts, canon: true },
                    });
                }
                w.deg = vlt < esc || (sup > 0 && vlt - esc < sup) || (op == 0 && funds > u64::MAX - vlt);
                let ix = match op {
                    0 => Ix { prog: me.clone(), call: Call::Stake(amt), metas: vec![
                        meta(&u("w"), true, true), meta(&vault, false, true), meta(&u("orca"), false, true),
                        meta(&u("xorca"), false, true), meta(&xorca, false, true), meta(&state, false, false),
                        meta(&orca, false, false), meta(&token, false, false)] },
                    1 => Ix { prog: me.clone(), call: Call::Unstake(amt, idx), metas: vec![
                        meta(&u("w"), true, true), meta(&state, false, true), meta(&pend, false, true),
                        meta(&u("xorca"), false, true), meta(&xorca, false, true), meta(&orca, false, false),
                        meta(&vault, false, false), meta(&system, false, false), meta(&token, false, false)] },
                    _ => Ix { prog: me.clone(), call: Call::Withdraw(idx), metas: vec![
                        meta(&u("w"), true, true), meta(&state, false, true), meta(&pend, false, true),
                        meta(&u("orca"), false, true), meta(&vault, false, true), meta(&orca, false, false),
                        meta(&system, false, false), meta(&token, false, false)] },
                };
                for a in l.keys().cloned().chain([pend.clone(), addr("w", "mallory", 0)]) {
                    w.names.of(&a);
                    w.known.insert(a);
                }
                let list_: Vec<_> = l.iter().map(|(k, v)| (w.names.of(k), w.names.encode(k, v))).collect();
                self.vm.reset(&list_, now);
                let ixs = [ix];
                let (obs, ev) = self.observe(&mut w, &ixs);
                let after = w.read(&self.vm);
                self.count(&ixs[0], &obs);
                let mut h = std::collections::hash_map::DefaultHasher::new();
                (op, vlt, esc, sup, amt, funds, now, cd, ts).hash(&mut h);
                let sample = if self.stats.steps % 997 == 5 { q_ix(&ixs[0]) } else { String::new() };
                self.log.push(format!("{:016x}\t{}\t{}\t{}\t{sample}", h.finish(), call_name(&ixs[0]), obs.ok, obs.code));
                // what the ledger must look like
                let ok = want["ok"].as_bool().unwrap();
                let out = int(&want["out"]) as u64;
                let mut expect = l.clone();
                let mut events = vec![];
                if ok {
                    let add = |e: &mut Accts, k: &Addr, d: i128| {
                        match &mut e.get_mut(k).unwrap().data {
                            Data::Token { amt, .. } => *amt = (*amt as i128 + d) as u64,
                            Data::Mint { supply, .. } => *supply = (*supply as i128 + d) as u64,
                            Data::State { escrow, .. } => *escrow = (*escrow as i128 + d) as u64,
                            _ => {}
                        }
                    };
                    let (a, o) = (amt as i128, out as i128);
                    let nums: Vec<i128> = match op {
                        0 => {
                            add(&mut expect, &u("orca"), -a);
                            add(&mut expect, &vault, a);
                            add(&mut expect, &xorca, o);
                            add(&mut expect, &u("xorca"), o);
                            vec![a, vlt as i128 + a, esc as i128, sup as i128 + o, o]
                        }
                        1 => {
                            add(&mut expect, &u("xorca"), -a);
                            add(&mut expect, &xorca, -a);
                            add(&mut expect, &state, o);
                            expect.get_mut(&u("w")).unwrap().lam -= 8_017_920;
                            expect.insert(pend.clone(), Acct { lam: 8_017_920, prog: me.clone(), data: Data::Pend {
                                owner: u("w"), idx, amt: out, ts: int(&want["ts"]) as i64, canon: true } });
                            vec![a, vlt as i128, esc as i128 + o, sup as i128 - a, o, cd as i128, idx as i128]
                        }
                        _ => {
                            add(&mut expect, &vault, -a);
                            add(&mut expect, &u("orca"), a);
                            add(&mut expect, &state, -a);
                            expect.remove(&pend);
                            expect.get_mut(&u("w")).unwrap().lam += 8_017_920;
                            vec![esc as i128 - a, a, cd as i128, idx as i128]
                        }
                    };
                    events = vec![Event { kind: ["Stake", "Unstake", "Withdraw"][op as usize].into(), nums, who: vec![] }];
                }
                let codes: BTreeSet<i64> = list(&want["codes"]).iter().map(|c| int(c) as i64).collect();
                if obs.ok == ok && (ok || codes.contains(&obs.code)) && (!ok || ev == events) && after == expect {
                    continue;
                }
                self.stats.divergences += 1;
                let why = reasons(ok, &codes, &obs, &expect, &after, &events, &ev);
                if cases.len() < 200 {
                    let mut c = case(&format!("{id}#{n}"), step, 0, &l, now, w.deg, &ixs, &obs, &ev, &after, &why);
                    c["replay"] = json!({"id": id, "itf": {"states": [{"vecs": [v], "want": [want]}]}});
                    cases.push(c);
                }
            }
        }
    }

    /// Executes every listed transition of the small design (spec/design.qnt) on the ledger its source state stands for.
    pub fn graph(&mut self, id: &str, g: &Value, salt: &str, cases: &mut Vec<Value>) {
        let mut w = World { names: Names::new(salt), known: BTreeSet::new(), deg: false };
        let (state, vault) = (addr("state", "", 0), addr("vault", "", 0));
        let (orca, xorca) = (addr("mint", "orca", 0), addr("mint", "xorca", 0));
        let prog = |k: &str| addr("prog", k, 0);
        let (system, token, me) = (prog("system"), prog("token"), prog("self"));
        let n = |v: &Value, k: &str| v[k].as_i64().expect("number");
        let s = |v: &Value, k: &str| v[k].as_str().expect("string").to_string();
        const RENT: u64 = 8_017_920;
        let ledger = |st: &Value| -> Accts {
            let holding = |m: &Addr, o: &Addr, v: i64| Acct {
                lam: 2_039_280, prog: token.clone(),
                data: Data::Token { mint: m.clone(), owner: o.clone(), amt: v as u64, frozen: false, deleg: none() },
            };
            let minted = |a: Addr, v: u64| Acct {
                lam: 1_461_600, prog: token.clone(), data: Data::Mint { auth: a, freeze: none(), supply: v, dec: 6 },
            };
            let pool = &st["pool"];
            let mut l = Accts::new();
            l.insert(orca.clone(), minted(none(), 1_000_000));
            l.insert(xorca.clone(), minted(state.clone(), n(pool, "supply") as u64));
            l.insert(vault.clone(), holding(&orca, &state, n(pool, "vault")));
            l.insert(state.clone(), Acct {
                lam: 15_144_960, prog: me.clone(),
                data: Data::State {
                    escrow: n(pool, "escrow") as u64, cooldown: n(st, "cool"), authority: addr("w", &s(st, "auth"), 0), canon: true,
                },
            });
            for u in ["alice", "bob"] {
                let wal = addr("w", u, 0);
                let claims: Vec<&Value> = st["claims"].as_array().unwrap().iter().filter(|c| c[0] == u).collect();
                l.insert(addr("orca", u, 0), holding(&orca, &wal, n(&st["orca"], u)));
                l.insert(addr("xorca", u, 0), holding(&xorca, &wal, n(&st["x"], u)));
                for c in &claims {
                    let i = c[1].as_i64().unwrap();
                    l.insert(addr("pend", u, i), Acct {
                        lam: RENT, prog: me.clone(),
                        data: Data::Pend { owner: wal.clone(), idx: i as u8, amt: c[2].as_u64().unwrap(), ts: c[3].as_i64().unwrap(), canon: true },
                    });
                }
                l.insert(wal, Acct { lam: 10_000_000_000 - RENT * claims.len() as u64, prog: system.clone(), data: Data::Nil });
            }
            l
        };
        let states = g["states"].as_array().unwrap();
        let ledgers: Vec<Accts> = states.iter().map(ledger).collect();
        self.stats.traces += 1;
        for (step, e) in g["edges"].as_array().unwrap().iter().enumerate() {
            let (src, a, ok, dst) = (e[0].as_u64().unwrap() as usize, &e[1], e[2].as_bool().unwrap(), e[4].as_u64().unwrap() as usize);
            let (k, who, vic) = (s(a, "k"), s(a, "who"), s(a, "vic"));
            if k == "tick" {
                continue;
            }
            let (amt, idx) = (n(a, "n"), n(a, "i"));
            let (p, q) = (&states[src], &states[dst]);
            let peer = |u: &str| if u == "alice" { "bob" } else { "alice" };
            let wal = addr("w", &vic, 0);
            let (o, x, pend) = (addr("orca", &vic, 0), addr("xorca", &vic, 0), addr("pend", &vic, idx));
            let sig = Meta { a: wal.clone(), s: who == vic, w: true };
            let rw = |a: &Addr| Meta { a: a.clone(), s: false, w: true };
            let ro = |a: &Addr| Meta { a: a.clone(), s: false, w: false };
            let (ip, call, mut metas) = match k.as_str() {
                "stake" => (&me, Call::Stake(amt as u64),
                    vec![sig, rw(&vault), rw(&o), rw(&x), rw(&xorca), ro(&state), ro(&orca), ro(&token)]),
                "unstake" => (&me, Call::Unstake(amt as u64, idx as u8),
                    vec![sig, rw(&state), rw(&pend), rw(&x), rw(&xorca), ro(&orca), ro(&vault), ro(&system), ro(&token)]),
                "withdraw" => (&me, Call::Withdraw(idx as u8),
                    vec![sig, rw(&state), rw(&pend), rw(&o), rw(&vault), ro(&orca), ro(&system), ro(&token)]),
                "cooldown" => (&me, Call::SetCooldown(amt), vec![sig, rw(&state)]),
                "authority" => (&me, Call::SetAuthority(addr("w", peer(&s(p, "auth")), 0)), vec![sig, rw(&state)]),
                "donate" => (&token, Call::Send(amt as u64), vec![rw(&o), rw(&vault), sig]),
                "give" => (&token, Call::Send(amt as u64), vec![rw(&x), rw(&addr("xorca", peer(&vic), 0)), sig]),
                "burn" => (&token, Call::Burn(amt as u64), vec![rw(&x), rw(&xorca), sig]),
                other => panic!("action {other}"),
            };
            if who != vic {
                metas.push(Meta { a: addr("w", &who, 0), s: true, w: true });
            }
            let ixs = [Ix { prog: ip.clone(), call, metas }];
            let mut events = vec![];
            if ok {
                let (pp, qp) = (&p["pool"], &q["pool"]);
                let (pv, qv, qe, qs, cool) = (n(pp, "vault"), n(qp, "vault"), n(qp, "escrow"), n(qp, "supply"), n(p, "cool"));
                let (nums, who, kind) = match k.as_str() {
                    "stake" => (vec![amt, qv, qe, qs, qs - n(pp, "supply")], vec![], "Stake"),
                    "unstake" => (vec![amt, pv, qe, qs, qe - n(pp, "escrow"), cool, idx], vec![], "Unstake"),
                    "withdraw" => (vec![qe, pv - qv, cool, idx], vec![], "Withdraw"),
                    "authority" => (vec![], vec![addr("w", &s(q, "auth"), 0), addr("w", &s(p, "auth"), 0)], "UpdateAuthoritySet"),
                    _ => (vec![], vec![], ""),
                };
                if !kind.is_empty() {
                    events.push(Event { kind: kind.into(), nums: nums.into_iter().map(i128::from).collect(), who });
                }
            }
            for a in ledgers[src].keys().chain(ledgers[dst].keys()).chain([&pend]) {
                w.names.of(a);
                w.known.insert(a.clone());
            }
            let now = n(p, "now");
            let list_: Vec<_> = ledgers[src].iter().map(|(k, v)| (w.names.of(k), w.names.encode(k, v))).collect();
            self.vm.reset(&list_, now);
            let (obs, ev) = self.observe(&mut w, &ixs);
            let after = w.read(&self.vm);
            self.count(&ixs[0], &obs);
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (p.to_string(), a.to_string()).hash(&mut h);
            let sample = if self.stats.steps % 9973 == 5 { format!("{p} {a}") } else { String::new() };
            self.log.push(format!("{:016x}\t{}\t{}\t{}\t{sample}", h.finish(), call_name(&ixs[0]), obs.ok, obs.code));
            let codes: BTreeSet<i64> = e[3].as_array().unwrap().iter().map(|c| c.as_i64().unwrap()).collect();
            if obs.ok == ok && (ok || codes.contains(&obs.code)) && (!ok || ev == events) && after == ledgers[dst] {
                continue;
            }
            self.stats.divergences += 1;
            if cases.len() < 200 {
                let why = reasons(ok, &codes, &obs, &ledgers[dst], &after, &events, &ev);
                let mut c = case(id, step, 0, &ledgers[src], now, false, &ixs, &obs, &ev, &after, &why);
                c["replay"] = json!({"id": id, "itf": {"states": [p, q], "edges": [[0, a, ok, e[3], 1]]}});
                cases.push(c);
            }
        }
    }

    fn count(&mut self, ix: &Ix, obs: &Observed) {
        self.stats.steps += 1;
        *self.stats.ixs.entry(call_name(ix).into()).or_default() += 1;
        if obs.ok {
            self.stats.txs_ok += 1;
            *self.stats.ixs_ok.entry(call_name(ix).into()).or_default() += 1;
        } else {
            self.stats.txs_rejected += 1;
            *self.stats.codes.entry(obs.code).or_default() += 1;
        }
    }

    /// Replays one trace; every step whose outcome differs from the prediction becomes one or more cases to judge.
    pub fn trace(&mut self, id: &str, itf: &Value, salt: &str, cases: &mut Vec<Value>) {
        let states = itf["states"].as_array().expect("states");
        let mut w = World { names: Names::new(salt), known: BTreeSet::new(), deg: false };
        let ledgers: Vec<(i64, Accts)> = states
            .iter()
            .map(|s| {
                let l = field(s, "led");
                w.deg = l["deg"].as_bool().unwrap();
                (int(&l["now"]) as i64, read_accts(&l["accts"]))
            })
            .collect();
        let txs: Vec<Vec<Ix>> = states.iter().map(|s| list(field(s, "tx")).iter().map(read_ix).collect()).collect();
        for (_, l) in &ledgers {
            addrs_of_ledger(l, &mut w.known);
        }
        // sweeps start a step from a ledger of its own
        let fresh: Vec<Option<(i64, bool, Accts)>> = states
            .iter()
            .map(|s| {
                try_field(s, "fresh").filter(|f| f.as_bool() == Some(true))?;
                let l = field(s, "pre");
                Some((int(&l["now"]) as i64, l["deg"].as_bool().unwrap(), read_accts(&l["accts"])))
            })
            .collect();
        for f in fresh.iter().flatten() {
            addrs_of_ledger(&f.2, &mut w.known);
        }
        for ix in txs.iter().flatten() {
            addrs_of_ix(ix, &mut w.known);
        }
        for a in w.known.clone() {
            w.names.of(&a);
        }
        self.stats.traces += 1;
        let load = |w: &mut World, l: &Accts| -> Vec<(Pubkey, Account)> {
            l.iter().map(|(k, v)| (w.names.of(k), w.names.encode(k, v))).collect()
        };
        let initial = load(&mut w, &ledgers[0].1);
        self.vm.reset(&initial, ledgers[0].0);
        for n in 1..states.len() {
            let ixs = &txs[n];
            if ixs.is_empty() {
                continue;
            }
            if let Some((t, d, l)) = &fresh[n] {
                let l = load(&mut w, l);
                self.vm.reset(&l, *t);
                w.deg = *d;
            }
            let now = ledgers[n].0;
            let want = {
                let r = field(&states[n], "res");
                Predicted {
                    ok: r["ok"].as_bool().unwrap(),
                    idx: int(&r["idx"]) as usize,
                    codes: list(&r["codes"]).iter().map(|c| int(c) as i64).collect(),
                    events: list(&r["ev"]).iter().map(read_event).collect(),
                }
            };
            self.vm.set_time(now);
            let before = w.raw(&self.vm);
            let (obs, ev) = self.observe(&mut w, ixs);
            let after = w.read(&self.vm);
            self.stats.steps += 1;
            for (i, ix) in ixs.iter().enumerate() {
                *self.stats.ixs.entry(call_name(ix).into()).or_default() += 1;
                if obs.ok || i < obs.idx {
                    *self.stats.ixs_ok.entry(call_name(ix).into()).or_default() += 1;
                }
            }
            if obs.ok {
                self.stats.txs_ok += 1
            } else {
                self.stats.txs_rejected += 1;
                *self.stats.codes.entry(obs.code).or_default() += 1;
            }
            let text = ixs.iter().map(q_ix).collect::<Vec<_>>().join(";");
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (&text, now, before.iter().map(|(k, a)| (k.to_bytes(), &a.data, a.lamports)).collect::<Vec<_>>()).hash(&mut h);
            let kinds = ixs.iter().map(call_name).collect::<Vec<_>>().join(",");
            let sample = if self.stats.steps % 97 == 5 { text } else { String::new() };
            self.log.push(format!("{:016x}\t{kinds}\t{}\t{}\t{sample}", h.finish(), obs.ok, obs.code));
            let same = obs.ok == want.ok
                && (obs.ok || (obs.idx == want.idx && want.codes.contains(&obs.code)))
                && (!obs.ok || ev == want.events)
                && after == ledgers[n].1;
            if same {
                continue;
            }
            self.stats.divergences += 1;
            let mut why = differences(&ledgers[n].1, &after);
            why.truncate(12);
            if obs.ok != want.ok || (!obs.ok && (obs.idx != want.idx || !want.codes.contains(&obs.code))) {
                why.insert(0, format!(
                    "specified {} (instruction {}, codes {:?}); observed {} (instruction {}, code {}: {})",
                    if want.ok { "success" } else { "rejection" }, want.idx, want.codes,
                    if obs.ok { "success" } else { "rejection" }, obs.idx, obs.code, obs.detail));
            }
            if obs.ok && ev != want.events {
                why.push(format!("specified events {:?}; observed {:?}", want.events, ev));
            }
            let pre = {
                let mut m = Accts::new();
                for (k, a) in &before {
                    m.insert(w.names.name(k), w.names.decode(a));
                }
                m
            };
            let mut c = case(id, n, 0, &pre, now, w.deg, ixs, &obs, &ev, &after, &why);
            if self.stats.divergences <= 60 {
                c["replay"] = json!({"id": id, "itf": {"states": [states[n - 1], states[n]]}});
            }
            cases.push(c);
            // the same instructions one at a time (with the rights of the whole transaction), for attribution
            if ixs.len() > 1 {
                let mut merged = ixs.clone();
                for ix in merged.iter_mut() {
                    for m in ix.metas.iter_mut() {
                        let all = || ixs.iter().flat_map(|i| i.metas.iter()).filter(|x| x.a == m.a);
                        let (s, wr) = (all().any(|x| x.s), all().any(|x| x.w));
                        m.s = s;
                        m.w = wr;
                    }
                }
                self.vm.reset(&before, now);
                let mut at = pre.clone();
                for (j, ix) in merged.iter().enumerate() {
                    let one = std::slice::from_ref(ix);
                    let (o, e) = self.observe(&mut w, one);
                    let post = w.read(&self.vm);
                    cases.push(case(id, n, j + 1, &at, now, w.deg, one, &o, &e, &post, &[]));
                    at = post;
                    if !o.ok {
                        break;
                    }
                }
            }
            // continue from what the specification says, so that one fault is not reported as many
            let l = load(&mut w, &ledgers[n].1);
            self.vm.reset(&l, now);
        }
    }
}

/// What is different about a single-instruction transaction.
fn reasons(
    ok: bool, codes: &BTreeSet<i64>, obs: &Observed, expect: &Accts, after: &Accts, events: &[Event], ev: &[Event],
) -> Vec<String> {
    let mut why = differences(expect, after);
    why.truncate(12);
    if obs.ok != ok || (!ok && !codes.contains(&obs.code)) {
        why.insert(0, format!("specified {} (codes {codes:?}); observed {} (code {}: {})",
            if ok { "success" } else { "rejection" }, if obs.ok { "success" } else { "rejection" }, obs.code, obs.detail));
    }
    if ok && obs.ok && ev != events {
        why.push(format!("specified events {events:?}; observed {ev:?}"));
    }
    why
}

#[allow(clippy::too_many_arguments)]
fn case(
    id: &str, step: usize, sub: usize, pre: &Accts, now: i64, deg: bool, ixs: &[Ix], o: &Observed, ev: &[Event],
    post: &Accts, why: &[String],
) -> Value {
    let ix: Vec<String> = ixs.iter().map(q_ix).collect();
    let evs: Vec<String> = ev.iter().map(q_event).collect();
    let items = |l: &Accts| l.iter().map(|(k, v)| json!([q_addr(k), q_acct(v)])).collect::<Vec<_>>();
    json!({
        "pre_items": items(pre), "post_items": items(post), "now": now, "deg": deg,
        "trace": id, "step": step, "sub": sub, "why": why,
        "pre": q_ledger(pre, now, deg),
        "tx": format!("[{}]", ix.join(",\n     ")),
        "obs": format!("{{ ok: {}, idx: {}, code: {}, ev: [{}] }}", o.ok, o.idx, o.code, evs.join(", ")),
        "post": q_ledger(post, now, deg),
        "logs": o.logs,
    })
}
