//! The vocabulary of the specification (spec/ledger.qnt), its binary representation on chain, and its textual form.
//!
//! Addresses, layouts, seeds and discriminators are written down here from the published interface, not taken from
//! the code under test.

use serde_json::Value;
pub use spl_token::solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
use spl_token::solana_program::hash::{hash, hashv};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;

pub type Addr = (String, String, i64);

#[derive(Clone, Debug, PartialEq)]
pub enum Data {
    Nil,
    Token { mint: Addr, owner: Addr, amt: u64, frozen: bool, deleg: Addr },
    Mint { auth: Addr, freeze: Addr, supply: u64, dec: u8 },
    State { escrow: u64, cooldown: i64, authority: Addr, canon: bool },
    Pend { owner: Addr, idx: u8, amt: u64, ts: i64, canon: bool },
    Blob(i64),
    Code,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Acct {
    pub lam: u64,
    pub prog: Addr,
    pub data: Data,
}
pub type Accts = BTreeMap<Addr, Acct>;

#[derive(Clone, Debug)]
pub struct Meta {
    pub a: Addr,
    pub s: bool,
    pub w: bool,
}
#[derive(Clone, Debug)]
pub enum Call {
    Stake(u64),
    Unstake(u64, u8),
    Withdraw(u8),
    Init(i64),
    SetCooldown(i64),
    SetAuthority(Addr),
    Raw { head: Vec<u8>, key: Vec<Addr>, tail: Vec<u8> },
    Lamports(u64),
    Send(u64),
    Burn(u64),
    CreateAta,
}
#[derive(Clone, Debug)]
pub struct Ix {
    pub prog: Addr,
    pub call: Call,
    pub metas: Vec<Meta>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Event {
    pub kind: String,
    pub nums: Vec<i128>,
    pub who: Vec<Addr>,
}

pub fn addr(k: &str, o: &str, n: i64) -> Addr {
    (k.to_string(), o.to_string(), n)
}
pub fn none() -> Addr {
    addr("none", "", 0)
}

// ---------------------------------------------------------------------------------------------- reading ITF

pub fn int(v: &Value) -> i128 {
    if let Some(s) = v.get("#bigint") {
        return s.as_str().unwrap().parse().unwrap();
    }
    if let Some(n) = v.as_i64() {
        return n as i128;
    }
    v.as_u64().expect("integer") as i128
}
fn text(v: &Value) -> String {
    v.as_str().expect("string").to_string()
}
fn boolean(v: &Value) -> bool {
    v.as_bool().expect("bool")
}
pub fn list(v: &Value) -> &Vec<Value> {
    if let Some(a) = v.as_array() {
        return a;
    }
    for k in ["#set", "#tup"] {
        if let Some(s) = v.get(k) {
            return s.as_array().unwrap();
        }
    }
    panic!("list expected: {v}")
}
pub fn read_addr(v: &Value) -> Addr {
    let t = list(v);
    (text(&t[0]), text(&t[1]), int(&t[2]) as i64)
}
fn variant(v: &Value) -> (&str, &Value) {
    (v["tag"].as_str().expect("variant"), &v["value"])
}
fn read_data(v: &Value) -> Data {
    let (tag, x) = variant(v);
    match tag {
        "Nil" => Data::Nil,
        "Token" => Data::Token {
            mint: read_addr(&x["mint"]),
            owner: read_addr(&x["owner"]),
            amt: int(&x["amt"]) as u64,
            frozen: boolean(&x["frozen"]),
            deleg: read_addr(&x["deleg"]),
        },
        "Mint" => Data::Mint {
            auth: read_addr(&x["auth"]),
            freeze: read_addr(&x["freeze"]),
            supply: int(&x["supply"]) as u64,
            dec: int(&x["dec"]) as u8,
        },
        "State" => Data::State {
            escrow: int(&x["escrow"]) as u64,
            cooldown: int(&x["cooldown"]) as i64,
            authority: read_addr(&x["authority"]),
            canon: boolean(&x["canon"]),
        },
        "Pend" => Data::Pend {
            owner: read_addr(&x["owner"]),
            idx: int(&x["idx"]) as u8,
            amt: int(&x["amt"]) as u64,
            ts: int(&x["ts"]) as i64,
            canon: boolean(&x["canon"]),
        },
        "Blob" => Data::Blob(int(x) as i64),
        "Code" => Data::Code,
        t => panic!("unknown data {t}"),
    }
}
pub fn read_accts(v: &Value) -> Accts {
    v["#map"]
        .as_array()
        .expect("map")
        .iter()
        .map(|kv| {
            let a = &kv[1];
            (read_addr(&kv[0]), Acct { lam: int(&a["lam"]) as u64, prog: read_addr(&a["prog"]), data: read_data(&a["data"]) })
        })
        .collect()
}
pub fn read_ix(v: &Value) -> Ix {
    let (tag, x) = variant(&v["call"]);
    let byte = |v: &Value| int(v) as u8;
    let call = match tag {
        "Stake" => Call::Stake(int(x) as u64),
        "Unstake" => Call::Unstake(int(&x["amt"]) as u64, byte(&x["idx"])),
        "Withdraw" => Call::Withdraw(byte(x)),
        "Init" => Call::Init(int(x) as i64),
        "SetCooldown" => Call::SetCooldown(int(x) as i64),
        "SetAuthority" => Call::SetAuthority(read_addr(x)),
        "Raw" => Call::Raw {
            head: list(&x["head"]).iter().map(byte).collect(),
            key: list(&x["key"]).iter().map(read_addr).collect(),
            tail: list(&x["tail"]).iter().map(byte).collect(),
        },
        "Lamports" => Call::Lamports(int(x) as u64),
        "Send" => Call::Send(int(x) as u64),
        "Burn" => Call::Burn(int(x) as u64),
        "CreateAta" => Call::CreateAta,
        t => panic!("unknown call {t}"),
    };
    Ix {
        prog: read_addr(&v["prog"]),
        call,
        metas: list(&v["metas"])
            .iter()
            .map(|m| Meta { a: read_addr(&m["a"]), s: boolean(&m["s"]), w: boolean(&m["w"]) })
            .collect(),
    }
}
pub fn read_event(v: &Value) -> Event {
    Event {
        kind: text(&v["kind"]),
        nums: list(&v["nums"]).iter().map(int).collect(),
        who: list(&v["who"]).iter().map(read_addr).collect(),
    }
}

// ---------------------------------------------------------------------------------------------- writing Quint

pub fn q_addr(a: &Addr) -> String {
    format!("(\"{}\", \"{}\", {})", a.0, a.1, a.2)
}
pub fn q_acct(a: &Acct) -> String {
    let d = match &a.data {
        Data::Nil => "Nil".to_string(),
        Data::Token { mint, owner, amt, frozen, deleg } => format!(
            "Token({{ mint: {}, owner: {}, amt: {amt}, frozen: {frozen}, deleg: {} }})",
            q_addr(mint), q_addr(owner), q_addr(deleg)
        ),
        Data::Mint { auth, freeze, supply, dec } => format!(
            "Mint({{ auth: {}, freeze: {}, supply: {supply}, dec: {dec} }})",
            q_addr(auth), q_addr(freeze)
        ),
        Data::State { escrow, cooldown, authority, canon } => format!(
            "State({{ escrow: {escrow}, cooldown: {cooldown}, authority: {}, canon: {canon} }})",
            q_addr(authority)
        ),
        Data::Pend { owner, idx, amt, ts, canon } => format!(
            "Pend({{ owner: {}, idx: {idx}, amt: {amt}, ts: {ts}, canon: {canon} }})",
            q_addr(owner)
        ),
        Data::Blob(n) => format!("Blob({n})"),
        Data::Code => "Code".to_string(),
    };
    format!("{{ lam: {}, prog: {}, data: {d} }}", a.lam, q_addr(&a.prog))
}
pub fn q_ledger(l: &Accts, now: i64, deg: bool) -> String {
    let items: Vec<String> = l.iter().map(|(k, v)| format!("{} -> {}", q_addr(k), q_acct(v))).collect();
    format!("{{ now: {now}, deg: {deg}, accts: Map({}) }}", items.join(",\n      "))
}
fn q_ints<T: std::fmt::Display>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))
}
fn q_addrs(v: &[Addr]) -> String {
    format!("[{}]", v.iter().map(q_addr).collect::<Vec<_>>().join(", "))
}
pub fn q_ix(ix: &Ix) -> String {
    let c = match &ix.call {
        Call::Stake(a) => format!("Stake({a})"),
        Call::Unstake(a, i) => format!("Unstake({{ amt: {a}, idx: {i} }})"),
        Call::Withdraw(i) => format!("Withdraw({i})"),
        Call::Init(c) => format!("Init({c})"),
        Call::SetCooldown(c) => format!("SetCooldown({c})"),
        Call::SetAuthority(a) => format!("SetAuthority({})", q_addr(a)),
        Call::Raw { head, key, tail } =>
            format!("Raw({{ head: {}, key: {}, tail: {} }})", q_ints(head), q_addrs(key), q_ints(tail)),
        Call::Lamports(n) => format!("Lamports({n})"),
        Call::Send(n) => format!("Send({n})"),
        Call::Burn(n) => format!("Burn({n})"),
        Call::CreateAta => "CreateAta".to_string(),
    };
    let m: Vec<String> =
        ix.metas.iter().map(|m| format!("{{ a: {}, s: {}, w: {} }}", q_addr(&m.a), m.s, m.w)).collect();
    format!("{{ prog: {}, call: {c}, metas: [{}] }}", q_addr(&ix.prog), m.join(", "))
}
pub fn q_event(e: &Event) -> String {
    format!("{{ kind: \"{}\", nums: {}, who: {} }}", e.kind, q_ints(&e.nums), q_addrs(&e.who))
}

// ---------------------------------------------------------------------------------------------- addresses

pub const PROGRAM: &str = "StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT";
pub const ORCA_MINT: &str = "orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE";
pub const XORCA_MINT: &str = "xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N";
pub const DEPLOYER: &str = "94kZD71sbTKhqhcvY9D9Ra5BsLzKRZgznbBbQpBWmKrT";
pub const TOKEN: &str = "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA";
pub const TOKEN22: &str = "TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb";
pub const ATA: &str = "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL";
pub const SYSTEM: &str = "11111111111111111111111111111111";

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Account {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

fn blank(b: &[u8]) -> bool {
    b.iter().all(|x| *x == 0)
}

pub fn key(s: &str) -> Pubkey {
    Pubkey::from_str(s).unwrap()
}
pub fn clone_id() -> Pubkey {
    hash_key(&["clone of the staking program"])
}
fn hash_key(parts: &[&str]) -> Pubkey {
    let v: Vec<&[u8]> = parts.iter().map(|p| p.as_bytes()).collect();
    Pubkey::new_from_array(hashv(&v).to_bytes())
}
pub fn ata(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[owner.as_ref(), key(TOKEN).as_ref(), mint.as_ref()], &key(ATA)).0
}
pub fn state_pda() -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"state"], &key(PROGRAM))
}
pub fn pending_pda(who: &Pubkey, idx: u8) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"pending_withdraw", who.as_ref(), &[idx]], &key(PROGRAM))
}
pub fn vault_pda() -> (Pubkey, u8) {
    Pubkey::find_program_address(
        &[state_pda().0.as_ref(), key(TOKEN).as_ref(), key(ORCA_MINT).as_ref()],
        &key(ATA),
    )
}

/// Labels of the specification <-> public keys.  Every trace gets its own keys, so that address bumps vary.
pub struct Names {
    salt: String,
    pub fwd: HashMap<Addr, Pubkey>,
    pub back: HashMap<Pubkey, Addr>,
    pend: HashMap<Pubkey, u8>,
    blobs: HashMap<Vec<u8>, i64>,
    state_bump: u8,
    vault_bump: u8,
}
impl Names {
    pub fn new(salt: &str) -> Names {
        let mut n = Names {
            salt: salt.to_string(),
            fwd: HashMap::new(),
            back: HashMap::new(),
            pend: HashMap::new(),
            blobs: HashMap::new(),
            state_bump: state_pda().1,
            vault_bump: vault_pda().1,
        };
        for (l, k) in [
            ("self", key(PROGRAM)), ("clone", clone_id()), ("system", key(SYSTEM)), ("token", key(TOKEN)),
            ("token22", key(TOKEN22)), ("ata", key(ATA)),
        ] {
            n.put(addr("prog", l, 0), k);
        }
        for a in [addr("state", "", 0), addr("vault", "", 0), addr("mint", "orca", 0), addr("mint", "xorca", 0),
                  addr("w", "deployer", 0)] {
            n.of(&a);
        }
        n
    }
    fn put(&mut self, a: Addr, k: Pubkey) {
        self.back.insert(k, a.clone());
        self.fwd.insert(a, k);
    }
    pub fn of(&mut self, a: &Addr) -> Pubkey {
        if let Some(k) = self.fwd.get(a) {
            return *k;
        }
        let salt = self.salt.clone();
        let k = match (a.0.as_str(), a.1.as_str(), a.2) {
            ("state", _, _) => state_pda().0,
            ("vault", _, _) => vault_pda().0,
            ("mint", "orca", _) => key(ORCA_MINT),
            ("mint", "xorca", _) => key(XORCA_MINT),
            ("w", "deployer", _) => key(DEPLOYER),
            ("pend", u, i) => {
                let w = self.of(&addr("w", u, 0));
                let (k, b) = pending_pda(&w, i as u8);
                self.pend.insert(k, b);
                k
            }
            (k @ ("orca" | "xorca" | "fake"), u, 0) => {
                let w = self.of(&addr("w", u, 0));
                let m = self.of(&addr("mint", k, 0));
                ata(&w, &m)
            }
            ("avault", o, n) => {
                let owner = self.of(&match o {
                    "self" => addr("junk", "stateSelf", 0),
                    "other" => addr("junk", "stateOther", 0),
                    _ => addr("state", "", 0),
                });
                let m = self.of(&addr("mint", if n == 0 { "orca" } else { "fake" }, 0));
                ata(&owner, &m)
            }
            // look-alikes an attacker grinds until the address bumps recorded in the state fit them too
            ("mint", "fake", _) => self.grind(a, &[state_pda().0], None),
            ("junk", "stateSelf" | "stateOther", _) => {
                let fake = self.of(&addr("mint", "fake", 0));
                self.grind(a, &[], Some(&[key(ORCA_MINT), fake]))
            }
            (k, o, n) => hash_key(&[&salt, k, o, &n.to_string()]),
        };
        self.put(a.clone(), k);
        k
    }
    /// a key for `a` whose associated accounts (as a mint of `owners`, or as the owner of tokens of `mints`) have the bump
    /// recorded for the vault
    fn grind(&self, a: &Addr, owners: &[Pubkey], mints: Option<&[Pubkey]>) -> Pubkey {
        let bump = |o: &Pubkey, m: &Pubkey| {
            Pubkey::find_program_address(&[o.as_ref(), key(TOKEN).as_ref(), m.as_ref()], &key(ATA)).1 == self.vault_bump
        };
        (0..100000u32)
            .map(|i| hash_key(&[&self.salt, &a.0, &a.1, &a.2.to_string(), &i.to_string()]))
            .find(|k| owners.iter().all(|o| bump(o, k)) && mints.unwrap_or(&[]).iter().all(|m| bump(k, m)))
            .unwrap_or_else(|| hash_key(&[&self.salt, &a.0, &a.1, &a.2.to_string()]))
    }
    pub fn name(&self, k: &Pubkey) -> Addr {
        self.back.get(k).cloned().unwrap_or_else(|| addr("unknown", &k.to_string(), 0))
    }

    // ------------------------------------------------------------------------------------------ accounts <-> bytes

    fn opt(&mut self, a: &Addr) -> Option<Pubkey> {
        if *a == none() { None } else { Some(self.of(a)) }
    }
    pub fn encode(&mut self, at: &Addr, a: &Acct) -> Account {
        let owner = self.of(&a.prog);
        let data = match &a.data {
            Data::Nil => vec![],
            Data::Code => vec![],
            Data::Blob(n) => {
                // raw bytes of a length and first byte that no record of the program has
                let len = [1, 8, 24, 64, 1023, 1025, 2047, 2049, 1024, 2048][(*n % 10) as usize];
                let mut v = vec![0u8; len];
                v[0] = if len == 1024 { [0, 1, 3, 255][(*n / 10 % 4) as usize] }
                       else if len == 2048 { [0, 2, 3, 255][(*n / 10 % 4) as usize] }
                       else { [1, 2, 0, 255][(*n / 10 % 4) as usize] };
                self.blobs.insert(v.clone(), *n);
                v
            }
            Data::Token { mint, owner, amt, frozen, deleg } => {
                let mut v = vec![0u8; 165];
                v[0..32].copy_from_slice(self.of(mint).as_ref());
                v[32..64].copy_from_slice(self.of(owner).as_ref());
                v[64..72].copy_from_slice(&amt.to_le_bytes());
                if let Some(d) = self.opt(deleg) {
                    v[72..76].copy_from_slice(&1u32.to_le_bytes());
                    v[76..108].copy_from_slice(d.as_ref());
                    v[121..129].copy_from_slice(&u64::MAX.to_le_bytes());
                }
                v[108] = if *frozen { 2 } else { 1 };
                v
            }
            Data::Mint { auth, freeze, supply, dec } => {
                let mut v = vec![0u8; 82];
                if let Some(d) = self.opt(auth) {
                    v[0..4].copy_from_slice(&1u32.to_le_bytes());
                    v[4..36].copy_from_slice(d.as_ref());
                }
                v[36..44].copy_from_slice(&supply.to_le_bytes());
                v[44] = *dec;
                v[45] = 1;
                if let Some(d) = self.opt(freeze) {
                    v[46..50].copy_from_slice(&1u32.to_le_bytes());
                    v[50..82].copy_from_slice(d.as_ref());
                }
                v
            }
            Data::State { escrow, cooldown, authority, canon } => {
                let mut v = vec![0u8; 2048];
                v[0] = 1;
                v[6] = self.state_bump;
                v[7] = if *canon { self.vault_bump } else { self.vault_bump.wrapping_sub(1) };
                v[8..16].copy_from_slice(&escrow.to_le_bytes());
                v[16..24].copy_from_slice(&cooldown.to_le_bytes());
                v[24..56].copy_from_slice(self.of(authority).as_ref());
                v
            }
            Data::Pend { owner, idx, amt, ts, canon } => {
                let w = self.of(owner);
                let (_, bump) = pending_pda(&w, *idx);
                let mut v = vec![0u8; 1024];
                v[0] = 2;
                v[6] = if *canon { bump } else { bump.wrapping_sub(1) };
                v[7] = *idx;
                v[8..40].copy_from_slice(w.as_ref());
                v[40..48].copy_from_slice(&amt.to_le_bytes());
                v[48..56].copy_from_slice(&ts.to_le_bytes());
                v
            }
        };
        let _ = at;
        Account { lamports: a.lam, data, owner, executable: false }
    }
    pub fn decode(&mut self, a: &Account) -> Acct {
        let prog = self.name(&a.owner);
        let d = &a.data;
        let k = |s: &Names, r: std::ops::Range<usize>| s.name(&Pubkey::try_from(&d[r]).unwrap());
        let u = |r: std::ops::Range<usize>| u64::from_le_bytes(d[r].try_into().unwrap());
        let opt = |s: &Names, at: usize| {
            if d[at..at + 4] == [1, 0, 0, 0] { k(s, at + 4..at + 36) } else { none() }
        };
        let data = if a.executable {
            Data::Code
        } else if d.is_empty() {
            Data::Nil
        } else if d.len() == 165 && (d[108] == 1 || d[108] == 2) {
            Data::Token {
                mint: k(self, 0..32),
                owner: k(self, 32..64),
                amt: u(64..72),
                frozen: d[108] == 2,
                deleg: opt(self, 72),
            }
        } else if d.len() == 82 && d[45] == 1 {
            Data::Mint { auth: opt(self, 0), freeze: opt(self, 46), supply: u(36..44), dec: d[44] }
        } else if d.len() == 2048 && d[0] == 1 && blank(&d[1..6]) && blank(&d[56..]) {
            Data::State {
                escrow: u(8..16),
                cooldown: u(16..24) as i64,
                authority: k(self, 24..56),
                canon: d[6] == self.state_bump && d[7] == self.vault_bump,
            }
        } else if d.len() == 1024 && d[0] == 2 && blank(&d[1..6]) && blank(&d[56..]) {
            let w = Pubkey::try_from(&d[8..40]).unwrap();
            Data::Pend {
                owner: self.name(&w),
                idx: d[7],
                amt: u(40..48),
                ts: u(48..56) as i64,
                canon: d[6] == pending_pda(&w, d[7]).1,
            }
        } else if let Some(n) = self.blobs.get(d) {
            Data::Blob(*n)
        } else {
            let h = hash(d).to_bytes();
            Data::Blob(1000 + u32::from_le_bytes(h[0..4].try_into().unwrap()) as i64)
        };
        Acct { lam: a.lamports, prog, data }
    }

    // ------------------------------------------------------------------------------------------ instructions

    pub fn data_of(&mut self, c: &Call) -> Vec<u8> {
        let le = |tag: &[u8], v: u64| [tag, &v.to_le_bytes()].concat();
        match c {
            Call::Stake(a) => le(&[0], *a),
            Call::Unstake(a, i) => [le(&[1], *a), vec![*i]].concat(),
            Call::Withdraw(i) => vec![2, *i],
            Call::Init(c) => le(&[3], *c as u64),
            Call::SetCooldown(c) => le(&[4, 0], *c as u64),
            Call::SetAuthority(a) => [&[4, 1], self.of(a).as_ref()].concat(),
            Call::Raw { head, key, tail } => {
                let mut v = head.clone();
                for k in key {
                    v.extend_from_slice(self.of(k).as_ref());
                }
                v.extend_from_slice(tail);
                v
            }
            Call::Lamports(n) => [&2u32.to_le_bytes()[..], &n.to_le_bytes()].concat(),
            Call::Send(n) => le(&[3], *n),
            Call::Burn(n) => le(&[8], *n),
            Call::CreateAta => vec![1],
        }
    }
    pub fn instruction(&mut self, ix: &Ix) -> Instruction {
        Instruction {
            program_id: self.of(&ix.prog),
            accounts: ix
                .metas
                .iter()
                .map(|m| AccountMeta { pubkey: self.of(&m.a), is_signer: m.s, is_writable: m.w })
                .collect(),
            data: self.data_of(&ix.call),
        }
    }

    pub fn event(&mut self, fields: &[Vec<u8>]) -> Event {
        let raw: Vec<u8> = fields.concat();
        let words = |n: usize| -> Vec<i128> {
            (0..n).map(|i| u64::from_le_bytes(raw[1 + 8 * i..9 + 8 * i].try_into().unwrap()) as i128).collect()
        };
        let unknown = Event { kind: "Undecodable".into(), nums: raw.iter().map(|b| *b as i128).collect(), who: vec![] };
        match (raw.first(), raw.len()) {
            (Some(0), 41) => Event { kind: "Stake".into(), nums: words(5), who: vec![] },
            (Some(1), 50) => {
                let mut n = words(6);
                n[5] = (n[5] as u64) as i64 as i128;
                n.push(raw[49] as i128);
                Event { kind: "Unstake".into(), nums: n, who: vec![] }
            }
            (Some(2), 26) => {
                let mut n = words(3);
                n[2] = (n[2] as u64) as i64 as i128;
                n.push(raw[25] as i128);
                Event { kind: "Withdraw".into(), nums: n, who: vec![] }
            }
            (Some(3), 65) => Event {
                kind: "UpdateAuthoritySet".into(),
                nums: vec![],
                who: vec![
                    self.name(&Pubkey::try_from(&raw[1..33]).unwrap()),
                    self.name(&Pubkey::try_from(&raw[33..65]).unwrap()),
                ],
            },
            _ => unknown,
        }
    }
}

pub fn addrs_of_ledger(l: &Accts, out: &mut BTreeSet<Addr>) {
    for (k, v) in l {
        out.insert(k.clone());
        out.insert(v.prog.clone());
        match &v.data {
            Data::Token { mint, owner, deleg, .. } => {
                out.extend([mint.clone(), owner.clone(), deleg.clone()]);
            }
            Data::Mint { auth, freeze, .. } => out.extend([auth.clone(), freeze.clone()]),
            Data::State { authority, .. } => {
                out.insert(authority.clone());
            }
            Data::Pend { owner, .. } => {
                out.insert(owner.clone());
            }
            _ => {}
        }
    }
}
pub fn addrs_of_ix(ix: &Ix, out: &mut BTreeSet<Addr>) {
    out.insert(ix.prog.clone());
    out.extend(ix.metas.iter().map(|m| m.a.clone()));
    match &ix.call {
        Call::SetAuthority(a) => {
            out.insert(a.clone());
        }
        Call::Raw { key, .. } => out.extend(key.iter().cloned()),
        _ => {}
    }
}
