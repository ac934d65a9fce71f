//! Runs the Rust client on vectors generated from spec/client.qnt and spec/vectors.qnt, compares with the outcomes the
//! specification prescribes, and writes the vectors with addresses and bytes spelled out for the JavaScript client.
mod instr;
mod itf;
#[cfg(feature = "queries")]
mod query;
mod scripts;

use borsh::{BorshDeserialize, BorshSerialize};
use itf::*;
use num_traits::FromPrimitive;
use serde_json::{json, Value};
use solana_pubkey::Pubkey;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use xorca::*;

/// What differs from the specification; empty if nothing does.
type Why = Vec<String>;

fn same<T: PartialEq + std::fmt::Debug>(why: &mut Why, what: &str, got: T, want: T) {
    if got != want {
        let short = |x: &T| { let s = format!("{x:?}"); s.chars().take(300).collect::<String>() };
        why.push(format!("rust {what}: specified {}; got {}", short(&want), short(&got)));
    }
}

fn address(v: &Value, why: &mut Why) -> Value {
    let (owner, idx) = (key(&v["owner"]), int(&v["idx"]) as u8);
    let (claim, state, vault) = (derive(&v["claim"]), derive(&v["state"]), derive(&v["vault"]));
    let seeds = list(&v["other"]["seeds"]);
    let arg = |i: usize| reference(&seeds[i]["value"]);
    let other = derive(&v["other"]);
    same(why, "state address", find_state_address().ok(), Some(state));
    same(why, "claim address", find_pending_withdraw_pda(&owner, &idx).ok(), Some(claim));
    same(why, "vault address", find_orca_vault_address(&state.0, &known("token"), &known("orca")).ok(), Some(vault));
    same(why, "associated address", find_orca_vault_address(&arg(0), &arg(1), &arg(2)).ok(), Some(other));
    same(why, "program id", XORCA_STAKING_PROGRAM_ID, known("self"));
    let s = |x: (Pubkey, u8)| json!([x.0.to_string(), x.1]);
    json!({"owner": owner.to_string(), "idx": idx, "claim": s(claim), "state": s(state), "vault": s(vault), "other": s(other),
           "args": [arg(0).to_string(), arg(1).to_string(), arg(2).to_string()],
           "known": {"self": known("self").to_string(), "token": known("token").to_string(), "orca": known("orca").to_string(),
                     "xorca": known("xorca").to_string()}})
}

/// the client's own JSON form: reading it back gives the record, and addresses are spelled in base 58
#[cfg(feature = "json")]
trait Json: serde::Serialize + serde::de::DeserializeOwned {}
#[cfg(feature = "json")]
impl<T: serde::Serialize + serde::de::DeserializeOwned> Json for T {}
#[cfg(not(feature = "json"))]
trait Json {}
#[cfg(not(feature = "json"))]
impl<T> Json for T {}

#[cfg(feature = "json")]
fn spelled<T: Json + PartialEq + std::fmt::Debug>(why: &mut Why, what: &str, want: &T) {
    let again = serde_json::to_string(want).and_then(|t| serde_json::from_str::<T>(&t));
    match again {
        Ok(r) => same(why, &format!("{what} from its JSON form"), &r, want),
        Err(e) => why.push(format!("rust {what}: the JSON form is refused: {e}")),
    }
}
#[cfg(not(feature = "json"))]
fn spelled<T: Json>(_: &mut Why, _: &str, _: &T) {}

/// decoding gives the fields, encoding gives the bytes back, and a prefix is refused
fn record<T: BorshDeserialize + BorshSerialize + PartialEq + std::fmt::Debug + Json>(
    why: &mut Why, what: &str, bytes: &[u8], cut: usize, want: T, from: impl Fn(&[u8]) -> std::io::Result<T>,
) {
    spelled(why, what, &want);
    match from(bytes) {
        Ok(r) => same(why, &format!("{what} decoded"), r, want),
        Err(e) => why.push(format!("rust {what}: refused: {e}")),
    }
    if let Ok(r) = from(bytes) {
        same(why, &format!("{what} encoded"), hex(&borsh::to_vec(&r).unwrap()), hex(bytes));
    }
    if let Ok(r) = from(&bytes[..cut]) {
        let s: String = format!("{r:?}").chars().take(200).collect();
        why.push(format!("rust {what}: {cut} of {} bytes were accepted as {s}", bytes.len()));
    }
}

fn with_info<T>(data: &[u8], f: impl Fn(&solana_account_info::AccountInfo) -> T) -> T {
    let (k, o, mut l, mut d) = (known("system"), known("self"), 1u64, data.to_vec());
    f(&solana_account_info::AccountInfo::new(&k, false, false, &mut l, &mut d, &o, false, 0))
}

fn state_rec(r: &Value) -> State {
    State {
        discriminator: AccountDiscriminator::State, padding1: [0; 5], bump: int(&r["bump"]) as u8,
        vault_bump: int(&r["vaultBump"]) as u8, escrowed_orca_amount: int(&r["escrow"]) as u64,
        cool_down_period_s: int(&r["cooldown"]) as i64, update_authority: key(&r["authority"]), padding2: [0; 1992],
    }
}
fn claim_rec(r: &Value) -> PendingWithdraw {
    PendingWithdraw {
        discriminator: AccountDiscriminator::PendingWithdraw, padding1: [0; 5], bump: int(&r["bump"]) as u8,
        withdraw_index: int(&r["idx"]) as u8, unstaker: key(&r["owner"]), withdrawable_orca_amount: int(&r["amt"]) as u64,
        withdrawable_timestamp: int(&r["ts"]) as i64, padding2: [0; 968],
    }
}

/// numbers as decimal strings, addresses in base 58
fn plain(r: &Value, keys: &[&str]) -> Value {
    Value::Object(r.as_object().unwrap().iter().map(|(k, v)| {
        (k.clone(), if keys.contains(&k.as_str()) { json!(key(v).to_string()) } else { json!(dec(v)) })
    }).collect())
}

fn one(kind: &str, v: &Value, why: &mut Why) -> Value {
    match kind {
        "Address" => address(v, why),
        "Instr" => instr::check(v, why),
        "StateV" | "ClaimV" | "TokenV" | "MintV" => {
            let (r, bytes, cut) = (&v["rec"], pieces(&v["bytes"]), int(&v["cut"]) as usize);
            assert_eq!(bytes.len(), int(&v["len"]) as usize, "the specification's own layout");
            let keys: &[&str] = match kind {
                "StateV" => {
                    same(why, "state discriminator", STATE_DISCRIMINATOR.try_to_vec().ok(), Some(bytes[..1].to_vec()));
                    same(why, "State::LEN", State::LEN, bytes.len());
                    record(why, "state", &bytes, cut, state_rec(r), |b| State::from_bytes(b));
                    record(why, "state account", &bytes, cut, state_rec(r), |b| with_info(b, |i| State::try_from(i)));
                    &["authority"]
                }
                "ClaimV" => {
                    same(why, "claim discriminator", PENDING_WITHDRAW_DISCRIMINATOR.try_to_vec().ok(), Some(bytes[..1].to_vec()));
                    same(why, "PendingWithdraw::LEN", PendingWithdraw::LEN, bytes.len());
                    record(why, "claim", &bytes, cut, claim_rec(r), |b| PendingWithdraw::from_bytes(b));
                    record(why, "claim account", &bytes, cut, claim_rec(r), |b| with_info(b, |i| PendingWithdraw::try_from(i)));
                    &["owner"]
                }
                "TokenV" => {
                    let n = |k: &str| int(&r[k]);
                    let want = TokenAccount {
                        mint: key(&r["mint"]), owner: key(&r["owner"]), amount: n("amt") as u64,
                        delegate_flag: n("delegFlag") as u32, delegate: key(&r["deleg"]),
                        state: match n("state") { 0 => TokenAccountState::Uninitialized, 1 => TokenAccountState::Initialized, _ => TokenAccountState::Frozen },
                        is_native_flag: n("nativeFlag") as u32, native_amount: n("native") as u64,
                        delegate_amount: n("delegAmt") as u64, close_authority_flag: n("closeFlag") as u32,
                        close_authority: key(&r["close"]),
                    };
                    record(why, "token account", &bytes, cut, want, |mut b| TokenAccount::deserialize(&mut b));
                    &["mint", "owner", "deleg", "close"]
                }
                _ => {
                    let n = |k: &str| int(&r[k]);
                    let want = TokenMint {
                        mint_authority_flag: n("authFlag") as u32, mint_authority: key(&r["auth"]), supply: n("supply") as u64,
                        decimals: n("dec") as u8, is_initialized: n("init") != 0, freeze_authority_flag: n("freezeFlag") as u32,
                        freeze_authority: key(&r["freeze"]),
                    };
                    record(why, "token mint", &bytes, cut, want, |mut b| TokenMint::deserialize(&mut b));
                    &["auth", "freeze"]
                }
            };
            json!({"rec": plain(r, keys), "bytes": hex(&bytes), "cut": cut})
        }
        "EventV" => {
            let (e, bytes) = (&v["ev"], pieces(&v["bytes"]));
            let cut = (int_mod(&v["cut"], bytes.len() as u64)) as usize;
            let x = &e["value"];
            let n = |i: usize| int(&list(x)[i]);
            let want = match e["tag"].as_str().unwrap() {
                "EStake" => Event::Stake {
                    orca_stake_amount: n(0) as u64, vault_orca_amount: n(1) as u64, vault_escrowed_orca_amount: n(2) as u64,
                    xorca_mint_supply: n(3) as u64, xorca_to_mint: n(4) as u64,
                },
                "EUnstake" => Event::Unstake {
                    xorca_unstake_amount: n(0) as u64, vault_orca_amount: n(1) as u64, vault_escrowed_orca_amount: n(2) as u64,
                    xorca_mint_supply: n(3) as u64, withdrawable_orca_amount: n(4) as u64, cool_down_period_s: n(5) as i64,
                    withdraw_index: n(6) as u8,
                },
                "EWithdraw" => Event::Withdraw {
                    vault_escrowed_orca_amount: n(0) as u64, withdrawable_orca_amount: n(1) as u64,
                    cool_down_period_s: n(2) as i64, withdraw_index: n(3) as u8,
                },
                _ => Event::UpdateAuthoritySet { new_authority: key(&x["new"]), set_by: key(&x["by"]) },
            };
            record(why, "event", &bytes, cut, want, |mut b| Event::deserialize(&mut b));
            let vals = match x {
                Value::Array(a) => json!(a.iter().map(dec).collect::<Vec<_>>()),
                _ => json!([key(&x["new"]).to_string(), key(&x["by"]).to_string()]),
            };
            json!({"kind": e["tag"], "vals": vals, "bytes": hex(&bytes), "cut": cut})
        }
        "ErrorV" => {
            let (code, name, msg) = (int(&v["code"]) as u32, v["name"].as_str().unwrap(), v["message"].as_str().unwrap());
            match XorcaStakingProgramError::from_u32(code) {
                None => why.push(format!("rust error table: {code} is missing")),
                Some(e) => {
                    same(why, &format!("name of error {code}"), format!("{e:?}"), name.to_string());
                    same(why, &format!("text of error {code}"), e.to_string(), msg.to_string());
                    same(why, &format!("code of {name}"), solana_program_error::ProgramError::from(e), solana_program_error::ProgramError::Custom(code));
                }
            }
            if code == 6019 && XorcaStakingProgramError::from_u32(code + 1).is_some() {
                why.push("rust error table: an undocumented code".into());
            }
            json!({"code": code, "name": name, "message": msg})
        }
        #[cfg(feature = "queries")]
        "QueryV" => query::check(v, why),
        "Conv" => {
            let (a, f, s) = (int(&v["amt"]) as u64, int(&v["free"]) as u64, int(&v["supply"]) as u64);
            let want = |w: &Value| if w["ok"].as_bool().unwrap() { Some(int(&w["v"]) as u64) } else { None };
            same(why, &format!("convert_orca_to_xorca({a}, {f}, {s})"), convert_orca_to_xorca(a, f, s).ok(), want(&v["cs"]));
            same(why, &format!("convert_xorca_to_orca({a}, {f}, {s})"), convert_xorca_to_orca(a, f, s).ok(), want(&v["ca"]));
            let w = |w: &Value| json!({"ok": w["ok"], "v": dec(&w["v"])});
            json!({"amt": a.to_string(), "free": f.to_string(), "supply": s.to_string(), "cs": w(&v["cs"]), "ca": w(&v["ca"])})
        }
        "Script" | "Pending" | "StatusV" | "KeyFileV" | "UploadV" => scripts::spell(kind, v),
        _ => panic!("unknown vector {kind}"),
    }
}

fn int_mod(v: &Value, m: u64) -> u64 {
    dec(v).bytes().fold(0u64, |a, d| (a * 10 + (d - b'0') as u64) % m)
}

fn property(kind: &str) -> &'static str {
    match kind {
        "Address" => "C19",
        "Instr" => "C20",
        "StateV" | "ClaimV" | "TokenV" | "MintV" => "C21",
        "EventV" => "C15",
        "ErrorV" => "C23",
        "QueryV" => "C22",
        "Script" => "C24",
        "Pending" | "StatusV" => "C25",
        "KeyFileV" | "UploadV" => "C26",
        _ => "C18",
    }
}

/// clients TRACE... CASES_OUT VECTORS_OUT STATS_OUT
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let n = args.len();
    let mut cases = std::io::BufWriter::new(std::fs::File::create(&args[n - 3]).unwrap());
    let mut vectors = std::io::BufWriter::new(std::fs::File::create(&args[n - 2]).unwrap());
    let mut counts = std::collections::BTreeMap::<String, u64>::new();
    let mut bad = 0;
    if std::env::var("CLIENTS_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    for f in &args[..n - 3] {
        let t: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        for st in list(&t["states"]) {
            let items: Vec<(String, &Value)> = match (field(st, "batch"), field(st, "conv")) {
                (Some(b), _) => list(b).iter().map(|v| (v["tag"].as_str().unwrap().to_string(), &v["value"])).collect(),
                (_, Some(c)) => list(c).iter().map(|v| ("Conv".to_string(), v)).collect(),
                _ => vec![],
            };
            for (kind, v) in items {
                *counts.entry(kind.clone()).or_default() += 1;
                let mut why = vec![];
                match catch_unwind(AssertUnwindSafe(|| one(&kind, v, &mut why))) {
                    Ok(out) => writeln!(vectors, "{}", json!({"kind": kind, "v": out})).unwrap(),
                    Err(e) => why.push(format!("rust client panicked: {:?}", e.downcast_ref::<String>().map(String::as_str).or(e.downcast_ref::<&str>().copied()))),
                }
                if !why.is_empty() && bad < 500 {
                    bad += 1;
                    writeln!(cases, "{}", json!({"client": "rust", "kind": kind, "property": property(&kind), "why": why, "input": v})).unwrap();
                }
            }
        }
    }
    std::fs::write(&args[n - 1], json!({"vectors": counts, "divergences": bad}).to_string()).unwrap();
}
