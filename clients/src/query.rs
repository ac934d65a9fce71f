//! The queries, against an RPC node that serves the ledger of the vector.
use crate::itf::*;
use crate::{claim_rec, plain, same, state_rec, Why};
use async_trait::async_trait;
use base64::{engine::general_purpose::STANDARD, Engine as _};
use serde_json::{json, Value};
use solana_client::client_error::{ClientErrorKind, Result as RpcResult};
use solana_client::rpc_client::{RpcClient, RpcClientConfig};
use solana_client::rpc_request::RpcRequest;
use solana_client::rpc_sender::{RpcSender, RpcTransportStats};
use solana_pubkey::Pubkey;
use std::collections::BTreeMap;
use xorca::*;

/// what a node accepts in one getMultipleAccounts request
const MAX_ADDRESSES: usize = 100;

#[derive(Clone)]
struct Node {
    accounts: BTreeMap<String, (Pubkey, Vec<u8>)>,
    down: bool,
}
impl Node {
    fn render(&self, address: &Value) -> Value {
        match self.accounts.get(address.as_str().unwrap_or("")) {
            Some((owner, data)) => json!({
                "executable": false, "lamports": 1_000_000, "owner": owner.to_string(), "rentEpoch": u64::MAX,
                "space": data.len(), "data": [STANDARD.encode(data), "base64"]}),
            None => Value::Null,
        }
    }
}
#[async_trait]
impl RpcSender for Node {
    async fn send(&self, request: RpcRequest, params: Value) -> RpcResult<Value> {
        if self.down {
            return Err(ClientErrorKind::Custom("the node is unavailable".into()).into());
        }
        let value = match request {
            RpcRequest::GetAccountInfo => self.render(&params[0]),
            RpcRequest::GetMultipleAccounts => {
                let a = params[0].as_array().expect("addresses");
                if a.len() > MAX_ADDRESSES {
                    return Err(ClientErrorKind::Custom(format!("Too many inputs provided; max {MAX_ADDRESSES}")).into());
                }
                Value::Array(a.iter().map(|x| self.render(x)).collect())
            }
            other => return Err(ClientErrorKind::Custom(format!("not served: {other:?}")).into()),
        };
        Ok(json!({"context": {"slot": 1, "apiVersion": "2.3.9"}, "value": value}))
    }
    fn get_transport_stats(&self) -> RpcTransportStats {
        RpcTransportStats::default()
    }
    fn url(&self) -> String {
        "http://localhost".into()
    }
}

fn claim_bytes(r: &Value) -> Vec<u8> {
    let mut b = vec![2, 0, 0, 0, 0, 0, int(&r["bump"]) as u8, int(&r["idx"]) as u8];
    b.extend(key(&r["owner"]).to_bytes());
    b.extend((int(&r["amt"]) as u64).to_le_bytes());
    b.extend((int(&r["ts"]) as i64).to_le_bytes());
    b.resize(1024, 0);
    b
}
fn state_bytes(r: &Value) -> Vec<u8> {
    let mut b = vec![1, 0, 0, 0, 0, 0, int(&r["bump"]) as u8, int(&r["vaultBump"]) as u8];
    b.extend((int(&r["escrow"]) as u64).to_le_bytes());
    b.extend((int(&r["cooldown"]) as i64).to_le_bytes());
    b.extend(key(&r["authority"]).to_bytes());
    b.resize(2048, 0);
    b
}
fn token_bytes(r: &Value) -> Vec<u8> {
    let mut b = [key(&r["mint"]).to_bytes(), key(&r["owner"]).to_bytes()].concat();
    b.extend((int(&r["amt"]) as u64).to_le_bytes());
    b.resize(165, 0);
    b[108] = 1;
    b
}
fn mint_bytes(supply: u64) -> Vec<u8> {
    let mut b = [1u32.to_le_bytes().to_vec(), state_address().0.to_bytes().to_vec(), supply.to_le_bytes().to_vec()].concat();
    b.extend([6, 1]);
    b.resize(82, 0);
    b
}

fn node(scene: &Value) -> Node {
    let (prog, token, system) = (known("self"), known("token"), known("system"));
    let mut accounts = BTreeMap::new();
    let staker = key(&scene["staker"]);
    let st = &scene["state"];
    let state = state_address().0.to_string();
    match st["tag"].as_str().unwrap() {
        "SMissing" => {}
        "SLamports" => drop(accounts.insert(state, (system, vec![]))),
        "SRecord" => drop(accounts.insert(state, (prog, state_bytes(&st["value"])))),
        _ => drop(accounts.insert(state, (prog, state_bytes(&st["value"])[..40].to_vec()))),
    }
    let vault = vault_address().0.to_string();
    match scene["vault"]["tag"].as_str().unwrap() {
        "VMissing" => {}
        "VLamports" => drop(accounts.insert(vault, (system, vec![]))),
        _ => drop(accounts.insert(vault, (token, token_bytes(&scene["vault"]["value"])))),
    }
    if scene["mint"]["tag"] == "MRecord" {
        accounts.insert(known("xorca").to_string(), (token, mint_bytes(int(&scene["mint"]["value"]) as u64)));
    }
    for i in list(&scene["lamports"]) {
        accounts.insert(claim_address(&staker, int(i) as u8).0.to_string(), (system, vec![]));
    }
    for c in list(&scene["others"]).iter().chain(list(&scene["claims"])) {
        accounts.insert(claim_address(&key(&c["owner"]), int(&c["idx"]) as u8).0.to_string(), (prog, claim_bytes(c)));
    }
    Node { accounts, down: scene["down"].as_bool().unwrap() }
}

/// Account fetchers: the same answers from the four functions of each account type.
macro_rules! fetchers {
    ($why:ident, $rpc:ident, $what:expr, $at:expr, $want:expr, $rec:expr, $one:ident, $all:ident, $maybe:ident, $all_maybe:ident, $node:expr) => {{
        let at: &[Pubkey] = $at;
        let want = |w: &Value| w["ok"].as_bool().unwrap().then(|| list(&w["v"]).iter().map($rec).collect::<Vec<_>>());
        let (some, every) = (want(&$want["some"]), want(&$want["every"]));
        let odd = std::cell::RefCell::new(vec![]);
        let seen = |a: DecodedAccount<_>| {
            let stored = $node.accounts.get(&a.address.to_string()).map(|(o, d)| (*o, d.clone()));
            if stored != Some((a.account.owner, a.account.data.clone())) {
                odd.borrow_mut().push(format!("rust {}: another account than the one at {}", $what, a.address));
            }
            (a.address, Some(a.data))
        };
        let view = |m: MaybeAccount<_>| match m { MaybeAccount::Exists(a) => seen(a), MaybeAccount::NotFound(k) => (k, None) };
        let expect = |w: &Option<Vec<_>>, n: usize| w.as_ref().map(|l| at.iter().copied().zip(l.iter().cloned()).take(n).collect::<Vec<_>>());
        // what happens when nothing is asked for and the node is down is left open
        if !(at.is_empty() && $node.down) {
            let got = $all_maybe(&$rpc, at).ok().map(|l| l.into_iter().map(view).collect::<Vec<_>>());
            same($why, &format!("{}, all that exist", $what), got, expect(&some, at.len()));
            let got = $all(&$rpc, at).ok().map(|l| l.into_iter().map(seen).collect::<Vec<_>>());
            same($why, &format!("{}, all", $what), got, expect(&every, at.len()));
        }
        if at.len() == 1 {
            same($why, &format!("{}, if it exists", $what), $maybe(&$rpc, &at[0]).ok().map(|a| vec![view(a)]), expect(&some, 1));
            same($why, $what, $one(&$rpc, &at[0]).ok().map(|a| vec![seen(a)]), expect(&every, 1));
        }
        $why.extend(odd.borrow_mut().drain(..));
    }};
}
fn found(v: &Value) -> Option<Value> {
    (v["tag"] == "FState" || v["tag"] == "FClaim").then(|| v["value"].clone())
}

pub fn check(v: &Value, why: &mut Why) -> Value {
    let (scene, want) = (&v["scene"], &v["want"]);
    let node = node(scene);
    let rpc = RpcClient::new_sender(node.clone(), RpcClientConfig::default());
    let staker = key(&scene["staker"]);
    let limit = int(&v["limit"]);
    let opt = |w: &Value| w["ok"].as_bool().unwrap().then(|| w["v"].clone());

    same(why, "state query", fetch_state_account_data(&rpc).ok(), opt(&want["state"]).map(|r| state_rec(&r)));
    same(why, "cooldown query", fetch_state_account_cool_down_period_s(&rpc).ok(), opt(&want["cooldown"]).map(|n| int(&n) as i64));
    same(why, "supply query", fetch_xorca_mint_supply(&rpc).ok(), opt(&want["supply"]).map(|n| int(&n) as u64));
    same(why, "vault query", fetch_vault_state(&rpc).ok().map(|s| (s.address, s.owner, s.mint, s.amount)),
        opt(&want["vault"]).map(|r| (vault_address().0, key(&r["owner"]), key(&r["mint"]), int(&r["amt"]) as u64)));
    let rate = &want["rate"];
    if !rate["unspecified"].as_bool().unwrap() {
        same(why, "exchange rate query", fetch_staking_exchange_rate(&rpc).ok().map(|r| (r.numerator, r.denominator)),
            rate["ok"].as_bool().unwrap().then(|| (int(&rate["num"]) as u64, int(&rate["den"]) as u64)));
    }
    let pending = &want["pending"];
    if !pending["unspecified"].as_bool().unwrap() {
        let lim = if limit < 0 { None } else { Some(limit as u8) };
        let got = fetch_pending_withdraws_for_staker(&rpc, &staker, lim).map_err(|e| e.to_string());
        let expect: Option<Vec<PendingWithdraw>> = opt(pending).map(|l| list(&l).iter().map(claim_rec).collect());
        let idx = |l: &[PendingWithdraw]| l.iter().map(|p| p.withdraw_index).collect::<Vec<_>>();
        let how = format!("pending claims query (limit {limit})");
        match (&got, &expect) {
            (Ok(g), Some(e)) if idx(g) != idx(e) => same(why, &how, idx(g), idx(e)),
            (Ok(g), Some(e)) => same(why, &how, g, e),
            (Ok(_), None) => why.push(format!("rust {how}: specified to fail; got {got:?}").chars().take(300).collect()),
            (Err(e), Some(_)) => why.push(format!("rust {how}: specified to succeed; fails with {e}")),
            _ => {}
        }
    }

    let picks: Vec<Pubkey> = list(&v["picks"]).iter().map(|i| claim_address(&staker, int(i) as u8).0).collect();
    fetchers!(why, rpc, "claim accounts", &picks, v["claims"], |r| found(r).map(|r| claim_rec(&r)),
        fetch_pending_withdraw, fetch_all_pending_withdraw, fetch_maybe_pending_withdraw, fetch_all_maybe_pending_withdraw, node);
    fetchers!(why, rpc, "state account", &[state_address().0], v["state"], |r| found(r).map(|r| state_rec(&r)),
        fetch_state, fetch_all_state, fetch_maybe_state, fetch_all_maybe_state, node);
    let fetched = |w: &Value, fields: &[&str]| match w["ok"].as_bool().unwrap() {
        false => Value::Null,
        true => json!(list(&w["v"]).iter().map(|f| found(f).map_or(Value::Null, |r| plain(&r, fields))).collect::<Vec<_>>()),
    };

    let claims: Vec<Value> = opt(pending).map(|l| list(&l).iter().map(|c| plain(c, &["owner"])).collect()).unwrap_or_default();
    json!({"staker": staker.to_string(), "limit": limit as i64, "down": node.down,
        "accounts": node.accounts.iter().map(|(k, (o, d))| json!([k, o.to_string(), STANDARD.encode(trim(d)), d.len()])).collect::<Vec<_>>(),
        "picks": picks.iter().map(|k| k.to_string()).collect::<Vec<_>>(),
        "claims": {"some": fetched(&v["claims"]["some"], &["owner"]), "every": fetched(&v["claims"]["every"], &["owner"])},
        "stateAddress": state_address().0.to_string(),
        "stateRecord": {"some": fetched(&v["state"]["some"], &["authority"]), "every": fetched(&v["state"]["every"], &["authority"])},
        "want": {
            "state": opt(&want["state"]).map(|r| plain(&r, &["authority"])),
            "cooldown": opt(&want["cooldown"]).map(|n| dec(&n)),
            "supply": opt(&want["supply"]).map(|n| dec(&n)),
            "vault": opt(&want["vault"]).map(|r| { let mut p = plain(&r, &["owner", "mint"]); p["address"] = json!(vault_address().0.to_string()); p }),
            "rate": if rate["unspecified"] == true { json!("unspecified") } else if rate["ok"] == true { json!([dec(&rate["num"]), dec(&rate["den"])]) } else { Value::Null },
            "pending": if pending["unspecified"] == true { json!("unspecified") } else if pending["ok"] == true { json!(claims) } else { Value::Null },
        }})
}

fn trim(d: &[u8]) -> &[u8] {
    &d[..d.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1)]
}
