//! Spells out the vectors of spec/scripts.qnt (addresses, bytes, argument texts) for the JavaScript harness.
use crate::itf::*;
use serde_json::{json, Value};

fn tag(v: &Value) -> &str {
    v["tag"].as_str().unwrap()
}
fn place(v: &Value) -> String {
    match tag(v) {
        "At" => reference(&v["value"]).to_string(),
        _ => derive(&v["value"]).0.to_string(),
    }
}
fn name(v: &Value) -> String {
    reference(v).to_string()
}
fn accounts(v: &Value) -> Value {
    list(v).iter().map(|a| json!({"at": place(&a["at"]), "owner": known(a["owner"].as_str().unwrap()).to_string(), "data": hex(&pieces(&a["data"]))})).collect()
}
fn argument(a: &Value) -> Value {
    match tag(a) {
        "Wallet" => json!({"wallet": name(&a["value"])}),
        "Dec" => json!(dec(&a["value"])),
        "Pub" => json!(name(&a["value"])),
        _ => a["value"].clone(),
    }
}
fn instruction(i: &Value) -> Value {
    let x = &i["value"];
    match tag(i) {
        "NewAta" => {
            let (owner, mint) = (reference(&x["owner"]), known(x["mint"].as_str().unwrap()));
            json!({"create": ata_address(&owner, &mint).to_string(), "payer": name(&x["payer"]), "owner": owner.to_string(), "mint": mint.to_string()})
        }
        _ => json!({"program": name(&x["prog"]), "data": hex(&pieces(&x["data"])),
            "accounts": list(&x["metas"]).iter().map(|m| json!([place(&m["a"]), m["s"], m["w"]])).collect::<Vec<_>>()}),
    }
}
fn span(s: &Value) -> Value {
    if !s["exact"].as_bool().unwrap() {
        return Value::Null;
    }
    let (a, b) = (dec(&s["a"]), dec(&s["b"]));
    json!(match s["unit"].as_str().unwrap() {
        "s" => format!("{a} seconds"),
        "ms" => format!("{a}m {b}s"),
        "hm" => format!("{a}h {b}m"),
        _ => format!("{a}d {b}h"),
    })
}

pub fn spell(kind: &str, v: &Value) -> Value {
    let w = &v["want"];
    let n = |x: &Value| json!(dec(x));
    let ints = |x: &Value| json!(list(x).iter().map(int).map(|i| i as i64).collect::<Vec<_>>());
    match kind {
        "KeyFileV" => {
            let t = &v["text"];
            return json!({"digits": ints(&t["digits"]), "pub": t["pub"], "rest": ints(&t["rest"]), "upper": v["upper"], "file": v["file"],
                "writable": v["writable"], "want": {"written": w["written"], "seed": ints(&w["seed"]), "file": w["file"]}});
        }
        "UploadV" => {
            let s = &v["scene"];
            return json!({"image": s["image"], "numbers": int(&s["numbers"]) as i64, "network": s["network"], "refuses": s["refuses"],
                "ext": v["ext"], "content": ints(&v["content"]), "key": ints(&v["key"]), "now": n(&v["now"]), "millis": n(&v["millis"]), "want": w});
        }
        _ => {}
    }
    let fault = json!({"at": n(&v["fault"]["at"]), "lasts": n(&v["fault"]["lasts"])});
    match kind {
        "Script" => json!({"script": v["script"], "args": list(&v["args"]).iter().map(argument).collect::<Vec<_>>(),
            "now": n(&v["now"]), "millis": n(&v["millis"]), "accounts": accounts(&v["accounts"]), "fault": fault,
            "wallets": list(&v["wallets"]).iter().map(name).collect::<Vec<_>>(),
            "want": {"rule": w["rule"]["tag"], "payer": name(&w["payer"]), "instructions": list(&w["ixs"]).iter().map(instruction).collect::<Vec<_>>()}}),
        "Pending" => json!({"staker": key(&v["staker"]).to_string(), "now": n(&v["now"]), "millis": n(&v["millis"]), "fault": fault,
            "accounts": accounts(&v["accounts"]),
            "want": {"shown": w["shown"], "ready": n(&w["ready"]), "waiting": n(&w["waiting"]), "readyTotal": n(&w["readyTotal"]), "waitingTotal": n(&w["waitingTotal"]),
                "rows": list(&w["rows"]).iter().map(|r| json!({"idx": n(&r["idx"]), "at": place(&r["at"]), "amt": n(&r["amt"]), "ready": r["ready"],
                    "created": n(&r["created"]), "elapsed": span(&r["elapsed"]), "left": span(&r["left"])})).collect::<Vec<_>>()}}),
        _ => json!({"fault": fault, "accounts": accounts(&v["accounts"]),
            "want": {"shown": w["shown"], "rated": w["rated"], "cooldown": n(&w["rec"]["cooldown"]), "escrow": n(&w["rec"]["escrow"]),
                "authority": key(&w["rec"]["authority"]).to_string(), "vault": n(&w["vault"]), "free": n(&w["free"]), "supply": n(&w["supply"]),
                "num": n(&w["num"]), "den": n(&w["den"])}}),
    }
}
