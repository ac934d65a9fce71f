//! Reading ITF values, and rendering the specification's bytes and addresses.
use serde_json::Value;
use solana_pubkey::Pubkey;
use std::str::FromStr;

pub fn field<'a>(v: &'a Value, name: &str) -> Option<&'a Value> {
    let o = v.as_object()?;
    o.iter().find(|(k, _)| k.as_str() == name || k.ends_with(&format!("::{name}"))).map(|(_, v)| v)
}
pub fn dec(v: &Value) -> String {
    match v {
        Value::Object(o) => o["#bigint"].as_str().unwrap().to_string(),
        Value::Number(n) => n.to_string(),
        _ => panic!("not a number: {v}"),
    }
}
pub fn int(v: &Value) -> i128 {
    dec(v).parse().unwrap()
}
pub fn list(v: &Value) -> &Vec<Value> {
    v.as_array().expect("list")
}
/// 32 big-endian bytes of a decimal number
pub fn key(v: &Value) -> Pubkey {
    let mut b = [0u8; 32];
    for d in dec(v).bytes() {
        let mut carry = (d - b'0') as u32;
        for x in b.iter_mut().rev() {
            carry += *x as u32 * 10;
            *x = carry as u8;
            carry >>= 8;
        }
        assert_eq!(carry, 0);
    }
    Pubkey::new_from_array(b)
}
pub fn known(name: &str) -> Pubkey {
    Pubkey::from_str(match name {
        "self" => "StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT",
        "token" => "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA",
        "ata" => "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL",
        "system" => "11111111111111111111111111111111",
        "deployer" => "94kZD71sbTKhqhcvY9D9Ra5BsLzKRZgznbBbQpBWmKrT",
        "orca" => "orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE",
        "xorca" => "xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N",
        _ => panic!("unknown address {name}"),
    })
    .unwrap()
}
pub fn reference(v: &Value) -> Pubkey {
    match v["tag"].as_str().unwrap() {
        "Key" => key(&v["value"]),
        "Known" => known(v["value"].as_str().unwrap()),
        _ => state_address().0,
    }
}
pub fn state_address() -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"state"], &known("self"))
}
pub fn claim_address(owner: &Pubkey, idx: u8) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"pending_withdraw", owner.as_ref(), &[idx]], &known("self"))
}
pub fn ata_address(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[owner.as_ref(), known("token").as_ref(), mint.as_ref()], &known("ata")).0
}
pub fn vault_address() -> (Pubkey, u8) {
    let s = state_address().0;
    Pubkey::find_program_address(&[s.as_ref(), known("token").as_ref(), known("orca").as_ref()], &known("ata"))
}
pub fn pieces(v: &Value) -> Vec<u8> {
    let mut out = vec![];
    for p in list(v) {
        match p["tag"].as_str().unwrap() {
            "B" => out.extend(list(&p["value"]).iter().map(|b| int(b) as u8)),
            "K" => out.extend(reference(&p["value"]).to_bytes()),
            _ => out.extend(vec![0u8; int(&p["value"]) as usize]),
        }
    }
    out
}
/// the address the specification's seeds lead to
pub fn derive(v: &Value) -> (Pubkey, u8) {
    let seeds: Vec<Vec<u8>> = list(&v["seeds"]).iter().map(|s| pieces(&Value::Array(vec![s.clone()]))).collect();
    let refs: Vec<&[u8]> = seeds.iter().map(|s| s.as_slice()).collect();
    Pubkey::find_program_address(&refs, &known(v["prog"].as_str().unwrap()))
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
