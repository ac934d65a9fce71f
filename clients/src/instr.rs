//! Every way the Rust client offers to build an instruction.
use crate::itf::*;
use crate::Why;
use borsh::BorshDeserialize;
use serde_json::{json, Value};
use solana_account_info::AccountInfo;
use solana_instruction::{AccountMeta, Instruction};
use solana_pubkey::Pubkey;
use xorca::*;

type Infos<'a> = Vec<AccountInfo<'a>>;

fn metas(v: &Value) -> Vec<AccountMeta> {
    list(v)
        .iter()
        .map(|m| AccountMeta { pubkey: key(&m["a"]), is_signer: m["s"].as_bool().unwrap(), is_writable: m["w"].as_bool().unwrap() })
        .collect()
}

struct Built {
    how: &'static str,
    ix: Instruction,
    extra: bool,
}

/// the instruction handed to the runtime by a cross-program invocation, with the accounts passed along
fn recorded(how: &'static str, extra: bool, program: &Pubkey, keys: &[Pubkey], why: &mut Why, seeds: &[Vec<u8>]) -> Built {
    let r = solana_cpi::RECORDED.with(|r| r.borrow_mut().pop()).expect("nothing invoked");
    for k in keys.iter().chain([program]) {
        if !r.infos.contains(k) {
            why.push(format!("rust {how}: account {k} is not passed to the runtime"));
        }
    }
    let want: Vec<Vec<Vec<u8>>> = if seeds.is_empty() { vec![] } else { vec![seeds.to_vec()] };
    if r.seeds != want {
        why.push(format!("rust {how}: signer seeds {:?}, specified {want:?}", r.seeds));
    }
    Built { how, ix: r.instruction, extra }
}

macro_rules! op {
    ($ks:ident, $extra:ident, $why:ident, $Accounts:ident, $Args:ident, $Data:ident, $Builder:ident, $Cpi:ident, $CpiAccounts:ident, $CpiBuilder:ident,
     [$($acc:ident),*], {$($arg:ident : $val:expr),*}) => {{
        let mut out = vec![];
        let args = $Args { $($arg: $val),* };
        let mut it = $ks.iter();
        let accounts = $Accounts { $($acc: *it.next().unwrap()),* };
        out.push(Built { how: "instruction", ix: accounts.instruction(args.clone()), extra: false });
        out.push(Built { how: "instruction_with_remaining_accounts", ix: accounts.instruction_with_remaining_accounts(args.clone(), &$extra), extra: true });
        let mut b = $Builder::new();
        let mut it = $ks.iter();
        $(b.$acc(*it.next().unwrap());)*
        $(b.$arg($val);)*
        out.push(Built { how: "builder", ix: b.instruction(), extra: false });
        for m in $extra.iter().take(1) { b.add_remaining_account(m.clone()); }
        if $extra.len() > 1 { b.add_remaining_accounts(&$extra[1..]); }
        out.push(Built { how: "builder with remaining accounts", ix: b.instruction(), extra: true });

        // cross-program invocations
        let program = known("self");
        let owner = known("system");
        let mut lam = vec![0u64; $ks.len() + $extra.len() + 1];
        let mut datas: Vec<Vec<u8>> = vec![vec![]; lam.len()];
        let all: Vec<Pubkey> = $ks.iter().copied().chain($extra.iter().map(|m| m.pubkey)).chain([program]).collect();
        let infos: Infos = all.iter().zip(lam.iter_mut().zip(datas.iter_mut()))
            .map(|(k, (l, d))| AccountInfo::new(k, true, true, l, d, &owner, false, 0)).collect();
        let prog = infos.last().unwrap();
        let rest: Vec<(&AccountInfo, bool, bool)> = $extra.iter().enumerate()
            .map(|(i, m)| (&infos[$ks.len() + i], m.is_signer, m.is_writable)).collect();
        // the generated CPI builders document (writable, signer) and read (signer, writable) for remaining accounts,
        // which this program never takes; extra accounts have both rights or neither, so that nothing hangs on it
        let only: Vec<Pubkey> = $ks.to_vec();
        let both: Vec<Pubkey> = all[..all.len() - 1].to_vec();
        let seeds: Vec<Vec<u8>> = vec![b"seed".to_vec(), vec![7]];
        let refs: Vec<&[u8]> = seeds.iter().map(|s| s.as_slice()).collect();
        let mut it = infos.iter();
        let cpi = $Cpi::new(prog, $CpiAccounts { $($acc: it.next().unwrap()),* }, args.clone());
        cpi.invoke().unwrap();
        out.push(recorded("invoke", false, &program, &only, $why, &[]));
        cpi.invoke_signed(&[&refs]).unwrap();
        out.push(recorded("invoke_signed", false, &program, &only, $why, &seeds));
        cpi.invoke_with_remaining_accounts(&rest).unwrap();
        out.push(recorded("invoke_with_remaining_accounts", true, &program, &both, $why, &[]));
        let mut cb = $CpiBuilder::new(prog);
        let mut it = infos.iter();
        $(cb.$acc(it.next().unwrap());)*
        $(cb.$arg($val);)*
        for (a, s, w) in rest.iter().take(1) { cb.add_remaining_account(*a, *w, *s); }
        if rest.len() > 1 { cb.add_remaining_accounts(&rest[1..]); }
        let first_as_built = solana_cpi::RECORDED.with(|r| r.borrow().len());
        cb.invoke().unwrap();
        assert_eq!(first_as_built + 1, solana_cpi::RECORDED.with(|r| r.borrow().len()));
        out.push(recorded("cpi builder", true, &program, &both, $why, &[]));
        cb.invoke_signed(&[&refs]).unwrap();
        out.push(recorded("cpi builder, signed", true, &program, &both, $why, &seeds));

        // the arguments decode again
        let data = accounts.instruction(args.clone()).data;
        let mut rest_of = data.as_slice();
        match $Data::deserialize(&mut rest_of) {
            Ok(d) => if d != $Data::new() { $why.push(format!("rust discriminator decodes to {d:?}")); },
            Err(e) => $why.push(format!("rust discriminator does not decode: {e}")),
        }
        match $Args::deserialize(&mut rest_of) {
            Ok(a) if a == args && rest_of.is_empty() => {}
            r => $why.push(format!("rust arguments {args:?} decode to {r:?}")),
        }
        out
    }};
}

pub fn check(v: &Value, why: &mut Why) -> Value {
    let ks: Vec<Pubkey> = list(&v["keys"]).iter().map(key).collect();
    let extra = metas(&v["extra"]);
    let op = &v["op"];
    let val = &op["value"];
    let built = match op["tag"].as_str().unwrap() {
        "OStake" => op!(ks, extra, why, Stake, StakeInstructionArgs, StakeInstructionData, StakeBuilder, StakeCpi, StakeCpiAccounts, StakeCpiBuilder,
            [staker_account, vault_account, staker_orca_ata, staker_xorca_ata, xorca_mint_account, state_account, orca_mint_account, token_program_account],
            { orca_stake_amount: int(val) as u64 }),
        "OUnstake" => op!(ks, extra, why, Unstake, UnstakeInstructionArgs, UnstakeInstructionData, UnstakeBuilder, UnstakeCpi, UnstakeCpiAccounts, UnstakeCpiBuilder,
            [unstaker_account, state_account, pending_withdraw_account, unstaker_xorca_ata, xorca_mint_account, orca_mint_account, vault_account, system_program_account, token_program_account],
            { xorca_unstake_amount: int(&val["amt"]) as u64, withdraw_index: int(&val["idx"]) as u8 }),
        "OWithdraw" => op!(ks, extra, why, Withdraw, WithdrawInstructionArgs, WithdrawInstructionData, WithdrawBuilder, WithdrawCpi, WithdrawCpiAccounts, WithdrawCpiBuilder,
            [unstaker_account, state_account, pending_withdraw_account, unstaker_orca_ata, vault_account, orca_mint_account, system_program_account, token_program_account],
            { withdraw_index: int(val) as u8 }),
        "OInit" => op!(ks, extra, why, Initialize, InitializeInstructionArgs, InitializeInstructionData, InitializeBuilder, InitializeCpi, InitializeCpiAccounts, InitializeCpiBuilder,
            [payer_account, update_authority_account, state_account, vault_account, xorca_mint_account, orca_mint_account, system_program_account, token_program_account, associated_token_program_account],
            { cool_down_period_s: int(val) as i64 }),
        tag => {
            let u = if tag == "OCooldown" {
                StateUpdateInstruction::UpdateCoolDownPeriod { new_cool_down_period_s: int(val) as i64 }
            } else {
                StateUpdateInstruction::UpdateUpdateAuthority { new_authority: key(val) }
            };
            op!(ks, extra, why, Set, SetInstructionArgs, SetInstructionData, SetBuilder, SetCpi, SetCpiAccounts, SetCpiBuilder,
                [update_authority_account, state_account], { instruction_data: u.clone() })
        }
    };
    let base = metas(&v["metas"]);
    let data = pieces(&v["data"]);
    let number = match op["tag"].as_str().unwrap() {
        "OStake" => STAKE_DISCRIMINATOR,
        "OUnstake" => UNSTAKE_DISCRIMINATOR,
        "OWithdraw" => WITHDRAW_DISCRIMINATOR,
        "OInit" => INITIALIZE_DISCRIMINATOR,
        _ => SET_DISCRIMINATOR,
    };
    crate::same(why, "discriminator", number, data[0]);
    for b in built {
        let mut want = base.clone();
        if b.extra {
            want.extend(extra.clone());
        }
        crate::same(why, &format!("{}: program", b.how), b.ix.program_id, known("self"));
        crate::same(why, &format!("{}: accounts", b.how), b.ix.accounts, want);
        crate::same(why, &format!("{}: data", b.how), hex(&b.ix.data), hex(&data));
    }
    let arg = match val {
        Value::Object(o) if !o.contains_key("#bigint") => json!([dec(&val["amt"]), dec(&val["idx"])]),
        _ if op["tag"] == "OAuthority" => json!([key(val).to_string()]),
        _ => json!([dec(val)]),
    };
    json!({"op": op["tag"], "args": arg, "keys": ks.iter().map(|k| k.to_string()).collect::<Vec<_>>(), "data": hex(&data),
           "metas": base.iter().map(|m| json!([m.pubkey.to_string(), m.is_signer, m.is_writable])).collect::<Vec<_>>()})
}
