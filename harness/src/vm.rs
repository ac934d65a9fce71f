//! A small Solana runtime in which the staking program of the working tree runs as native code.
//!
//! The program is compiled as for the chain (cfg target_os = "solana", see rustc-wrapper.sh).  This file provides what
//! surrounds it on chain: the loader's input region, the system calls, cross-program invocation with the runtime's
//! privilege and legality checks, atomic transactions and the rent rule; the system and associated-token programs; and
//! the token program, which is the real spl-token processor.  /verif/reference runs the same traces in litesvm (the real
//! runtime and the deployed token and associated-token binaries) in the thorough tier.

use crate::model::{Account, Instruction, Pubkey};
use spl_token::solana_program::{
    account_info::AccountInfo, program_error::ProgramError, program_pack::Pack,
};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

// Linking the staking program in: its exported entry point.
use xorca_staking_program as _;
extern "C-unwind" {
    fn entrypoint(input: *mut u8) -> u64;
}

const MAX_GROWTH: usize = 10240;
pub const RENT_ERROR: i64 = -2;
pub const PANICKED: i64 = -3;
pub const OTHER_ERROR: i64 = -1;

pub fn rent_minimum(len: usize) -> u64 {
    (128 + len as u64) * 6960
}

#[derive(Clone, Debug)]
enum Fail {
    Custom(u32),
    Other(&'static str),
    Program(u64),
    Panic,
}
type Done = Result<(), Fail>;

fn program_error(e: ProgramError) -> Fail {
    match e {
        ProgramError::Custom(c) => Fail::Custom(c),
        e => Fail::Program(u64::from(e)),
    }
}

#[derive(Clone)]
struct Slot {
    key: Pubkey,
    signer: bool,
    writable: bool,
}
struct Frame {
    program: Pubkey,
    slots: Vec<Slot>,
    /// host address of each account's data in the input region, and its length on entry
    data: Vec<(usize, usize)>,
}

pub struct Observed {
    pub ok: bool,
    pub idx: usize,
    pub code: i64,
    pub events: Vec<Vec<Vec<u8>>>,
    pub detail: String,
    pub logs: Vec<String>,
}

pub struct Vm {
    store: BTreeMap<Pubkey, Account>,
    programs: Vec<Pubkey>,
    now: i64,
    frames: Vec<Frame>,
    returned: (Pubkey, Vec<u8>),
}

thread_local! {
    static VM: Cell<*mut Vm> = const { Cell::new(std::ptr::null_mut()) };
    static EVENTS: RefCell<Vec<Vec<Vec<u8>>>> = const { RefCell::new(Vec::new()) };
    static LOGS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// Unwinds the program when a system call fails, as the runtime would stop it.
struct Abort(Fail);

mod ids {
    use super::Pubkey;
    pub const SYSTEM: Pubkey = Pubkey::from_str_const("11111111111111111111111111111111");
    pub const TOKEN: Pubkey = Pubkey::from_str_const("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
    pub const TOKEN22: Pubkey = Pubkey::from_str_const("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
    pub const ATA: Pubkey = Pubkey::from_str_const("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
    pub const LOADER: Pubkey = Pubkey::from_str_const("NativeLoader1111111111111111111111111111111");
    pub const CLOCK: Pubkey = Pubkey::from_str_const("SysvarC1ock11111111111111111111111111111111");
    pub const RENT: Pubkey = Pubkey::from_str_const("SysvarRent111111111111111111111111111111111");
}

// ---------------------------------------------------------------------------------------------- legality of changes

/// Writes one account back after `program` ran, applying the runtime's rules about who may change what.
fn write_back(cur: &mut Account, new: &Account, program: &Pubkey, writable: bool) -> Done {
    if cur.lamports != new.lamports {
        if cur.executable || !writable {
            return Err(Fail::Other("ReadonlyLamportChange"));
        }
        if new.lamports < cur.lamports && cur.owner != *program {
            return Err(Fail::Other("ExternalAccountLamportSpend"));
        }
    }
    if cur.data != new.data {
        if cur.executable || !writable {
            return Err(Fail::Other("ReadonlyDataModified"));
        }
        if cur.owner != *program {
            return Err(Fail::Other("ExternalAccountDataModified"));
        }
    }
    if cur.owner != new.owner
        && (cur.executable || !writable || cur.owner != *program || new.data.iter().any(|b| *b != 0))
    {
        return Err(Fail::Other("ModifiedProgramId"));
    }
    *cur = new.clone();
    Ok(())
}

impl Vm {
    pub fn new(programs: &[Pubkey]) -> Vm {
        std::panic::set_hook(Box::new(|info| {
            if VM.get().is_null() {
                eprintln!("{info}");
            }
        }));
        Vm {
            store: BTreeMap::new(),
            programs: programs.to_vec(),
            now: 0,
            frames: vec![],
            returned: (Pubkey::default(), vec![]),
        }
    }
    fn is_program(&self, k: &Pubkey) -> bool {
        self.programs.contains(k) || [ids::SYSTEM, ids::TOKEN, ids::TOKEN22, ids::ATA].contains(k)
    }
    pub fn reset(&mut self, accounts: &[(Pubkey, Account)], now: i64) {
        self.store.clear();
        for (k, a) in accounts {
            self.set(*k, a.clone());
        }
        self.now = now;
    }
    pub fn set(&mut self, k: Pubkey, a: Account) {
        self.store.insert(k, a);
    }
    pub fn set_time(&mut self, now: i64) {
        self.now = now;
    }
    pub fn get(&self, k: &Pubkey) -> Option<Account> {
        self.store.get(k).filter(|a| a.lamports > 0).cloned()
    }
    fn account(&self, k: &Pubkey) -> Account {
        if self.is_program(k) {
            return Account { lamports: 1, data: vec![], owner: ids::LOADER, executable: true };
        }
        self.store.get(k).cloned().unwrap_or_default()
    }
    fn lamports(&self, slots: &[Slot]) -> u128 {
        let mut seen = vec![];
        let mut n = 0u128;
        for s in slots {
            if !seen.contains(&s.key) {
                seen.push(s.key);
                n += self.account(&s.key).lamports as u128;
            }
        }
        n
    }
    fn write(&mut self, k: &Pubkey, new: &Account, program: &Pubkey, writable: bool) -> Done {
        let mut cur = self.account(k);
        write_back(&mut cur, new, program, writable)?;
        if !self.is_program(k) {
            self.store.insert(*k, cur);
        }
        Ok(())
    }

    // ------------------------------------------------------------------------------------------ transactions

    pub fn execute(&mut self, ixs: &[Instruction]) -> Observed {
        EVENTS.with(|e| e.borrow_mut().clear());
        LOGS.with(|l| l.borrow_mut().clear());
        let metas = || ixs.iter().flat_map(|i| i.accounts.iter());
        let before: BTreeMap<Pubkey, Account> = self.store.clone();
        let mut result = Ok(());
        let mut idx = ixs.len();
        VM.set(self as *mut Vm);
        for (i, ix) in ixs.iter().enumerate() {
            // rights are merged over the whole transaction; programs are never writable
            let slots: Vec<Slot> = ix
                .accounts
                .iter()
                .map(|m| Slot {
                    key: m.pubkey,
                    signer: metas().any(|x| x.pubkey == m.pubkey && x.is_signer),
                    writable: metas().any(|x| x.pubkey == m.pubkey && x.is_writable)
                        && !self.is_program(&m.pubkey)
                        && !ixs.iter().any(|x| x.program_id == m.pubkey),
                })
                .collect();
            self.frames.clear();
            result = self.process(ix.program_id, slots, &ix.data);
            if result.is_err() {
                idx = i;
                break;
            }
        }
        VM.set(std::ptr::null_mut());
        if result.is_ok() && self.breaks_rent_rule(&before, metas().map(|m| m.pubkey)) {
            result = Err(Fail::Other("InsufficientFundsForRent"));
        }
        let mut events = EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut()));
        let logs = LOGS.with(|l| std::mem::take(&mut *l.borrow_mut()));
        let code = match &result {
            Ok(()) => {
                self.store.retain(|_, a| a.lamports > 0);
                0
            }
            Err(f) => {
                self.store = before;
                events.clear();
                match f {
                    Fail::Custom(c) => *c as i64,
                    Fail::Other("InsufficientFundsForRent") => RENT_ERROR,
                    Fail::Panic => PANICKED,
                    _ => OTHER_ERROR,
                }
            }
        };
        let detail = result.as_ref().err().map_or(String::new(), |f| format!("{f:?}"));
        Observed { ok: result.is_ok(), idx, code, events, detail, logs }
    }

    /// No account may be left below its rent-exempt minimum unless it already was, kept its size and gained nothing.
    fn breaks_rent_rule(&self, before: &BTreeMap<Pubkey, Account>, keys: impl Iterator<Item = Pubkey>) -> bool {
        let paying = |a: &Account| a.lamports > 0 && a.lamports < rent_minimum(a.data.len());
        for k in keys {
            let (old, new) = (before.get(&k).cloned().unwrap_or_default(), self.account(&k));
            if self.is_program(&k) || old == new || !paying(&new) {
                continue;
            }
            if !(paying(&old) && old.data.len() == new.data.len() && new.lamports <= old.lamports) {
                return true;
            }
        }
        false
    }

    fn process(&mut self, program: Pubkey, slots: Vec<Slot>, data: &[u8]) -> Done {
        if self.frames.len() >= 5 {
            return Err(Fail::Other("CallDepth"));
        }
        if self.frames.iter().any(|f| f.program == program) && self.frames.last().map(|f| f.program) != Some(program) {
            return Err(Fail::Other("ReentrancyNotAllowed"));
        }
        let total = self.lamports(&slots);
        self.frames.push(Frame { program, slots: slots.clone(), data: vec![] });
        let r = if self.programs.contains(&program) {
            self.native(program, &slots, data)
        } else if program == ids::SYSTEM {
            self.system(&slots, data)
        } else if program == ids::TOKEN {
            self.token(&slots, data)
        } else if program == ids::ATA {
            self.associated(&slots, data)
        } else {
            Err(Fail::Other("UnsupportedProgramId"))
        };
        self.frames.pop();
        r?;
        if total != self.lamports(&slots) {
            return Err(Fail::Other("UnbalancedInstruction"));
        }
        Ok(())
    }

    // ------------------------------------------------------------------------------------------ the staking program

    fn native(&mut self, program: Pubkey, slots: &[Slot], ix_data: &[u8]) -> Done {
        // the loader's input region, 8-byte aligned
        let mut b: Vec<u8> = Vec::new();
        let mut at: Vec<(usize, usize)> = vec![]; // per slot: offset of the account header, original data length
        b.extend((slots.len() as u64).to_le_bytes());
        for (i, s) in slots.iter().enumerate() {
            if let Some(j) = slots[..i].iter().position(|x| x.key == s.key) {
                b.push(j as u8);
                b.extend([0; 7]);
                at.push(at[j]);
                continue;
            }
            let a = self.account(&s.key);
            at.push((b.len(), a.data.len()));
            b.push(0xff);
            b.push(s.signer as u8);
            b.push(s.writable as u8);
            b.push(a.executable as u8);
            b.extend([0; 4]);
            b.extend(s.key.to_bytes());
            b.extend(a.owner.to_bytes());
            b.extend(a.lamports.to_le_bytes());
            b.extend((a.data.len() as u64).to_le_bytes());
            b.extend(&a.data);
            b.extend(vec![0; MAX_GROWTH + (8 - a.data.len() % 8) % 8]);
            b.extend(u64::MAX.to_le_bytes());
        }
        b.extend((ix_data.len() as u64).to_le_bytes());
        b.extend(ix_data);
        b.extend(program.to_bytes());
        let mut region = vec![0u64; b.len() / 8 + 2];
        let base = region.as_mut_ptr() as *mut u8;
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), base, b.len()) };
        drop(b);
        self.frames.last_mut().unwrap().data = at.iter().map(|(o, n)| (base as usize + o + 88, *n)).collect();
        let depth = self.frames.len();
        let result = std::panic::catch_unwind(|| unsafe { entrypoint(base) });
        self.frames.truncate(depth);
        match result {
            Ok(0) => {}
            Ok(code) if code == 1 << 32 => return Err(Fail::Custom(0)),
            Ok(code) if code >> 32 == 0 => return Err(Fail::Custom(code as u32)),
            Ok(code) => return Err(Fail::Program(code)),
            Err(p) => return Err(p.downcast_ref::<Abort>().map_or(Fail::Panic, |a| a.0.clone())),
        }
        for (i, s) in slots.iter().enumerate() {
            if slots[..i].iter().any(|x| x.key == s.key) {
                continue;
            }
            let (o, original) = at[i];
            let raw = |from: usize, n: usize| unsafe { std::slice::from_raw_parts(base.add(from), n) };
            let len = u64::from_le_bytes(raw(o + 80, 8).try_into().unwrap()) as usize;
            if len > original + MAX_GROWTH {
                return Err(Fail::Other("InvalidRealloc"));
            }
            let new = Account {
                lamports: u64::from_le_bytes(raw(o + 72, 8).try_into().unwrap()),
                data: raw(o + 88, len).to_vec(),
                owner: Pubkey::new_from_array(raw(o + 40, 32).try_into().unwrap()),
                executable: self.account(&s.key).executable,
            };
            self.write(&s.key, &new, &program, s.writable)?;
        }
        Ok(())
    }

    // ------------------------------------------------------------------------------------------ the system program

    fn system(&mut self, slots: &[Slot], data: &[u8]) -> Done {
        let bad = Fail::Other("InvalidInstructionData");
        let u64_at = |i: usize| -> Result<u64, Fail> {
            Ok(u64::from_le_bytes(data.get(i..i + 8).ok_or(bad.clone())?.try_into().unwrap()))
        };
        let key_at = |i: usize| -> Result<Pubkey, Fail> {
            Ok(Pubkey::new_from_array(data.get(i..i + 32).ok_or(bad.clone())?.try_into().unwrap()))
        };
        let slot = |i: usize| slots.get(i).ok_or(Fail::Other("NotEnoughAccountKeys"));
        let signed = |k: &Pubkey| slots.iter().any(|s| s.key == *k && s.signer);
        let tag = u32::from_le_bytes(data.get(0..4).ok_or(bad.clone())?.try_into().unwrap());
        match tag {
            0 => {
                let (from, to) = (slot(0)?.clone(), slot(1)?.clone());
                if self.account(&to.key).lamports > 0 {
                    return Err(Fail::Custom(0));
                }
                self.allocate(&to, u64_at(12)?, signed(&to.key))?;
                self.assign(&to, key_at(20)?, signed(&to.key))?;
                self.move_lamports(&from, &to, u64_at(4)?)
            }
            1 => {
                let a = slot(0)?.clone();
                self.assign(&a, key_at(4)?, signed(&a.key))
            }
            2 => {
                let (from, to) = (slot(0)?.clone(), slot(1)?.clone());
                self.move_lamports(&from, &to, u64_at(4)?)
            }
            8 => {
                let a = slot(0)?.clone();
                self.allocate(&a, u64_at(4)?, signed(&a.key))
            }
            _ => Err(bad),
        }
    }
    fn allocate(&mut self, s: &Slot, n: u64, signed: bool) -> Done {
        let mut a = self.account(&s.key);
        if !signed {
            return Err(Fail::Other("MissingRequiredSignature"));
        }
        if !a.data.is_empty() || a.owner != ids::SYSTEM {
            return Err(Fail::Custom(0));
        }
        if n > 10 * 1024 * 1024 {
            return Err(Fail::Custom(3));
        }
        a.data = vec![0; n as usize];
        self.write(&s.key, &a, &ids::SYSTEM, s.writable)
    }
    fn assign(&mut self, s: &Slot, owner: Pubkey, signed: bool) -> Done {
        let mut a = self.account(&s.key);
        if a.owner == owner {
            return Ok(());
        }
        if !signed {
            return Err(Fail::Other("MissingRequiredSignature"));
        }
        a.owner = owner;
        self.write(&s.key, &a, &ids::SYSTEM, s.writable)
    }
    fn move_lamports(&mut self, from: &Slot, to: &Slot, n: u64) -> Done {
        let mut a = self.account(&from.key);
        if !from.signer {
            return Err(Fail::Other("MissingRequiredSignature"));
        }
        if !a.data.is_empty() {
            return Err(Fail::Other("InvalidArgument"));
        }
        if n > a.lamports {
            return Err(Fail::Custom(1));
        }
        a.lamports -= n;
        self.write(&from.key, &a, &ids::SYSTEM, from.writable)?;
        let mut b = self.account(&to.key);
        b.lamports = b.lamports.checked_add(n).ok_or(Fail::Other("ArithmeticOverflow"))?;
        self.write(&to.key, &b, &ids::SYSTEM, to.writable)
    }

    // ------------------------------------------------------------------------------------------ the token programs

    fn token(&mut self, slots: &[Slot], data: &[u8]) -> Done {
        let mut keys: Vec<Pubkey> = vec![];
        for s in slots {
            if !keys.contains(&s.key) {
                keys.push(s.key);
            }
        }
        let mut copies: Vec<Account> = keys.iter().map(|k| self.account(k)).collect();
        {
            let mut unique: Vec<AccountInfo> = keys
                .iter()
                .zip(copies.iter_mut())
                .map(|(k, a)| {
                    let s = |f: fn(&Slot) -> bool| slots.iter().any(|s| s.key == *k && f(s));
                    AccountInfo::new(
                        k, s(|s| s.signer), s(|s| s.writable), &mut a.lamports, &mut a.data, &a.owner, a.executable, 0,
                    )
                })
                .collect();
            // (the processor reassigns the owner of a closed account through this reference)
            let infos: Vec<AccountInfo> = slots
                .iter()
                .map(|s| unique[keys.iter().position(|k| *k == s.key).unwrap()].clone())
                .collect();
            let r = spl_token::processor::Processor::process(&ids::TOKEN, &infos, data);
            drop(infos);
            unique.clear();
            r.map_err(program_error)?;
        }
        for (k, a) in keys.iter().zip(copies.iter_mut()) {
            if a.owner == ids::SYSTEM && self.account(k).owner == ids::TOKEN {
                a.data.clear();
            }
            let w = slots.iter().any(|s| s.key == *k && s.writable);
            self.write(k, a, &ids::TOKEN, w)?;
        }
        Ok(())
    }

    fn associated(&mut self, slots: &[Slot], data: &[u8]) -> Done {
        let idempotent = match data {
            [] | [0] => false,
            [1] => true,
            _ => return Err(Fail::Other("InvalidInstructionData")),
        };
        if slots.len() < 6 {
            return Err(Fail::Other("NotEnoughAccountKeys"));
        }
        let [payer, ata, wallet, mint, _, token] = [0, 1, 2, 3, 4, 5].map(|i| slots[i].clone());
        let seeds = [wallet.key.as_ref(), token.key.as_ref(), mint.key.as_ref()];
        if Pubkey::find_program_address(&seeds, &ids::ATA).0 != ata.key {
            return Err(Fail::Other("InvalidSeeds"));
        }
        let mut a = self.account(&ata.key);
        if idempotent && a.owner == token.key {
            if let Ok(t) = spl_token::state::Account::unpack(&a.data) {
                return if t.owner != wallet.key {
                    Err(Fail::Custom(0))
                } else if t.mint != mint.key {
                    Err(Fail::Other("InvalidAccountData"))
                } else {
                    Ok(())
                };
            }
        }
        if a.owner != ids::SYSTEM {
            return Err(Fail::Other("IllegalOwner"));
        }
        let m = self.account(&mint.key);
        if m.owner != token.key || token.key != ids::TOKEN || spl_token::state::Mint::unpack(&m.data).is_err() {
            return Err(Fail::Other("IncorrectProgramId"));
        }
        if !a.data.is_empty() {
            return Err(Fail::Custom(0));
        }
        let len = spl_token::state::Account::LEN;
        let need = rent_minimum(len).saturating_sub(a.lamports);
        if need > 0 {
            self.move_lamports(&payer, &ata, need)?;
        }
        a = self.account(&ata.key);
        a.data = vec![0; len];
        self.write(&ata.key, &a, &ids::SYSTEM, ata.writable)?;
        a.owner = ids::TOKEN;
        self.write(&ata.key, &a, &ids::SYSTEM, ata.writable)?;
        let t = spl_token::state::Account {
            mint: mint.key,
            owner: wallet.key,
            state: spl_token::state::AccountState::Initialized,
            ..Default::default()
        };
        t.pack_into_slice(&mut a.data);
        self.write(&ata.key, &a, &ids::TOKEN, ata.writable)
    }

    // ------------------------------------------------------------------------------------------ cross-program calls

    unsafe fn invoke(
        &mut self, instruction: *const u8, infos: *const u8, infos_len: u64, signers: *const u8, signers_len: u64,
    ) -> Done {
        let c = &*(instruction as *const CInstruction);
        let metas: &[CMeta] =
            if c.accounts_len == 0 { &[] } else { std::slice::from_raw_parts(c.accounts, c.accounts_len as usize) };
        let program = *c.program_id;
        let data = bytes(c.data, c.data_len).to_vec();
        let infos: &[CAccount] =
            if infos_len == 0 { &[] } else { std::slice::from_raw_parts(infos as *const CAccount, infos_len as usize) };
        let me = self.frames.len() - 1;
        let caller = self.frames[me].program;
        let mine = self.frames[me].slots.clone();
        let mut derived = vec![];
        if signers_len > 0 {
            for s in std::slice::from_raw_parts(signers as *const CSlice, signers_len as usize) {
                let seeds = slices(s.addr, s.len);
                derived.push(
                    Pubkey::create_program_address(&seeds, &caller).map_err(|_| Fail::Other("InvalidSeeds"))?,
                );
            }
        }
        let right = |k: &Pubkey, f: fn(&Slot) -> bool| mine.iter().any(|s| s.key == *k && f(s));
        let mut slots = vec![];
        for m in metas {
            let k = *m.pubkey;
            let asked = |f: fn(&CMeta) -> bool| metas.iter().any(|x| unsafe { *x.pubkey } == k && f(x));
            let (signer, writable) = (asked(|x| x.is_signer), asked(|x| x.is_writable));
            if !right(&k, |_| true) || (!infos.iter().any(|a| *a.key == k) && k != program) {
                return Err(Fail::Other("MissingAccount"));
            }
            if (writable && !right(&k, |s| s.writable))
                || (signer && !right(&k, |s| s.signer) && !derived.contains(&k))
            {
                return Err(Fail::Other("PrivilegeEscalation"));
            }
            slots.push(Slot { key: k, signer, writable });
        }
        if !right(&program, |_| true) && program != caller {
            return Err(Fail::Other("MissingAccount"));
        }
        let keys: Vec<Pubkey> = slots.iter().map(|s| s.key).collect();
        // caller -> runtime
        for k in &keys {
            let Some(info) = infos.iter().find(|a| *a.key == *k) else { continue };
            let cur = self.account(k);
            if cur.executable {
                continue;
            }
            let len = *((info.data as usize - 8) as *const u64);
            let new = Account {
                lamports: *info.lamports,
                data: bytes(info.data, len).to_vec(),
                owner: *info.owner,
                executable: false,
            };
            self.write(k, &new, &caller, right(k, |s| s.writable))?;
        }
        self.process(program, slots, &data)?;
        // runtime -> caller
        for k in &keys {
            let Some(info) = infos.iter().find(|a| *a.key == *k) else { continue };
            let a = self.account(k);
            if a.executable || !right(k, |s| s.writable) {
                continue;
            }
            *info.lamports = a.lamports;
            *info.owner = a.owner;
            let len_at = (info.data as usize - 8) as *mut u64;
            let old = *len_at as usize;
            if a.data.len() != old {
                let original =
                    self.frames[me].data.iter().find(|d| d.0 == info.data as usize).map(|d| d.1);
                if a.data.len() > original.ok_or(Fail::Other("InvalidAccountData"))? + MAX_GROWTH {
                    return Err(Fail::Other("InvalidRealloc"));
                }
                if a.data.len() < old {
                    std::ptr::write_bytes(info.data.add(a.data.len()), 0, old - a.data.len());
                }
                *len_at = a.data.len() as u64;
            }
            std::ptr::copy_nonoverlapping(a.data.as_ptr(), info.data, a.data.len());
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------- system calls

#[repr(C)]
struct CInstruction {
    program_id: *const Pubkey,
    accounts: *const CMeta,
    accounts_len: u64,
    data: *const u8,
    data_len: u64,
}
#[repr(C)]
struct CMeta {
    pubkey: *const Pubkey,
    is_writable: bool,
    is_signer: bool,
}
#[repr(C)]
struct CAccount {
    key: *const Pubkey,
    lamports: *mut u64,
    data_len: u64,
    data: *mut u8,
    owner: *mut Pubkey,
    rent_epoch: u64,
    is_signer: bool,
    is_writable: bool,
    executable: bool,
}
#[repr(C)]
struct CSlice {
    addr: *const u8,
    len: u64,
}

unsafe fn vm() -> &'static mut Vm {
    &mut *VM.get()
}
unsafe fn bytes<'a>(p: *const u8, n: u64) -> &'a [u8] {
    if n == 0 { &[] } else { std::slice::from_raw_parts(p, n as usize) }
}
unsafe fn slices<'a>(p: *const u8, n: u64) -> Vec<&'a [u8]> {
    if n == 0 { return vec![]; }
    std::slice::from_raw_parts(p as *const CSlice, n as usize).iter().map(|s| bytes(s.addr, s.len)).collect()
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_invoke_signed_c(
    instruction: *const u8, infos: *const u8, infos_len: u64, signers: *const u8, signers_len: u64,
) -> u64 {
    if let Err(e) = vm().invoke(instruction, infos, infos_len, signers, signers_len) {
        std::panic::resume_unwind(Box::new(Abort(e)))
    }
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_(m: *const u8, n: u64) {
    let s = String::from_utf8_lossy(bytes(m, n)).into_owned();
    LOGS.with(|l| l.borrow_mut().push(s));
}
#[no_mangle]
pub extern "C-unwind" fn sol_log_64_(_: u64, _: u64, _: u64, _: u64, _: u64) {}
#[no_mangle]
pub extern "C-unwind" fn sol_log_compute_units_() {}
#[no_mangle]
pub extern "C-unwind" fn sol_log_pubkey(_: *const u8) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_data(p: *const u8, n: u64) {
    let fields = slices(p, n).iter().map(|s| s.to_vec()).collect();
    EVENTS.with(|e| e.borrow_mut().push(fields));
}
thread_local! {
    /// address derivation is slow and pure
    static FOUND: RefCell<BTreeMap<(Vec<Vec<u8>>, Pubkey), Option<(Pubkey, u8)>>> = const { RefCell::new(BTreeMap::new()) };
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_create_program_address(s: *const u8, n: u64, p: *const u8, out: *mut u8) -> u64 {
    match Pubkey::create_program_address(&slices(s, n), &*(p as *const Pubkey)) {
        Ok(k) => {
            std::ptr::copy_nonoverlapping(k.as_ref().as_ptr(), out, 32);
            0
        }
        Err(_) => 1,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_try_find_program_address(
    s: *const u8, n: u64, p: *const u8, out: *mut u8, bump: *mut u8,
) -> u64 {
    let seeds = slices(s, n);
    let program = *(p as *const Pubkey);
    let id = (seeds.iter().map(|x| x.to_vec()).collect(), program);
    let found = FOUND.with(|f| {
        *f.borrow_mut().entry(id).or_insert_with(|| Pubkey::try_find_program_address(&seeds, &program))
    });
    match found {
        Some((k, b)) => {
            std::ptr::copy_nonoverlapping(k.as_ref().as_ptr(), out, 32);
            *bump = b;
            0
        }
        None => 1,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_sha256(v: *const u8, n: u64, out: *mut u8) -> u64 {
    let h = spl_token::solana_program::hash::hashv(&slices(v, n));
    std::ptr::copy_nonoverlapping(h.as_ref().as_ptr(), out, 32);
    0
}
fn clock_bytes(now: i64) -> Vec<u8> {
    // slot, epoch_start_timestamp, epoch, leader_schedule_epoch, unix_timestamp
    let mut b = vec![];
    b.extend(1000u64.to_le_bytes());
    b.extend(0i64.to_le_bytes());
    b.extend(0u64.to_le_bytes());
    b.extend(1u64.to_le_bytes());
    b.extend(now.to_le_bytes());
    b
}
fn rent_bytes() -> Vec<u8> {
    let mut b = vec![];
    b.extend(3480u64.to_le_bytes());
    b.extend(2.0f64.to_le_bytes());
    b.push(50);
    b
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_clock_sysvar(out: *mut u8) -> u64 {
    let b = clock_bytes(vm().now);
    std::ptr::copy_nonoverlapping(b.as_ptr(), out, b.len());
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_rent_sysvar(out: *mut u8) -> u64 {
    let b = rent_bytes();
    std::ptr::copy_nonoverlapping(b.as_ptr(), out, b.len());
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_sysvar(id: *const u8, out: *mut u8, off: u64, len: u64) -> u64 {
    let id = *(id as *const Pubkey);
    let b = if id == ids::CLOCK {
        clock_bytes(vm().now)
    } else if id == ids::RENT {
        rent_bytes()
    } else {
        return 2;
    };
    match b.get(off as usize..(off + len) as usize) {
        None => 1,
        Some(s) => {
            std::ptr::copy_nonoverlapping(s.as_ptr(), out, s.len());
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcpy_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memmove_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, r: *mut i32) {
    *r = match bytes(a, n).cmp(bytes(b, n)) {
        std::cmp::Ordering::Less => -1,
        std::cmp::Ordering::Equal => 0,
        std::cmp::Ordering::Greater => 1,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memset_(d: *mut u8, c: u8, n: u64) {
    std::ptr::write_bytes(d, c, n as usize)
}
#[no_mangle]
pub extern "C-unwind" fn sol_remaining_compute_units() -> u64 {
    1_000_000
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_stack_height() -> u64 {
    vm().frames.len() as u64
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_set_return_data(p: *const u8, n: u64) {
    let program = vm().frames.last().unwrap().program;
    vm().returned = (program, bytes(p, n).to_vec());
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_return_data(out: *mut u8, n: u64, program: *mut u8) -> u64 {
    let (k, d) = &vm().returned;
    std::ptr::copy_nonoverlapping(d.as_ptr(), out, d.len().min(n as usize));
    std::ptr::copy_nonoverlapping(k.as_ref().as_ptr(), program, 32);
    d.len() as u64
}
macro_rules! unsupported {
    ($($name:ident),*) => { $(
        /// Not used by the program at the pinned commit; a program that starts to use it stops with a clear error.
        #[no_mangle]
        pub extern "C-unwind" fn $name() -> u64 {
            eprintln!("conformance harness: system call {} is not provided", stringify!($name));
            std::process::exit(3)
        }
    )* };
}
unsupported!(
    sol_keccak256, sol_secp256k1_recover, sol_blake3, sol_get_epoch_schedule_sysvar, sol_get_fees_sysvar,
    sol_get_last_restart_slot, sol_invoke_signed_rust, sol_get_processed_sibling_instruction,
    sol_curve_validate_point, sol_curve_group_op, sol_curve_multiscalar_mul, sol_curve_pairing_map,
    sol_alt_bn128_group_op, sol_big_mod_exp, sol_get_epoch_rewards_sysvar, sol_poseidon,
    sol_alt_bn128_compression, sol_get_epoch_stake
);
#[no_mangle]
pub extern "C-unwind" fn sol_panic_(_: *const u8, _: u64, _: u64, _: u64) -> ! {
    std::panic::resume_unwind(Box::new(()))
}
