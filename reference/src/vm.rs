//! The same interface as harness/src/vm.rs, implemented by the real Solana runtime (litesvm: the validator's transaction
//! processing, system program, and the deployed binaries of the token and associated-token programs).  Only the staking
//! program itself runs natively, registered as a built-in; its system calls are forwarded to the runtime.

use crate::model::{Account, Instruction, Pubkey};
use litesvm::LiteSVM;
use solana_program_runtime::{
    declare_process_instruction,
    invoke_context::InvokeContext,
    serialization::{deserialize_parameters, serialize_parameters},
};
use solana_sdk::{
    account::Account as SolAccount,
    clock::Clock,
    instruction::{AccountMeta, Instruction as SolInstruction, InstructionError},
    message::Message,
    native_loader,
    signature::Signature,
    transaction::{Transaction, TransactionError},
};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};

mod ids {
    use super::Pubkey;
    pub const CLOCK: Pubkey = Pubkey::from_str_const("SysvarC1ock11111111111111111111111111111111");
    pub const RENT: Pubkey = Pubkey::from_str_const("SysvarRent111111111111111111111111111111111");
}

use xorca_staking_program as _;
extern "C-unwind" {
    fn entrypoint(input: *mut u8) -> u64;
}

pub const RENT_ERROR: i64 = -2;
pub const PANICKED: i64 = -3;
pub const OTHER_ERROR: i64 = -1;
pub fn rent_minimum(len: usize) -> u64 {
    (128 + len as u64) * 6960
}

pub struct Observed {
    pub ok: bool,
    pub idx: usize,
    pub code: i64,
    pub events: Vec<Vec<Vec<u8>>>,
    pub detail: String,
    pub logs: Vec<String>,
}

pub struct Vm {
    svm: LiteSVM,
    payer: Pubkey,
    used: BTreeSet<Pubkey>,
    fixed: Vec<Pubkey>,
}

thread_local! {
    static CTX: Cell<*mut InvokeContext<'static>> = const { Cell::new(std::ptr::null_mut()) };
    static EVENTS: RefCell<Vec<Vec<Vec<u8>>>> = const { RefCell::new(Vec::new()) };
    static LOGS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static CRASHED: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<i64> = const { Cell::new(0) };
}

struct Abort(InstructionError);

declare_process_instruction!(Staking, 1, |invoke_context| { run(invoke_context) });

fn run(ctx: &mut InvokeContext) -> Result<(), InstructionError> {
    let (mut mem, metas) = {
        let tc = &ctx.transaction_context;
        let ic = tc.get_current_instruction_context()?;
        let (mem, _, metas) = serialize_parameters(tc, ic, true, false)?;
        (mem, metas)
    };
    let outer = CTX.get();
    CTX.set(unsafe { std::mem::transmute::<*mut InvokeContext, *mut InvokeContext<'static>>(ctx as *mut InvokeContext) });
    let base = mem.as_slice_mut().as_mut_ptr();
    let r = std::panic::catch_unwind(|| unsafe { entrypoint(base) });
    CTX.set(outer);
    match r {
        Ok(0) => {}
        Ok(code) => return Err(InstructionError::from(code)),
        Err(p) => match p.downcast_ref::<Abort>() {
            Some(a) => return Err(a.0.clone()),
            None => {
                CRASHED.set(true);
                return Err(InstructionError::ProgramFailedToComplete);
            }
        },
    }
    let tc = &ctx.transaction_context;
    let ic = tc.get_current_instruction_context()?;
    deserialize_parameters(tc, ic, true, mem.as_slice(), &metas)
}

impl Vm {
    pub fn new(programs: &[Pubkey]) -> Vm {
        std::panic::set_hook(Box::new(|_| {}));
        let mut budget = solana_compute_budget::compute_budget::ComputeBudget::default();
        budget.compute_unit_limit = 100_000_000;
        let mut svm = LiteSVM::new()
            .with_compute_budget(budget)
            .with_sigverify(false)
            .with_blockhash_check(false)
            .with_transaction_history(0);
        for p in programs {
            let p = p.to_bytes().into();
            // registers the entry point, then fails to load the (empty) program account it makes up: replaced below
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| svm.add_builtin(p, Staking::vm)));
            let a = SolAccount { lamports: 1, data: vec![], owner: native_loader::id(), executable: true, rent_epoch: 0 };
            svm.set_account(p, a).unwrap();
        }
        let payer = Pubkey::new_from_array([0xfe; 32]);
        let mut fixed = programs.to_vec();
        for k in [crate::model::SYSTEM, crate::model::TOKEN, crate::model::TOKEN22, crate::model::ATA] {
            fixed.push(crate::model::key(k));
        }
        Vm { svm, payer, used: BTreeSet::new(), fixed }
    }
    pub fn reset(&mut self, accounts: &[(Pubkey, Account)], now: i64) {
        for k in std::mem::take(&mut self.used) {
            self.svm.set_account(k, SolAccount::default()).unwrap();
        }
        for (k, a) in accounts {
            self.set(*k, a.clone());
        }
        self.set_time(now);
    }
    pub fn set(&mut self, k: Pubkey, a: Account) {
        if self.fixed.contains(&k) {
            return;
        }
        self.used.insert(k);
        let a = SolAccount { lamports: a.lamports, data: a.data, owner: a.owner, executable: a.executable, rent_epoch: u64::MAX };
        self.svm.set_account(k, a).unwrap();
    }
    pub fn set_time(&mut self, now: i64) {
        NOW.set(now);
        let c = Clock { slot: 1000, epoch_start_timestamp: 0, epoch: 0, leader_schedule_epoch: 1, unix_timestamp: now };
        self.svm.set_sysvar(&c);
    }
    pub fn get(&self, k: &Pubkey) -> Option<Account> {
        if self.fixed.contains(k) {
            return None;
        }
        let a = self.svm.get_account(k)?;
        (a.lamports > 0).then(|| Account { lamports: a.lamports, data: a.data, owner: a.owner, executable: a.executable })
    }

    pub fn execute(&mut self, ixs: &[Instruction]) -> Observed {
        EVENTS.with(|e| e.borrow_mut().clear());
        LOGS.with(|l| l.borrow_mut().clear());
        CRASHED.set(false);
        self.svm
            .set_account(self.payer, SolAccount { lamports: 1 << 40, ..SolAccount::default() })
            .unwrap();
        let list: Vec<SolInstruction> = ixs
            .iter()
            .map(|i| SolInstruction {
                program_id: i.program_id,
                accounts: i
                    .accounts
                    .iter()
                    .map(|m| AccountMeta { pubkey: m.pubkey, is_signer: m.is_signer, is_writable: m.is_writable })
                    .collect(),
                data: i.data.clone(),
            })
            .collect();
        for i in ixs {
            self.used.extend(i.accounts.iter().map(|m| m.pubkey).filter(|k| !self.fixed.contains(k)));
        }
        let message = Message::new(&list, Some(&self.payer));
        let signatures = vec![Signature::default(); message.header.num_required_signatures as usize];
        // litesvm exempts accounts without data from the rent rule, the validator does not (solana-svm,
        // TransactionAccountStateInfo): that part of the rule is applied here
        let keys: BTreeSet<Pubkey> = ixs.iter().flat_map(|i| &i.accounts).map(|m| m.pubkey).filter(|k| !self.fixed.contains(k)).collect();
        let before: Vec<_> = keys.iter().map(|k| (*k, self.svm.get_account(k).unwrap_or_default())).collect();
        let r = self.svm.send_transaction(Transaction { signatures, message });
        let mut events = EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut()));
        let logs = LOGS.with(|l| std::mem::take(&mut *l.borrow_mut()));
        let paying = |a: &SolAccount| a.lamports > 0 && a.lamports < rent_minimum(a.data.len());
        let underpaid = r.is_ok()
            && before.iter().any(|(k, old)| {
                let new = self.svm.get_account(k).unwrap_or_default();
                new.data.is_empty() && *old != new && paying(&new)
                    && !(paying(old) && old.data.is_empty() && new.lamports <= old.lamports)
            });
        if underpaid {
            events.clear();
            for (k, a) in before {
                self.svm.set_account(k, a).unwrap();
            }
        }
        let (ok, idx, code, detail) = match &r {
            _ if underpaid => (false, ixs.len(), RENT_ERROR, "InsufficientFundsForRent".into()),
            Ok(_) => (true, ixs.len(), 0, String::new()),
            Err(f) => {
                events.clear();
                let d = format!("{:?} {:?}", f.err, f.meta.logs.iter().rev().take(3).collect::<Vec<_>>());
                match &f.err {
                    TransactionError::InstructionError(i, e) => {
                        let code = match e {
                            _ if CRASHED.get() => PANICKED,
                            InstructionError::Custom(c) => *c as i64,
                            _ => OTHER_ERROR,
                        };
                        (false, *i as usize, code, d)
                    }
                    TransactionError::InsufficientFundsForRent { .. } => (false, ixs.len(), RENT_ERROR, d),
                    e => panic!("{e:?}: {ixs:?}"),
                }
            }
        };
        Observed { ok, idx, code, events, detail, logs }
    }
}

// ---------------------------------------------------------------------------------------------- cross-program calls

fn ctx() -> &'static mut InvokeContext<'static> {
    unsafe { &mut *CTX.get() }
}

unsafe fn invoke(
    instruction: *const u8, infos: *const u8, infos_len: u64, signers: *const u8, signers_len: u64,
) -> Result<(), InstructionError> {
    let c = &*(instruction as *const CInstruction);
    let metas: &[CMeta] =
        if c.accounts_len == 0 { &[] } else { std::slice::from_raw_parts(c.accounts, c.accounts_len as usize) };
    let infos: &[CAccount] =
        if infos_len == 0 { &[] } else { std::slice::from_raw_parts(infos as *const CAccount, infos_len as usize) };
    let ix = SolInstruction {
        program_id: *c.program_id,
        accounts: metas
            .iter()
            .map(|m| AccountMeta { pubkey: *m.pubkey, is_signer: m.is_signer, is_writable: m.is_writable })
            .collect(),
        data: bytes(c.data, c.data_len).to_vec(),
    };
    let ctx = ctx();
    let caller = *ctx.transaction_context.get_current_instruction_context()?.get_last_program_key(ctx.transaction_context)?;
    let mut derived = vec![];
    if signers_len > 0 {
        for s in std::slice::from_raw_parts(signers as *const CSlice, signers_len as usize) {
            derived.push(
                Pubkey::create_program_address(&slices(s.addr, s.len), &caller).map_err(|_| InstructionError::InvalidSeeds)?,
            );
        }
    }
    // caller -> runtime
    let mut keys: Vec<Pubkey> = vec![];
    for m in &ix.accounts {
        if !keys.contains(&m.pubkey) {
            keys.push(m.pubkey);
        }
    }
    {
        let tc = &ctx.transaction_context;
        let ic = tc.get_current_instruction_context()?;
        for k in &keys {
            let i = ic.find_index_of_instruction_account(tc, k).ok_or(InstructionError::MissingAccount)?;
            let mut b = ic.try_borrow_instruction_account(tc, i)?;
            let Some(info) = infos.iter().find(|a| *a.key == *k) else {
                if b.is_executable() || *k == ix.program_id {
                    continue;
                }
                return Err(InstructionError::MissingAccount);
            };
            if b.is_executable() {
                continue;
            }
            if b.get_lamports() != *info.lamports {
                b.set_lamports(*info.lamports)?;
            }
            let data = bytes(info.data, *((info.data as usize - 8) as *const u64));
            match b.can_data_be_resized(data.len()).and_then(|_| b.can_data_be_changed()) {
                Ok(()) => b.set_data_from_slice(data)?,
                Err(e) if b.get_data() != data => return Err(e),
                _ => {}
            }
            if b.get_owner() != &*info.owner {
                b.set_owner((*info.owner).as_ref())?;
            }
        }
    }
    ctx.native_invoke(ix.into(), &derived)?;
    // runtime -> caller
    let tc = &ctx.transaction_context;
    let ic = tc.get_current_instruction_context()?;
    for k in &keys {
        let Some(info) = infos.iter().find(|a| *a.key == *k) else { continue };
        let i = ic.find_index_of_instruction_account(tc, k).ok_or(InstructionError::MissingAccount)?;
        let b = ic.try_borrow_instruction_account(tc, i)?;
        if b.is_executable() || !b.is_writable() {
            continue;
        }
        *info.lamports = b.get_lamports();
        *info.owner = *b.get_owner();
        let len_at = (info.data as usize - 8) as *mut u64;
        let (old, new) = (*len_at as usize, b.get_data());
        if new.len() < old {
            std::ptr::write_bytes(info.data.add(new.len()), 0, old - new.len());
        }
        *len_at = new.len() as u64;
        std::ptr::copy_nonoverlapping(new.as_ptr(), info.data, new.len());
    }
    Ok(())
}

#[repr(C)]
struct CInstruction {
    program_id: *const Pubkey,
    accounts: *const CMeta,
    accounts_len: u64,
    data: *const u8,
    data_len: u64,
}
#[repr(C)]
struct CMeta {
    pubkey: *const Pubkey,
    is_writable: bool,
    is_signer: bool,
}
#[repr(C)]
struct CAccount {
    key: *const Pubkey,
    lamports: *mut u64,
    data_len: u64,
    data: *mut u8,
    owner: *mut Pubkey,
    rent_epoch: u64,
    is_signer: bool,
    is_writable: bool,
    executable: bool,
}
#[repr(C)]
struct CSlice {
    addr: *const u8,
    len: u64,
}
unsafe fn bytes<'a>(p: *const u8, n: u64) -> &'a [u8] {
    if n == 0 { &[] } else { std::slice::from_raw_parts(p, n as usize) }
}
unsafe fn slices<'a>(p: *const u8, n: u64) -> Vec<&'a [u8]> {
    if n == 0 { return vec![]; }
    std::slice::from_raw_parts(p as *const CSlice, n as usize).iter().map(|s| bytes(s.addr, s.len)).collect()
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_invoke_signed_c(
    instruction: *const u8, infos: *const u8, infos_len: u64, signers: *const u8, signers_len: u64,
) -> u64 {
    if let Err(e) = invoke(instruction, infos, infos_len, signers, signers_len) {
        std::panic::resume_unwind(Box::new(Abort(e)))
    }
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_(m: *const u8, n: u64) {
    let s = String::from_utf8_lossy(bytes(m, n)).into_owned();
    LOGS.with(|l| l.borrow_mut().push(s));
}
#[no_mangle]
pub extern "C-unwind" fn sol_log_64_(_: u64, _: u64, _: u64, _: u64, _: u64) {}
#[no_mangle]
pub extern "C-unwind" fn sol_log_compute_units_() {}
#[no_mangle]
pub extern "C-unwind" fn sol_log_pubkey(_: *const u8) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_data(p: *const u8, n: u64) {
    let fields = slices(p, n).iter().map(|s| s.to_vec()).collect();
    EVENTS.with(|e| e.borrow_mut().push(fields));
}
thread_local! {
    /// address derivation is slow and pure
    static FOUND: RefCell<BTreeMap<(Vec<Vec<u8>>, Pubkey), Option<(Pubkey, u8)>>> = const { RefCell::new(BTreeMap::new()) };
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_create_program_address(s: *const u8, n: u64, p: *const u8, out: *mut u8) -> u64 {
    match Pubkey::create_program_address(&slices(s, n), &*(p as *const Pubkey)) {
        Ok(k) => {
            std::ptr::copy_nonoverlapping(k.as_ref().as_ptr(), out, 32);
            0
        }
        Err(_) => 1,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_try_find_program_address(
    s: *const u8, n: u64, p: *const u8, out: *mut u8, bump: *mut u8,
) -> u64 {
    let seeds = slices(s, n);
    let program = *(p as *const Pubkey);
    let id = (seeds.iter().map(|x| x.to_vec()).collect(), program);
    let found = FOUND.with(|f| {
        *f.borrow_mut().entry(id).or_insert_with(|| Pubkey::try_find_program_address(&seeds, &program))
    });
    match found {
        Some((k, b)) => {
            std::ptr::copy_nonoverlapping(k.as_ref().as_ptr(), out, 32);
            *bump = b;
            0
        }
        None => 1,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_sha256(v: *const u8, n: u64, out: *mut u8) -> u64 {
    let h = spl_token::solana_program::hash::hashv(&slices(v, n));
    std::ptr::copy_nonoverlapping(h.as_ref().as_ptr(), out, 32);
    0
}
fn clock_bytes(now: i64) -> Vec<u8> {
    // slot, epoch_start_timestamp, epoch, leader_schedule_epoch, unix_timestamp
    let mut b = vec![];
    b.extend(1000u64.to_le_bytes());
    b.extend(0i64.to_le_bytes());
    b.extend(0u64.to_le_bytes());
    b.extend(1u64.to_le_bytes());
    b.extend(now.to_le_bytes());
    b
}
fn rent_bytes() -> Vec<u8> {
    let mut b = vec![];
    b.extend(3480u64.to_le_bytes());
    b.extend(2.0f64.to_le_bytes());
    b.push(50);
    b
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_clock_sysvar(out: *mut u8) -> u64 {
    let b = clock_bytes(NOW.get());
    std::ptr::copy_nonoverlapping(b.as_ptr(), out, b.len());
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_rent_sysvar(out: *mut u8) -> u64 {
    let b = rent_bytes();
    std::ptr::copy_nonoverlapping(b.as_ptr(), out, b.len());
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_sysvar(id: *const u8, out: *mut u8, off: u64, len: u64) -> u64 {
    let id = *(id as *const Pubkey);
    let b = if id == ids::CLOCK {
        clock_bytes(NOW.get())
    } else if id == ids::RENT {
        rent_bytes()
    } else {
        return 2;
    };
    match b.get(off as usize..(off + len) as usize) {
        None => 1,
        Some(s) => {
            std::ptr::copy_nonoverlapping(s.as_ptr(), out, s.len());
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcpy_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memmove_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, r: *mut i32) {
    *r = match bytes(a, n).cmp(bytes(b, n)) {
        std::cmp::Ordering::Less => -1,
        std::cmp::Ordering::Equal => 0,
        std::cmp::Ordering::Greater => 1,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memset_(d: *mut u8, c: u8, n: u64) {
    std::ptr::write_bytes(d, c, n as usize)
}
#[no_mangle]
pub extern "C-unwind" fn sol_remaining_compute_units() -> u64 {
    1_000_000
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_stack_height() -> u64 {
    ctx().get_stack_height() as u64
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_set_return_data(p: *const u8, n: u64) {
    let ctx = ctx();
    let program = *ctx.transaction_context.get_current_instruction_context().unwrap().get_last_program_key(ctx.transaction_context).unwrap();
    ctx.transaction_context.set_return_data(program, bytes(p, n).to_vec()).unwrap();
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_return_data(out: *mut u8, n: u64, program: *mut u8) -> u64 {
    let tc = &ctx().transaction_context;
    let (k, d) = tc.get_return_data();
    std::ptr::copy_nonoverlapping(d.as_ptr(), out, d.len().min(n as usize));
    std::ptr::copy_nonoverlapping(k.as_ref().as_ptr(), program, 32);
    d.len() as u64
}
macro_rules! unsupported {
    ($($name:ident),*) => { $(
        /// Not used by the program at the pinned commit; a program that starts to use it stops with a clear error.
        #[no_mangle]
        pub extern "C-unwind" fn $name() -> u64 {
            eprintln!("conformance harness: system call {} is not provided", stringify!($name));
            std::process::exit(3)
        }
    )* };
}
unsupported!(
    sol_keccak256, sol_secp256k1_recover, sol_blake3, sol_get_epoch_schedule_sysvar, sol_get_fees_sysvar,
    sol_get_last_restart_slot, sol_invoke_signed_rust, sol_get_processed_sibling_instruction,
    sol_curve_validate_point, sol_curve_group_op, sol_curve_multiscalar_mul, sol_curve_pairing_map,
    sol_alt_bn128_group_op, sol_big_mod_exp, sol_get_epoch_rewards_sysvar, sol_poseidon,
    sol_alt_bn128_compression, sol_get_epoch_stake
);
#[no_mangle]
pub extern "C-unwind" fn sol_panic_(_: *const u8, _: u64, _: u64, _: u64) -> ! {
    std::panic::resume_unwind(Box::new(()))
}
