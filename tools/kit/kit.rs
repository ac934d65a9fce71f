//! Drives the real staking program (built natively from /repo) through a scripted scenario.  See demo.rs.
#![allow(dead_code, unused_imports)]
mod demo;
mod model;
mod vm;
use model::*;
pub use model::{addr, Addr};

pub struct World {
    pub vm: vm::Vm,
    pub names: Names,
    pub now: i64,
    pub deployer: Addr,
}
pub type Out = Result<Vec<Event>, i64>;
pub fn w(u: &str) -> Addr { addr("w", u, 0) }
pub fn orca(u: &str) -> Addr { addr("orca", u, 0) }
pub fn xorca(u: &str) -> Addr { addr("xorca", u, 0) }
pub fn pend(u: &str, i: u8) -> Addr { addr("pend", u, i as i64) }
pub fn state() -> Addr { addr("state", "", 0) }
pub fn vault() -> Addr { addr("vault", "", 0) }
pub fn mint(m: &str) -> Addr { addr("mint", m, 0) }
pub fn prog(p: &str) -> Addr { addr("prog", p, 0) }
pub fn sw(a: Addr) -> Meta { Meta { a, s: true, w: true } }
pub fn rw(a: Addr) -> Meta { Meta { a, s: false, w: true } }
pub fn ro(a: Addr) -> Meta { Meta { a, s: false, w: false } }

impl World {
    pub fn new(salt: &str, now: i64) -> World {
        let vm = vm::Vm::new(&[key(PROGRAM), clone_id()]);
        let mut x = World { vm, names: Names::new(salt), now, deployer: w("deployer") };
        x.vm.set_time(now);
        x
    }
    pub fn set(&mut self, a: &Addr, v: Acct) {
        let k = self.names.of(a);
        let e = self.names.encode(a, &v);
        self.vm.set(k, e);
    }
    pub fn get(&mut self, a: &Addr) -> Option<Acct> {
        let k = self.names.of(a);
        self.vm.get(&k).map(|x| self.names.decode(&x))
    }
    pub fn time(&mut self, t: i64) { self.now = t; self.vm.set_time(t); }
    pub fn token(&mut self, a: &Addr, m: &str, owner: &Addr, amt: u64) {
        self.set(a, Acct { lam: 2039280, prog: prog("token"),
            data: Data::Token { mint: mint(m), owner: owner.clone(), amt, frozen: false, deleg: none() } });
    }
    pub fn mint_acct(&mut self, m: &str, auth: Addr, supply: u64) {
        self.set(&mint(m), Acct { lam: 1461600, prog: prog("token"), data: Data::Mint { auth, freeze: none(), supply, dec: 6 } });
    }
    pub fn user(&mut self, u: &str, o: u64, x: u64) {
        self.set(&w(u), Acct { lam: 10_000_000_000, prog: prog("system"), data: Data::Nil });
        self.token(&orca(u), "orca", &w(u), o);
        self.token(&xorca(u), "xorca", &w(u), x);
    }
    /// an initialized pool
    pub fn pool(&mut self, vault_amt: u64, escrow: u64, supply: u64, cooldown: i64, authority: &str) {
        self.mint_acct("orca", none(), u64::MAX);
        self.mint_acct("xorca", state(), supply);
        self.token(&vault(), "orca", &state(), vault_amt);
        self.set(&state(), Acct { lam: 15144960, prog: prog("self"),
            data: Data::State { escrow, cooldown, authority: w(authority), canon: true } });
    }
    pub fn claim(&mut self, u: &str, i: u8, amt: u64, ts: i64) {
        self.set(&pend(u, i), Acct { lam: 8017920, prog: prog("self"), data: Data::Pend { owner: w(u), idx: i, amt, ts, canon: true } });
    }
    /// a ledger before initialization
    pub fn uninitialized(&mut self) {
        self.mint_acct("orca", none(), u64::MAX);
        self.mint_acct("xorca", state(), 0);
        self.set(&w("deployer"), Acct { lam: 10_000_000_000, prog: prog("system"), data: Data::Nil });
        self.user("authority", 0, 0);
    }
    pub fn run(&mut self, ixs: &[Ix]) -> Out {
        for ix in ixs { for m in &ix.metas { self.names.of(&m.a); } }
        let list: Vec<_> = ixs.iter().map(|i| self.names.instruction(i)).collect();
        let o = self.vm.execute(&list);
        if o.ok { Ok(o.events.iter().map(|e| self.names.event(e)).collect()) } else { Err(o.code) }
    }
    pub fn stake_ix(&self, u: &str, a: u64) -> Ix {
        Ix { prog: prog("self"), call: Call::Stake(a), metas: vec![sw(w(u)), rw(vault()), rw(orca(u)), rw(xorca(u)), rw(mint("xorca")), ro(state()), ro(mint("orca")), ro(prog("token"))] }
    }
    pub fn unstake_ix(&self, u: &str, x: u64, i: u8) -> Ix {
        Ix { prog: prog("self"), call: Call::Unstake(x, i), metas: vec![sw(w(u)), rw(state()), rw(pend(u, i)), rw(xorca(u)), rw(mint("xorca")), ro(mint("orca")), ro(vault()), ro(prog("system")), ro(prog("token"))] }
    }
    pub fn withdraw_ix(&self, u: &str, i: u8) -> Ix {
        Ix { prog: prog("self"), call: Call::Withdraw(i), metas: vec![sw(w(u)), rw(state()), rw(pend(u, i)), rw(orca(u)), rw(vault()), ro(mint("orca")), ro(prog("system")), ro(prog("token"))] }
    }
    pub fn init_ix(&self, payer: Addr, authority: &str, cd: i64) -> Ix {
        Ix { prog: prog("self"), call: Call::Init(cd), metas: vec![sw(payer), sw(w(authority)), rw(state()), rw(vault()), ro(mint("xorca")), ro(mint("orca")), ro(prog("system")), ro(prog("token")), ro(prog("ata"))] }
    }
    pub fn set_ix(&self, who: &str, call: Call) -> Ix {
        Ix { prog: prog("self"), call, metas: vec![sw(w(who)), rw(state())] }
    }
    pub fn pay_ix(&self, from: &str, to: Addr, n: u64) -> Ix {
        Ix { prog: prog("system"), call: Call::Lamports(n), metas: vec![sw(w(from)), rw(to)] }
    }
    pub fn stake(&mut self, u: &str, a: u64) -> Out { let i = self.stake_ix(u, a); self.run(&[i]) }
    pub fn unstake(&mut self, u: &str, x: u64, n: u8) -> Out { let i = self.unstake_ix(u, x, n); self.run(&[i]) }
    pub fn withdraw(&mut self, u: &str, n: u8) -> Out { let i = self.withdraw_ix(u, n); self.run(&[i]) }
    pub fn cooldown(&mut self, who: &str, c: i64) -> Out { let i = self.set_ix(who, Call::SetCooldown(c)); self.run(&[i]) }
    pub fn authority(&mut self, who: &str, new: &str) -> Out { let i = self.set_ix(who, Call::SetAuthority(w(new))); self.run(&[i]) }

    pub fn amt(&mut self, a: &Addr) -> u64 { match self.get(a).map(|x| x.data) { Some(Data::Token { amt, .. }) => amt, _ => 0 } }
    pub fn lam(&mut self, a: &Addr) -> u64 { self.get(a).map(|x| x.lam).unwrap_or(0) }
    pub fn supply(&mut self) -> u64 { match self.get(&mint("xorca")).map(|x| x.data) { Some(Data::Mint { supply, .. }) => supply, _ => 0 } }
    pub fn escrow(&mut self) -> u64 { match self.get(&state()).map(|x| x.data) { Some(Data::State { escrow, .. }) => escrow, _ => 0 } }
    pub fn period(&mut self) -> i64 { match self.get(&state()).map(|x| x.data) { Some(Data::State { cooldown, .. }) => cooldown, _ => -1 } }
    pub fn admin(&mut self) -> Addr { match self.get(&state()).map(|x| x.data) { Some(Data::State { authority, .. }) => authority, _ => none() } }
    pub fn claim_of(&mut self, u: &str, i: u8) -> Option<(u64, i64)> {
        match self.get(&pend(u, i)).map(|x| x.data) { Some(Data::Pend { amt, ts, .. }) => Some((amt, ts)), _ => None }
    }
}
pub fn minted(a: u64, free: u64, supply: u64) -> u64 {
    if free == 0 || supply == 0 { a } else { (a as u128 * (supply as u128 + 100) / (free as u128 + 100)) as u64 }
}
pub fn redeemed(x: u64, free: u64, supply: u64) -> u64 { (x as u128 * (free as u128 + 100) / (supply as u128 + 100)) as u64 }

fn main() {
    demo::demo();
    println!("ok");
}
