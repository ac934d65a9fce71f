// -*- mode: Bluespec; -*-
/**
 * The ledger: every account the staking program can see, the program's five instructions as the published interface
 * defines them, and the system / token operations that surround them.  Everything here is a pure function from a
 * ledger and a transaction to an outcome:
 *
 *     execTx(ledger, tx) = { ok, idx, codes, whys, led, events }
 *
 * A transaction is a list of instructions executed all-or-nothing.  An instruction carries an explicit account list
 * with explicit rights, so honest clients, buggy clients and attackers are the same kind of input.
 * When an instruction must be rejected, `codes` is the set of all error codes whose reason applies: which of several
 * failing checks is reported first is not part of the specification.
 */
module ledger {
  import core(OFF = 100, MAXU = 18446744073709551615,
              MAXW = 340282366920938463463374607431768211455,
              MAXT = 9223372036854775807).* from "./core"

  pure val U64MAX = 18446744073709551615
  pure val I64MAX = 9223372036854775807
  pure val I64MIN = -9223372036854775808

  // ------------------------------------------------------------------ addresses
  /// (kind, owner or label, number).  Kinds: "w" wallet; "orca" / "xorca" / "fake" token account number n of a wallet
  /// (number 0 is the associated account); "avault" the associated account, for ORCA (0) or the fake mint (1), of the state
  /// or of a look-alike of it; "pend" claim address n of a wallet; "state"; "vault"; "mint"; "prog"; "junk"
  type Addr = (str, str, int)

  pure val NONE: Addr = ("none", "", 0)
  pure val STATE: Addr = ("state", "", 0)
  pure val VAULT: Addr = ("vault", "", 0)
  pure val ORCA: Addr = ("mint", "orca", 0)
  pure val XORCA: Addr = ("mint", "xorca", 0)
  pure val FAKE: Addr = ("mint", "fake", 0)
  pure val SELF: Addr = ("prog", "self", 0)       // the staking program
  pure val CLONE: Addr = ("prog", "clone", 0)     // the same code deployed under another address
  pure val SYSTEM: Addr = ("prog", "system", 0)
  pure val TOKEN: Addr = ("prog", "token", 0)
  pure val TOKEN22: Addr = ("prog", "token22", 0)
  pure val ATA: Addr = ("prog", "ata", 0)
  pure val OTHER: Addr = ("prog", "other", 0)     // some unrelated program
  pure val DEPLOYER: Addr = ("w", "deployer", 0)

  pure def wallet(u: str): Addr = ("w", u, 0)
  pure def pendOf(w: Addr, i: int): Addr = if (w._1 == "w") ("pend", w._2, i) else NONE

  // ------------------------------------------------------------------ accounts
  type TokenData = { mint: Addr, owner: Addr, amt: int, frozen: bool, deleg: Addr }
  type MintData = { auth: Addr, freeze: Addr, supply: int, dec: int }
  /// canon: the address bumps cached in the record are the canonical ones
  type StateData = { escrow: int, cooldown: int, authority: Addr, canon: bool }
  type PendData = { owner: Addr, idx: int, amt: int, ts: int, canon: bool }
  type Data = Nil | Token(TokenData) | Mint(MintData) | State(StateData) | Pend(PendData) | Blob(int) | Code

  type Acct = { lam: int, prog: Addr, data: Data }
  /// deg: the initial ledger was put in a state the program itself cannot reach (used to exercise defensive arithmetic)
  type Ledger = { now: int, deg: bool, accts: Addr -> Acct }

  pure val EMPTY: Acct = { lam: 0, prog: SYSTEM, data: Nil }
  pure val RENT0 = 890880
  pure val RENT_TOKEN = 2039280
  pure val RENT_PEND = 8017920
  pure val RENT_STATE = 15144960

  pure val PROGRAM: Acct = { lam: 1, prog: OTHER, data: Code }
  pure def acct(l: Ledger, a: Addr): Acct =
    if (a._1 == "prog") PROGRAM else if (l.accts.keys().contains(a)) l.accts.get(a) else EMPTY
  pure def setAcct(l: Ledger, a: Addr, v: Acct): Ledger =
    if (v == EMPTY) { ...l, accts: l.accts.keys().exclude(Set(a)).mapBy(k => l.accts.get(k)) }
    else { ...l, accts: l.accts.put(a, v) }

  type Tok = { is: bool, d: TokenData }
  pure val NOTOK: Tok = { is: false, d: { mint: NONE, owner: NONE, amt: 0, frozen: false, deleg: NONE } }
  pure def tok(a: Acct): Tok = match a.data { | Token(t) => { is: true, d: t } | _ => NOTOK }
  type Mnt = { is: bool, d: MintData }
  pure def mnt(a: Acct): Mnt = match a.data {
    | Mint(m) => { is: true, d: m }
    | _ => { is: false, d: { auth: NONE, freeze: NONE, supply: 0, dec: 0 } } }
  type Sta = { is: bool, d: StateData }
  pure def sta(a: Acct): Sta = match a.data {
    | State(s) => { is: true, d: s }
    | _ => { is: false, d: { escrow: 0, cooldown: 0, authority: NONE, canon: false } } }
  type Pen = { is: bool, d: PendData }
  pure def pen(a: Acct): Pen = match a.data {
    | Pend(p) => { is: true, d: p }
    | _ => { is: false, d: { owner: NONE, idx: 0, amt: 0, ts: 0, canon: false } } }
  pure def isNil(a: Acct): bool = match a.data { | Nil => true | _ => false }

  pure def setAmt(l: Ledger, a: Addr, n: int): Ledger = {
    val x = acct(l, a)
    val t = tok(x)
    if (t.is) setAcct(l, a, { ...x, data: Token({ ...t.d, amt: n }) }) else l
  }
  pure def amtOf(l: Ledger, a: Addr): int = tok(acct(l, a)).d.amt
  pure def addAmt(l: Ledger, a: Addr, d: int): Ledger = setAmt(l, a, amtOf(l, a) + d)
  pure def supplyOf(l: Ledger): int = mnt(acct(l, XORCA)).d.supply
  pure def setSupply(l: Ledger, n: int): Ledger = {
    val x = acct(l, XORCA)
    setAcct(l, XORCA, { ...x, data: Mint({ ...mnt(x).d, supply: n }) })
  }
  pure def addLam(l: Ledger, a: Addr, d: int): Ledger = {
    val x = acct(l, a)
    setAcct(l, a, { ...x, lam: x.lam + d })
  }

  pure def initialized(l: Ledger): bool = {
    val a = acct(l, STATE)
    a.prog == SELF and sta(a).is
  }
  pure def st(l: Ledger): StateData = sta(acct(l, STATE)).d
  pure def pool(l: Ledger): Pool = { vault: amtOf(l, VAULT), escrow: st(l).escrow, supply: supplyOf(l) }

  // ------------------------------------------------------------------ instructions
  type Meta = { a: Addr, s: bool, w: bool }
  type Bytes = { head: List[int], key: List[Addr], tail: List[int] }
  type Call =
    | Stake(int)
    | Unstake({ amt: int, idx: int })
    | Withdraw(int)
    | Init(int)
    | SetCooldown(int)
    | SetAuthority(Addr)
    | Raw(Bytes)             // arbitrary instruction data for the staking program: head, 32-byte keys, tail
    | Garbage                // (result of decoding) data the program cannot interpret
    | Lamports(int)          // system program: transfer
    | Send(int)              // token program: transfer
    | Burn(int)              // token program: burn xORCA
    | CreateAta              // associated-token program: create idempotently
  type Ix = { prog: Addr, call: Call, metas: List[Meta] }
  type Event = { kind: str, nums: List[int], who: List[Addr] }

  pure def rw(a: Addr): Meta = { a: a, s: false, w: true }
  pure def ro(a: Addr): Meta = { a: a, s: false, w: false }
  pure def sw(a: Addr): Meta = { a: a, s: true, w: true }

  /// canonical account lists; o / x are the addresses of the user's ORCA / xORCA accounts
  pure def stakeMetas(w: Addr, o: Addr, x: Addr): List[Meta] =
    [sw(w), rw(VAULT), rw(o), rw(x), rw(XORCA), ro(STATE), ro(ORCA), ro(TOKEN)]
  pure def unstakeMetas(w: Addr, i: int, x: Addr): List[Meta] =
    [sw(w), rw(STATE), rw(pendOf(w, i)), rw(x), rw(XORCA), ro(ORCA), ro(VAULT), ro(SYSTEM), ro(TOKEN)]
  pure def withdrawMetas(w: Addr, i: int, o: Addr): List[Meta] =
    [sw(w), rw(STATE), rw(pendOf(w, i)), rw(o), rw(VAULT), ro(ORCA), ro(SYSTEM), ro(TOKEN)]
  pure def initMetas(p: Addr, au: Addr): List[Meta] =
    [sw(p), sw(au), rw(STATE), rw(VAULT), ro(XORCA), ro(ORCA), ro(SYSTEM), ro(TOKEN), ro(ATA)]
  pure def setMetas(au: Addr): List[Meta] = [sw(au), rw(STATE)]

  // ------------------------------------------------------------------ wire format
  pure def le(b: List[int], from: int, n: int): int =
    range(0, n).foldl({ v: 0, m: 1 }, (acc, i) =>
      { v: acc.v + acc.m * b[from + i], m: acc.m * 256 }).v
  pure def signed64(v: int): int = if (v >= 9223372036854775808) v - 18446744073709551616 else v
  pure def bytesOf(v: int, n: int): List[int] = {
    val u = if (v < 0) v + 18446744073709551616 else v
    range(0, n).foldl({ r: u, out: List() }, (acc, i) =>
      { r: acc.r / 256, out: acc.out.append(acc.r % 256) }).out
  }

  /// the documented data layout: one tag byte, then little-endian arguments; trailing bytes are ignored
  pure def decode(b: Bytes): Call = {
    val h = b.head
    val n = h.length()
    if (n == 0) Garbage
    else if (h[0] == 0) (if (n >= 9) Stake(le(h, 1, 8)) else Garbage)
    else if (h[0] == 1) (if (n >= 10) Unstake({ amt: le(h, 1, 8), idx: h[9] }) else Garbage)
    else if (h[0] == 2) (if (n >= 2) Withdraw(h[1]) else Garbage)
    else if (h[0] == 3) (if (n >= 9) Init(signed64(le(h, 1, 8))) else Garbage)
    else if (h[0] == 4 and n >= 2 and h[1] == 0) (if (n >= 10) SetCooldown(signed64(le(h, 2, 8))) else Garbage)
    else if (h[0] == 4 and n == 2 and h[1] == 1) (if (b.key.length() >= 1) SetAuthority(b.key[0]) else Garbage)
    else Garbage
  }
  /// the canonical encoding of a program instruction
  pure def encode(c: Call): Bytes = match c {
    | Stake(a) => { head: [0].concat(bytesOf(a, 8)), key: [], tail: [] }
    | Unstake(u) => { head: [1].concat(bytesOf(u.amt, 8)).append(u.idx), key: [], tail: [] }
    | Withdraw(i) => { head: [2, i], key: [], tail: [] }
    | Init(cd) => { head: [3].concat(bytesOf(cd, 8)), key: [], tail: [] }
    | SetCooldown(cd) => { head: [4, 0].concat(bytesOf(cd, 8)), key: [], tail: [] }
    | SetAuthority(a) => { head: [4, 1], key: [a], tail: [] }
    | Raw(b) => b
    | _ => { head: [], key: [], tail: [] }
  }

  // ------------------------------------------------------------------ checks
  /// rights granted by the whole transaction (the runtime merges them over all instructions)
  type Rights = { signers: Set[Addr], writable: Set[Addr] }

  pure val ROLE = 6002
  pure val COUNT = 6003
  pure val OWNER = 6004
  pure val SEEDS = 6005
  pure val ADDRESS = 6006
  pure val DATA = 6007

  pure def slot(ix: Ix, i: int): Addr = if (i < ix.metas.length()) ix.metas[i].a else NONE
  pure def signer(r: Rights, a: Addr): Cond = need(r.signers.contains(a), ROLE, "sig")
  pure def writable(r: Rights, a: Addr): Cond = need(r.writable.contains(a) and a._1 != "prog", ROLE, "role")
  pure def count(ix: Ix, n: int): Cond = need(ix.metas.length() >= n, COUNT, "count")
  pure def isAddr(a: Addr, b: Addr): Cond = need(a == b, ADDRESS, "acct")
  pure def atSeeds(a: Addr, b: Addr): Cond = need(a == b, SEEDS, "acct")
  pure def ownedBy(l: Ledger, a: Addr, p: Addr): Cond = need(acct(l, a).prog == p, OWNER, "acct")

  /// a token account of `holder` for `mint`
  pure def tokenSlot(l: Ledger, a: Addr, holder: Addr, mint: Addr): List[Cond] = {
    val t = tok(acct(l, a))
    [ ownedBy(l, a, TOKEN),
      need(t.is, DATA, "acct"),
      need(not(t.is) or t.d.owner == holder, DATA, "owner"),
      need(not(t.is) or t.d.mint == mint, DATA, "acct") ]
  }
  /// the program's state record at the program's own address
  pure def stateSlot(l: Ledger, a: Addr): List[Cond] = {
    val s = sta(acct(l, a))
    [ ownedBy(l, a, SELF), need(s.is, DATA, "acct"), atSeeds(a, STATE), need(not(s.is) or s.d.canon, SEEDS, "canon") ]
  }
  pure def vaultSlot(l: Ledger, a: Addr, s: Addr, mint: Addr): List[Cond] =
    [atSeeds(a, VAULT)].concat(tokenSlot(l, a, s, mint))

  pure def poolAt(l: Ledger, s: Addr, v: Addr, m: Addr): Pool =
    { vault: amtOf(l, v), escrow: sta(acct(l, s)).d.escrow, supply: mnt(acct(l, m)).d.supply }
  pure def when(b: bool, cs: List[Cond]): List[Cond] = if (b) cs else []

  // the token program's own refusals
  pure val TOK_FUNDS = 1
  pure val TOK_OWNER = 4
  pure val TOK_FIXED = 5
  pure val TOK_OVERFLOW = 14
  pure val TOK_FROZEN = 17
  pure val SYS_FUNDS = 1

  type Res = { conds: List[Cond], led: Ledger, ev: List[Event] }
  pure def allOk(cs: List[Cond]): bool = cs.select(c => not(c.ok)).length() == 0

  pure def execStake(l: Ledger, r: Rights, ix: Ix, a: int): Res = {
    val w = slot(ix, 0)  val v = slot(ix, 1)  val o = slot(ix, 2)  val x = slot(ix, 3)
    val xm = slot(ix, 4) val s = slot(ix, 5)  val om = slot(ix, 6) val tp = slot(ix, 7)
    val p = poolAt(l, s, v, xm)
    val known = tok(acct(l, v)).is and sta(acct(l, s)).is and mnt(acct(l, xm)).is
    val out = if (known and p.vault >= p.escrow) stakeOut(p, a) else 0
    val conds =
      [ count(ix, 8), signer(r, w), writable(r, w), isAddr(om, ORCA), isAddr(xm, XORCA), isAddr(tp, TOKEN),
        writable(r, o), writable(r, x), writable(r, xm), writable(r, v),
        ownedBy(l, xm, TOKEN), need(mnt(acct(l, xm)).is, DATA, "acct"), ownedBy(l, om, TOKEN) ]
      .concat(tokenSlot(l, o, w, om)).concat(tokenSlot(l, x, w, xm))
      .concat(stateSlot(l, s)).concat(vaultSlot(l, v, s, om))
      .concat(when(known, stakeNeeds(p, a, a)))
      .concat([ need(a > 0, ZERO_STAKE, "zero"),
                need(not(tok(acct(l, o)).is) or a <= amtOf(l, o), FUNDS, "funds"),
                // refusals of the token program
                need(not(tok(acct(l, o)).d.frozen), TOK_FROZEN, "spl"),
                need(not(tok(acct(l, x)).d.frozen), TOK_FROZEN, "spl"),
                need(mnt(acct(l, xm)).d.auth == s or mnt(acct(l, xm)).d.auth == NONE, TOK_OWNER, "spl"),
                need(mnt(acct(l, xm)).d.auth != NONE, TOK_FIXED, "spl"),
                need(p.vault + a <= U64MAX, TOK_OVERFLOW, "arith"),
                need(p.supply + out <= U64MAX, TOK_OVERFLOW, "arith"),
                need(amtOf(l, x) + out <= U64MAX, TOK_OVERFLOW, "arith") ])
    val l1 = setSupply(addAmt(addAmt(addAmt(l, o, -a), v, a), x, out), p.supply + out)
    { conds: conds, led: if (allOk(conds)) l1 else l,
      ev: [{ kind: "Stake", nums: [a, p.vault + a, p.escrow, p.supply + out, out], who: [] }] }
  }

  pure def execUnstake(l: Ledger, r: Rights, ix: Ix, amt: int, i: int): Res = {
    val w = slot(ix, 0)  val s = slot(ix, 1)  val pd = slot(ix, 2) val x = slot(ix, 3)
    val xm = slot(ix, 4) val om = slot(ix, 5) val v = slot(ix, 6)  val sp = slot(ix, 7) val tp = slot(ix, 8)
    val p = poolAt(l, s, v, xm)
    val sd = sta(acct(l, s)).d
    val m = mnt(acct(l, xm)).d
    val known = tok(acct(l, v)).is and sta(acct(l, s)).is and mnt(acct(l, xm)).is
    val out = if (known and p.vault >= p.escrow) unstakeOut(p, amt) else 0
    val old = acct(l, pd)
    val fee = if (old.lam >= RENT_PEND) 0 else RENT_PEND - old.lam
    val conds =
      [ count(ix, 9), signer(r, w), writable(r, w), isAddr(om, ORCA), isAddr(xm, XORCA), isAddr(tp, TOKEN),
        isAddr(sp, SYSTEM), writable(r, s), writable(r, pd), writable(r, x), writable(r, xm),
        need(old.prog == SYSTEM, OWNER, "inuse"), atSeeds(pd, pendOf(w, i)),
        ownedBy(l, xm, TOKEN), need(mnt(acct(l, xm)).is, DATA, "acct"),
        need(m.auth != NONE and m.auth == s, DATA, "mint"), need(m.freeze == NONE, DATA, "mint"),
        ownedBy(l, om, TOKEN), need(mnt(acct(l, om)).is, DATA, "acct") ]
      .concat(tokenSlot(l, x, w, xm)).concat(stateSlot(l, s)).concat(vaultSlot(l, v, s, om))
      .concat(when(known, unstakeNeeds(p, amt, amt)))
      .concat(when(sta(acct(l, s)).is, maturityNeeds(l.now, sd.cooldown)))
      .concat([ need(amt > 0, ZERO_UNSTAKE, "zero"),
                need(not(tok(acct(l, x)).is) or amt <= amtOf(l, x), FUNDS, "funds"),
                need(not(tok(acct(l, x)).d.frozen), TOK_FROZEN, "spl"),
                need(acct(l, w).lam >= fee, SYS_FUNDS, "sol") ])
    val l1 = setSupply(addAmt(l, x, -amt), p.supply - amt)
    val l2 = setAcct(l1, s, { ...acct(l1, s), data: State({ ...sd, escrow: sd.escrow + out }) })
    val l3 = setAcct(addLam(l2, w, -fee), pd,
      { lam: old.lam + fee, prog: SELF,
        data: Pend({ owner: w, idx: i, amt: out, ts: maturity(l.now, sd.cooldown), canon: true }) })
    { conds: conds, led: if (allOk(conds)) l3 else l,
      ev: [{ kind: "Unstake",
             nums: [amt, p.vault, sd.escrow + out, p.supply - amt, out, sd.cooldown, i], who: [] }] }
  }

  pure def execWithdraw(l: Ledger, r: Rights, ix: Ix, i: int): Res = {
    val w = slot(ix, 0)  val s = slot(ix, 1)  val pd = slot(ix, 2) val o = slot(ix, 3)
    val v = slot(ix, 4)  val om = slot(ix, 5) val sp = slot(ix, 6) val tp = slot(ix, 7)
    val c = pen(acct(l, pd))
    val sd = sta(acct(l, s))
    val p = { vault: amtOf(l, v), escrow: sd.d.escrow, supply: supplyOf(l) }
    val conds =
      [ count(ix, 8), signer(r, w), writable(r, w), isAddr(om, ORCA), ownedBy(l, om, TOKEN), isAddr(sp, SYSTEM),
        isAddr(tp, TOKEN), writable(r, s), writable(r, pd), writable(r, o), writable(r, v),
        need(acct(l, pd).prog == SELF, OWNER, "noclaim"), need(c.is, DATA, "noclaim"), atSeeds(pd, pendOf(w, i)),
        need(not(c.is) or c.d.canon, SEEDS, "canon") ]
      .concat(stateSlot(l, s)).concat(vaultSlot(l, v, s, om)).concat(tokenSlot(l, o, w, om))
      .concat(when(c.is and sd.is, redeemNeeds(p, c.d.amt, c.d.ts, l.now)))
      .concat([ need(not(tok(acct(l, v)).is) or c.d.amt <= p.vault, TOK_FUNDS, "arith"),
                need(not(tok(acct(l, o)).d.frozen), TOK_FROZEN, "spl"),
                need(amtOf(l, o) + c.d.amt <= U64MAX, TOK_OVERFLOW, "arith") ])
    val back = acct(l, pd).lam
    val l1 = addAmt(addAmt(l, v, -c.d.amt), o, c.d.amt)
    val l2 = addLam(setAcct(l1, pd, EMPTY), w, back)
    val l3 = setAcct(l2, s, { ...acct(l2, s), data: State({ ...sd.d, escrow: sd.d.escrow - c.d.amt }) })
    { conds: conds, led: if (allOk(conds)) l3 else l,
      ev: [{ kind: "Withdraw", nums: [sd.d.escrow - c.d.amt, c.d.amt, sd.d.cooldown, i], who: [] }] }
  }

  pure def execInit(l: Ledger, r: Rights, ix: Ix, cd: int): Res = {
    val py = slot(ix, 0) val au = slot(ix, 1) val s = slot(ix, 2)  val v = slot(ix, 3)
    val xm = slot(ix, 4) val om = slot(ix, 5) val sp = slot(ix, 6) val tp = slot(ix, 7) val ap = slot(ix, 8)
    val m = mnt(acct(l, xm)).d
    val va = acct(l, v)
    val made = va.prog == TOKEN and tok(va).is        // the vault's token account already exists
    val feeS = if (acct(l, s).lam >= RENT_STATE) 0 else RENT_STATE - acct(l, s).lam
    val feeV = if (made or va.lam >= RENT_TOKEN) 0 else RENT_TOKEN - va.lam
    val conds =
      [ count(ix, 9), signer(r, py), writable(r, py), need(py == DEPLOYER, 6019, "deployer"),
        writable(r, s), atSeeds(s, STATE), need(isNil(acct(l, s)), 6010, "again"),
        need(acct(l, s).prog == SYSTEM, OWNER, "again"),
        isAddr(xm, XORCA), ownedBy(l, xm, TOKEN), need(mnt(acct(l, xm)).is, DATA, "acct"),
        need(m.auth == s, ADDRESS, "mint"), need(m.auth != NONE, DATA, "mint"), need(m.supply == 0, DATA, "mint"),
        need(m.freeze == NONE, DATA, "mint"), need(m.dec == 6, DATA, "mint"),
        isAddr(om, ORCA), ownedBy(l, om, TOKEN), need(mnt(acct(l, om)).is, DATA, "acct"),
        need(mnt(acct(l, om)).d.dec == 6, DATA, "mint"),
        signer(r, au), writable(r, au), isAddr(sp, SYSTEM), writable(r, v),
        need(va.prog == SYSTEM or made, OWNER, "acct"),
        need(va.prog == SYSTEM or (made and tok(va).d.owner == s and tok(va).d.mint == om), DATA, "acct"),
        isAddr(tp, TOKEN), isAddr(ap, ATA), atSeeds(v, VAULT),
        need(cd >= 0, 6013, "negative"),
        need(acct(l, py).lam >= feeS + feeV, SYS_FUNDS, "sol") ]
    val l1 = setAcct(addLam(l, py, -(feeS + feeV)), s,
      { lam: acct(l, s).lam + feeS, prog: SELF,
        data: State({ escrow: 0, cooldown: cd, authority: au, canon: true }) })
    val l2 = if (made) l1 else setAcct(l1, v,
      { lam: va.lam + feeV, prog: TOKEN,
        data: Token({ mint: om, owner: s, amt: 0, frozen: false, deleg: NONE }) })
    { conds: conds, led: if (allOk(conds)) l2 else l, ev: [] }
  }

  type Change = Cooldown(int) | Authority(Addr)
  pure def execSet(l: Ledger, r: Rights, ix: Ix, c: Change): Res = {
    val au = slot(ix, 0) val s = slot(ix, 1)
    val sd = sta(acct(l, s))
    val base =
      [ count(ix, 2), signer(r, au), writable(r, au), writable(r, s),
        need(not(sd.is) or sd.d.authority == au, ADDRESS, "auth") ].concat(stateSlot(l, s))
    match c {
      | Cooldown(cd) =>
          { conds: base.append(need(cd >= 0, 6013, "negative")),
            led: setAcct(l, s, { ...acct(l, s), data: State({ ...sd.d, cooldown: cd }) }), ev: [] }
      | Authority(a) =>
          { conds: base,
            led: setAcct(l, s, { ...acct(l, s), data: State({ ...sd.d, authority: a }) }),
            ev: [{ kind: "UpdateAuthoritySet", nums: [], who: [a, sd.d.authority] }] }
    }
  }

  // ------------------------------------------------------------------ surrounding programs
  pure def execLamports(l: Ledger, r: Rights, ix: Ix, n: int): Res = {
    val a = slot(ix, 0) val b = slot(ix, 1)
    { conds: [ need(r.signers.contains(a), -1, "sig"), need(isNil(acct(l, a)), -1, "acct"),
               need(acct(l, a).lam >= n, SYS_FUNDS, "sol") ],
      led: addLam(addLam(l, a, -n), b, n), ev: [] }
  }
  pure def execSend(l: Ledger, r: Rights, ix: Ix, n: int): Res = {
    val a = slot(ix, 0) val b = slot(ix, 1) val o = slot(ix, 2)
    val ta = tok(acct(l, a)) val tb = tok(acct(l, b))
    { conds: [ need(ta.is and tb.is, -1, "acct"), need(ta.d.owner == o, TOK_OWNER, "owner"),
               need(r.signers.contains(o), -1, "sig"), need(ta.d.mint == tb.d.mint, 3, "acct"),
               need(ta.d.amt >= n, TOK_FUNDS, "funds"), need(not(ta.d.frozen or tb.d.frozen), TOK_FROZEN, "spl"),
               need(a == b or tb.d.amt + n <= U64MAX, TOK_OVERFLOW, "arith") ],
      led: addAmt(addAmt(l, a, -n), b, n), ev: [] }
  }
  pure def execBurn(l: Ledger, r: Rights, ix: Ix, n: int): Res = {
    val a = slot(ix, 0) val o = slot(ix, 2)
    val ta = tok(acct(l, a))
    { conds: [ need(ta.is and ta.d.mint == XORCA, -1, "acct"), need(ta.d.owner == o, TOK_OWNER, "owner"),
               need(r.signers.contains(o), -1, "sig"), need(ta.d.amt >= n, TOK_FUNDS, "funds"),
               need(not(ta.d.frozen), TOK_FROZEN, "spl") ],
      led: setSupply(addAmt(l, a, -n), supplyOf(l) - n), ev: [] }
  }
  pure def execCreateAta(l: Ledger, r: Rights, ix: Ix): Res = {
    val py = slot(ix, 0) val v = slot(ix, 1) val s = slot(ix, 2) val m = slot(ix, 3)
    val va = acct(l, v)
    val fee = if (va.lam >= RENT_TOKEN) 0 else RENT_TOKEN - va.lam
    if (tok(va).is) { conds: [], led: l, ev: [] }
    else
    { conds: [ need(r.signers.contains(py), -1, "sig"), need(acct(l, py).lam >= fee, SYS_FUNDS, "sol"),
               need(acct(l, m).prog == TOKEN, -1, "acct") ],
      led: setAcct(addLam(l, py, -fee), v,
        { lam: va.lam + fee, prog: TOKEN,
          data: Token({ mint: m, owner: s, amt: 0, frozen: false, deleg: NONE }) }), ev: [] }
  }

  // ------------------------------------------------------------------ dispatch
  pure def meaning(c: Call): Call = match c { | Raw(b) => decode(b) | _ => c }

  pure def execProgram(l: Ledger, r: Rights, ix: Ix): Res = match meaning(ix.call) {
    | Stake(a) => execStake(l, r, ix, a)
    | Unstake(u) => execUnstake(l, r, ix, u.amt, u.idx)
    | Withdraw(i) => execWithdraw(l, r, ix, i)
    | Init(cd) => execInit(l, r, ix, cd)
    | SetCooldown(cd) => execSet(l, r, ix, Cooldown(cd))
    | SetAuthority(a) => execSet(l, r, ix, Authority(a))
    | _ => { conds: [need(false, 6000, "decode")], led: l, ev: [] }
  }
  pure def execIx(l: Ledger, r: Rights, ix: Ix): Res =
    if (ix.prog == SELF) execProgram(l, r, ix)
    else if (ix.prog == CLONE) {
      val garbled = match meaning(ix.call) { | Garbage => true | _ => false }
      { conds: [need(false, 6001, "progid"), need(not(garbled), 6000, "decode")], led: l, ev: [] }
    }
    else match ix.call {
      | Lamports(n) => execLamports(l, r, ix, n)
      | Send(n) => execSend(l, r, ix, n)
      | Burn(n) => execBurn(l, r, ix, n)
      | _ => execCreateAta(l, r, ix)
    }

  type Outcome = { ok: bool, idx: int, codes: Set[int], whys: Set[str], led: Ledger, ev: List[Event] }

  pure def codesOf(cs: List[Cond]): Set[int] =
    cs.foldl(Set(), (acc, c) => if (c.ok) acc else acc.union(Set(c.code)))
  pure def whysOf(cs: List[Cond]): Set[str] =
    cs.foldl(Set(), (acc, c) => if (c.ok) acc else acc.union(Set(c.why)))

  pure def rights(ixs: List[Ix]): Rights =
    ixs.foldl({ signers: Set(), writable: Set() }, (acc, ix) =>
      ix.metas.foldl(acc, (r, m) =>
        { signers: if (m.s) r.signers.union(Set(m.a)) else r.signers,
          writable: if (m.w) r.writable.union(Set(m.a)) else r.writable }))

  /// an account that would be left with lamports below the rent minimum (accounts without data only)
  pure def underRent(l: Ledger, m: Ledger): bool =
    m.accts.keys().exists(a => {
      val y = m.accts.get(a)
      y.lam < RENT0 and isNil(y) and y.lam > 0 and (acct(l, a).lam < y.lam or acct(l, a).lam >= RENT0)
    })

  pure def execTx(l: Ledger, ixs: List[Ix]): Outcome = {
    val r = rights(ixs)
    val start = { ok: true, idx: 0, codes: Set(), whys: Set(), led: l, ev: List() }
    val fin = ixs.foldl(start, (o, ix) =>
      if (not(o.ok)) o
      else {
        val e = execIx(o.led, r, ix)
        if (allOk(e.conds))
          { ...o, idx: o.idx + 1, led: e.led, ev: o.ev.concat(e.ev) }
        else { ...o, ok: false, codes: codesOf(e.conds), whys: whysOf(e.conds) }
      })
    if (not(fin.ok)) { ...fin, led: l, ev: [] }
    else if (underRent(l, fin.led)) { ...fin, ok: false, codes: Set(-2), whys: Set("rent"), led: l, ev: [] }
    else fin
  }
}
