// -*- mode: Bluespec; -*-
/**
 * The system as a state machine: an initial ledger chosen from a scenario family, then transactions built from
 * nondeterministic choices and executed by ledger.qnt's execTx.  `quint run` walks it at random; each trace it writes
 * (ledger, transaction, predicted outcome) is replayed into the implementation.
 *
 * SCENARIO selects what is emphasised:
 *   "flow"     users, donors and the authority acting (mostly) properly, several instructions per transaction
 *   "drain"    as flow, then every outstanding claim is redeemed at or after maturity
 *   "attack"   account substitution, missing rights, impersonation, aliasing
 *   "extreme"  arbitrary 64-bit pool states, amounts, cooldowns and times, including ones the program cannot reach
 *   "setup"    initialization under all mint configurations, signers, prefunded or pre-created addresses
 *   "config"   configuration changes and authority handovers
 *   "fund"     pre-funded, revived and re-used claim addresses; tight SOL balances
 *   "wire"     arbitrary instruction data, other program ids
 */
module gen {
  import ledger.* from "./ledger"
  export ledger.*
  import verdict.* from "./verdict"
  export verdict.*

  const SCENARIO: str
  const CHECK: bool            // evaluate the state-level properties on every step

  var led: Ledger              // after the last transaction
  var tx: List[Ix]             // the last transaction
  var res: { ok: bool, idx: int, codes: Set[int], ev: List[Event] }
  var broken: Set[str]         // properties the last step breaks according to verdict.qnt (must stay empty)

  // ------------------------------------------------------------------ choices
  pure val USERS = Set("alice", "bob", "carol")
  pure val RAW = 0.to(18446744073709551615)
  pure val IDX = Set(0, 0, 1, 2, 3, 14, 15, 16, 31, 127, 128, 200, 254, 255)
  pure val PCT = 0.to(99)

  pure def min(a: int, b: int): int = if (a < b) a else b
  pure def max(a: int, b: int): int = if (a > b) a else b
  pure def cap(a: int): int = if (a < 0) 0 else if (a > U64MAX) U64MAX else a
  pure def time64(a: int): int = if (a > I64MAX) I64MAX else if (a < I64MIN) I64MIN else a
  pure def pick(xs: List[int], r: int): int = xs[r % xs.length()]

  /// an amount, biased to the boundaries that matter: the balance, the smallest amount with a non-zero result,
  /// powers of two and of ten, whole tokens, the extremes of the type
  pure def amount(sel: int, raw: int, bal: int, thr: int): int = cap(
    if (sel < 12) raw % (bal + 1)
    else if (sel < 30) raw % (min(bal, 10^(1 + raw % 12)) + 1)
    else if (sel < 40) bal
    else if (sel < 43) bal + 1
    else if (sel < 46) bal - 1
    else if (sel < 52) bal / 2
    else if (sel < 57) thr
    else if (sel < 62) thr - 1
    else if (sel < 66) thr * (1 + raw % 7) + (raw % 3) - 1
    else if (sel < 69) 1
    else if (sel < 71) 0
    else if (sel < 75) min(bal, 2^(raw % 64))
    else if (sel < 78) min(bal, 10^(raw % 20))
    else if (sel < 84) min(bal, 2^(raw % 64) - 1)
    else if (sel < 87) 2^(raw % 64)
    else if (sel < 88) 2^(raw % 64) - 1
    else if (sel < 89) 10^(raw % 20)
    else if (sel < 91) raw
    else if (sel < 93) U64MAX
    else if (sel < 97) min(bal, raw % 1000 + 1)
    else min(bal, (raw % 1000 + 1) * 10^6))

  pure def cooldownPick(sel: int, raw: int, now: int): int =
    if (sel < 20) 0
    else if (sel < 35) 1
    else if (sel < 50) raw % 100
    else if (sel < 60) 604800
    else if (sel < 66) pick([2147483647, 2147483648, 4294967295, 4294967296, 86400, 3600, 65535, 65536, 255, 256], raw)
    else if (sel < 72) raw % 100000000
    else if (sel < 76) I64MAX
    else if (sel < 80) min(I64MAX, I64MAX - now)
    else if (sel < 84) min(I64MAX, I64MAX - now + 1)
    else if (sel < 88) -1
    else if (sel < 91) I64MIN
    else if (sel < 95) -(raw % 1000)
    else raw % I64MAX

  // ------------------------------------------------------------------ claims and helpers
  pure def claimsIn(l: Ledger): Set[Addr] =
    l.accts.keys().filter(a => a._1 == "pend" and l.accts.get(a).prog == SELF)
  pure def orOf(s: Set[Addr], d: Addr): Set[Addr] = if (s == Set()) Set(d) else s

  pure def free(p: { vault: int, escrow: int, supply: int }): int = p.vault - p.escrow
  pure def stakeThr(l: Ledger): int = {
    val p = pool(l)
    if (p.supply == 0 or free(p) <= 0) 1 else (free(p) + 100 + p.supply + 99) / (p.supply + 100)
  }
  pure def unstakeThr(l: Ledger): int = {
    val p = pool(l)
    if (free(p) <= 0) 1 else (p.supply + 100 + free(p) + 99) / (free(p) + 100)
  }

  // ------------------------------------------------------------------ building one instruction
  type Picks = { kind: int, who: str, other: str, sel: int, raw: int, idx: int, claim: Addr, slotO: int, slotX: int,
                 var_: int }

  pure def tokAddr(l: Ledger, k: str, u: str, n: int): Addr =
    if (l.accts.keys().contains((k, u, n))) (k, u, n) else (k, u, 0)

  pure def mkStake(l: Ledger, k: Picks): Ix = {
    val o = tokAddr(l, "orca", k.who, k.slotO)
    { prog: SELF, call: Stake(amount(k.sel, k.raw, amtOf(l, o), stakeThr(l))),
      metas: stakeMetas(wallet(k.who), o, tokAddr(l, "xorca", k.who, k.slotX)) }
  }
  pure def mkUnstake(l: Ledger, k: Picks): Ix = {
    val x = tokAddr(l, "xorca", k.who, k.slotX)
    { prog: SELF, call: Unstake({ amt: amount(k.sel, k.raw, amtOf(l, x), unstakeThr(l)), idx: k.idx }),
      metas: unstakeMetas(wallet(k.who), k.idx, x) }
  }
  pure def mkWithdraw(l: Ledger, k: Picks): Ix = {
    val own = k.claim._1 == "pend"
    val u = if (own) k.claim._2 else k.who
    val i = if (own) k.claim._3 else k.idx
    { prog: SELF, call: Withdraw(i), metas: withdrawMetas(wallet(u), i, tokAddr(l, "orca", u, k.slotO)) }
  }
  pure def mkSetCooldown(l: Ledger, k: Picks): Ix =
    { prog: SELF, call: SetCooldown(cooldownPick(k.sel, k.raw, l.now)),
      metas: setMetas(if (k.var_ < 80) st(l).authority else wallet(k.who)) }
  /// addresses without a key (whoever hands over to one of these gives the configuration up), and unusual wallets
  pure val ODD_AUTHORITIES: List[Addr] =
    [SYSTEM, STATE, VAULT, XORCA, SELF, TOKEN, wallet("deployer"), wallet("donor")]
  pure def mkSetAuthority(l: Ledger, k: Picks): Ix =
    { prog: SELF, call: SetAuthority(if (k.raw % 12 == 0) ODD_AUTHORITIES[k.sel % 8] else wallet(k.other)),
      metas: setMetas(if (k.var_ < 80) st(l).authority else wallet(k.who)) }
  pure def mkDonate(l: Ledger, k: Picks): Ix = {
    val o = tokAddr(l, "orca", k.who, k.slotO)
    { prog: TOKEN, call: Send(min(amtOf(l, o), amount(k.sel, k.raw, amtOf(l, o), 100))),
      metas: [rw(o), rw(VAULT), { a: wallet(k.who), s: true, w: false }] }
  }
  pure def mkSendX(l: Ledger, k: Picks): Ix = {
    val x = tokAddr(l, "xorca", k.who, k.slotX)
    { prog: TOKEN, call: Send(min(amtOf(l, x), amount(k.sel, k.raw, amtOf(l, x), 100))),
      metas: [rw(x), rw(("xorca", k.other, 0)), { a: wallet(k.who), s: true, w: false }] }
  }
  pure def mkBurn(l: Ledger, k: Picks): Ix = {
    val x = tokAddr(l, "xorca", k.who, k.slotX)
    { prog: TOKEN, call: Burn(min(amtOf(l, x), amount(k.sel, k.raw, amtOf(l, x), 100))),
      metas: [rw(x), rw(XORCA), { a: wallet(k.who), s: true, w: false }] }
  }
  /// lamports to a claim address, existing or not (prefunding / topping up / revival)
  pure def mkPrefund(l: Ledger, k: Picks): Ix = {
    val dest = if (k.var_ < 60) ("pend", k.other, k.idx) else if (k.claim._1 == "pend") k.claim else ("pend", k.who, k.idx)
    val n = if (k.sel < 25) RENT0
            else if (k.sel < 35) RENT_PEND
            else if (k.sel < 45) RENT_PEND - 1
            else if (k.sel < 55) RENT_PEND + 1
            else if (k.sel < 65) RENT0 + k.raw % RENT_PEND
            else if (k.sel < 75) 3 * RENT_PEND
            else if (k.sel < 85) 1
            else k.raw % RENT_PEND
    { prog: SYSTEM, call: Lamports(n), metas: [sw(("w", "donor", 0)), rw(dest)] }
  }
  pure def mkInit(l: Ledger, k: Picks): Ix = {
    val py = if (k.var_ < 85) DEPLOYER else wallet(k.who)
    val au = if (k.var_ % 7 == 0) py else wallet(k.other)
    { prog: SELF, call: Init(cooldownPick(if (k.sel < 80) k.sel % 84 else k.sel, k.raw, 0)), metas: initMetas(py, au) }
  }
  pure def mkCreateAta(l: Ledger, k: Picks): Ix =
    { prog: ATA, call: CreateAta,
      metas: [sw(("w", "donor", 0)), rw(VAULT), ro(STATE), ro(ORCA), ro(SYSTEM), ro(TOKEN)] }

  /// one instruction, by weights (stake, unstake, withdraw, config, surrounding)
  pure def mkOp(l: Ledger, k: Picks): Ix = {
    val z = k.kind
    if (SCENARIO == "config")
      (if (z < 40) mkSetCooldown(l, k) else if (z < 75) mkSetAuthority(l, k)
       else if (z < 85) mkUnstake(l, k) else if (z < 92) mkWithdraw(l, k) else mkStake(l, k))
    else if (SCENARIO == "fund")
      (if (z < 30) mkPrefund(l, k) else if (z < 62) mkUnstake(l, k) else if (z < 90) mkWithdraw(l, k)
       else mkStake(l, k))
    else if (SCENARIO == "setup" and not(initialized(l)))
      (if (z < 70) mkInit(l, k) else if (z < 78) mkCreateAta(l, k)
       else if (z < 90) { ...mkPrefund(l, k), metas: [sw(("w", "donor", 0)), rw(if (k.var_ < 50) STATE else VAULT)] }
       else if (z < 94) mkStake(l, k) else if (z < 97) mkUnstake(l, k) else mkSetCooldown(l, k))
    else if (SCENARIO == "setup" and z < 25) mkInit(l, k)
    else
      (if (z < 33) mkStake(l, k) else if (z < 60) mkUnstake(l, k) else if (z < 82) mkWithdraw(l, k)
       else if (z < 86) mkDonate(l, k) else if (z < 90) mkSetCooldown(l, k) else if (z < 92) mkSetAuthority(l, k)
       else if (z < 95) mkPrefund(l, k) else if (z < 97) mkBurn(l, k) else mkSendX(l, k))
  }

  // ------------------------------------------------------------------ adversarial variations of an instruction
  type Twist = { how: int, at: int, with: Addr, at2: int, n: int }

  pure def mapMetas(ix: Ix, f: (int, Meta) => Meta): Ix =
    { ...ix, metas: range(0, ix.metas.length()).foldl([], (acc, i) => acc.append(f(i, ix.metas[i]))) }
  pure def subst(ix: Ix, x: Addr, y: Addr): Ix = mapMetas(ix, (i, m) => if (m.a == x) { ...m, a: y } else m)

  pure def twist(l: Ledger, ix: Ix, t: Twist): Ix = {
    val n = ix.metas.length()
    val j = t.at % n
    val u = slot(ix, 0)
    if (t.how < 38) mapMetas(ix, (i, m) => if (i == j) { ...m, a: t.with } else m)
    else if (t.how < 48) mapMetas(ix, (i, m) => if (i == j) { ...m, w: false } else m)
    else if (t.how < 56) mapMetas(ix, (i, m) => if (i == 0) { ...m, s: false } else m)
    else if (t.how < 58) mapMetas(ix, (i, m) => { ...m, s: false })
    else if (t.how < 62) { ...ix, metas: ix.metas.slice(0, j) }
    else if (t.how < 66) { ...ix, metas: ix.metas.append({ a: t.with, s: false, w: t.n % 2 == 0 }) }
    else if (t.how < 70) {
      val j2 = t.at2 % n
      mapMetas(ix, (i, m) => if (i == j) { ...m, a: ix.metas[j2].a } else if (i == j2) { ...m, a: ix.metas[j].a } else m)
    }
    // a look-alike state together with a vault that fits it
    else if (t.how < 74) subst(subst(ix, STATE, ("junk", "stateSelf", 0)), VAULT, ("junk", "vaultOfFake", 0))
    else if (t.how < 77) subst(subst(ix, STATE, ("junk", "stateOther", 0)), VAULT, ("junk", "vaultOfFake", 1))
    else if (t.how < 80) subst(ix, VAULT, ("junk", "vaultAux", 0))
    // act for someone else: the victim is named but mallory signs
    else if (t.how < 84) mapMetas(ix, (i, m) => if (i == 0) { ...m, a: t.with } else m)
    else if (t.how < 88) mapMetas(ix, (i, m) =>
      if (i == 0) { ...m, a: wallet("mallory") } else if (m.a._1 == "orca" and m.w) { ...m, a: ("orca", "mallory", 0) } else m)
    else if (t.how < 92) mapMetas(ix, (i, m) =>
      if (i == 0) { ...m, s: false } else if ((m.a._1 == "orca" or m.a._1 == "xorca") and i == j) { ...m, a: (m.a._1, "mallory", 0) } else m)
    // redirect only the paying or the receiving token account
    else if (t.how < 96) mapMetas(ix, (i, m) =>
      if (m.a._1 == "orca") { ...m, a: ("orca", t.with._2, 0) } else m)
    else mapMetas(ix, (i, m) =>
      if (m.a._1 == "xorca") { ...m, a: ("xorca", t.with._2, 0) } else m)
  }

  pure val JUNK: Set[Addr] = Set(
    ("junk", "stateSelf", 0), ("junk", "stateOther", 0), ("junk", "pendSelf", 0), ("junk", "pendOther", 0),
    ("junk", "vaultAux", 0), ("junk", "vaultOther", 0), ("junk", "vaultOfFake", 0), ("junk", "vaultOfFake", 1),
    ("junk", "tokOther", 0), ("junk", "tok22", 0), ("junk", "mintOther", 0), ("junk", "blobSelf", 0),
    ("junk", "frozen", 0))
  pure val PEOPLE: Set[Addr] = Set("alice", "bob", "carol", "mallory", "deployer", "donor").map(u => ("w", u, 0))
  pure val SUBSTITUTES: Set[Addr] =
    JUNK.union(PEOPLE)
      .union(tuples(Set("orca", "xorca", "fake"), Set("alice", "bob", "mallory"), Set(0, 1)))
      .union(tuples(Set("pend"), Set("alice", "bob", "mallory"), Set(0, 1, 255)))
      .union(Set(STATE, VAULT, ORCA, XORCA, FAKE, SELF, SYSTEM, TOKEN, TOKEN22, ATA, OTHER))

  // ------------------------------------------------------------------ arbitrary instruction data
  pure def rawOf(ix: Ix, t: Twist): Ix = {
    val b = encode(ix.call)
    val n = b.head.length()
    val hd =
      if (t.how < 25) b.head
      else if (t.how < 45) b.head.slice(0, t.at % (n + 1))
      else if (t.how < 60) [t.n % 256].concat(b.head.slice(1, n))
      else if (t.how < 66) [5 + t.n % 251].concat(b.head.slice(1, n))
      else if (t.how < 74) (if (n > 1) [b.head[0], t.n % 256].concat(b.head.slice(2, n)) else b.head)
      else if (t.how < 82) b.head.replaceAt(if (n > 0) t.at % n else 0, t.n % 256)
      else if (t.how < 92) b.head
      else if (t.how < 95) []
      else [t.n % 8]
    val full = hd == b.head
    val tl = if (full and t.how >= 82) bytesOf(t.n, 1 + t.at % 8) else []
    val isKey = hd.length() == 2 and hd[0] == 4 and hd[1] == 1
    { ...ix, call: Raw({ head: hd, key: if (isKey and full) b.key else [],
                         tail: if (isKey and not(full)) [] else tl }) }
  }

  // ------------------------------------------------------------------ initial ledgers
  pure def tokenAcct(m: Addr, o: Addr, n: int): Acct =
    { lam: RENT_TOKEN, prog: TOKEN, data: Token({ mint: m, owner: o, amt: n, frozen: false, deleg: NONE }) }
  pure def mintAcct(au: Addr, s: int): Acct =
    { lam: 1461600, prog: TOKEN, data: Mint({ auth: au, freeze: NONE, supply: s, dec: 6 }) }
  pure def stateAcct(e: int, c: int, au: Addr): Acct =
    { lam: RENT_STATE, prog: SELF, data: State({ escrow: e, cooldown: c, authority: au, canon: true }) }
  pure def pendAcct(u: str, i: int, n: int, ts: int): Acct =
    { lam: RENT_PEND, prog: SELF, data: Pend({ owner: wallet(u), idx: i, amt: n, ts: ts, canon: true }) }
  pure def withAccts(l: Ledger, xs: List[(Addr, Acct)]): Ledger =
    xs.foldl(l, (acc, x) => setAcct(acc, x._1, x._2))

  /// an order of magnitude, then a value in it
  pure def magnitude(e: int, r: int): int = if (e == 0) 0 else r % (2^e)

  type World = { e1: int, r1: int, e2: int, r2: int, e3: int, r3: int, e4: int, r4: int, mode: int, cd: int, sol: int,
                 ci: int, var_: int, rnd: int }

  pure def people(l: Ledger, w: World): Ledger = {
    val rich = 10000000000
    val lam = if (w.sol < 70) rich
              else if (w.sol < 76) RENT_PEND + RENT0
              else if (w.sol < 82) RENT_PEND + RENT0 - 1
              else if (w.sol < 86) RENT_PEND
              else if (w.sol < 90) RENT_PEND - 1
              else if (w.sol < 94) RENT0
              else 2 * RENT_PEND + RENT0
    val carol = if (SCENARIO == "fund" or SCENARIO == "extreme") lam else rich
    withAccts(l, [
      (wallet("alice"), { ...EMPTY, lam: rich }), (wallet("bob"), { ...EMPTY, lam: rich }),
      (wallet("carol"), { ...EMPTY, lam: carol }), (wallet("mallory"), { ...EMPTY, lam: rich }),
      (wallet("deployer"), { ...EMPTY, lam: if (SCENARIO == "setup") pick([rich, rich, rich, RENT_STATE + RENT_TOKEN + RENT0,
          RENT_STATE + RENT_TOKEN + RENT0 - 1, RENT_STATE + RENT_TOKEN, RENT_STATE + RENT_TOKEN - 1], w.sol) else rich }),
      (wallet("donor"), { ...EMPTY, lam: 100 * rich })])
  }

  /// a pool the program can reach: everything owed is in the vault, each xORCA is backed by at least one ORCA
  pure def soundWorld(w: World): Ledger = {
    val big = w.mode < 12
    val fresh = w.mode >= 88
    val supply0 = if (fresh) 0 else if (big) 2^60 + magnitude(w.e1, w.r1) else magnitude(min(w.e1, 56), w.r1)
    val burned = if (w.var_ < 20) 0 else if (w.var_ < 60) supply0 / 10 else supply0 / 2
    val xa = (supply0 - burned) / 2
    val xb = supply0 - burned - xa
    val surplus = if (w.mode < 30) magnitude(min(w.e2, 58), w.r2) else if (w.mode < 60) supply0 * (w.r2 % 9)
                  else if (w.mode < 70) 0 else if (fresh and w.var_ < 50) 0 else magnitude(min(w.e2, 30), w.r2)
    val c1 = if (w.ci < 40) 0 else 1 + magnitude(min(w.e3, 56), w.r3)
    val c2 = if (w.ci < 70) 0 else 1 + magnitude(min(w.e4, 56), w.r4)
    val now = if (w.cd < 30) 1700000000 + w.r4 % 1000 else if (w.cd < 60) w.r4 % 100000
              else if (w.cd < 70) pick([2147483646, 2147483647, 4294967295, 4294967290], w.r4)
              else if (w.cd < 75) I64MAX - w.r4 % 1000 else if (w.cd < 80) 0 else 1700000000
    val cool = cooldownPick(w.cd % 80, w.r3, now)
    val cash = magnitude(min(20 + w.e4, 56), w.r4)
    val l0 = { now: now, deg: false, accts: Map() }
    val l1 = withAccts(people(l0, w), [
      (ORCA, mintAcct(NONE, U64MAX)), (XORCA, mintAcct(STATE, supply0)),
      (STATE, stateAcct(c1 + c2, max(cool, 0), wallet("mallory"))),
      (VAULT, tokenAcct(ORCA, STATE, supply0 + surplus + c1 + c2)),
      (("orca", "alice", 0), tokenAcct(ORCA, wallet("alice"), cash + w.r1 % 1000)),
      (("orca", "bob", 0), tokenAcct(ORCA, wallet("bob"), if (big) 2^59 else cash / 2)),
      (("orca", "carol", 0), tokenAcct(ORCA, wallet("carol"), cash / 3)),
      (("xorca", "alice", 0), tokenAcct(XORCA, wallet("alice"), xa)),
      (("xorca", "bob", 0), tokenAcct(XORCA, wallet("bob"), xb)),
      (("xorca", "carol", 0), tokenAcct(XORCA, wallet("carol"), 0)),
      (("orca", "mallory", 0), tokenAcct(ORCA, wallet("mallory"), 1000000)),
      (("xorca", "mallory", 0), tokenAcct(XORCA, wallet("mallory"), 0))])
    val l2 = if (c1 == 0) l1 else setAcct(l1, ("pend", "bob", 0), pendAcct("bob", 0, c1, time64(now + w.r1 % 50)))
    val l3 = if (c2 == 0) l2 else setAcct(l2, ("pend", "alice", w.rnd % 256), pendAcct("alice", w.rnd % 256, c2, now - w.r2 % 50))
    if (w.var_ % 3 == 0)
      withAccts(l3, [(("orca", "alice", 1), tokenAcct(ORCA, wallet("alice"), w.r2 % 1000000)),
                     (("xorca", "alice", 1), tokenAcct(XORCA, wallet("alice"), 0)),
                     (("orca", "bob", 1), tokenAcct(ORCA, wallet("bob"), 0))])
    else l3
  }

  /// decoys an attacker can create or that a careless check could accept
  pure def attackWorld(w: World): Ledger = {
    val l = soundWorld({ ...w, mode: 12 + w.mode % 76 })
    val s = st(l)
    val m = wallet("mallory")
    val fakeState = { ...s, authority: m, escrow: 0, cooldown: 0 }
    withAccts(l, [
      (FAKE, mintAcct(m, 1000000000000)),
      (("junk", "stateSelf", 0), { lam: RENT_STATE, prog: SELF, data: State(fakeState) }),
      (("junk", "stateOther", 0), { lam: RENT_STATE, prog: OTHER, data: State(fakeState) }),
      (("junk", "pendSelf", 0), { lam: RENT_PEND, prog: SELF,
          data: Pend({ owner: wallet("alice"), idx: 0, amt: w.r1 % 1000, ts: l.now - 10, canon: true }) }),
      (("junk", "pendOther", 0), { lam: RENT_PEND, prog: OTHER,
          data: Pend({ owner: wallet("bob"), idx: 0, amt: w.r1 % 1000, ts: l.now - 10, canon: true }) }),
      (("junk", "vaultAux", 0), tokenAcct(ORCA, STATE, pool(l).vault / 2 + s.escrow)),
      (("junk", "vaultOther", 0), { lam: RENT_TOKEN, prog: OTHER,
          data: Token({ mint: ORCA, owner: STATE, amt: 5, frozen: false, deleg: NONE }) }),
      (("junk", "vaultOfFake", 0), tokenAcct(ORCA, ("junk", "stateSelf", 0), 1000000)),
      (("junk", "vaultOfFake", 1), tokenAcct(ORCA, ("junk", "stateOther", 0), 1000000)),
      (("junk", "tokOther", 0), { lam: RENT_TOKEN, prog: OTHER,
          data: Token({ mint: ORCA, owner: wallet("alice"), amt: U64MAX / 2, frozen: false, deleg: NONE }) }),
      (("junk", "tok22", 0), { lam: RENT_TOKEN, prog: TOKEN22,
          data: Token({ mint: XORCA, owner: wallet("alice"), amt: U64MAX / 2, frozen: false, deleg: NONE }) }),
      (("junk", "frozen", 0), { lam: RENT_TOKEN, prog: TOKEN,
          data: Token({ mint: ORCA, owner: wallet("alice"), amt: 1000, frozen: true, deleg: NONE }) }),
      (("junk", "mintOther", 0), { lam: 1461600, prog: OTHER, data: Mint({ auth: STATE, freeze: NONE, supply: 7, dec: 6 }) }),
      (("junk", "blobSelf", 0), { lam: RENT_PEND, prog: SELF, data: Blob(w.rnd % 40) }),
      // bob has delegated his accounts to alice and mallory: delegation must not be enough
      (("orca", "bob", 0), { lam: RENT_TOKEN, prog: TOKEN,
          data: Token({ mint: ORCA, owner: wallet("bob"), amt: 1000000000, frozen: false,
                        deleg: if (w.var_ % 2 == 0) wallet("alice") else m }) }),
      (("xorca", "bob", 0), { lam: RENT_TOKEN, prog: TOKEN,
          data: Token({ mint: XORCA, owner: wallet("bob"), amt: amtOf(l, ("xorca", "bob", 0)), frozen: false,
                        deleg: if (w.var_ % 2 == 0) wallet("alice") else m }) }),
      (("orca", "alice", 1), tokenAcct(ORCA, wallet("alice"), 1000000)),
      (("xorca", "alice", 1), tokenAcct(XORCA, wallet("alice"), 0)),
      (("fake", "alice", 0), tokenAcct(FAKE, wallet("alice"), 500000000000)),
      (("fake", "mallory", 0), tokenAcct(FAKE, m, 500000000000))])
  }

  /// any 64-bit pool state at all
  pure def extremeWorld(w: World): Ledger = {
    val hi = pick([U64MAX, U64MAX, U64MAX - 1, U64MAX - 100, U64MAX / 2, 2^63], w.rnd)
    val vault = if (w.mode < 25) hi - magnitude(w.e1, w.r1) / 2 else if (w.mode < 30) 0 else magnitude(w.e1 + 2, w.r1)
    val vlt = cap(vault)
    val escrow = if (w.mode % 5 == 0) vlt else if (w.mode % 5 == 1) vlt / 2
                 else if (w.mode % 5 == 2) cap(vlt + 1 + w.r2 % 50) else if (w.mode % 5 == 3) magnitude(w.e2 + 2, w.r2) else 0
    val esc = min(escrow, U64MAX)
    val supply = cap(if (w.mode % 4 == 0) magnitude(w.e3 + 2, w.r3) else if (w.mode % 4 == 1) hi - magnitude(w.e3, w.r3) / 2
                     else if (w.mode % 4 == 2) vlt - esc + (w.r3 % 3) - 1 else w.r3 % 1000)
    val xa = if (w.var_ < 50) supply else supply / 2
    val xb = supply - xa
    // the ORCA in existence never exceeds 64 bits unless the ledger is deliberately inconsistent
    val room = U64MAX - vlt
    val oa = if (w.var_ < 60) room else min(room, magnitude(w.e4 + 2, w.r4))
    val now = if (w.cd < 25) I64MAX - w.r4 % 3 else if (w.cd < 40) I64MAX / 2 else if (w.cd < 50) 0 else if (w.cd < 55) -(w.r4 % 1000)
              else if (w.cd < 60) I64MIN else w.r4 % 2147483648
    val cool = max(0, cooldownPick(w.r2 % 84, w.r3, now))
    val c1 = if (w.ci < 30) 0 else if (w.ci < 50) esc else if (w.ci < 60) cap(esc + 1) else if (w.ci < 70) min(U64MAX, w.r1) else esc / 2
    val l0 = { now: now, deg: true, accts: Map() }
    val l1 = withAccts(people(l0, w), [
      (ORCA, mintAcct(NONE, U64MAX)), (XORCA, mintAcct(STATE, supply)),
      (STATE, stateAcct(esc, cool, wallet("mallory"))),
      (VAULT, tokenAcct(ORCA, STATE, vlt)),
      (("orca", "alice", 0), tokenAcct(ORCA, wallet("alice"), oa)),
      (("orca", "bob", 0), tokenAcct(ORCA, wallet("bob"), if (w.var_ % 9 == 0) U64MAX else 0)),
      (("orca", "carol", 0), tokenAcct(ORCA, wallet("carol"), room - oa)),
      (("xorca", "alice", 0), tokenAcct(XORCA, wallet("alice"), xa)),
      (("xorca", "bob", 0), tokenAcct(XORCA, wallet("bob"), 0)),
      (("xorca", "carol", 0), tokenAcct(XORCA, wallet("carol"), xb)),
      (("xorca", "mallory", 0), tokenAcct(XORCA, wallet("mallory"), 0)),
      (("orca", "mallory", 0), tokenAcct(ORCA, wallet("mallory"), 0))])
    if (c1 == 0) l1
    else setAcct(l1, ("pend", "alice", w.rnd % 256), pendAcct("alice", w.rnd % 256, c1,
           pick([now, time64(now + 1), time64(now - 1), I64MAX, I64MIN, 0], w.r2) ))
  }

  pure def setupWorld(w: World): Ledger = {
    val odd = w.mode
    val xm = {
      auth: if (odd < 70) STATE else if (odd < 74) NONE else if (odd < 78) wallet("deployer") else STATE,
      freeze: if (odd >= 78 and odd < 82) wallet("deployer") else if (odd == 82) STATE else NONE,
      supply: if (odd >= 83 and odd < 86) 1 else if (odd == 86) U64MAX else 0,
      dec: if (odd == 87) 9 else if (odd == 88) 5 else if (odd == 89) 0 else 6 }
    val om = { auth: if (w.var_ < 50) NONE else wallet("bob"), freeze: if (w.var_ % 10 == 3) wallet("bob") else NONE,
               supply: w.r1, dec: if (odd == 90) 9 else if (odd == 91) 0 else 6 }
    val l0 = withAccts(people({ now: 1700000000 + w.r2 % 1000, deg: false, accts: Map() }, w), [
      (ORCA, { lam: 1461600, prog: if (odd == 92) OTHER else TOKEN, data: Mint(om) }),
      (XORCA, { lam: 1461600, prog: if (odd == 93) OTHER else TOKEN, data: Mint(xm) }),
      (FAKE, mintAcct(wallet("mallory"), 0)),
      (("orca", "alice", 0), tokenAcct(ORCA, wallet("alice"), 1000000000)),
      (("orca", "bob", 0), tokenAcct(ORCA, wallet("bob"), 1000000)),
      (("orca", "carol", 0), tokenAcct(ORCA, wallet("carol"), 0)),
      (("xorca", "alice", 0), tokenAcct(XORCA, wallet("alice"), 0)),
      (("xorca", "bob", 0), tokenAcct(XORCA, wallet("bob"), 0)),
      (("xorca", "carol", 0), tokenAcct(XORCA, wallet("carol"), 0))])
    val pre = if (w.cd < 40) 0 else if (w.cd < 50) 1 else if (w.cd < 60) RENT0 else if (w.cd < 70) RENT_STATE
              else if (w.cd < 75) RENT_STATE - 1 else if (w.cd < 80) RENT_STATE + 1 else if (w.cd < 90) RENT_TOKEN else w.r3 % (2 * RENT_STATE)
    val l1 = if (w.e1 % 2 == 0) setAcct(l0, STATE, { ...EMPTY, lam: pre }) else l0
    if (w.e1 % 5 == 0) setAcct(l1, VAULT, tokenAcct(ORCA, STATE, if (w.e2 % 2 == 0) 0 else w.r4 % 1000000000))
    else if (w.e1 % 5 < 3) l1
    else setAcct(l1, VAULT, { ...EMPTY, lam: if (w.cd < 90) pre % (RENT_TOKEN + 2) else RENT_TOKEN + w.r4 % 100 })
  }

  pure def world(w: World): Ledger =
    if (SCENARIO == "attack" or SCENARIO == "wire") attackWorld(w)
    else if (SCENARIO == "extreme") extremeWorld(w)
    else if (SCENARIO == "setup") setupWorld(w)
    else soundWorld(w)

  // ------------------------------------------------------------------ the state machine
  action init = {
    nondet e1 = 0.to(64).oneOf()
    nondet r1 = RAW.oneOf()
    nondet e2 = 0.to(64).oneOf()
    nondet r2 = RAW.oneOf()
    nondet e3 = 0.to(64).oneOf()
    nondet r3 = RAW.oneOf()
    nondet e4 = 0.to(64).oneOf()
    nondet r4 = RAW.oneOf()
    nondet mode = PCT.oneOf()
    nondet cd = PCT.oneOf()
    nondet sol = PCT.oneOf()
    nondet ci = PCT.oneOf()
    nondet va = PCT.oneOf()
    nondet rn = RAW.oneOf()
    all {
      led' = world({ e1: e1, r1: r1, e2: e2, r2: r2, e3: e3, r3: r3, e4: e4, r4: r4, mode: mode, cd: cd, sol: sol,
                     ci: ci, var_: va, rnd: rn }),
      tx' = [],
      res' = { ok: true, idx: 0, codes: Set(), ev: [] },
      broken' = Set()
    }
  }

  /// the clock moves to a moment of interest: unchanged, around the maturity of some claim, or by a jump
  pure def tick(l: Ledger, sel: int, raw: int, c: Addr): int = {
    val ts = pen(acct(l, c)).d.ts
    val t = if (sel < 45) l.now
            else if (sel < 52) l.now + 1
            else if (sel < 58) l.now + raw % 100
            else if (c._1 != "pend") l.now + raw % 700000
            else if (sel < 68) ts - 1
            else if (sel < 84) ts
            else if (sel < 90) ts + 1
            else l.now + raw % 700000
    if (t < l.now) l.now else min(t, I64MAX)
  }

  /// only wallets have keys to sign with
  pure def keyed(ixs: List[Ix]): List[Ix] =
    ixs.foldl([], (acc, ix) => acc.append(mapMetas(ix, (i, m) => { ...m, s: m.s and m.a._1 == "w" })))

  action commit(l: Ledger, unkeyed: List[Ix]): bool = {
    val ixs = keyed(unkeyed)
    val o = execTx(l, ixs)
    all {
      led' = o.led,
      tx' = ixs,
      res' = { ok: o.ok, idx: o.idx, codes: o.codes, ev: o.ev },
      broken' = if (CHECK and o.ok) lost(l, rights(ixs).signers, o.led) else Set()
    }
  }

  action step = {
    nondet kA = PCT.oneOf()
    nondet wA = USERS.oneOf()
    nondet oA = Set("alice", "bob", "carol", "mallory").oneOf()
    nondet sA = PCT.oneOf()
    nondet rA = RAW.oneOf()
    nondet iA = (if (SCENARIO == "fund" or SCENARIO == "drain") Set(0, 1, 255) else IDX).oneOf()
    nondet cA = orOf(claimsIn(led), NONE).oneOf()
    nondet sl = 0.to(3).oneOf()
    nondet vA = PCT.oneOf()
    nondet kB = PCT.oneOf()
    nondet sB = PCT.oneOf()
    nondet rB = RAW.oneOf()
    nondet iB = IDX.oneOf()
    nondet many = PCT.oneOf()
    nondet tsel = PCT.oneOf()
    nondet traw = 0.to(10000000).oneOf()
    nondet h1 = PCT.oneOf()
    nondet a1 = 0.to(8).oneOf()
    nondet with1 = SUBSTITUTES.oneOf()
    nondet h2 = PCT.oneOf()
    nondet a2 = 0.to(8).oneOf()
    nondet with2 = SUBSTITUTES.oneOf()
    nondet twists = PCT.oneOf()
    nondet iR = 0.to(255).oneOf()
    val now = { ...led, now: tick(led, tsel, traw, cA) }
    // mostly redeem claims that exist; sometimes ones that do not
    val claim = if (vA % 10 == 0) NONE else cA
    val idx = if (vA % 4 == 1) iR else iA
    val a = { kind: kA, who: wA, other: oA, sel: sA, raw: rA, idx: idx, claim: claim, slotO: sl % 2, slotX: sl / 2, var_: vA }
    val b = { ...a, kind: kB, sel: sB, raw: rB, idx: if (many % 2 == 0) a.idx else iB, who: if (many % 3 == 0) oA else wA }
    val opA = mkOp(now, a)
    val tw1 = { how: h1, at: a1, with: with1, at2: a2, n: rA % 65536 }
    val tw2 = { how: h2, at: a2, with: with2, at2: a1, n: rB % 65536 }
    val first =
      if (SCENARIO == "attack" and opA.prog == SELF and twists < 85)
        (if (twists < 55) twist(now, opA, tw1)
         else { val once = twist(now, opA, tw1)
                if (once.metas.length() == 0) once else twist(now, once, tw2) })
      else if (SCENARIO == "wire" and opA.prog == SELF and twists < 80)
        (if (twists < 8) { ...rawOf(opA, tw1), prog: CLONE } else if (twists < 12) { ...opA, prog: CLONE } else rawOf(opA, tw1))
      else if (SCENARIO == "setup" and opA.prog == SELF and twists < 35) twist(now, opA, tw1)
      else if (SCENARIO == "extreme" or twists < 95) opA
      // extra accounts and trailing data must not matter
      else if (twists < 98) { ...opA, metas: opA.metas.append(ro(with1)) }
      else if (opA.prog == SELF) rawOf(opA, { ...tw1, how: 85 })
      else opA
    val two = if (SCENARIO == "fund") 45 else if (SCENARIO == "config") 35 else if (SCENARIO == "flow") 25
              else if (SCENARIO == "attack" or SCENARIO == "wire" or SCENARIO == "extreme") 6 else 15
    val mid = execTx(now, [first]).led
    val opB = mkOp(mid, { ...b, claim: if (many % 4 == 0) ("pend", wA, idx) else claim })
    val opC = mkOp(mid, { ...a, kind: (kA + kB) % 100, claim: if (many % 4 == 0) ("pend", wA, idx) else claim })
    commit(now, if (many >= two) [first] else if (many * 3 < two) [first, opB, opC] else [first, opB])
  }

  /// redeem every claim, each at its maturity or later (claims with unreachable maturities stay)
  action drain = {
    nondet c = orOf(claimsIn(led), NONE).oneOf()
    nondet late = 0.to(3).oneOf()
    nondet sl = 0.to(1).oneOf()
    val t = max(led.now, min(I64MAX, pen(acct(led, c)).d.ts + late / 3))
    val now = { ...led, now: if (c == NONE) led.now else t }
    commit(now, if (c == NONE) [] else
      [{ prog: SELF, call: Withdraw(c._3), metas: withdrawMetas(wallet(c._2), c._3, tokAddr(led, "orca", c._2, sl)) }])
  }
  action stepThenDrain = {
    nondet d = PCT.oneOf()
    if (d < 35 and claimsIn(led) != Set()) drain else step
  }

  /// the design satisfies every property on every generated step
  val noViolation: bool = broken == Set()
}
