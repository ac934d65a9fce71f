// -*- mode: Bluespec; -*-
/**
 * Systematic enumerations, complementing the random walks of gen.qnt.  Step number `k` of a sweep is a fixed case; a run
 * of length N covers the cases PART, PART + PARTS, PART + 2*PARTS, ...  A step that starts from a fresh ledger says so in
 * `pre` (fresh = true), and the conformance harness loads that ledger before it executes the transaction.
 *
 *   "subst"  every position of every instruction x every substitute account; every dropped right; every truncated list
 *   "worlds" every coherent set of look-alikes at once: a copied state, another mint, the vaults and holdings that fit them
 *   "index"  creation and redemption at each of the 256 indices, beside claims at the neighbouring indices
 *   "tags"   every first byte, every second byte, every truncation of the instruction data
 *   "time"   cooldowns x clock values x redemption attempts around the maturity instant
 *   "rates"  stake / unstake / redeem on pool states drawn from special values and all orders of magnitude
 *   "init"   initialization under every single deviation from its preconditions
 */
module sweep {
  import ledger.* from "./ledger"
  export ledger.*
  import verdict.* from "./verdict"
  export verdict.*
  import gen(SCENARIO = "attack", CHECK = false) as g from "./gen"

  const WHICH: str
  const PART: int
  const PARTS: int

  var pre: Ledger
  var fresh: bool
  var led: Ledger
  var tx: List[Ix]
  var res: { ok: bool, idx: int, codes: Set[int], ev: List[Event] }
  var broken: Set[str]
  var k: int

  pure val BASE: Ledger = {
    val l = g::attackWorld({ e1: 40, r1: 345678901234, e2: 30, r2: 77777777, e3: 20, r3: 1234567, e4: 40, r4: 987654321987,
                             mode: 65, cd: 15, sol: 0, ci: 10, var_: 30, rnd: 7 })
    val s = st(l)
    val l2 = setAcct(l, STATE, { ...acct(l, STATE), data: State({ ...s, escrow: s.escrow + 5000 }) })
    val l3 = setAcct(l2, ("pend", "alice", 5), g::pendAcct("alice", 5, 3000, l.now - 1))
    val l4 = setAcct(l3, ("pend", "bob", 6), g::pendAcct("bob", 6, 2000, l.now))
    addAmt(l4, VAULT, 5000)
  }
  pure val SETUP: Ledger = {
    // the attack world before initialization
    val l = setAcct(setAcct(BASE, STATE, EMPTY), VAULT, EMPTY)
    val m = setAcct(l, XORCA, g::mintAcct(STATE, 0))
    m.accts.keys().filter(a => a._1 == "xorca" or a._1 == "pend").fold(m, (acc, a) => setAcct(acc, a, EMPTY))
  }

  type Case = { led: Ledger, ixs: List[Ix] }

  // ------------------------------------------------------------------ subst
  pure val OPS: List[(Ledger, Ix)] = [
    (BASE, { prog: SELF, call: Stake(1000000), metas: stakeMetas(wallet("alice"), ("orca", "alice", 0), ("xorca", "alice", 0)) }),
    (BASE, { prog: SELF, call: Unstake({ amt: 100000, idx: 9 }), metas: unstakeMetas(wallet("alice"), 9, ("xorca", "alice", 0)) }),
    (BASE, { prog: SELF, call: Withdraw(5), metas: withdrawMetas(wallet("alice"), 5, ("orca", "alice", 0)) }),
    (BASE, { prog: SELF, call: SetCooldown(12345), metas: setMetas(wallet("mallory")) }),
    (BASE, { prog: SELF, call: SetAuthority(wallet("bob")), metas: setMetas(wallet("mallory")) }),
    (SETUP, { prog: SELF, call: Init(777), metas: initMetas(DEPLOYER, wallet("carol")) }) ]
  pure val SLOTS: List[(int, int)] =
    range(0, 6).foldl([], (acc, o) => range(0, OPS[o]._2.metas.length()).foldl(acc, (b, i) => b.append((o, i))))
  pure val SUBS: List[Addr] = [
    ("junk", "stateSelf", 0), ("junk", "stateOther", 0), ("junk", "pendSelf", 0), ("junk", "pendOther", 0),
    ("junk", "vaultAux", 0), ("junk", "vaultOther", 0), ("junk", "vaultOfFake", 0), ("junk", "vaultOfFake", 1),
    ("junk", "tokOther", 0), ("junk", "tok22", 0), ("junk", "mintOther", 0), ("junk", "blobSelf", 0), ("junk", "frozen", 0),
    ("junk", "nothing", 0),
    ("w", "alice", 0), ("w", "bob", 0), ("w", "mallory", 0), ("w", "deployer", 0), ("w", "carol", 0),
    ("orca", "alice", 0), ("orca", "alice", 1), ("orca", "bob", 0), ("orca", "mallory", 0),
    ("xorca", "alice", 0), ("xorca", "alice", 1), ("xorca", "bob", 0), ("xorca", "mallory", 0),
    ("fake", "alice", 0), ("fake", "mallory", 0),
    ("pend", "alice", 5), ("pend", "alice", 9), ("pend", "alice", 10), ("pend", "bob", 5), ("pend", "bob", 6), ("pend", "mallory", 9),
    STATE, VAULT, ORCA, XORCA, FAKE, SELF, SYSTEM, TOKEN, TOKEN22, ATA, OTHER ]
  pure val NSUB = 46
  pure val EXTRA = 4
  pure val SUBST_TOTAL = 38 * 50

  pure def dropAt(ix: Ix, i: int, sig: bool, wr: bool): Ix =
    g::mapMetas(ix, (j, m) => if (j == i) { ...m, s: m.s and not(sig), w: m.w and not(wr) } else m)

  pure def substCase(n: int): Case = {
    val where = SLOTS[(n / (NSUB + EXTRA)) % 38]
    val j = n % (NSUB + EXTRA)
    val op = OPS[where._1]
    val ix = op._2
    val i = where._2
    val alt =
      if (j < NSUB) g::mapMetas(ix, (q, m) => if (q == i) { ...m, a: SUBS[j], s: m.s and SUBS[j]._1 == "w" } else m)
      else if (j == NSUB) dropAt(ix, i, true, false)
      else if (j == NSUB + 1) dropAt(ix, i, false, true)
      else if (j == NSUB + 2) { ...ix, metas: ix.metas.slice(0, i) }
      else g::mapMetas(ix, (q, m) => if (q == i) { ...m, w: true } else m)
    { led: op._1, ixs: [alt] }
  }

  // ------------------------------------------------------------------ worlds
  /// Look-alikes that fit each other.  A single wrong account is often refused by the checks of the accounts around it; an
  /// attacker brings them all: a copy of the state, the associated vault of that copy, a mint of his own (whose authority
  /// he has handed to the state, or to the copy), the associated vault for that mint, holdings of that mint, a copied claim.
  pure val WORLDS_TOTAL = 6 * 3 * 2 * 2 * 3 * 3 * 2 * 2
  pure def worldsCase(n: int): Case = {
    val op = OPS[n % 6]
    val state = [STATE, ("junk", "stateSelf", 0), ("junk", "stateOther", 0)][(n / 6) % 3]
    val x = [XORCA, FAKE][(n / 18) % 2]
    val o = [ORCA, FAKE][(n / 36) % 2]
    val fits = (n / 72) % 3
    val au = [wallet("mallory"), STATE, ("junk", "stateSelf", 0)][(n / 216) % 3]
    val follow = (n / 648) % 2 == 0
    val claim = if ((n / 1296) % 2 == 0) ("pend", "alice", 5) else ("junk", "pendCopy", 0)
    val label = if (state == STATE) "state" else if (state == ("junk", "stateSelf", 0)) "self" else "other"
    val fit = if (state == STATE and o == ORCA) VAULT else ("avault", label, if (o == ORCA) 0 else 1)
    val vault = if (fits == 0) fit else if (fits == 1) VAULT
                else if (state == STATE) ("junk", "vaultAux", 0) else ("junk", "vaultOfFake", if (label == "self") 0 else 1)
    val supply = if (op._2.call == Init(777)) 0 else 3000000
    val copy = State({ ...BASE_STATE, cooldown: 5 })
    val l = g::withAccts(op._1, [
      (FAKE, g::mintAcct(au, supply)),
      // the real mint may itself be in the hands of the copy
      (XORCA, if (x == XORCA and au == ("junk", "stateSelf", 0))
                { ...acct(op._1, XORCA), data: Mint({ ...mnt(acct(op._1, XORCA)).d, auth: au }) } else acct(op._1, XORCA)),
      (("fake", "alice", 0), g::tokenAcct(FAKE, wallet("alice"), if (supply == 0) 0 else 2000000)),
      (("junk", "stateSelf", 0), { lam: RENT_STATE, prog: SELF, data: copy }),
      (("junk", "stateOther", 0), { lam: RENT_STATE, prog: OTHER, data: copy }),
      (("junk", "pendCopy", 0), { lam: RENT_PEND, prog: SELF,
          data: Pend({ owner: wallet("alice"), idx: 5, amt: 4999, ts: op._1.now - 10, canon: true }) }),
      (fit, if (fit == VAULT) acct(op._1, VAULT) else g::tokenAcct(o, state, 1000000000000))])
    def swap(a: Addr): Addr =
      if (a == STATE) state else if (a == XORCA) x else if (a == ORCA) o else if (a == VAULT) vault
      else if (a == ("pend", "alice", 5)) claim
      else if (follow and a._1 == "orca" and o == FAKE) ("fake", a._2, 0)
      else if (follow and a._1 == "xorca" and x == FAKE) ("fake", a._2, 0)
      else a
    { led: l, ixs: [g::mapMetas(op._2, (i, m) => { ...m, a: swap(m.a) })] }
  }
  pure val BASE_STATE: StateData = st(BASE)

  // ------------------------------------------------------------------ index
  /// every index of one staker on a small ledger where the neighbouring indices, and the same index of another staker,
  /// are in use: creation, a second creation, redemption, redemption of the neighbour afterwards
  pure def indexLedger(i: int): Ledger = {
    val l = g::withAccts({ now: 1700000000, deg: false, accts: Map() }, [
      (wallet("alice"), { ...EMPTY, lam: 10000000000 }), (wallet("bob"), { ...EMPTY, lam: 10000000000 }),
      (ORCA, g::mintAcct(NONE, 1000000000000)), (XORCA, g::mintAcct(STATE, 500000000)),
      (STATE, g::stateAcct(6000, 100, wallet("mallory"))),
      (VAULT, g::tokenAcct(ORCA, STATE, 1500006000)),
      (("orca", "alice", 0), g::tokenAcct(ORCA, wallet("alice"), 5)),
      (("xorca", "alice", 0), g::tokenAcct(XORCA, wallet("alice"), 500000000)),
      (("pend", "alice", (i + 255) % 256), g::pendAcct("alice", (i + 255) % 256, 1000, 1699999999)),
      (("pend", "alice", (i + 1) % 256), g::pendAcct("alice", (i + 1) % 256, 2000, 1700000000)),
      (("pend", "bob", i), g::pendAcct("bob", i, 3000, 1699999999))])
    l
  }
  pure def indexCase(n: int): Case = {
    val i = n / 4 % 256
    val l = indexLedger(i)
    val made = { prog: SELF, call: Unstake({ amt: 1000 + n, idx: i }), metas: unstakeMetas(wallet("alice"), i, ("xorca", "alice", 0)) }
    pure def redeem(j: int): Ix =
      { prog: SELF, call: Withdraw(j), metas: withdrawMetas(wallet("alice"), j, ("orca", "alice", 0)) }
    if (n % 4 == 0) { led: l, ixs: [made] }
    else if (n % 4 == 1) { led: l, ixs: [redeem((i + 1) % 256), made, redeem((i + 255) % 256)] }
    else {
      val m = setAcct({ ...l, now: l.now + 100 }, ("pend", "alice", i), g::pendAcct("alice", i, 0 + n, 1700000100))
      val mm = { ...m, accts: m.accts.put(STATE, g::stateAcct(6000 + n, 100, wallet("mallory")))
                              .put(VAULT, g::tokenAcct(ORCA, STATE, 1500006000 + n)) }
      if (n % 4 == 2) { led: mm, ixs: [redeem(i)] } else { led: mm, ixs: [redeem(i), redeem(i)] }
    }
  }
  pure val INDEX_TOTAL = 1024

  // ------------------------------------------------------------------ tags
  pure def tagCase(n: int): Case = {
    val b = n % 256
    val which = n / 256
    val o = if (which < 4 and b < 5) (if (b < 3) b else if (b == 3) 5 else 3) else if (which < 5) 3 else n % 6
    val op = OPS[o]
    val args = encode(op._2.call).head
    val hd =
      if (which == 0) [b].concat(bytesOf(1000, 8)).append(9)
      else if (which == 1) [b]
      else if (which == 2) [b].concat([0, 57, 48, 0, 0, 0, 0, 0, 0])
      else if (which == 3) [b, 5]
      else if (which == 4) [4, b].concat(bytesOf(4321, 8))
      // every instruction truncated to every length
      else args.slice(0, min2((n / 6) % 11, args.length()))
    { led: op._1, ixs: [{ ...op._2, call: Raw({ head: hd, key: [], tail: [] }) }] }
  }
  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure val TAG_TOTAL = 5 * 256 + 66

  // ------------------------------------------------------------------ time
  pure val COOLDOWNS: List[int] = [0, 1, 2, 59, 60, 3600, 86400, 604800, 1209600, 2592000, 31536000, 315360000, 65535, 65536,
    2147483647, 2147483648, 4294967295, 4294967296, 1000000007, I64MAX - 1700000000, I64MAX - 1699999999, I64MAX ]
  pure val CLOCKS: List[int] = [0, 1, 1700000000, 2147483646, 2147483647, 2147483648, 4294967295, 4294967296, 1763500000,
    I64MAX - 604800, I64MAX - 1, I64MAX, -1, -604800]
  pure val TIME_TOTAL = 22 * 14 * 6
  pure def timeCase(l: Ledger, n: int): Case = {
    val cd = COOLDOWNS[(n / 6) % 22]
    val t = CLOCKS[(n / 132) % 14]
    val u = n % 6
    val start = setAcct({ ...BASE, now: t }, STATE, { ...acct(BASE, STATE), data: State({ ...st(BASE), cooldown: cd }) })
    val a = ("pend", "alice", 9)
    val made = { prog: SELF, call: Unstake({ amt: 100000, idx: 9 }),
                 metas: unstakeMetas(wallet("alice"), 9, ("xorca", "alice", 0)) }
    val ready = execTx(start, [made])
    val claimed = ready.led
    val redeem = { prog: SELF, call: Withdraw(9), metas: withdrawMetas(wallet("alice"), 9, ("orca", "alice", 0)) }
    val ts = pen(acct(claimed, a)).d.ts
    val set2 = { prog: SELF, call: SetCooldown(if (u % 2 == 0) 0 else 500), metas: setMetas(wallet("mallory")) }
    if (u == 0) { led: start, ixs: [made] }
    else if (not(ready.ok)) { led: start, ixs: [redeem] }
    else if (u == 1) { led: { ...claimed, now: g::time64(ts - 1) }, ixs: [redeem] }
    else if (u == 2) { led: { ...claimed, now: ts }, ixs: [redeem] }
    else if (u == 3) { led: { ...claimed, now: g::time64(ts + 1) }, ixs: [redeem] }
    // shortening the cooldown afterwards must not shorten the wait, nor lengthening lengthen it
    else if (u == 4) { led: { ...claimed, now: g::time64(ts - 1) }, ixs: [set2, redeem] }
    else { led: { ...claimed, now: ts }, ixs: [set2, redeem] }
  }

  // ------------------------------------------------------------------ init
  pure val INIT_TOTAL = 48
  pure def initCase(n: int): Case = {
    val x = mnt(acct(SETUP, XORCA)).d
    val o = mnt(acct(SETUP, ORCA)).d
    pure def withX(d: MintData): Ledger = setAcct(SETUP, XORCA, { ...acct(SETUP, XORCA), data: Mint(d) })
    pure def withO(d: MintData): Ledger = setAcct(SETUP, ORCA, { ...acct(SETUP, ORCA), data: Mint(d) })
    val cds = [0, 1, -1, I64MAX, I64MIN, 604800, -604800]
    val l =
      if (n < 8) withX({ ...x, dec: [0, 1, 5, 6, 7, 9, 18, 255][n] })
      else if (n < 16) withO({ ...o, dec: [0, 1, 5, 6, 7, 9, 18, 255][n - 8] })
      else if (n < 21) withX({ ...x, supply: [1, 2, 256, 4294967296, U64MAX][n - 16] })
      else if (n < 25) withX({ ...x, auth: [NONE, wallet("deployer"), wallet("carol"), SELF][n - 21] })
      else if (n < 29) withX({ ...x, freeze: [STATE, wallet("deployer"), wallet("carol"), SELF][n - 25] })
      else if (n < 32) withO({ ...o, auth: wallet("bob"), freeze: wallet("bob"), supply: n })
      else if (n < 38) setAcct(SETUP, STATE, { ...EMPTY, lam: [1, RENT0, RENT_STATE - 1, RENT_STATE, RENT_STATE + 1, 5 * RENT_STATE][n - 32] })
      else if (n < 41) setAcct(SETUP, VAULT, { ...EMPTY, lam: [RENT0, RENT_TOKEN, 2 * RENT_TOKEN][n - 38] })
      else SETUP
    { led: l, ixs: [{ prog: SELF, call: Init(if (n >= 41) cds[n - 41] else 777), metas: initMetas(DEPLOYER, wallet("carol")) }] }
  }

  // ------------------------------------------------------------------ rates
  pure val SPECIAL: List[int] = [0, 1, 2, 3, 9, 10, 99, 100, 101, 199, 200, 999, 1000, 1001, 65535, 65536, 999999, 1000000,
    1000001, 4294967195, 4294967295, 4294967296, 4294967396, 1000000000000, 9007199254740991, 9007199254740993,
    9223372036854775807, 9223372036854775808, 18446744073709551515, 18446744073709551516, 18446744073709551614,
    18446744073709551615]
  pure def value(sel: int, e: int, r: int, near: int): int =
    g::cap(if (sel < 30) SPECIAL[r % 32]
           else if (sel < 60) r % 2^e
           else if (sel < 75) near
           else if (sel < 80) near + r % 3 - 1
           else if (sel < 90) near / (1 + r % 7)
           else 10^(r % 20))

  // ------------------------------------------------------------------ the sweep as a state machine
  action init = all {
    pre' = BASE, fresh' = true, led' = BASE, tx' = [], res' = { ok: true, idx: 0, codes: Set(), ev: [] },
    broken' = Set(), k' = PART
  }
  action run_(c: Case, f: bool): bool = {
    val o = execTx(c.led, c.ixs)
    all {
      pre' = c.led, fresh' = f, led' = o.led, tx' = c.ixs,
      res' = { ok: o.ok, idx: o.idx, codes: o.codes, ev: o.ev },
      broken' = if (o.ok) lost(c.led, rights(c.ixs).signers, o.led) else Set(),
      k' = k + PARTS
    }
  }
  action step =
    if (WHICH == "subst") run_(substCase(k), true)
    else if (WHICH == "worlds") run_(worldsCase(k), true)
    else if (WHICH == "index") run_(indexCase(k), true)
    else if (WHICH == "tags") run_(tagCase(k), true)
    else if (WHICH == "time") run_(timeCase(led, k), true)
    else run_(initCase(k), true)

  action stepRates = {
    nondet s1 = 0.to(99).oneOf()
    nondet s2 = 0.to(99).oneOf()
    nondet s3 = 0.to(99).oneOf()
    nondet s4 = 0.to(99).oneOf()
    nondet e1 = 1.to(64).oneOf()
    nondet e2 = 1.to(64).oneOf()
    nondet e3 = 1.to(64).oneOf()
    nondet r1 = g::RAW.oneOf()
    nondet r2 = g::RAW.oneOf()
    nondet r3 = g::RAW.oneOf()
    nondet r4 = g::RAW.oneOf()
    nondet o = 0.to(99).oneOf()
    val free = if (s1 % 2 == 0) value(s1, e1, r1, U64MAX / 2) else value(99 - s1, e2, r1, 10^9)
    val supply = value(s2, e2, r2, if (o % 3 == 0) free else free - free / (2 + r1 % 5))
    val room = U64MAX - free
    val esc = if (s3 < 20) 0 else g::cap(value(s3, e3, r3, room) % (room + 1))
    val vault = if (o == 99) free / 2 else free + esc
    val l0 = { now: 1700000000 + r4 % 1000, deg: not(supply == 0 or free >= supply) or o == 99, accts: Map() }
    val sp = { vault: vault, escrow: esc, supply: supply }
    val thr = if (o < 50) (if (supply == 0) 1 else (free + 199 + supply) / (supply + 100))
              else (supply + 199 + free) / (free + 100)
    val amt0 = g::cap(g::amount(s4, r4, if (o < 50) U64MAX - vault else supply, thr))
    val amt = if (e3 % 4 == 0) g::cap(value(s4, e3, r4, supply)) else amt0
    val bal = U64MAX - vault
    val l = g::withAccts(l0, [
      (wallet("alice"), { ...EMPTY, lam: 10000000000 }),
      (ORCA, g::mintAcct(NONE, U64MAX)), (XORCA, g::mintAcct(STATE, supply)),
      (STATE, g::stateAcct(esc, r2 % 1000000, wallet("mallory"))),
      (VAULT, g::tokenAcct(ORCA, STATE, vault)),
      (("orca", "alice", 0), g::tokenAcct(ORCA, wallet("alice"), bal)),
      (("xorca", "alice", 0), g::tokenAcct(XORCA, wallet("alice"), supply)),
      (("pend", "alice", 1), g::pendAcct("alice", 1, if (o % 2 == 0) esc else esc / 2, l0.now - 5))])
    run_({ led: if (esc == 0) setAcct(l, ("pend", "alice", 1), EMPTY) else l,
           ixs: if (o < 50) [{ prog: SELF, call: Stake(amt), metas: stakeMetas(wallet("alice"), ("orca", "alice", 0), ("xorca", "alice", 0)) }]
                else if (o < 95 or o == 99) [{ prog: SELF, call: Unstake({ amt: amt, idx: r3 % 256 }),
                        metas: unstakeMetas(wallet("alice"), r3 % 256, ("xorca", "alice", 0)) }]
                else [{ prog: SELF, call: Withdraw(1), metas: withdrawMetas(wallet("alice"), 1, ("orca", "alice", 0)) }] }, true)
  }

  val noViolation: bool = broken == Set()
}
