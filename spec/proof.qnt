// -*- mode: Bluespec; -*-
/**
 * The economic design at full size: an inductive invariant over unbounded histories and all 64-bit magnitudes, discharged
 * by Apalache (SMT).  One claim is followed individually; the claims of everyone else are represented by their total.
 *
 *   start   => Inv                                    (quint verify --init start,    0 steps)
 *   Inv and one step  =>  Inv' and nothing wrong      (quint verify --init anywhere, 1 step)
 *
 * `wrong` names the property a step breaks; core.qnt supplies the arithmetic, as it does for ledger.qnt.
 */
module proof {
  import core(OFF = 100, MAXU = 18446744073709551615, MAXW = 340282366920938463463374607431768211455,
              MAXT = 9223372036854775807).* from "./core"

  type Claim = { live: bool, amt: int, ts: int }
  /// outside: ORCA in users' hands; rest: owed to all other claims
  type S = { pool: Pool, outside: int, claim: Claim, rest: int, now: int, cool: int }
  var s: S
  var wrong: Set[str]
  var did: str

  pure def owes(t: S): int = t.rest + (if (t.claim.live) t.claim.amt else 0)
  pure def inv_(t: S): bool = and {
    t.pool.vault >= 0, t.pool.escrow >= 0, t.pool.supply >= 0, t.outside >= 0, t.rest >= 0,
    t.claim.amt >= 0, t.cool >= 0, t.cool <= MAXT, t.now <= MAXT,
    // no ORCA is created, so every 64-bit sum of balances fits
    t.pool.vault + t.outside <= MAXU,
    t.pool.escrow == owes(t),
    covered(t.pool),
    t.claim.live implies t.claim.ts <= MAXT }

  pure def if_(b: bool, p: str): Set[str] = if (b) Set(p) else Set()
  pure def okAll(cs: List[Cond]): bool = cs.select(c => not(c.ok)).length() == 0
  /// a due claim: every condition of its redemption holds, and the payment fits the receiving account
  pure def payable(t: S): bool =
    not(t.claim.live) or t.claim.ts > t.now
    or (t.claim.amt <= t.pool.escrow and t.claim.amt <= t.pool.vault and t.outside + t.claim.amt <= MAXU)

  pure def judge(a: S, b: S, k: str): Set[str] =
    if_(b.pool.escrow - a.pool.escrow != owes(b) - owes(a), "C01")
    .union(if_(not(covered(b.pool)), "C02"))
    .union(if_(a.pool.supply > 0 and b.pool.supply > 0 and not(priceLeq(a.pool, b.pool)), "C05"))
    .union(if_(a.claim.live and b.claim.live and (a.claim.amt != b.claim.amt or a.claim.ts != b.claim.ts), "C06"))
    .union(if_(not(a.claim.live) and b.claim.live and b.claim.ts != a.now + a.cool, "C06"))
    .union(if_(k == "redeem" and (b.outside - a.outside != a.claim.amt or b.claim.live or a.now < a.claim.ts), "C07"))
    .union(if_(not(payable(b)), "C08"))
    .union(if_(b.pool.vault > MAXU or b.pool.escrow > MAXU or b.pool.supply > MAXU or b.pool.vault < 0 or b.pool.supply < 0, "C14"))
    .union(if_(a.pool.vault + a.outside != b.pool.vault + b.outside, "C17"))

  action start = {
    nondet v = Nat.oneOf()
    nondet o = Nat.oneOf()
    nondet t = Int.oneOf()
    nondet c = Nat.oneOf()
    all {
      // initialization: nothing owed, no xORCA; the vault may have been given ORCA before
      v + o <= MAXU, t <= MAXT, c <= MAXT,
      s' = { pool: { vault: v, escrow: 0, supply: 0 }, outside: o, claim: { live: false, amt: 0, ts: 0 }, rest: 0, now: t, cool: c },
      wrong' = Set(), did' = "start" }
  }
  action anywhere = {
    nondet v = Nat.oneOf()
    nondet e = Nat.oneOf()
    nondet x = Nat.oneOf()
    nondet o = Nat.oneOf()
    nondet r = Nat.oneOf()
    nondet live = Set(true, false).oneOf()
    nondet am = Nat.oneOf()
    nondet ts = Int.oneOf()
    nondet t = Int.oneOf()
    nondet c = Nat.oneOf()
    val w = { pool: { vault: v, escrow: e, supply: x }, outside: o, claim: { live: live, amt: am, ts: ts }, rest: r, now: t, cool: c }
    all { inv_(w), s' = w, wrong' = Set(), did' = "anywhere" }
  }

  action become(k: str, t: S): bool = all { s' = t, did' = k, wrong' = judge(s, t, k) }

  action stake = {
    nondet a = Nat.oneOf()
    all { did == "anywhere", a <= s.outside, okAll(stakeNeeds(s.pool, a, s.outside)),
          // the round trip: what came out at once would fetch no more than what went in
          s' = { ...s, pool: stakePool(s.pool, a), outside: s.outside - a }, did' = "stake",
          wrong' = judge(s, { ...s, pool: stakePool(s.pool, a), outside: s.outside - a }, "stake")
                   .union(if_(s.pool.supply > 0 and unstakeOut(stakePool(s.pool, a), stakeOut(s.pool, a)) > a, "C05")) }
  }
  /// the followed claim, or somebody else's
  action unstakeMine = {
    nondet x = Nat.oneOf()
    all { did == "anywhere", not(s.claim.live), x <= s.pool.supply, okAll(unstakeNeeds(s.pool, x, s.pool.supply)),
          okAll(maturityNeeds(s.now, s.cool)),
          become("unstake", { ...s, pool: unstakePool(s.pool, x),
                              claim: { live: true, amt: unstakeOut(s.pool, x), ts: maturity(s.now, s.cool) } }) }
  }
  action unstakeOther = {
    nondet x = Nat.oneOf()
    all { did == "anywhere", x <= s.pool.supply, okAll(unstakeNeeds(s.pool, x, s.pool.supply)),
          become("unstake", { ...s, pool: unstakePool(s.pool, x), rest: s.rest + unstakeOut(s.pool, x) }) }
  }
  action redeemMine =
    all { did == "anywhere", s.claim.live, okAll(redeemNeeds(s.pool, s.claim.amt, s.claim.ts, s.now)),
          become("redeem", { ...s, pool: redeemPool(s.pool, s.claim.amt), outside: s.outside + s.claim.amt,
                             claim: { ...s.claim, live: false } }) }
  action redeemOther = {
    nondet n = Nat.oneOf()
    all { did == "anywhere", n <= s.rest, okAll(redeemNeeds(s.pool, n, s.now, s.now)),
          become("other", { ...s, pool: redeemPool(s.pool, n), outside: s.outside + n, rest: s.rest - n }) }
  }
  action donate = {
    nondet n = Nat.oneOf()
    all { did == "anywhere", n <= s.outside,
          become("donate", { ...s, pool: { ...s.pool, vault: s.pool.vault + n }, outside: s.outside - n }) }
  }
  action burn = {
    nondet n = Nat.oneOf()
    all { did == "anywhere", n <= s.pool.supply, become("burn", { ...s, pool: { ...s.pool, supply: s.pool.supply - n } }) }
  }
  action configure = {
    nondet c = Nat.oneOf()
    nondet t = Int.oneOf()
    all { did == "anywhere", c <= MAXT, t >= s.now, t <= MAXT, become("configure", { ...s, cool: c, now: t }) }
  }
  action step = any { stake, unstakeMine, unstakeOther, redeemMine, redeemOther, donate, burn, configure }

  val holds: bool = wrong == Set() and inv_(s)
}
