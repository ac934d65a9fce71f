// -*- mode: Bluespec; -*-
/**
 * The economic core of the xORCA staking program: conversion rates, and the effect of stake / unstake / redeem on the
 * pool quantities.  It is parameterised by the virtual offset and the integer bounds so that the very same definitions
 * are used with the real constants (ledger.qnt: offset 100, 64/128-bit bounds) and with tiny constants (design.qnt),
 * where TLC enumerates every reachable state.
 */
module core {
  const OFF: int        // virtual offset added to both sides of the exchange rate
  const MAXU: int       // largest amount          (u64::MAX in the implementation)
  const MAXW: int       // largest intermediate    (u128::MAX in the implementation)
  const MAXT: int       // largest timestamp       (i64::MAX in the implementation)

  // Error codes of the program that the economic core can produce.
  pure val ARITHMETIC = 6008
  pure val FUNDS = 6009
  pure val COOLING = 6011
  pure val ZERO_STAKE = 6014
  pure val ZERO_UNSTAKE = 6015
  pure val ESCROW_LOW = 6016
  pure val COOL_OVERFLOW = 6017
  pure val VAULT_LOW = 6018

  /// vault: ORCA in the vault; escrow: ORCA promised to unstakers; supply: xORCA in existence
  type Pool = { vault: int, escrow: int, supply: int }
  type Amount = { ok: bool, v: int }

  pure def good(v: int): Amount = { ok: true, v: v }
  pure val bad: Amount = { ok: false, v: 0 }

  pure def nonEscrowed(p: Pool): int = p.vault - p.escrow

  /// xORCA minted for `a` ORCA, given non-escrowed ORCA `ne` and xORCA supply `s` (floor)
  pure def sharesFor(a: int, ne: int, s: int): Amount =
    if (s == 0 or ne == 0) good(a)
    else if (a * (s + OFF) > MAXW) bad
    else {
      val q = a * (s + OFF) / (ne + OFF)
      if (q > MAXU) bad else good(q)
    }

  /// ORCA redeemable for `x` xORCA (floor)
  pure def assetsFor(x: int, ne: int, s: int): Amount =
    if (s == 0 or ne == 0) bad
    else if (x * (ne + OFF) > MAXW) bad
    else {
      val q = x * (ne + OFF) / (s + OFF)
      if (q > MAXU) bad else good(q)
    }

  type Cond = { ok: bool, code: int, why: str }
  pure def need(ok: bool, code: int, why: str): Cond = { ok: ok, code: code, why: why }

  /// Everything the economics require of a stake of `a` by someone holding `funds`
  pure def stakeNeeds(p: Pool, a: int, funds: int): List[Cond] = {
    val out = sharesFor(a, nonEscrowed(p), p.supply)
    [ need(a <= funds, FUNDS, "funds"),
      need(p.vault >= p.escrow, VAULT_LOW, "arith"),
      need(p.vault < p.escrow or out.ok, ARITHMETIC, "arith"),
      need(a > 0 and (p.vault < p.escrow or not(out.ok) or out.v > 0), ZERO_STAKE, "zero") ]
  }
  pure def stakeOut(p: Pool, a: int): int = sharesFor(a, nonEscrowed(p), p.supply).v
  pure def stakePool(p: Pool, a: int): Pool =
    { vault: p.vault + a, escrow: p.escrow, supply: p.supply + stakeOut(p, a) }

  pure def unstakeNeeds(p: Pool, x: int, funds: int): List[Cond] = {
    val out = assetsFor(x, nonEscrowed(p), p.supply)
    [ need(x <= funds, FUNDS, "funds"),
      need(p.vault >= p.escrow, VAULT_LOW, "arith"),
      need(p.vault < p.escrow or out.ok, ARITHMETIC, "arith"),
      need(x > 0 and (p.vault < p.escrow or not(out.ok) or out.v > 0), ZERO_UNSTAKE, "zero"),
      need(p.vault < p.escrow or not(out.ok) or p.escrow + out.v <= MAXU, ARITHMETIC, "arith") ]
  }
  pure def unstakeOut(p: Pool, x: int): int = assetsFor(x, nonEscrowed(p), p.supply).v
  pure def unstakePool(p: Pool, x: int): Pool =
    { vault: p.vault, escrow: p.escrow + unstakeOut(p, x), supply: p.supply - x }

  pure def maturityNeeds(now: int, cooldown: int): List[Cond] =
    [ need(now + cooldown <= MAXT, COOL_OVERFLOW, "arith") ]
  pure def maturity(now: int, cooldown: int): int = now + cooldown

  pure def redeemNeeds(p: Pool, amount: int, matures: int, now: int): List[Cond] =
    [ need(now >= matures, COOLING, "early"),
      need(amount <= p.escrow, ESCROW_LOW, "arith") ]
  pure def redeemPool(p: Pool, amount: int): Pool =
    { vault: p.vault - amount, escrow: p.escrow - amount, supply: p.supply }

  // ---- design-level facts used by several properties ----

  /// the vault covers every promise, and each outstanding xORCA is backed by at least one ORCA
  pure def covered(p: Pool): bool =
    p.vault >= p.escrow and (p.supply == 0 or nonEscrowed(p) >= p.supply)

  /// price(p) <= price(q), as cross-multiplied fractions (nonEscrowed+OFF)/(supply+OFF)
  pure def priceLeq(p: Pool, q: Pool): bool =
    (nonEscrowed(p) + OFF) * (q.supply + OFF) <= (nonEscrowed(q) + OFF) * (p.supply + OFF)
}
