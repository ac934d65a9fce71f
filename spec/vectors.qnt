// -*- mode: Bluespec; -*-
/**
 * Dense numeric vectors for the economic core: each step yields N single operations on pools chosen around the
 * boundaries that finite-precision arithmetic can get wrong, with the outcome core.qnt prescribes.  The harness builds a
 * minimal ledger around every vector, runs the real instruction and compares; the client checks compare the conversion
 * helpers with the same vectors.
 */
module vectors {
  import ledger.* from "./ledger"
  import core(OFF = 100, MAXU = 18446744073709551615,
              MAXW = 340282366920938463463374607431768211455,
              MAXT = 9223372036854775807).* from "./core"

  const N: int

  /// op 0 stake, 1 unstake, 2 redeem.  amt: staked ORCA, unstaked xORCA or recorded claim.  ts: maturity (redeem)
  type Vec = { op: int, vault: int, escrow: int, supply: int, amt: int, funds: int, now: int, cd: int, ts: int }
  /// free/conv: the pure conversion, for the clients: cs = xORCA for amt ORCA, ca = ORCA for amt xORCA
  type Want = { ok: bool, codes: Set[int], out: int, ts: int }
  type Conv = { amt: int, free: int, supply: int, cs: { ok: bool, v: int }, ca: { ok: bool, v: int } }

  var vecs: List[Vec]
  var want: List[Want]
  var conv: List[Conv]

  pure val B: int = 2^64
  pure def digit(r: int, i: int): int = r / 2^(64 * i) % B
  pure def cap64(a: int): int = if (a < 0) 0 else if (a > U64MAX) U64MAX else a

  pure val DELTAS: List[int] = [0, 0, 1, 2, 3, 50, 99, 100, 101, 200, -1, -2, -3, -50, -99, -100, -101, -200]
  pure val POWERS: List[int] = [8, 15, 16, 24, 31, 31, 32, 32, 32, 33, 40, 48, 52, 53, 53, 54, 56, 62, 63, 63, 64, 64]
  pure val TARGETS: List[int] = [2^16, 2^31, 2^32, 2^32, 2^48, 2^53, 2^53, 2^63, 2^63, 2^64, 2^64, 2^64, 2^65, 2^96, 2^127, 2^128,
    10^6, 10^9, 10^12, 10^18, 10^19]

  /// one number: near a power of two, near a power of ten, of random magnitude, or small
  pure def number(r: int): int = {
    val how = r % 16
    val q = r / 16
    cap64(if (how < 6) 2^(POWERS[q % 22]) + DELTAS[(q / 32) % 18]
          else if (how < 7) 10^(q % 20) + DELTAS[(q / 32) % 18]
          else if (how < 12) (q / 64) % 2^(q % 64 + 1)
          else if (how < 14) (q / 1024) % (10^(3 + q % 10))
          else if (how < 15) q % 300
          else U64MAX - (q % 1024) * (q / 1024 % 2))
  }

  /// the smallest amount whose image under amt * mul / div is at least n
  pure def preimage(n: int, mul: int, div: int): int = (n * div + mul - 1) / mul

  pure def vector(r: int): Vec = {
    val a = digit(r, 0) val b = digit(r, 1) val c = digit(r, 2) val d = digit(r, 3) val e = digit(r, 4)
    val op = if (a % 16 < 8) 0 else if (a % 16 < 15) 1 else 2
    val free0 = if (a / 16 % 64 == 0) 0 else number(b)
    // mostly sound pools (every xORCA backed), sometimes pools the program cannot reach
    val supply = if (a / 1024 % 64 == 0) 0
                 else if (a / 1024 % 4 == 0) free0
                 else if (a / 1024 % 4 == 1) cap64(free0 - number(c))
                 else if (a / 1024 % 16 == 2) number(c)
                 else number(c) % (free0 + 1)
    val how = a / 65536 % 16
    val mul = if (op == 0) supply + 100 else free0 + 100
    val div = if (op == 0) free0 + 100 else supply + 100
    val delta = d % 5 - 2
    val amt0 =
      if (how < 4) TARGETS[d / 8 % 21] / mul + delta                                   // product near a boundary
      else if (how < 7) preimage(1 + d / 8 % 1000, mul, div) + delta                   // result near a small integer
      else if (how < 9) preimage(TARGETS[d / 8 % 21], mul, div) + delta                // result near a boundary
      else if (how < 10) preimage(1 + d / 8, mul, div) + delta                         // result anywhere
      else if (how < 12) number(d)
      else if (op == 1) (if (how < 14) supply + delta else d % (supply + 1))
      else number(d)
    val esc0 = if (e % 4 == 0) 0 else if (e % 4 == 1) number(e / 4) else (e / 4) % 10^12
    val room = U64MAX - free0
    val escrow = if (esc0 > room) room else esc0
    val vault = free0 + escrow
    val amt = if (op == 0) (if (e / 2^40 % 8 == 0) cap64(amt0) else if (cap64(amt0) > U64MAX - vault) U64MAX - vault else cap64(amt0))
              else if (op == 1) (if (e / 2^40 % 8 == 0 or cap64(amt0) <= supply) cap64(amt0) else supply)
              else (if (e / 2^40 % 4 == 0) escrow else if (e / 2^40 % 4 == 1) cap64(escrow + delta) else d % (escrow + 1))
    val funds = if (op == 0) (if (e / 2^44 % 16 == 0) cap64(amt + delta) else if (amt > U64MAX - vault) amt else U64MAX - vault)
                else if (e / 2^44 % 16 == 0 and amt + delta <= supply) cap64(amt + delta) else supply
    val now = if (b / 2^50 % 4 > 0) 1700000000 + c % 1000000 else if (b / 2^50 % 8 == 0) signed64(c) else I64MAX - c % 1000
    val cd = if (b / 2^53 % 4 == 0) c / 2^20 % 2^(1 + c % 63)
             else if (b / 2^53 % 4 == 1 and now > 0) cap64(I64MAX - now + delta) % 2^63 else c / 2^20 % 10000000
    val ts = if (b / 2^55 % 4 == 0) now else if (b / 2^55 % 4 == 1) (if (now < I64MAX) now + 1 else now)
             else if (b / 2^55 % 4 == 2) (if (now > I64MIN) now - 1 else now) else signed64(d)
    { op: op, vault: if (e / 2^50 % 128 == 0) vault / 2 else vault, escrow: escrow, supply: supply, amt: amt,
      funds: funds, now: now, cd: cd, ts: ts }
  }

  pure def failing(cs: List[{ ok: bool, code: int, why: str }]): Set[int] =
    cs.foldl(Set(), (acc, c) => if (c.ok) acc else acc.union(Set(c.code)))
  pure def wanted(v: Vec): Want = {
    val p = { vault: v.vault, escrow: v.escrow, supply: v.supply }
    val conds =
      if (v.op == 0) stakeNeeds(p, v.amt, v.funds)
        .concat([ need(v.vault + v.amt <= U64MAX, TOK_OVERFLOW, "arith"),
                  need(v.vault < v.escrow or v.supply + stakeOut(p, v.amt) <= U64MAX, TOK_OVERFLOW, "arith") ])
      else if (v.op == 1) unstakeNeeds(p, v.amt, v.funds).concat(maturityNeeds(v.now, v.cd))
      else redeemNeeds(p, v.amt, v.ts, v.now).concat([ need(v.amt <= v.vault, TOK_FUNDS, "arith") ])
    val ok = failing(conds) == Set()
    { ok: ok, codes: failing(conds),
      out: if (not(ok)) 0 else if (v.op == 0) stakeOut(p, v.amt) else if (v.op == 1) unstakeOut(p, v.amt) else v.amt,
      ts: if (v.op == 1 and ok) maturity(v.now, v.cd) else v.ts }
  }
  pure def converted(v: Vec): Conv = {
    val free = if (v.vault >= v.escrow) v.vault - v.escrow else 0
    { amt: v.amt, free: free, supply: v.supply, cs: sharesFor(v.amt, free, v.supply), ca: assetsFor(v.amt, free, v.supply) }
  }

  action fill(r: int): bool = {
    val vs = range(0, N).foldl([], (acc, i) => acc.append(vector(r / 2^(320 * i) % 2^320)))
    all {
      vecs' = vs,
      want' = vs.foldl([], (acc, v) => acc.append(wanted(v))),
      conv' = vs.foldl([], (acc, v) => acc.append(converted(v)))
    }
  }
  val noViolation: bool = want.length() == vecs.length()
  action init = all { vecs' = [], want' = [], conv' = [] }
  action step = {
    nondet r = 0.to(2^(320 * N) - 1).oneOf()
    fill(r)
  }
}
module rates { import vectors(N = 100).* from "./vectors" }
