// -*- mode: Bluespec; -*-
/**
 * The staking design as a closed system of a few people, checked exhaustively (TLC): every order of stakes, unstakes,
 * redemptions, donations, transfers, burns, configuration changes and clock ticks, with every request also made by the
 * wrong person.  The economics are core.qnt's, the definitions ledger.qnt uses; only the bounds are small here.
 *
 * Every property is evaluated on every transition.  Instances (graphs.qnt): `graph`, whose transitions are listed by TLC
 * and each executed by the real program (tools/graph.py); `limits`, with tiny integer bounds, so that every arithmetic
 * limit is met; `deep`, larger purses and more steps.
 */
module design {
  const D_OFF: int
  const D_MAXU: int
  const D_MAXW: int
  const D_MAXT: int
  const TIMES: int              // last instant
  const STAKES: Set[int]        // amounts staked, donated
  const UNSTAKES: Set[int]      // amounts unstaked, burnt, transferred
  const COOLS: Set[int]
  const IDXS: Set[int]
  import core(OFF = D_OFF, MAXU = D_MAXU, MAXW = D_MAXW, MAXT = D_MAXT).* from "./core"

  pure val ANN = "alice"
  pure val BOB = "bob"
  pure val WHO: Set[str] = Set(ANN, BOB)
  pure def peer(u: str): str = if (u == ANN) BOB else ANN

  type Claim = { amt: int, ts: int }
  type S = { pool: Pool, orca: str -> int, x: str -> int, claims: (str, int) -> Claim, now: int, cool: int, auth: str }
  /// kind, who acts (signs), amount, claim index; `vic` is the person named in the accounts (differs from who: an attack)
  type Act = { k: str, who: str, vic: str, n: int, i: int }
  type Out = { ok: bool, codes: Set[int], s: S }

  // ------------------------------------------------------------------ transitions
  pure def okAll(cs: List[Cond]): bool = cs.select(c => not(c.ok)).length() == 0
  pure def codesIn(cs: List[Cond]): Set[int] = cs.foldl(Set(), (acc, c) => if (c.ok) acc else acc.union(Set(c.code)))
  pure def out(s: S, cs: List[Cond], t: S): Out = if (okAll(cs)) { ok: true, codes: Set(), s: t } else { ok: false, codes: codesIn(cs), s: s }
  pure def plus(m: str -> int, u: str, d: int): str -> int = m.setBy(u, v => v + d)
  pure def dropClaim(m: (str, int) -> Claim, k: (str, int)): (str, int) -> Claim =
    m.keys().exclude(Set(k)).mapBy(j => m.get(j))
  pure def hasClaim(s: S, k: (str, int)): bool = s.claims.keys().contains(k)

  pure def nxt(s: S, a: Act): Out = {
    val v = a.vic
    val signed = need(a.who == v, 6002, "sig")
    if (a.k == "stake")
      out(s, [signed, need(a.n <= D_MAXU - s.pool.vault, 14, "arith")].concat(stakeNeeds(s.pool, a.n, s.orca.get(v))),
        { ...s, pool: stakePool(s.pool, a.n), orca: plus(s.orca, v, -a.n), x: plus(s.x, v, stakeOut(s.pool, a.n)) })
    else if (a.k == "unstake")
      out(s, [signed, need(not(hasClaim(s, (v, a.i))), 6004, "inuse")].concat(unstakeNeeds(s.pool, a.n, s.x.get(v)))
              .concat(maturityNeeds(s.now, s.cool)),
        { ...s, pool: unstakePool(s.pool, a.n), x: plus(s.x, v, -a.n),
          claims: s.claims.put((v, a.i), { amt: unstakeOut(s.pool, a.n), ts: maturity(s.now, s.cool) }) })
    else if (a.k == "withdraw") {
      val c = if (hasClaim(s, (v, a.i))) s.claims.get((v, a.i)) else { amt: 0, ts: s.now }
      out(s, [signed, need(hasClaim(s, (v, a.i)), 6004, "noclaim"), need(hasClaim(s, (v, a.i)), 6007, "noclaim")].concat(redeemNeeds(s.pool, c.amt, c.ts, s.now)),
        { ...s, pool: redeemPool(s.pool, c.amt), orca: plus(s.orca, v, c.amt), claims: dropClaim(s.claims, (v, a.i)) })
    }
    else if (a.k == "donate")
      out(s, [need(a.n <= s.orca.get(v), 1, "funds"), need(s.pool.vault + a.n <= D_MAXU, 14, "arith")],
        { ...s, pool: { ...s.pool, vault: s.pool.vault + a.n }, orca: plus(s.orca, v, -a.n) })
    else if (a.k == "burn")
      out(s, [need(a.n <= s.x.get(v), 1, "funds")],
        { ...s, pool: { ...s.pool, supply: s.pool.supply - a.n }, x: plus(s.x, v, -a.n) })
    else if (a.k == "give")
      out(s, [need(a.n <= s.x.get(v), 1, "funds")], { ...s, x: plus(plus(s.x, v, -a.n), peer(v), a.n) })
    else if (a.k == "cooldown")
      out(s, [signed, need(a.vic == s.auth, 6006, "auth"), need(a.n >= 0, 6013, "negative")], { ...s, cool: a.n })
    else if (a.k == "authority")
      out(s, [signed, need(a.vic == s.auth, 6006, "auth")], { ...s, auth: peer(s.auth) })
    else
      out(s, [need(s.now < TIMES, 0, "clock")], { ...s, now: s.now + 1 })
  }

  pure def act(k: str, w: str, v: str, n: int, i: int): Act = { k: k, who: w, vic: v, n: n, i: i }
  pure val ACTS: Set[Act] =
    tuples(WHO, STAKES).map(t => act("stake", t._1, t._1, t._2, 0))
    .union(tuples(WHO, UNSTAKES, IDXS).map(t => act("unstake", t._1, t._1, t._2, t._3)))
    .union(tuples(WHO, WHO, IDXS).map(t => act("withdraw", t._1, t._2, 0, t._3)))
    .union(STAKES.map(n => act("donate", ANN, ANN, n, 0)))
    .union(UNSTAKES.map(n => act("give", ANN, ANN, n, 0)))
    .union(UNSTAKES.map(n => act("burn", BOB, BOB, n, 0)))
    .union(tuples(WHO, WHO, COOLS).map(t => act("cooldown", t._1, t._2, t._3, 0)))
    .union(tuples(WHO, WHO).map(t => act("authority", t._1, t._2, 0, 0)))
    .union(Set(act("stake", ANN, BOB, 1, 0), act("unstake", BOB, ANN, 1, 0), act("tick", ANN, ANN, 0, 0)))

  // ------------------------------------------------------------------ properties of one transition
  pure def if_(b: bool, p: str): Set[str] = if (b) Set(p) else Set()
  pure def owedIn(s: S): int = s.claims.keys().fold(0, (n, k) => n + s.claims.get(k).amt)
  pure def allOrca(s: S): int = s.pool.vault + WHO.fold(0, (n, u) => n + s.orca.get(u))
  pure def allX(s: S): int = WHO.fold(0, (n, u) => n + s.x.get(u))

  pure def broken(p: S, a: Act, o: Out): Set[str] = {
    val q = o.s
    val due = q.claims.keys().filter(k => q.claims.get(k).ts <= q.now)
    if_(q.pool.escrow != owedIn(q), "C01")
    .union(if_(not(covered(q.pool)), "C02"))
    .union(if_(p.pool.supply > 0 and q.pool.supply > 0 and not(priceLeq(p.pool, q.pool)), "C05"))
    // immediately undoing a stake into a live pool does not pay
    .union(if_(o.ok and a.k == "stake" and p.pool.supply > 0
               and unstakeOut(q.pool, stakeOut(p.pool, a.n)) > a.n, "C05"))
    // a claim keeps its amount and maturity until it is redeemed; its maturity was fixed when it was made
    .union(if_(p.claims.keys().intersect(q.claims.keys()).exists(k => p.claims.get(k) != q.claims.get(k)), "C06"))
    .union(if_(q.claims.keys().exclude(p.claims.keys()).exists(k => q.claims.get(k).ts != p.now + p.cool), "C06"))
    .union(if_(a.k == "withdraw" and o.ok and p.claims.get((a.vic, a.i)).ts > p.now, "C06"))
    // redemption: in full, to its owner, and the claim is gone
    .union(if_(a.k == "withdraw" and o.ok
               and (q.orca.get(a.vic) - p.orca.get(a.vic) != p.claims.get((a.vic, a.i)).amt
                    or p.pool.vault - q.pool.vault != p.claims.get((a.vic, a.i)).amt or hasClaim(q, (a.vic, a.i))), "C07"))
    // every claim that is due can be redeemed now by its owner, and after everyone else's due claims
    .union(if_(due.exists(k => not(nxt(q, act("withdraw", k._1, k._1, 0, k._2)).ok)), "C08"))
    .union(if_(due.exists(j => due.exists(k => j != k and
                 not(nxt(nxt(q, act("withdraw", j._1, j._1, 0, j._2)).s, act("withdraw", k._1, k._1, 0, k._2)).ok))), "C08"))
    .union(if_(WHO.exists(u => u != a.who and (q.orca.get(u) < p.orca.get(u) or q.x.get(u) < p.x.get(u)
                 or p.claims.keys().union(q.claims.keys()).exists(k => k._1 == u and
                      (hasClaim(p, k) != hasClaim(q, k) or p.claims.get(k) != q.claims.get(k))))), "C09"))
    .union(if_((p.cool != q.cool or p.auth != q.auth) and (a.who != p.auth or q.cool < 0
               or (p.cool != q.cool and p.auth != q.auth)), "C10"))
    .union(if_((a.k == "cooldown" or a.k == "authority") and a.who == p.auth and a.vic == p.auth and a.n >= 0 and not(o.ok), "C10"))
    .union(if_(allX(q) != q.pool.supply, "C14"))
    .union(if_(Set(q.pool.vault, q.pool.escrow, q.pool.supply).exists(v => v < 0 or v > D_MAXU)
               or q.claims.keys().exists(k => q.claims.get(k).ts > D_MAXT), "C14"))
    .union(if_(allOrca(p) != allOrca(q), "C17"))
    .union(if_(not(o.ok) and q != p, "C17"))
  }

  // ------------------------------------------------------------------ the whole graph
  const STARTS: Set[S]
  type Note = { a: Act, ok: bool, codes: Set[int] }
  var cur: S
  var note: Note               // the transition that led here (not part of the identity of a state)
  var wrong: Set[str]
  action init = {
    nondet s = STARTS.oneOf()
    all { cur' = s, note' = { a: act("tick", ANN, ANN, 0, 0), ok: true, codes: Set() }, wrong' = Set() }
  }
  action step = {
    nondet a = ACTS.oneOf()
    val o = nxt(cur, a)
    all { cur' = o.s, note' = { a: a, ok: o.ok, codes: o.codes }, wrong' = broken(cur, a, o) }
  }
  val sound: bool = wrong == Set()
}
