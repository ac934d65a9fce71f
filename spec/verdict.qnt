// -*- mode: Bluespec; -*-
/**
 * Which properties does one observed step violate?
 *
 * `lost(pre, signers, post)` judges a step by itself, without reference to the transition rules: the conservation,
 * solvency, price and authority properties.  It must be empty for every step the specification itself takes (the
 * simulator checks that as an invariant), and it is evaluated on steps of the implementation.
 *
 * `verdict(pre, ixs, obs, post)` judges an observed step of the implementation against what the specification says
 * must happen: which request was wrongly accepted or refused and why, which balances, records and events deviate.
 */
module verdict {
  import ledger.* from "./ledger"

  type Obs = { ok: bool, idx: int, code: int, ev: List[Event] }

  // ------------------------------------------------------------------ state-level properties
  pure def claimAddrs(l: Ledger): Set[Addr] =
    l.accts.keys().filter(a => a._1 == "pend" and l.accts.get(a).prog == SELF and pen(l.accts.get(a)).is)
  pure def owed(l: Ledger): int = claimAddrs(l).fold(0, (n, a) => n + pen(l.accts.get(a)).d.amt)
  pure def orcaTotal(l: Ledger): int =
    l.accts.keys().fold(0, (n, a) => {
      val t = tok(l.accts.get(a))
      if (t.is and t.d.mint == ORCA and l.accts.get(a).prog == TOKEN) n + t.d.amt else n
    })
  pure def gap(p: { vault: int, escrow: int, supply: int }): int = p.vault - p.escrow
  pure def coveredPool(p: { vault: int, escrow: int, supply: int }): bool =
    p.vault >= p.escrow and (p.supply == 0 or p.vault - p.escrow >= p.supply)
  pure def noCheaper(p: { vault: int, escrow: int, supply: int }, q: { vault: int, escrow: int, supply: int }): bool =
    (gap(p) + 100) * (q.supply + 100) <= (gap(q) + 100) * (p.supply + 100)
  pure def if_(b: bool, s: Set[str]): Set[str] = if (b) s else Set()

  /// what a token account or claim may not lose without its owner's signature
  pure def robbed(pre: Ledger, signers: Set[Addr], post: Ledger): bool =
    pre.accts.keys().union(post.accts.keys()).exists(a => {
      val x = acct(pre, a)
      val y = acct(post, a)
      if (x == y) false
      else if (a._1 == "pend")
        ((x.prog == SELF) or (y.prog == SELF)) and not(signers.contains(("w", a._2, 0)))
          and (x.data != y.data or x.prog != y.prog or x.lam > y.lam)
      else if (a._1 == "w") x.lam > y.lam and not(signers.contains(a))
      else if (tok(x).is and x.prog == TOKEN and tok(x).d.owner._1 == "w" and not(signers.contains(tok(x).d.owner)))
        not(tok(y).is) or tok(y).d.amt < tok(x).d.amt or tok(y).d != { ...tok(x).d, amt: tok(y).d.amt }
      else false
    })

  pure def lost(pre: Ledger, signers: Set[Addr], post: Ledger): Set[str] = {
    val a = pool(pre)
    val b = pool(post)
    val live = initialized(pre) and initialized(post)
    if_(live and owed(post) - owed(pre) != b.escrow - a.escrow, Set("C01"))
    .union(if_(not(initialized(pre)) and initialized(post) and b.escrow != owed(post), Set("C01")))
    .union(if_(live and not(pre.deg) and coveredPool(a) and not(coveredPool(b)), Set("C02")))
    .union(if_(live and not(pre.deg) and coveredPool(a) and a.supply > 0 and b.supply > 0
               and (gap(b) < 0 or not(noCheaper(a, b))), Set("C05")))
    .union(if_(live and not(pre.deg) and owed(pre) <= a.escrow and a.escrow <= a.vault
               and (owed(post) > b.escrow or owed(post) > b.vault), Set("C08")))
    .union(if_(robbed(pre, signers, post), Set("C09")))
    .union(if_(live and (st(post).cooldown != st(pre).cooldown or st(post).authority != st(pre).authority)
               and (not(signers.contains(st(pre).authority)) or (st(post).cooldown < 0)), Set("C10")))
    .union(if_(orcaTotal(pre) != orcaTotal(post), Set("C17")))
  }

  // ------------------------------------------------------------------ true events of an observed instruction
  pure def truth(pre: Ledger, ix: Ix, post: Ledger): List[Event] =
    if (ix.prog != SELF) []
    else {
      val a = pool(pre)
      val b = pool(post)
      match meaning(ix.call) {
        | Stake(n) => [{ kind: "Stake", nums: [n, b.vault, b.escrow, b.supply, b.supply - a.supply], who: [] }]
        | Unstake(u) => [{ kind: "Unstake",
            nums: [u.amt, b.vault, b.escrow, b.supply, pen(acct(post, slot(ix, 2))).d.amt, st(post).cooldown, u.idx],
            who: [] }]
        | Withdraw(i) => [{ kind: "Withdraw",
            nums: [b.escrow, pen(acct(pre, slot(ix, 2))).d.amt, st(post).cooldown, i], who: [] }]
        | SetAuthority(k) => [{ kind: "UpdateAuthoritySet", nums: [], who: [st(post).authority, st(pre).authority] }]
        | _ => []
      }
    }

  // ------------------------------------------------------------------ wrong acceptance, by the ignored reason
  pure def kindOf(ix: Ix): str =
    if (ix.prog != SELF and ix.prog != CLONE) "other"
    else match meaning(ix.call) {
      | Stake(_) => "stake" | Unstake(_) => "unstake" | Withdraw(_) => "withdraw" | Init(_) => "init"
      | SetCooldown(_) => "set" | SetAuthority(_) => "set" | _ => "garbage" }

  pure def acceptedDespite(kind: str, whys: Set[str], codes: Set[int]): Set[str] =
    whys.map(w =>
      if (w == "sig") (if (kind == "set") Set("C10", "C12", "C09") else if (kind == "init") Set("C11", "C12", "C09")
                       else Set("C09", "C12"))
      else if (w == "owner") Set("C09", "C12")
      else if (w == "role" or w == "count" or w == "acct" or w == "canon") Set("C12")
      else if (w == "funds" or w == "zero" or w == "inuse")
        (if (kind == "stake") Set("C03") else if (kind == "unstake") Set("C04") else Set())
      else if (w == "arith") Set("C14").union(if_(codes.contains(6017), Set("C06")))
                                       .union(if_(codes.contains(6016), Set("C02")))
      else if (w == "early") Set("C06")
      else if (w == "noclaim") Set("C07", "C12")
      else if (w == "auth") Set("C10")
      else if (w == "negative") (if (kind == "init") Set("C11", "C10") else Set("C10"))
      else if (w == "deployer" or w == "again" or w == "mint") (if (kind == "init") Set("C11") else Set("C12"))
      else if (w == "decode" or w == "progid") Set("C16")
      else if (w == "rent") Set("C13")
      else Set()).flatten()

  // ------------------------------------------------------------------ wrong refusal
  pure def prefunded(l: Ledger, ix: Ix): bool =
    if (kindOf(ix) == "unstake") acct(l, slot(ix, 2)).lam > 0
    else if (kindOf(ix) == "init") acct(l, slot(ix, 2)).lam > 0 or acct(l, slot(ix, 3)).lam > 0
    else false
  pure def refused(l: Ledger, ix: Ix, code: int): Set[str] = {
    val k = kindOf(ix)
    if_(k != "other", Set("C23"))
    .union(if_(k == "stake", Set("C03"))).union(if_(k == "unstake", Set("C04")))
    .union(if_(k == "withdraw", Set("C08"))).union(if_(k == "init", Set("C11"))).union(if_(k == "set", Set("C10")))
    .union(if_(prefunded(l, ix), Set("C13")))
    .union(if_(k == "withdraw" and code == 6011, Set("C06")))
    .union(if_(k == "unstake" and code == 6017, Set("C06")))
    .union(if_(code == 6000 or code == 6001, Set("C16")))
    .union(if_(code == 6005 and k != "other", Set("C19")))
    .union(if_(code >= 6000 and code <= 6007 and k != "other", Set("C20")))
  }

  // ------------------------------------------------------------------ deviating effects of an accepted transaction
  pure def has(ixs: List[Ix], k: str): bool = ixs.select(ix => kindOf(ix) == k).length() > 0

  pure def deviations(pre: Ledger, ixs: List[Ix], want: Ledger, post: Ledger): Set[str] = {
    val signers = rights(ixs).signers
    val single = ixs.length() == 1
    val stakes = has(ixs, "stake") val unstakes = has(ixs, "unstake") val redeems = has(ixs, "withdraw")
    val inits = has(ixs, "init") val sets = has(ixs, "set")
    val ops = if_(stakes, Set("C03")).union(if_(unstakes, Set("C04"))).union(if_(redeems, Set("C07")))
    val big = pre.deg or pre.accts.keys().exists(a => tok(acct(pre, a)).is and tok(acct(pre, a)).d.amt >= 4294967296)
              or supplyOf(pre) >= 4294967296
    val ids = pre.accts.keys().union(post.accts.keys()).union(want.accts.keys())
    ids.filter(a => acct(want, a) != acct(post, a)).map(a => {
      val w = acct(want, a)
      val y = acct(post, a)
      val x = acct(pre, a)
      val stray = if_(x == w, Set("C17"))
      if (a == STATE) {
        val s = sta(w).d
        val t = sta(y).d
        stray
        .union(if_(sta(w).is and not(sta(y).is), Set("C17", "C21", "C10")))
        .union(if_(sta(w).is and sta(y).is and s.escrow != t.escrow,
                   (if (unstakes) Set("C04") else Set()).union(if_(redeems, Set("C07"))).union(if_(big, Set("C14")))
                   .union(if_(not(unstakes) and not(redeems), Set("C01", "C17")))))
        .union(if_(sta(w).is and sta(y).is and (s.cooldown != t.cooldown or s.authority != t.authority),
                   if (inits) Set("C11") else Set("C10", "C17")))
        .union(if_(inits, Set("C11")))
        .union(if_(s.canon != t.canon, Set("C12", "C17", "C08")))
        .union(if_(w.lam != y.lam, if (inits) Set("C13") else Set("C17")))
      }
      else if (a._1 == "pend") {
        val c = pen(w)
        val d = pen(y)
        stray
        .union(if_(x == w and x.prog == SELF, Set("C09")))
        .union(if_(x != w and w.prog == SELF and not(d.is), Set("C04", "C21")))
        .union(if_(x.prog == SELF and w.prog != SELF, Set("C07")))
        .union(if_(c.is and d.is and c.d.amt != d.d.amt, Set("C04").union(if_(big, Set("C14")))
                                                       .union(if_(single and unstakes, Set("C18")))))
        .union(if_(c.is and d.is and c.d.ts != d.d.ts, Set("C06").union(if_(pre.deg or big, Set("C14")))))
        .union(if_(c.is and d.is and (c.d.owner != d.d.owner or c.d.idx != d.d.idx), Set("C04", "C08")))
        .union(if_(c.is and d.is and c.d.canon != d.d.canon, Set("C08")))
        .union(if_(w.lam != y.lam, if (x.prog == SELF and x == w) Set("C17") else Set("C13")))
      }
      else if (a._1 == "w")
        stray.union(if_(w.lam != y.lam, if_(unstakes or inits, Set("C13")).union(if_(redeems, Set("C07")))
                                        .union(if_(not(unstakes or inits or redeems), Set("C17")))))
      else if (tok(w).is or tok(y).is or mnt(w).is or mnt(y).is)
        stray.union(ops).union(if_(big, Set("C14")))
        .union(if_(inits, Set("C11")))
        .union(if_(a == XORCA and single and stakes, Set("C18")))
        .union(if_(not(stakes or unstakes or redeems or inits), Set("C17")))
        .union(if_((tok(w).is and tok(w).d.owner._1 == "w" and not(signers.contains(tok(w).d.owner))), Set("C09")))
      else Set("C17")
    }).flatten()
  }

  /// staking into a live pool and taking everything back at once must not pay
  pure def roundTrip(pre: Ledger, ixs: List[Ix], post: Ledger): Set[str] =
    if (ixs.length() != 1 or pre.deg) Set()
    else {
      val a = pool(pre)
      val b = pool(post)
      match meaning(ixs[0].call) {
        | Stake(n) =>
            if_(initialized(pre) and coveredPool(a) and a.supply > 0 and b.supply > a.supply and gap(b) > 0
                and (b.supply - a.supply) * (gap(b) + 100) / (b.supply + 100) > n, Set("C05"))
        | _ => Set()
      }
    }

  pure def matureTime(pre: Ledger, ixs: List[Ix], post: Ledger): Set[str] =
    if_(ixs.length() == 1 and kindOf(ixs[0]) == "unstake" and initialized(pre)
        and claimAddrs(post).exists(a => not(claimAddrs(pre).contains(a))
              and pen(acct(post, a)).d.ts != pre.now + st(pre).cooldown), Set("C06"))

  // ------------------------------------------------------------------ the verdict
  pure def upTo(l: Ledger, ixs: List[Ix], k: int): Ledger =
    range(0, k).foldl(l, (acc, i) => execIx(acc, rights(ixs), ixs[i]).led)

  pure def verdict(pre: Ledger, ixs: List[Ix], obs: Obs, post: Ledger): Set[str] = {
    val exp = execTx(pre, ixs)
    val n = ixs.length()
    val signers = rights(ixs).signers
    val at = if (exp.idx < obs.idx) exp.idx else obs.idx      // the first instruction that is treated differently
    val judged =
      if (obs.ok and exp.ok)
        deviations(pre, ixs, exp.led, post)
      else if (obs.ok)
        acceptedDespite(if (exp.idx < n) kindOf(ixs[exp.idx]) else "", exp.whys, exp.codes)
      else {
        val changed = if_(pre.accts != post.accts, Set("C17", "C12"))
        val here =
          if (not(exp.ok) and exp.idx < obs.idx)
            acceptedDespite(kindOf(ixs[exp.idx]), exp.whys, exp.codes)
          else if (exp.ok or exp.idx > obs.idx)
            (if (at < n) refused(upTo(pre, ixs, at), ixs[at], obs.code) else Set("C13"))
          else if (exp.codes.contains(obs.code)) Set()
          else if_(at < n and kindOf(ixs[at]) != "other",
                 Set("C23").union(if_(exp.whys.contains("decode") or exp.whys.contains("progid")
                                      or obs.code == 6000 or obs.code == 6001, Set("C16"))))
        changed.union(here)
      }
    judged
    .union(if_(obs.code == -3, Set("C14", "C23")))
    .union(if (obs.ok) lost(pre, signers, post).union(roundTrip(pre, ixs, post)).union(matureTime(pre, ixs, post))
           else Set())
    .union(if_(obs.ok and n == 1 and obs.ev != truth(pre, ixs[0], post), Set("C15")))
    .union(if_(obs.ok and exp.ok and n != 1 and exp.led.accts == post.accts and obs.ev != exp.ev, Set("C15")))
  }
}
