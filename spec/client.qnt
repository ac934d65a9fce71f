// -*- mode: Bluespec; -*-
/**
 * What the client libraries must compute: addresses, instructions, account and event layouts, queries over a ledger, and
 * the error table.  Every step produces a batch of vectors, each an input together with the outcome this specification
 * prescribes; the client harness runs the Rust and the JavaScript client on the input and compares.
 */
module client {
  import layout.* from "./layout"

  // ------------------------------------------------------------------ vectors
  type Vector =
    | Address({ owner: int, idx: int, claim: Seeds, state: Seeds, vault: Seeds, token: int, mint: int, other: Seeds })
    | Instr({ op: Op, keys: List[int], extra: List[CMeta], metas: List[CMeta], data: List[Piece] })
    | StateV({ rec: StateRec, bytes: List[Piece], len: int, cut: int })
    | ClaimV({ rec: ClaimRec, bytes: List[Piece], len: int, cut: int })
    | TokenV({ rec: TokenRec, bytes: List[Piece], len: int, cut: int })
    | MintV({ rec: MintRec, bytes: List[Piece], len: int, cut: int })
    | EventV({ ev: Ev, bytes: List[Piece], cut: int })
    | ErrorV(Err)
    // limit -1: the caller gives none
    | QueryV({ scene: Scene, limit: int, want: Answers, picks: List[int], claims: Fetched, state: Fetched })

  var batch: List[Vector]

  pure def vAddress(r: int): Vector = {
    val owner = key256(r % 2^261)
    val idx = r / 2^300 % 256
    val token = if (r / 2^310 % 2 == 0) -1 else key256(r / 2^320 % 2^261)
    val mint = if (r / 2^311 % 2 == 0) -1 else key256(r / 2^600 % 2^261)
    Address({ owner: owner, idx: idx, claim: claimSeeds(owner, idx), state: stateSeeds, vault: vaultSeeds,
      token: token, mint: mint,
      other: ataSeeds(if (r / 2^312 % 2 == 0) Derived("state") else Key(owner),
                      if (token < 0) Known("token") else Key(token), if (mint < 0) Known("orca") else Key(mint)) })
  }
  pure def vOp(r: int): Op = {
    val a = dig(r, 1) val b = dig(r, 2) val c = dig(r, 0) % 6
    if (c == 0) OStake(amount64(a)) else if (c == 1) OUnstake({ amt: amount64(a), idx: byte(b) })
    else if (c == 2) OWithdraw(byte(b)) else if (c == 3) OInit(time(a)) else if (c == 4) OCooldown(time(a))
    else OAuthority(key256(r / 2^192 % 2^261))
  }
  pure def vInstr(r: int): Vector = {
    val op = vOp(r)
    val n = opRights(op).length()
    // account keys: distinct, now and then repeated
    val ks = range(0, n).foldl([], (acc, i) => {
      val d = r / 2^(500 + 8 * i) % 2^8
      acc.append(if (d == 0 and i > 0) acc[0] else (r / 2^(600 + 29 * i) % 2^256) + 1) })
    val extra = range(0, if (dig(r, 31) % 4 > 0) 0 else dig(r, 31) / 4 % 3).foldl([], (acc, i) =>
      acc.append({ a: r / 2^(900 + i) % 2^256, s: dig(r, 30) / 2^i % 2 == 0, w: dig(r, 30) / 2^i % 2 == 0 }))
    Instr({ op: op, keys: ks, extra: extra, metas: opMetas(op, ks), data: opData(op) })
  }
  pure def vRecord(r: int): Vector = {
    val q = r / 16
    val how = r % 16
    if (how < 6) { val s = drawState(q) StateV({ rec: s, bytes: stateBytes(s), len: STATE_LEN, cut: cutOf(dig(q, 31), STATE_LEN) }) }
    else if (how < 12) { val p = drawClaim(q) ClaimV({ rec: p, bytes: claimBytes(p), len: CLAIM_LEN, cut: cutOf(dig(q, 31), CLAIM_LEN) }) }
    else if (how < 14) { val t = drawToken(q) TokenV({ rec: t, bytes: tokenBytes(t), len: TOKEN_LEN, cut: cutOf(dig(q, 31), TOKEN_LEN) }) }
    else { val m = drawMint(q) MintV({ rec: m, bytes: mintBytes(m), len: MINT_LEN, cut: cutOf(dig(q, 31), MINT_LEN) }) }
  }
  pure def vEvent(r: int): Vector = {
    val n = range(1, 6).foldl([], (acc, i) => acc.append(amount64(dig(r, i))))
    val c = dig(r, 0) % 4
    val e = if (c == 0) EStake(n) else if (c == 1) EUnstake(n.append(time(dig(r, 6))).append(byte(dig(r, 7))))
            else if (c == 2) EWithdraw([n[0], n[1], time(dig(r, 6)), byte(dig(r, 7))])
            else EAuthority({ new: key256(r / 2^512 % 2^261), by: key256(r / 2^1024 % 2^261) })
    EventV({ ev: e, bytes: evBytes(e), cut: dig(r, 30) })
  }

  pure def vQuery(r: int): Vector = {
    val s = scene(r)
    val l = dig(r, 29)
    val limit = if (l % 8 == 0) -1
                else if (l % 8 < 4) [0, 1, 2, 14, 15, 16, 17, 99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255][l / 8 % 18]
                else if (l % 8 < 6) l / 8 % 32 else l / 8 % 256
    val ps = picks(s, r)
    QueryV({ scene: s, limit: limit, want: answers(s, if (limit < 0) DEFAULT_LIMIT else limit), picks: ps,
             claims: fetched(s, ps.foldl([], (acc, i) => acc.append(foundClaim(s, i)))), state: fetched(s, [foundState(s)]) })
  }

  pure def fill(n: int, r: int, f: (int) => Vector): List[Vector] =
    range(0, n).foldl([], (acc, i) => acc.append(f(r / 2^(BITS * i) % 2^BITS)))

  val noViolation: bool = true
  action init = batch' = []
  action stepAddress = { nondet r = 0.to(2^(BITS * 20) - 1).oneOf() batch' = fill(20, r, (x) => vAddress(x)) }
  action stepInstr = { nondet r = 0.to(2^(BITS * 20) - 1).oneOf() batch' = fill(20, r, (x) => vInstr(x)) }
  action stepRecord = { nondet r = 0.to(2^(BITS * 20) - 1).oneOf() batch' = fill(20, r, (x) => vRecord(x)) }
  action stepEvent = { nondet r = 0.to(2^(BITS * 20) - 1).oneOf() batch' = fill(20, r, (x) => vEvent(x)) }
  action stepQuery = { nondet r = 0.to(2^BITS - 1).oneOf() batch' = fill(1, r, (x) => vQuery(x)) }
  action stepErrors = batch' = ERRORS.foldl([], (acc, e) => acc.append(ErrorV(e)))

  /// every index of one staker per step
  action stepAll = {
    nondet r = 0.to(2^261 - 1).oneOf()
    batch' = range(0, 256).foldl([], (acc, i) => acc.append(Address({ owner: key256(r), idx: i, claim: claimSeeds(key256(r), i),
        state: stateSeeds, vault: vaultSeeds, token: -1, mint: -1, other: vaultSeeds })))
  }
  action step = stepErrors
}
