// -*- mode: Bluespec; -*-
/**
 * Layouts of accounts, instructions and events, derived addresses, the error table and the answers to queries, written
 * out byte by byte here, independently of the program and of its clients; and the drawing of inputs for them.
 */
module layout {
  pure val I64MAX: int = 9223372036854775807

  // ------------------------------------------------------------------ bytes
  /// B: literal bytes; K: the 32 bytes of an address; Z: n zero bytes
  type Piece = B(List[int]) | K(Ref) | Z(int)
  /// an address: 32 big-endian bytes of a number, a well-known program or mint, or derived from seeds
  type Ref = Key(int) | Known(str) | Derived(str)
  type Seeds = { prog: str, seeds: List[Piece] }

  /// v as n little-endian bytes (two's complement)
  pure def le(v: int, n: int): List[int] = {
    val u = if (v < 0) v + 2^(8 * n) else v
    range(0, n).foldl([], (acc, i) => acc.append(u / 2^(8 * i) % 256))
  }
  pure def text(name: str): List[int] =
    if (name == "state") [115, 116, 97, 116, 101]
    else [112, 101, 110, 100, 105, 110, 103, 95, 119, 105, 116, 104, 100, 114, 97, 119]

  // ------------------------------------------------------------------ addresses
  pure val stateSeeds: Seeds = { prog: "self", seeds: [B(text("state"))] }
  pure def claimSeeds(owner: int, idx: int): Seeds =
    { prog: "self", seeds: [B(text("pending_withdraw")), K(Key(owner)), B([idx])] }
  /// the associated token account of some owner, token program and mint
  pure def ataSeeds(owner: Ref, token: Ref, mint: Ref): Seeds = { prog: "ata", seeds: [K(owner), K(token), K(mint)] }
  pure val vaultSeeds: Seeds = ataSeeds(Derived("state"), Known("token"), Known("orca"))

  // ------------------------------------------------------------------ records
  type StateRec = { bump: int, vaultBump: int, escrow: int, cooldown: int, authority: int }
  type ClaimRec = { bump: int, idx: int, owner: int, amt: int, ts: int }
  type TokenRec = { mint: int, owner: int, amt: int, delegFlag: int, deleg: int, state: int, nativeFlag: int, native: int,
                    delegAmt: int, closeFlag: int, close: int }
  type MintRec = { authFlag: int, auth: int, supply: int, dec: int, init: int, freezeFlag: int, freeze: int }

  pure def stateBytes(s: StateRec): List[Piece] =
    [B([1, 0, 0, 0, 0, 0, s.bump, s.vaultBump].concat(le(s.escrow, 8)).concat(le(s.cooldown, 8))), K(Key(s.authority)), Z(1992)]
  pure def claimBytes(p: ClaimRec): List[Piece] =
    [B([2, 0, 0, 0, 0, 0, p.bump, p.idx]), K(Key(p.owner)), B(le(p.amt, 8).concat(le(p.ts, 8))), Z(968)]
  pure def tokenBytes(t: TokenRec): List[Piece] =
    [K(Key(t.mint)), K(Key(t.owner)), B(le(t.amt, 8).concat(le(t.delegFlag, 4))), K(Key(t.deleg)),
     B([t.state].concat(le(t.nativeFlag, 4)).concat(le(t.native, 8)).concat(le(t.delegAmt, 8)).concat(le(t.closeFlag, 4))),
     K(Key(t.close))]
  pure def mintBytes(m: MintRec): List[Piece] =
    [B(le(m.authFlag, 4)), K(Key(m.auth)), B(le(m.supply, 8).concat([m.dec, m.init]).concat(le(m.freezeFlag, 4))), K(Key(m.freeze))]
  pure val STATE_LEN = 2048
  pure val CLAIM_LEN = 1024
  pure val TOKEN_LEN = 165
  pure val MINT_LEN = 82

  // ------------------------------------------------------------------ instructions
  type Op = OStake(int) | OUnstake({ amt: int, idx: int }) | OWithdraw(int) | OInit(int) | OCooldown(int) | OAuthority(int)
  type CMeta = { a: int, s: bool, w: bool }
  pure def opData(o: Op): List[Piece] = match o {
    | OStake(n) => [B([0].concat(le(n, 8)))]
    | OUnstake(u) => [B([1].concat(le(u.amt, 8)).append(u.idx))]
    | OWithdraw(i) => [B([2, i])]
    | OInit(c) => [B([3].concat(le(c, 8)))]
    | OCooldown(c) => [B([4, 0].concat(le(c, 8)))]
    | OAuthority(k) => [B([4, 1]), K(Key(k))]
  }
  /// the accounts in order, with the rights the program requires: r reads, w writes, W signs and writes
  pure def opRights(o: Op): List[str] = match o {
    | OStake(_) => ["W", "w", "w", "w", "w", "r", "r", "r"]
    | OUnstake(_) => ["W", "w", "w", "w", "w", "r", "r", "r", "r"]
    | OWithdraw(_) => ["W", "w", "w", "w", "w", "r", "r", "r"]
    | OInit(_) => ["W", "W", "w", "w", "r", "r", "r", "r", "r"]
    | OCooldown(_) => ["W", "w"]
    | OAuthority(_) => ["W", "w"]
  }
  pure def opMetas(o: Op, ks: List[int]): List[CMeta] = {
    val r = opRights(o)
    range(0, r.length()).foldl([], (acc, i) => acc.append({ a: ks[i], s: r[i] == "W", w: r[i] != "r" }))
  }

  // ------------------------------------------------------------------ events
  type Ev = EStake(List[int]) | EUnstake(List[int]) | EWithdraw(List[int]) | EAuthority({ new: int, by: int })
  pure def u64s(xs: List[int]): List[int] = xs.foldl([], (acc, x) => acc.concat(le(x, 8)))
  pure def evBytes(e: Ev): List[Piece] = match e {
    | EStake(n) => [B([0].concat(u64s(n)))]
    | EUnstake(n) => [B([1].concat(u64s(n.slice(0, 6))).append(n[6]))]
    | EWithdraw(n) => [B([2].concat(u64s(n.slice(0, 3))).append(n[3]))]
    | EAuthority(a) => [B([3]), K(Key(a.new)), K(Key(a.by))]
  }

  // ------------------------------------------------------------------ error table
  type Err = { code: int, name: str, message: str }
  pure val ERRORS: List[Err] = [
    { code: 6000, name: "UnknownInstructionDiscriminator", message: "Unknown instruction discriminator" },
    { code: 6001, name: "IncorrectProgramId", message: "Incorrect program id" },
    { code: 6002, name: "InvalidAccountRole", message: "Invalid account role" },
    { code: 6003, name: "NotEnoughAccountKeys", message: "Not enough account keys" },
    { code: 6004, name: "IncorrectOwner", message: "Incorrect owner" },
    { code: 6005, name: "InvalidSeeds", message: "Invalid seeds" },
    { code: 6006, name: "IncorrectAccountAddress", message: "Invalid account address" },
    { code: 6007, name: "InvalidAccountData", message: "Invalid account data" },
    { code: 6008, name: "ArithmeticError", message: "Arithmetic error" },
    { code: 6009, name: "InsufficientFunds", message: "Insufficient funds error" },
    { code: 6010, name: "StateAccountAlreadyInitialized", message: "State account already initialized" },
    { code: 6011, name: "CoolDownPeriodStillActive", message: "Cool down period still active" },
    { code: 6012, name: "EmitEventError", message: "Event serialization failed" },
    { code: 6013, name: "InvalidCoolDownPeriod", message: "Invalid cooldown period: must be non-negative" },
    { code: 6014, name: "InsufficientStakeAmount", message: "Stake amount too small to mint any xORCA" },
    { code: 6015, name: "InsufficientUnstakeAmount", message: "Unstake amount too small to receive any ORCA" },
    { code: 6016, name: "InsufficientEscrow", message: "Insufficient escrow to cover withdraw amount" },
    { code: 6017, name: "CoolDownOverflow", message: "Cooldown timestamp overflowed" },
    { code: 6018, name: "InsufficientVaultBacking", message: "Insufficient vault backing (vault < escrow)" },
    { code: 6019, name: "UnauthorizedDeployerAccess", message: "Unauthorized deployer access" } ]

  // ------------------------------------------------------------------ queries
  /// what stands at an address: nothing, the record, lamports only (anyone can send them), or a record cut short
  type StateCell = SMissing | SRecord(StateRec) | SLamports | SShort(StateRec)
  type VaultCell = VMissing | VRecord({ mint: int, owner: int, amt: int }) | VLamports
  type SupplyCell = MMissing | MRecord(int)
  /// present claims in index order, and the indices whose address holds lamports only
  type Scene = { state: StateCell, vault: VaultCell, mint: SupplyCell, staker: int, claims: List[ClaimRec], lamports: List[int],
                 others: List[ClaimRec], down: bool }
  type Num = { ok: bool, v: int }
  type Answers = {
    state: { ok: bool, v: StateRec }, cooldown: Num, supply: Num,
    vault: { ok: bool, v: { mint: int, owner: int, amt: int } }, rate: { ok: bool, unspecified: bool, num: int, den: int },
    pending: { ok: bool, unspecified: bool, v: List[ClaimRec] }
  }
  pure val NOSTATE: StateRec = { bump: 0, vaultBump: 0, escrow: 0, cooldown: 0, authority: 0 }
  pure def answers(s: Scene, limit: int): Answers = {
    val state = match s.state { | SRecord(r) => { ok: not(s.down), v: r } | _ => { ok: false, v: NOSTATE } }
    val vault = match s.vault { | VRecord(r) => { ok: not(s.down), v: r } | _ => { ok: false, v: { mint: 0, owner: 0, amt: 0 } } }
    val supply = match s.mint { | MRecord(n) => { ok: not(s.down), v: n } | _ => { ok: false, v: 0 } }
    { state: state, vault: vault, supply: supply,
      cooldown: { ok: state.ok, v: state.v.cooldown },
      // a vault short of the escrow cannot arise; nothing is prescribed for it
      rate: { ok: state.ok and vault.ok and supply.ok, unspecified: state.ok and vault.ok and vault.v.amt < state.v.escrow,
              num: vault.v.amt - state.v.escrow, den: supply.v },
      // whether the node is asked at all when there is nothing to ask for is left open
      pending: { ok: not(s.down), unspecified: s.down and limit == 0, v: s.claims.select(c => c.idx < limit) } }
  }
  pure val DEFAULT_LIMIT = 15

  /// Fetching accounts by address.  What a fetch of one address finds: nothing, bytes that are no record, or the record.
  type Found = FNothing | FOther | FState(StateRec) | FClaim(ClaimRec)
  /// `some`: answers of the fetches that allow for missing accounts; `every`: of those that do not
  type Fetched = { some: { ok: bool, v: List[Found] }, every: { ok: bool, v: List[Found] } }
  pure def foundState(s: Scene): Found = match s.state { | SMissing => FNothing | SRecord(r) => FState(r) | _ => FOther }
  pure def foundClaim(s: Scene, i: int): Found =
    if (s.lamports.indices().exists(j => s.lamports[j] == i)) FOther
    else s.claims.foldl(FNothing, (acc, c) => if (c.idx == i) FClaim(c) else acc)
  pure def fetched(s: Scene, l: List[Found]): Fetched = {
    val readable = not(s.down) and l.indices().forall(i => match l[i] { | FOther => false | _ => true })
    val present = l.indices().forall(i => match l[i] { | FNothing => false | _ => true })
    { some: { ok: readable, v: l }, every: { ok: readable and present, v: l } }
  }
  /// the addresses asked for: claims of the staker at some indices, in any order, repeats allowed
  pure def picks(s: Scene, r: int): List[int] = {
    val d = dig(r, 30)
    val n = if (d % 8 == 0) 0 else if (d % 8 == 1) 100 else if (d % 8 < 5) 1 + d / 8 % 3 else 1 + d / 8 % 12
    val clear = range(0, 256).select(i => not(s.lamports.indices().exists(j => s.lamports[j] == i)))
    range(0, n).foldl([], (acc, i) => {
      val x = r / 2^(1500 + 17 * i) % 2^17
      val how = d / 2^10 % 4
      acc.append(if (how < 2 and s.claims.length() > 0) s.claims[x % s.claims.length()].idx
                 else if (how == 2) clear[x % clear.length()]
                 else x % 256) })
  }

  // ------------------------------------------------------------------ drawing inputs
  pure val W64: int = 2^64
  pure def dig(r: int, i: int): int = r / 2^(64 * i) % W64
  pure def key256(r: int): int =
    if (r % 32 == 0) 0 else if (r % 32 == 1) 2^256 - 1 else if (r % 32 == 2) 2^(8 * (r / 32 % 32)) * (r / 1024 % 256) else r / 32
  /// an unsigned amount: boundaries, powers of two, arbitrary
  pure def amount64(r: int): int = {
    val q = r / 8
    if (r % 8 == 0) [0, 1, 2, W64 - 1, W64 - 2, 2^63, 2^63 - 1, 2^32, 2^32 - 1, 2^53, 2^53 + 1, 255, 256, 65535, 65536][q % 15]
    else if (r % 8 < 3) 2^(q % 64) + q / 64 % 3 - (if (q % 64 > 1) 1 else 0)
    else if (r % 8 < 5) q % 2^(q % 61 + 1)
    else (r * 8 + q) % W64
  }
  pure def time(r: int): int = { val n = amount64(r) if (n > I64MAX) n - W64 else n }
  pure def byte(r: int): int = if (r % 8 == 0) 0 else if (r % 8 == 1) 255 else r / 8 % 256

  pure def drawState(r: int): StateRec =
    { bump: byte(dig(r, 0)), vaultBump: byte(dig(r, 0) / 2^16), escrow: amount64(dig(r, 1)), cooldown: time(dig(r, 2)),
      authority: key256(r / 2^192 % 2^261) }
  pure def drawClaim(r: int): ClaimRec =
    { bump: byte(dig(r, 0)), idx: byte(dig(r, 0) / 2^16), amt: amount64(dig(r, 1)), ts: time(dig(r, 2)),
      owner: key256(r / 2^192 % 2^261) }
  pure def flag(r: int): int = r % 2
  pure def drawToken(r: int): TokenRec =
    { mint: key256(r % 2^261), owner: key256(r / 2^261 % 2^261), amt: amount64(dig(r, 9)), delegFlag: flag(dig(r, 10)),
      deleg: key256(r / 2^700 % 2^261), state: dig(r, 10) / 2 % 3, nativeFlag: flag(dig(r, 10) / 8), native: amount64(dig(r, 16)),
      delegAmt: amount64(dig(r, 17)), closeFlag: flag(dig(r, 10) / 16), close: key256(r / 2^1152 % 2^261) }
  pure def drawMint(r: int): MintRec =
    { authFlag: flag(dig(r, 10)), auth: key256(r % 2^261), supply: amount64(dig(r, 9)), dec: byte(dig(r, 10) / 4),
      init: flag(dig(r, 10) / 2), freezeFlag: flag(dig(r, 10) / 2^20), freeze: key256(r / 2^700 % 2^261) }
  pure def cutOf(r: int, len: int): int =
    if (r % 4 == 0) len - 1 else if (r % 4 == 1) [0, 1, 2, 8, 16, 24, 32, 40, 56, 64][r / 4 % 10] else r / 4 % len

  /// 1: bits for one vector
  pure val BITS: int = 2048

  /// which of the 256 indices hold a claim: none, all, a prefix, a sparse or a dense set
  pure def presence(how: int, r: int): Set[int] = {
    val every = 0.to(255)
    if (how == 0) Set()
    else if (how == 1) every
    else if (how == 2) every.filter(i => i < r % 257)
    else if (how == 3) every.filter(i => r / 2^i % 2 == 0 and r / 2^(i + 1) % 4 == 0 and r / 2^(i + 300) % 2 == 0)
    else if (how == 4) every.filter(i => i < 20 and r / 2^i % 2 == 0)
    else if (how == 5) Set(0, 14, 15, 16, 99, 100, 101, 127, 128, 254, 255).filter(i => r / 2^i % 4 > 0)
    else every.filter(i => r / 2^i % 2 == 0)
  }
  pure def scene(r: int): Scene = {
    val d = dig(r, 0)
    val staker = key256(r / 2^64 % 2^261)
    val on = presence(d % 16, r / 2^330)
    val pre = if (d / 16 % 2 == 0) Set() else presence(3 + d / 32 % 3, r / 2^900).exclude(on)
    val esc = if (d / 256 % 8 == 0) 0 else amount64(dig(r, 8))
    val gap = amount64(dig(r, 9))
    val s = { ...drawState(r / 2^1200), escrow: esc }
    val amt = if (esc + gap > W64 - 1) W64 - 1 else esc + gap
    def claim(i) = { bump: byte(r / 2^(i + 40)), idx: i, owner: staker, amt: amount64(r / 2^(2 * i + 60) % W64), ts: time(r / 2^(2 * i + 130) % W64) }
    { state: if (d / 2^20 % 16 == 0) SMissing else if (d / 2^20 % 16 == 1) SLamports
             else if (d / 2^20 % 16 == 2) SShort(s) else SRecord(s),
      vault: if (d / 2^24 % 16 == 0) VMissing else if (d / 2^24 % 16 == 1) VLamports
             else VRecord({ mint: r / 2^100 % 2^256, owner: r / 2^200 % 2^256, amt: amt }),
      mint: if (d / 2^28 % 16 == 0) MMissing else MRecord(amount64(dig(r, 10))),
      staker: staker, down: d / 2^32 % 24 == 0,
      claims: range(0, 256).foldl([], (acc, i) => if (on.contains(i)) acc.append(claim(i)) else acc),
      lamports: range(0, 256).foldl([], (acc, i) => if (pre.contains(i)) acc.append(i) else acc),
      others: range(0, d / 2^40 % 3).foldl([], (acc, i) => {
        val o = key256(r / 2^(300 + i) % 2^261)
        acc.append({ ...claim(7 * i), owner: if (o == staker) (o + 1) % 2^256 else o }) }) }
  }
}
