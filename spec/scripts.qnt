// -*- mode: Bluespec; -*-
/**
 * What the operator scripts (ts-scripts) must do: the transaction each command line asks for on a given ledger, and the
 * figures the two reports must show.  Every step produces a batch of command lines with a ledger and the prescribed
 * outcome; the harness runs the script on stand-ins that serve the ledger and record what is sent and printed.
 */
module scripts {
  import layout.* from "./layout"

  // ------------------------------------------------------------------ ledgers
  type Place = At(Ref) | Pda(Seeds)
  type Account = { at: Place, owner: str, data: List[Piece] }
  pure val stateAt: Place = Pda(stateSeeds)
  pure val vaultAt: Place = Pda(vaultSeeds)
  pure def claimAt(k: int, idx: int): Place = Pda(claimSeeds(k, idx))
  pure def ataAt(owner: Ref, mint: str): Place = Pda(ataSeeds(owner, Known("token"), Known(mint)))
  /// a token account: mint, owner, balance; no delegate, initialized, not native, no close authority
  pure def tokens(at: Place, owner: Ref, mint: str, amt: int): Account =
    { at: at, owner: "token", data: [K(Known(mint)), K(owner), B(le(amt, 8)), Z(36), B([1]), Z(56)] }
  pure def mintAcct(auth: Ref, supply: int): Account =
    { at: At(Known("xorca")), owner: "token", data: [B([1, 0, 0, 0]), K(auth), B(le(supply, 8).concat([6, 1])), Z(36)] }
  pure def stateAcct(s: StateRec): Account = { at: stateAt, owner: "self", data: stateBytes(s) }
  pure def claimAcct(p: ClaimRec): Account = { at: claimAt(p.owner, p.idx), owner: "self", data: claimBytes(p) }
  /// an address somebody sent lamports to
  pure def lamportsAt(at: Place): Account = { at: at, owner: "system", data: [] }

  // ------------------------------------------------------------------ command lines and transactions
  /// the file holding a wallet, a number in decimal, an address, a word
  type Arg = Wallet(Ref) | Dec(int) | Pub(Ref) | Word(str)
  type Meta = { a: Place, s: bool, w: bool }
  type SIx = Call({ prog: Ref, metas: List[Meta], data: List[Piece] })
           // creation of the associated token account, paid by `payer`
           | NewAta({ payer: Ref, owner: Ref, mint: str })
  /// Must: exactly this transaction is sent.  May: this one or none.  Never: none.
  type Rule = Must | May | Never
  type Tx = { rule: Rule, ixs: List[SIx], payer: Ref }
  pure def never(w: Ref): Tx = { rule: Never, ixs: [], payer: w }

  pure def meta(right: str, a: Place): Meta = { a: a, s: right == "W" or right == "R", w: right == "W" or right == "w" }
  pure def program(o: Op, places: List[Place]): SIx = {
    val r = opRights(o)
    Call({ prog: Known("self"), data: opData(o), metas: range(0, r.length()).foldl([], (acc, i) => acc.append(meta(r[i], places[i]))) })
  }
  pure def known(n: str): Place = At(Known(n))
  pure def transfer(w: Ref, from: Place, dest: Place, amt: int): SIx =
    Call({ prog: Known("token"), data: [B([3].concat(le(amt, 8)))], metas: [meta("w", from), meta("w", dest), meta("R", At(w))] })
  pure def unlessHeld(held: bool, ix: SIx): List[SIx] = if (held) [] else [ix]
  pure def u64ok(n: int): bool = 0 <= n and n < W64
  pure def u8ok(n: int): bool = 0 <= n and n < 256

  // ------------------------------------------------------------------ what each script sends
  /// balances are -1 for an account that does not exist
  type Scene2 = { wallet: int, orca: int, xorca: int, state: bool, vault: int, claim: bool, claimFull: bool, ready: bool,
                  rcptOrca: int, mintAuth: Ref, mint: bool }
  pure def sends(s: Scene2, c: { amt: int, idx: int, n: int, rcpt: Ref, oncurve: bool, authority: Ref, deployer: Ref }, script: str): Tx = {
    val w = Key(s.wallet)
    val me = At(w)
    val myOrca = ataAt(w, "orca")
    val myXorca = ataAt(w, "xorca")
    if (script == "stake")
      if (not(u64ok(c.amt)) or s.orca < c.amt or s.orca < 0) never(w)
      else { rule: if (c.amt == 0) May else Must, payer: w,
             ixs: unlessHeld(s.xorca >= 0, NewAta({ payer: w, owner: w, mint: "xorca" })).append(
               program(OStake(c.amt), [me, vaultAt, myOrca, myXorca, known("xorca"), stateAt, known("orca"), known("token")])) }
    else if (script == "unstake")
      if (not(u64ok(c.amt)) or not(u8ok(c.idx)) or s.xorca < c.amt or s.xorca < 0) never(w)
      else { rule: if (c.amt == 0) May else Must, payer: w,
             ixs: unlessHeld(s.orca >= 0, NewAta({ payer: w, owner: w, mint: "orca" })).append(
               program(OUnstake({ amt: c.amt, idx: c.idx }),
                 [me, stateAt, claimAt(s.wallet, c.idx), myXorca, known("xorca"), known("orca"), vaultAt, known("system"), known("token")])) }
    else if (script == "withdraw")
      if (not(u8ok(c.idx)) or not(s.claim) or not(s.claimFull)) never(w)
      else { rule: if (s.ready) Must else May, payer: w,
             ixs: unlessHeld(s.orca >= 0, NewAta({ payer: w, owner: w, mint: "orca" })).append(
               program(OWithdraw(c.idx),
                 [me, stateAt, claimAt(s.wallet, c.idx), myOrca, vaultAt, known("orca"), known("system"), known("token")])) }
    else if (script == "initialize")
      if (c.deployer != Known("deployer") or c.n > I64MAX or c.n < -I64MAX - 1) never(c.deployer)
      else { rule: if (c.n < 0 or s.state) May else Must, payer: c.deployer,
             ixs: [program(OInit(c.n), [At(c.deployer), At(c.authority), stateAt, vaultAt, known("xorca"), known("orca"),
                                         known("system"), known("token"), known("ata")])] }
    else if (script == "set-cooldown")
      if (not(s.state) or c.n < 0 or c.n > I64MAX) never(w)
      else { rule: Must, payer: w, ixs: [program(OCooldown(c.n), [me, stateAt])] }
    else if (script == "set-authority")
      if (not(s.state)) never(w)
      else { rule: Must, payer: w,
             ixs: [Call({ prog: Known("self"), data: [B([4, 1]), K(c.rcpt)], metas: [meta("W", me), meta("w", stateAt)] })] }
    else if (script == "transfer-orca")
      if (not(u64ok(c.amt)) or s.orca < c.amt or s.orca < 0) never(w)
      // only wallets are sure to be able to hold tokens
      else { rule: if (c.amt > 0 and c.oncurve) Must else May, payer: w,
             ixs: unlessHeld(s.rcptOrca >= 0, NewAta({ payer: w, owner: c.rcpt, mint: "orca" })).append(
               transfer(w, myOrca, ataAt(c.rcpt, "orca"), c.amt)) }
    else if (script == "transfer-orca-to-vault")
      if (not(u64ok(c.amt)) or s.orca < c.amt or s.orca < 0 or s.vault < 0) never(w)
      else { rule: if (c.amt > 0) Must else May, payer: w, ixs: [transfer(w, myOrca, vaultAt, c.amt)] }
    else // update-xorca-mint-authority
      { rule: if (s.mint and s.mintAuth == w) Must else May, payer: w,
        ixs: [Call({ prog: Known("token"), data: [B([6, 0, 1]), K(Derived("state"))], metas: [meta("w", known("xorca")), meta("R", me)] })] }
  }

  pure val SCRIPTS = ["stake", "unstake", "withdraw", "initialize", "set-cooldown", "set-authority", "transfer-orca",
                      "transfer-orca-to-vault", "update-xorca-mint-authority"]

  // ------------------------------------------------------------------ what the reports show
  /// a length of time, in the two largest units that apply
  type Span = { unit: str, a: int, b: int, exact: bool }
  pure def span(n: int): Span =
    { unit: if (n < 60) "s" else if (n < 3600) "ms" else if (n < 86400) "hm" else "dh",
      a: if (n < 60) n else if (n < 3600) n / 60 else if (n < 86400) n / 3600 else n / 86400,
      b: if (n < 60) 0 else if (n < 3600) n % 60 else if (n < 86400) n % 3600 / 60 else n % 86400 / 3600,
      // beyond what the script's numbers can hold, and for claims of the future, nothing is prescribed
      exact: 0 <= n and n < 2^53 }
  type Row = { idx: int, at: Place, amt: int, ready: bool, created: int, elapsed: Span, left: Span }
  type Listing = { shown: bool, rows: List[Row], ready: int, waiting: int, readyTotal: int, waitingTotal: int }
  pure def row(p: ClaimRec, now: int, cooldown: int): Row =
    { idx: p.idx, at: claimAt(p.owner, p.idx), amt: p.amt, ready: now >= p.ts, created: p.ts - cooldown,
      elapsed: span(now - (p.ts - cooldown)), left: span(if (now >= p.ts) now - p.ts else p.ts - now) }
  pure def listing(state: bool, now: int, cooldown: int, claims: List[ClaimRec]): Listing = {
    val rows = claims.foldl([], (acc, p) => acc.append(row(p, now, cooldown)))
    def total(f) = rows.foldl(0, (acc, x) => if (x.ready == f) acc + x.amt else acc)
    def count(f) = rows.foldl(0, (acc, x) => if (x.ready == f) acc + 1 else acc)
    { shown: state, rows: rows, ready: count(true), waiting: count(false), readyTotal: total(true), waitingTotal: total(false) }
  }
  /// shown: the configuration; rated: the pool and the price of one share in ORCA, num / den
  type Status = { shown: bool, rated: bool, rec: StateRec, vault: int, free: int, supply: int, num: int, den: int }

  /// `lasts` requests from the one numbered `at` (from 0) fail; at = -1: none.  If a request failed, a script sends what is
  /// wanted or nothing, a report shows what is wanted or leaves it out.
  type Fault = { at: int, lasts: int }
  pure def fault(r: int, requests: int): Fault =
    if (r % 4 == 0) { at: r / 8 % requests, lasts: if (r / 64 % 4 == 0) 1000 else 1 + r / 256 % 2 } else { at: -1, lasts: 0 }

  // ------------------------------------------------------------------ key files and uploads
  /// The text given as a key: hexadecimal digits (-1: some other character), then, if `pub`, the public key that belongs to
  /// the first 32 bytes, then more digits.
  type KeyText = { digits: List[int], pub: bool, rest: List[int] }
  pure def digitsOf(bytes: List[int]): List[int] = bytes.foldl([], (acc, b) => acc.concat([b / 16, b % 16]))
  pure def isHex(ds: List[int]): bool = ds.foldl(true, (acc, x) => acc and x >= 0)
  /// a private key, or a private key and the public key that belongs to it
  pure def spellsKey(t: KeyText): bool =
    isHex(t.digits) and t.digits.length() == 64 and t.rest == []
  type KeyFile = { written: bool, seed: List[int], file: str }

  /// what a file name ending in `.` and this text holds
  pure val TYPES: List[{ ext: str, is: str }] = [
    { ext: "png", is: "image/png" }, { ext: "jpg", is: "image/jpeg" }, { ext: "jpeg", is: "image/jpeg" }, { ext: "gif", is: "image/gif" },
    { ext: "webp", is: "image/webp" }, { ext: "svg", is: "image/svg+xml" }, { ext: "bmp", is: "image/bmp" }, { ext: "tiff", is: "image/tiff" },
    { ext: "tif", is: "image/tiff" }, { ext: "ico", is: "image/x-icon" }, { ext: "PNG", is: "image/png" }, { ext: "Jpeg", is: "image/jpeg" },
    { ext: "GIF", is: "image/gif" }, { ext: "txt", is: "application/octet-stream" }, { ext: "png2", is: "application/octet-stream" },
    { ext: "png.bin", is: "application/octet-stream" }, { ext: "bin.png", is: "image/png" }]
  /// the network named, "" if none is
  pure val NETWORKS: List[{ name: str, url: str }] = [
    { name: "", url: "https://node1.irys.xyz" }, { name: "mainnet", url: "https://node1.irys.xyz" },
    { name: "devnet", url: "https://devnet.irys.xyz" }, { name: "testnet", url: "" }, { name: "Mainnet", url: "" }]
  /// the key file: 64 numbers, too few, too many, no list, or no such file
  type UploadScene = { image: bool, numbers: int, network: str, refuses: bool }
  pure def uploads(s: UploadScene, url: str): bool = s.image and s.numbers == 64 and url != "" and not(s.refuses)

  // ------------------------------------------------------------------ vectors
  type SVector =
    | KeyFileV({ text: KeyText, upper: bool, file: str, writable: bool, want: KeyFile })
    | UploadV({ scene: UploadScene, ext: str, content: List[int], key: List[int], now: int, millis: int,
                want: { done: bool, url: str, is: str } })
    | Script({ script: str, args: List[Arg], now: int, millis: int, accounts: List[Account], wallets: List[Ref], fault: Fault, want: Tx })
    | Pending({ staker: int, now: int, millis: int, accounts: List[Account], fault: Fault, want: Listing })
    | StatusV({ accounts: List[Account], fault: Fault, want: Status })

  var batch: List[SVector]

  // ------------------------------------------------------------------ drawing inputs
  /// a balance at, next to or far from the amount asked for; now and then no account
  pure def balance(r: int, amt: int): int = {
    val q = r / 16
    val near = if (r % 16 < 4) amt else if (r % 16 < 6) amt + 1 else if (r % 16 < 8) amt - 1 else if (r % 16 < 14) amount64(q) else -1
    if (near >= W64) W64 - 1 else if (near < 0) -1 else near
  }
  pure def amountArg(r: int): int =
    if (r % 16 == 0) W64 + amount64(r / 16) else if (r % 16 == 1) -amount64(r / 16) else amount64(r / 16)
  pure def indexArg(r: int): int =
    if (r % 16 == 0) [256, 257, 511, 512, -1, -255, -256, 65536][r / 16 % 8] else byte(r / 16)
  pure def secondsArg(r: int): int =
    if (r % 16 == 0) amount64(r / 16) else if (r % 16 == 1) -amount64(r / 16) else if (r % 16 == 2) W64 + r / 16 % 1000 else amount64(r / 16) % 2^63
  pure def opt(there: bool, a: Account): List[Account] = if (there) [a] else []

  pure def vScript(r: int): SVector = {
    val script = SCRIPTS[dig(r, 0) % 9]
    val wallet = key256(r / 2^64 % 2^261)
    val other = key256(r / 2^330 % 2^261)
    val d = dig(r, 12)
    val amt = amountArg(dig(r, 9))
    val idx = indexArg(dig(r, 10))
    val n = secondsArg(dig(r, 11))
    val rcptDerived = d % 8 == 0
    val rcpt = if (rcptDerived) Derived("state") else if (d % 8 == 1) Key(wallet) else Key(other)
    val orca = balance(dig(r, 13), amt)
    val xorca = balance(dig(r, 14), amt)
    val rcptOrca = if (rcpt == Key(wallet)) orca else if (d / 8 % 2 == 0) amount64(dig(r, 15)) else -1
    // a transfer to the state's own token account goes to the vault
    val vault = if (rcptDerived) rcptOrca else if (d / 16 % 8 == 0) -1 else amount64(dig(r, 16))
    val now = dig(r, 17) % 2^33
    val claims = if (not(u8ok(idx))) [] else [{ bump: byte(d), idx: idx, owner: wallet, amt: amount64(dig(r, 18)),
                  ts: if (d / 2^10 % 2 == 0) now + d / 2^12 % 5 - 2 else time(dig(r, 19)) }]
    val claim = d / 2^16 % 4 > 0 and claims.length() > 0
    val claimFull = d / 2^18 % 8 > 0
    val ready = claims.length() > 0 and claims[0].ts <= now
    val state = d / 2^24 % 8 > 0
    val s = { ...drawState(r / 2^1280), escrow: amount64(dig(r, 22)) }
    val mintAuth = if (d / 2^28 % 2 == 0) Key(wallet) else if (d / 2^28 % 4 == 1) Derived("state") else Key(other)
    val mint = d / 2^32 % 8 > 0
    val deployer = if (d / 2^36 % 8 == 0) Key(wallet) else Known("deployer")
    val authority = if (d / 2^40 % 4 == 0) deployer else Key(other)
    // another wallet's claims and balances stand by
    val noise = [ { bump: 255, idx: if (u8ok(idx)) (idx + 1) % 256 else 0, owner: wallet, amt: 7, ts: 0 } ]
    val accounts = opt(orca >= 0, tokens(ataAt(Key(wallet), "orca"), Key(wallet), "orca", orca))
      .concat(opt(xorca >= 0, tokens(ataAt(Key(wallet), "xorca"), Key(wallet), "xorca", xorca)))
      .concat(opt(rcptOrca >= 0 and rcpt != Key(wallet) and not(rcptDerived), tokens(ataAt(rcpt, "orca"), rcpt, "orca", rcptOrca)))
      .concat(opt(vault >= 0, tokens(vaultAt, Derived("state"), "orca", vault)))
      .concat(opt(state, stateAcct(s)))
      .concat(opt(mint, mintAcct(mintAuth, amount64(dig(r, 23)))))
      .concat(if (not(claim)) [] else if (claimFull) [claimAcct(claims[0])] else [{ ...claimAcct(claims[0]), data: [Z(d / 2^44 % 56)] }])
      .concat(opt(d / 2^50 % 2 == 0, claimAcct(noise[0])))
    val sc = { wallet: wallet, orca: orca, xorca: xorca, state: state, vault: vault, claim: claim, claimFull: claimFull, ready: ready,
                  rcptOrca: rcptOrca, mintAuth: mintAuth, mint: mint }
    val me = Wallet(Key(wallet))
    Script({ script: if (script == "set-cooldown" or script == "set-authority") "set" else script,
      args: if (script == "stake") [me, Dec(amt)] else if (script == "unstake") [me, Dec(amt), Dec(idx)]
            else if (script == "withdraw") [me, Dec(idx)] else if (script == "initialize") [Wallet(deployer), Wallet(authority), Dec(n)]
            else if (script == "set-cooldown") [me, Word("update-cooldown"), Dec(n)]
            else if (script == "set-authority") [me, Word("update-authority"), Pub(rcpt)]
            else if (script == "transfer-orca") [me, Pub(rcpt), Dec(amt)]
            else if (script == "transfer-orca-to-vault") [me, Dec(amt)] else [me],
      now: now, millis: d / 2^52 % 1000, accounts: accounts, wallets: [Key(wallet), Key(other), deployer], fault: fault(dig(r, 24), 7),
      want: sends(sc, { amt: amt, idx: idx, n: n, rcpt: rcpt, oncurve: not(rcptDerived), authority: authority, deployer: deployer }, script) })
  }

  pure def vPending(r: int): SVector = {
    val q = scene(r)
    val d = dig(r, 30)
    val now = if (d % 4 == 0) d / 16 % 2^33 else 1750000000 + d / 16 % 2^24
    val cooldown = if (d % 16 < 8) d / 2^30 % 2^22 else cooldownOf(q.state)
    // claims made under this or an earlier cooldown, some ready, some about to be
    val claims = q.claims.foldl([], (acc, p) => acc.append(
      if (dig(r, 28) / 2^(p.idx % 60) % 4 == 0) p else { ...p, ts: now + (dig(r, 27) / 2^(p.idx % 50)) % [3, 60, 7200, 2^18][p.idx % 4] - 2^(dig(r, 26) / 2^(p.idx % 50) % 19) }))
    val state = d / 2^50 % 16 > 0
    Pending({ staker: q.staker, now: now, millis: d / 2^40 % 1000, fault: fault(d / 2^54 % 2^6 + 64 * (dig(r, 25) % 2^20), 5),
      accounts: opt(state, stateAcct({ ...drawState(r / 2^1200), cooldown: cooldown }))
        .concat(claims.foldl([], (acc, p) => acc.append(claimAcct(p))))
        .concat(q.lamports.foldl([], (acc, i) => acc.append(lamportsAt(claimAt(q.staker, i)))))
        .concat(q.others.foldl([], (acc, p) => acc.append(claimAcct(p)))),
      want: listing(state, now, cooldown, claims) })
  }
  pure def cooldownOf(c: StateCell): int = match c { | SRecord(s) => s.cooldown | _ => 86400 }

  pure def vStatus(r: int): SVector = {
    val d = dig(r, 0)
    val esc = if (d % 8 == 0) 0 else amount64(dig(r, 8))
    val gap = amount64(dig(r, 9))
    val vault = if (esc + gap >= W64) W64 - 1 else esc + gap
    val supply = amount64(dig(r, 10))
    val s = { ...drawState(r / 2^1200), escrow: esc }
    val hasState = d / 8 % 16 > 0
    val hasVault = d / 128 % 16 > 0
    val hasMint = d / 2048 % 16 > 0
    StatusV({ fault: fault(d / 2^16, 3),
      accounts: opt(hasState, stateAcct(s)).concat(opt(hasVault, tokens(vaultAt, Derived("state"), "orca", vault)))
        .concat(opt(hasMint, mintAcct(Derived("state"), supply))),
      want: { shown: hasState, rated: hasState and hasVault and hasMint, rec: s, vault: vault, free: vault - esc, supply: supply,
              num: vault - esc + 100, den: supply + 100 } })
  }

  pure val STEMS = ["generated-keypair.json", "alice.json", "key-2.json", "k"]
  pure def vKeyFile(r: int): SVector = {
    val d = dig(r, 0)
    val seed = range(0, 32).foldl([], (acc, i) => acc.append(r / 2^(80 + 8 * i) % 256))
    val more = range(0, 64).foldl([], (acc, i) => acc.append(r / 2^(340 + 4 * i) % 16))
    val k = d / 2^8 % 64
    val ds = digitsOf(seed)
    val flaw = d % 16
    val pub = d / 16 % 2 == 0
    val text =
      if (flaw == 0) { digits: ds, pub: pub, rest: more.slice(0, 1 + k % 8) }                       // digits too many
      else if (flaw == 1) { digits: ds.slice(0, k), pub: false, rest: [] }                           // too few
      else if (flaw == 2) { digits: ds.replaceAt(k, -1), pub: pub, rest: [] }                        // one that is no digit
      else if (flaw == 3) { digits: ds, pub: pub, rest: [-1].concat(more.slice(0, k % 4)) }          // text after the key
      else if (flaw == 4) { digits: ds, pub: false, rest: more }                                     // another's public key
      else if (flaw == 5) { digits: [0, -1].concat(ds), pub: pub, rest: [] }                         // 0x
      else if (flaw == 6) { digits: ds, pub: pub, rest: ds }                                         // twice
      else { digits: ds, pub: pub, rest: [] }
    val writable = d / 2^16 % 8 > 0
    val stem = STEMS[d / 2^20 % 4]
    KeyFileV({ text: text, upper: d / 2^24 % 2 == 0, file: if (d / 2^20 % 4 == 0) "" else stem, writable: writable,
               want: { written: writable and spellsKey(text), seed: seed, file: stem } })
  }
  pure def vUpload(r: int): SVector = {
    val d = dig(r, 0)
    def bytesAt(at, n) = range(0, n).foldl([], (acc, i) => acc.append(r / 2^(at + 8 * i) % 256))
    val t = TYPES[d % 17]
    val net = NETWORKS[d / 2^8 % 5]
    val s = { image: d / 2^12 % 8 > 0, numbers: if (d / 2^16 % 2 == 0) 64 else [63, 65, 32, 0, -1, -2][d / 2^17 % 6], network: net.name, refuses: d / 2^22 % 8 == 0 }
    UploadV({ scene: s, ext: t.ext, content: bytesAt(80, d / 2^26 % 41), key: bytesAt(420, 64), now: dig(r, 14) % 2^33, millis: d / 2^32 % 1000,
              want: { done: uploads(s, net.url), url: net.url, is: t.is } })
  }

  pure def fillS(n: int, r: int, f: (int) => SVector): List[SVector] =
    range(0, n).foldl([], (acc, i) => acc.append(f(r / 2^(BITS * i) % 2^BITS)))
  val noViolation: bool = true
  action init = batch' = []
  action stepScript = { nondet r = 0.to(2^(BITS * 20) - 1).oneOf() batch' = fillS(20, r, (x) => vScript(x)) }
  action stepPending = { nondet r = 0.to(2^BITS - 1).oneOf() batch' = fillS(1, r, (x) => vPending(x)) }
  action stepStatus = { nondet r = 0.to(2^(BITS * 20) - 1).oneOf() batch' = fillS(20, r, (x) => vStatus(x)) }
  action stepKeyFile = { nondet r = 0.to(2^(BITS * 20) - 1).oneOf() batch' = fillS(20, r, (x) => vKeyFile(x)) }
  action stepUpload = { nondet r = 0.to(2^(BITS * 20) - 1).oneOf() batch' = fillS(20, r, (x) => vUpload(x)) }
  action step = stepScript
}
