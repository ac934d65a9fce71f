// Stand-in for @solana/web3.js 1.x and @solana/spl-token 0.3, which are not installed here: what the operator scripts use,
// and what they could reasonably use instead, over the ledger in globalThis.scene.  Nothing leaves the process: a
// transaction that would be sent is recorded.
'use strict';
const kit = require('./kit.cjs');
const { toBase58, fromBase58, pda, onCurve } = kit.internals;
const scene = () => globalThis.scene;
const stopped = () => { if (scene().exited) throw new Error('the process has exited'); };

const web3 = {};
function notModelled(name) {
  (globalThis.scene ?? {}).notModelled = name;
  throw new Error(`${name} is not modelled`);
}
const quiet = (name, t) => typeof name === 'symbol' || ['then', 'toJSON', '__esModule', 'default', 'inspect'].includes(name) || name in t;
const unknown = { get: (t, name, o) => (quiet(name, t) ? Reflect.get(t, name, o) : Object.assign(function () { notModelled(name); }, {})) };
// a class whose unknown members say that they are not modelled
const open = (c, fields = []) => new Proxy(c, {
  ...unknown,
  construct: (t, args) => new Proxy(Reflect.construct(t, args, t), { ...unknown, get: (o, n, r) => (fields.includes(n) ? Reflect.get(o, n, r) : unknown.get(o, n, r)) }),
});
class PublicKey {
  constructor(v) {
    let b;
    if (v instanceof PublicKey) b = v._b;
    else if (typeof v === 'string') {
      try { b = fromBase58(v); } catch { throw new Error('Non-base58 character'); }
      if (b.length !== 32) throw new Error('Invalid public key input');
    } else if (typeof v === 'number' || typeof v === 'bigint') b = Buffer.from(BigInt(v).toString(16).padStart(64, '0'), 'hex');
    else b = Uint8Array.from(v);
    if (b.length > 32) throw new Error('Invalid public key input');
    this._b = Buffer.concat([Buffer.alloc(32 - b.length), Buffer.from(b)]);
  }
  equals(o) { return this._b.equals(o._b); }
  toBuffer() { return Buffer.from(this._b); }
  toBytes() { return new Uint8Array(this._b); }
  toBase58() { return (this._t ??= toBase58(this._b)); }
  toString() { return this.toBase58(); }
  toJSON() { return this.toBase58(); }
  get [Symbol.toStringTag]() { return `PublicKey(${this.toBase58()})`; }
  static isOnCurve(k) { const p = new PublicKey(k); return scene().wallets.has(p.toBase58()) || onCurve(p._b); }
  static findProgramAddressSync(seeds, program) {
    const [a, bump] = pda(program.toBase58(), seeds);
    return [new PublicKey(a), bump];
  }
  static async findProgramAddress(seeds, program) { return PublicKey.findProgramAddressSync(seeds, program); }
}
PublicKey.default = new PublicKey(new Uint8Array(32));
web3.PublicKey = open(PublicKey, ['_t']);

class Keypair {
  constructor(s) { this.secretKey = Uint8Array.from(s); this.publicKey = new PublicKey(this.secretKey.slice(32)); }
  static fromSecretKey(s, options) {
    if (s.length !== 64) throw new Error('bad secret key size');
    // the key pairs of a ledger scene are stand-ins too: their second half is not derived from the first
    const own = s.slice(0, 32).every((b) => b === 9);
    if (!own && !options?.skipValidation && !kit.internals.publicKey(s.slice(0, 32)).equals(Buffer.from(s.slice(32)))) throw new Error('provided secretKey is invalid');
    return new Keypair(s);
  }
  static fromSeed(seed) {
    if (seed.length !== 32) throw new Error('bad seed size');
    return new Keypair([...seed, ...kit.internals.publicKey(seed)]);
  }
}
web3.Keypair = open(Keypair);
web3.LAMPORTS_PER_SOL = 1000000000;
web3.clusterApiUrl = (c) => `https://api.${c}.solana.com`;
web3.SystemProgram = { programId: new PublicKey(new Uint8Array(32)) };
web3.SYSVAR_RENT_PUBKEY = new PublicKey('SysvarRent111111111111111111111111111111111');

class TransactionInstruction {
  constructor(o) { this.keys = o.keys; this.programId = o.programId; this.data = o.data ? Buffer.from(o.data) : Buffer.alloc(0); }
}
web3.TransactionInstruction = TransactionInstruction;
class Transaction {
  constructor(o = {}) { this.instructions = []; this.signatures = []; Object.assign(this, o); }
  add(...items) {
    if (!items.length) throw new Error('No instructions');
    for (const i of items) {
      if (i instanceof Transaction) this.instructions.push(...i.instructions);
      else this.instructions.push(i instanceof TransactionInstruction ? i : new TransactionInstruction(i));
    }
    return this;
  }
  sign(...signers) {
    if (!signers.length) throw new Error('No signers');
    this.feePayer ??= signers[0].publicKey;
    this.signers = signers;
  }
  partialSign(...signers) { this.sign(...(this.signers ?? []), ...signers); }
  serialize() { const b = Buffer.from('serialized'); b.transaction = this; return b; }
}
web3.Transaction = open(Transaction, ['feePayer', 'recentBlockhash', 'signers', 'lastValidBlockHeight', 'nonceInfo', 'signature']);

function record(tx, signers) {
  stopped();
  if (signers) tx.sign(...signers);
  if (!tx.signers) throw new Error('Signature verification failed');
  const payer = tx.feePayer.toBase58();
  const required = new Set([payer]);
  const instructions = tx.instructions.map((i) => {
    i.keys.forEach((k) => k.isSigner && required.add(k.pubkey.toBase58()));
    return { program: i.programId.toBase58(), accounts: i.keys.map((k) => [k.pubkey.toBase58(), !!k.isSigner, !!k.isWritable]), data: i.data.toString('hex') };
  });
  const have = new Set(tx.signers.map((s) => s.publicKey.toBase58()));
  for (const s of have) if (!required.has(s)) throw new Error(`unknown signer: ${s}`);
  for (const s of required) if (!have.has(s)) throw new Error(`Signature verification failed. Missing signature for public key ${s}.`);
  scene().sent.push({ payer, instructions });
  return toBase58(Buffer.alloc(64, scene().sent.length));
}

const SPL = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
const flagged = (b, at) => (b.readUInt32LE(at) ? new PublicKey(b.subarray(at + 4, at + 36)) : null);
const tokenOf = (b) => ({
  mint: new PublicKey(b.subarray(0, 32)), owner: new PublicKey(b.subarray(32, 64)), amount: b.readBigUInt64LE(64), delegate: flagged(b, 72),
  isInitialized: b[108] !== 0, isFrozen: b[108] === 2, isNative: b.readUInt32LE(109) !== 0, delegatedAmount: b.readBigUInt64LE(121), closeAuthority: flagged(b, 129),
  rentExemptReserve: null, tlvData: Buffer.alloc(0),
});
const mintOf = (b) => ({ mintAuthority: flagged(b, 0), supply: b.readBigUInt64LE(36), decimals: b[44], isInitialized: b[45] === 1, freezeAuthority: flagged(b, 46), tlvData: Buffer.alloc(0) });
const decimal = (n, d) => ({ amount: n.toString(), decimals: d, uiAmount: Number(n) / 10 ** d, uiAmountString: String(Number(n) / 10 ** d) });

// a request to the node of the scene, which may be one that fails
const fails = (s) => {
  const k = s.asked++;
  if (k >= s.fault.at && k < s.fault.at + s.fault.lasts) {
    s.failed = true;
    throw new Error('failed to get info about account: the node is unavailable');
  }
};

class Connection {
  constructor(url, c) { this.commitment = undefined; this.rpcEndpoint = url; this.commitment = typeof c === 'string' ? c : c?.commitment; }
  async _ask(f) {
    await null;
    stopped();
    const s = scene();
    fails(s);
    return f(s);
  }
  _account(s, k) {
    const a = s.accounts.get(new PublicKey(k).toBase58());
    return a ? { data: Buffer.from(a.data), owner: new PublicKey(a.owner), lamports: 1000000, executable: false, rentEpoch: 0 } : null;
  }
  getAccountInfo(k) { return this._ask((s) => this._account(s, k)); }
  async getAccountInfoAndContext(k) { return { context: { slot: 1 }, value: await this.getAccountInfo(k) }; }
  getMultipleAccountsInfo(ks) {
    return this._ask((s) => {
      if (ks.length > 100) throw new Error('failed to get info for accounts: Too many inputs provided; max 100');
      return ks.map((k) => this._account(s, k));
    });
  }
  getParsedAccountInfo(k) {
    return this._ask((s) => {
      const a = this._account(s, k);
      if (a && a.owner.toBase58() === SPL && a.data.length === 165) {
        const t = tokenOf(a.data);
        a.data = { program: 'spl-token', space: 165, parsed: { type: 'account', info: { mint: t.mint.toBase58(), owner: t.owner.toBase58(), isNative: t.isNative, state: t.isFrozen ? 'frozen' : 'initialized', tokenAmount: decimal(t.amount, 6) } } };
      } else if (a && a.owner.toBase58() === SPL && a.data.length === 82) {
        const m = mintOf(a.data);
        a.data = { program: 'spl-token', space: 82, parsed: { type: 'mint', info: { mintAuthority: m.mintAuthority?.toBase58() ?? null, supply: m.supply.toString(), decimals: m.decimals, isInitialized: m.isInitialized, freezeAuthority: m.freezeAuthority?.toBase58() ?? null } } };
      }
      return { context: { slot: 1 }, value: a };
    });
  }
  getTokenAccountBalance(k) {
    return this._ask((s) => {
      const a = this._account(s, k);
      if (!a || a.owner.toBase58() !== SPL || a.data.length !== 165) throw new Error('failed to get token account balance: Invalid param: could not find account');
      return { context: { slot: 1 }, value: decimal(tokenOf(a.data).amount, 6) };
    });
  }
  getTokenSupply(k) {
    return this._ask((s) => {
      const a = this._account(s, k);
      if (!a || a.data.length !== 82) throw new Error('failed to get token supply: Invalid param: could not find mint');
      const m = mintOf(a.data);
      return { context: { slot: 1 }, value: decimal(m.supply, m.decimals) };
    });
  }
  getBalance(k) { return this._ask((s) => this._account(s, k)?.lamports ?? 0); }
  getSlot() { return this._ask(() => 1); }
  getBlockTime() { return this._ask((s) => Number(s.now)); }
  getMinimumBalanceForRentExemption(n) { return this._ask(() => (128 + n) * 6960); }
  getLatestBlockhash() { return this._ask(() => ({ blockhash: toBase58(Buffer.alloc(32, 7)), lastValidBlockHeight: 100 })); }
  getRecentBlockhash() { return this._ask(() => ({ blockhash: toBase58(Buffer.alloc(32, 7)), feeCalculator: { lamportsPerSignature: 5000 } })); }
  getLatestBlockhashAndContext() { return this._ask(() => ({ context: { slot: 1 }, value: { blockhash: toBase58(Buffer.alloc(32, 7)), lastValidBlockHeight: 100 } })); }
  async sendTransaction(tx, signers) { await null; fails(scene()); return record(tx, Array.isArray(signers) ? signers : undefined); }
  async sendRawTransaction(b) { await null; fails(scene()); return record(b.transaction); }
  sendEncodedTransaction() { notModelled('sendEncodedTransaction'); }
  async confirmTransaction() { await null; stopped(); return { context: { slot: 1 }, value: { err: null } }; }
}
web3.Connection = open(Connection);
web3.sendAndConfirmTransaction = async (c, tx, signers) => { await null; fails(scene()); return record(tx, signers); };
web3.sendAndConfirmRawTransaction = async (c, b) => { await null; fails(scene()); return record(b.transaction); };

// ---------------------------------------------------------------- spl-token
const tok = web3;
const TOKEN = (tok.TOKEN_PROGRAM_ID = new PublicKey(SPL));
const ATA = (tok.ASSOCIATED_TOKEN_PROGRAM_ID = new PublicKey('ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL'));
tok.ACCOUNT_SIZE = 165;
tok.MINT_SIZE = 82;
for (const n of ['TokenAccountNotFoundError', 'TokenInvalidAccountOwnerError', 'TokenInvalidAccountSizeError', 'TokenOwnerOffCurveError', 'TokenInvalidMintError'])
  tok[n] = class extends Error { constructor(m) { super(m); this.name = n; } };
tok.getAssociatedTokenAddressSync = (mint, owner, off = false, program = TOKEN, ata = ATA) => {
  if (!off && !PublicKey.isOnCurve(owner.toBuffer())) throw new tok.TokenOwnerOffCurveError();
  return PublicKey.findProgramAddressSync([owner.toBuffer(), program.toBuffer(), mint.toBuffer()], ata)[0];
};
tok.getAssociatedTokenAddress = async (...a) => tok.getAssociatedTokenAddressSync(...a);
const key = (pubkey, right) => ({ pubkey, isSigner: right === 'W' || right === 'R', isWritable: right === 'W' || right === 'w' });
const ataIx = (data) => (payer, at, owner, mint, program = TOKEN, ata = ATA) => new TransactionInstruction({
  programId: ata, data, keys: [key(payer, 'W'), key(at, 'w'), key(owner, 'r'), key(mint, 'r'), key(web3.SystemProgram.programId, 'r'), key(program, 'r')] });
tok.createAssociatedTokenAccountInstruction = ataIx(Buffer.alloc(0));
tok.createAssociatedTokenAccountIdempotentInstruction = ataIx(Buffer.from([1]));
const u64 = (n) => { const b = Buffer.alloc(8); b.writeBigUInt64LE(BigInt(n)); return b; };
const signersOf = (keys, owner, multi = []) => [...keys, key(owner, multi.length ? 'r' : 'R'), ...multi.map((m) => key(m.publicKey ?? m, 'R'))];
tok.createTransferInstruction = (from, to, owner, amount, multi = [], program = TOKEN) =>
  new TransactionInstruction({ programId: program, data: Buffer.concat([Buffer.from([3]), u64(amount)]), keys: signersOf([key(from, 'w'), key(to, 'w')], owner, multi) });
tok.AuthorityType = { MintTokens: 0, FreezeAccount: 1, AccountOwner: 2, CloseAccount: 3, 0: 'MintTokens', 1: 'FreezeAccount', 2: 'AccountOwner', 3: 'CloseAccount' };
tok.createSetAuthorityInstruction = (at, current, type, next, multi = [], program = TOKEN) =>
  new TransactionInstruction({ programId: program, data: Buffer.concat([Buffer.from([6, type, next ? 1 : 0]), next ? next.toBuffer() : Buffer.alloc(0)]), keys: signersOf([key(at, 'w')], current, multi) });
const held = async (c, at, program, size, read) => {
  const a = await c.getAccountInfo(at);
  if (!a) throw new tok.TokenAccountNotFoundError();
  if (!a.owner.equals(program)) throw new tok.TokenInvalidAccountOwnerError();
  if (a.data.length !== size) throw new tok.TokenInvalidAccountSizeError();
  return { address: at, ...read(a.data) };
};
tok.getAccount = (c, at, commitment, program = TOKEN) => held(c, at, program, 165, tokenOf);
tok.getMint = (c, at, commitment, program = TOKEN) => held(c, at, program, 82, mintOf);

Object.setPrototypeOf(web3, new Proxy({}, {
  get: (_, name) => (typeof name === 'symbol' || ['__esModule', 'default', 'then', 'toJSON'].includes(name) || name in Object.prototype ? undefined : function () { notModelled(name); }),
}));
module.exports = web3;
