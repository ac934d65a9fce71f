// Stand-in for @solana/kit, @solana/addresses and @solana-program/token, which are not installed here: the functions the
// JavaScript client calls, with the semantics those packages document.
'use strict';
const { createHash, createPrivateKey, createPublicKey } = require('node:crypto');

// ---------------------------------------------------------------- base 58 and addresses
const ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
const VALUE = new Map([...ALPHABET].map((c, i) => [c, BigInt(i)]));
function fromBase58(s) {
  let n = 0n;
  for (const c of s) {
    if (!VALUE.has(c)) throw new Error(`not base 58: ${s}`);
    n = n * 58n + VALUE.get(c);
  }
  const zeros = s.match(/^1*/)[0].length;
  let hex = n === 0n ? '' : n.toString(16);
  if (hex.length % 2) hex = '0' + hex;
  return Uint8Array.from([...new Array(zeros).fill(0), ...Buffer.from(hex, 'hex')]);
}
function toBase58(b) {
  let n = BigInt('0x' + (Buffer.from(b).toString('hex') || '0'));
  let out = '';
  for (; n > 0n; n /= 58n) out = ALPHABET[Number(n % 58n)] + out;
  for (const x of b) {
    if (x !== 0) break;
    out = '1' + out;
  }
  return out;
}
const addressBytes = new Map();
function bytesOf(a) {
  let b = addressBytes.get(a);
  if (!b) {
    if (typeof a !== 'string') throw new Error(`not an address: ${a}`);
    b = fromBase58(a);
    if (b.length !== 32) throw new Error(`an address has 32 bytes: ${a}`);
    if (addressBytes.size < 50000) addressBytes.set(a, b);
  }
  return b;
}
const isAddress = (a) => {
  try {
    return bytesOf(a).length === 32;
  } catch {
    return false;
  }
};
const assertIsAddress = (a) => void bytesOf(a);
const address = (a) => (assertIsAddress(a), a);

// ---------------------------------------------------------------- codecs
const encoder = (size, put) => ({
  ...(size === undefined ? {} : { fixedSize: size }),
  getSizeFromValue: (v) => put(v).length,
  encode: (v) => Uint8Array.from(put(v)),
  write: (v, bytes, at) => (bytes.set(put(v), at), at + put(v).length),
});
const decoder = (size, read) => ({
  ...(size === undefined ? {} : { fixedSize: size }),
  decode: (bytes, at = 0) => read(Uint8Array.from(bytes), at)[0],
  read: (bytes, at) => read(bytes, at),
});
function take(bytes, at, n) {
  if (bytes.length - at < n) throw new Error(`expected ${n} bytes at ${at}, got ${bytes.length - at}`);
  return bytes.slice(at, at + n);
}
function numeric(bits, signed, big) {
  const size = bits / 8;
  const [lo, hi] = signed ? [-(2n ** BigInt(bits - 1)), 2n ** BigInt(bits - 1) - 1n] : [0n, 2n ** BigInt(bits) - 1n];
  const e = () => encoder(size, (v) => {
    const n = BigInt(v);
    if (n < lo || n > hi) throw new Error(`${v} is not between ${lo} and ${hi}`);
    let u = BigInt.asUintN(bits, n);
    const out = [];
    for (let i = 0; i < size; i++, u >>= 8n) out.push(Number(u & 255n));
    return out;
  });
  const d = () => decoder(size, (bytes, at) => {
    let u = 0n;
    [...take(bytes, at, size)].reverse().forEach((b) => (u = u * 256n + BigInt(b)));
    const n = signed ? BigInt.asIntN(bits, u) : u;
    return [big ? n : Number(n), at + size];
  });
  return [e, d];
}
const combineCodec = (e, d) => ({ ...e, ...d });
const kit = {};
const define = (name, [e, d]) => {
  kit[`get${name}Encoder`] = e;
  kit[`get${name}Decoder`] = d;
  kit[`get${name}Codec`] = (...a) => combineCodec(e(...a), d(...a));
};
for (const bits of [8, 16, 32, 64, 128]) {
  define(`U${bits}`, numeric(bits, false, bits > 32));
  define(`I${bits}`, numeric(bits, true, bits > 32));
}
define('Bytes', [() => encoder(undefined, (v) => [...v]), () => decoder(undefined, (b, at) => [b.slice(at), b.length])]);
define('Address', [() => encoder(32, (v) => [...bytesOf(v)]), () => decoder(32, (b, at) => [toBase58(take(b, at, 32)), at + 32])]);
define('Base64', [
  () => encoder(undefined, (v) => {
    if (typeof v !== 'string' || !/^[A-Za-z0-9+/]*={0,2}$/.test(v)) throw new Error('not base 64');
    return [...Buffer.from(v, 'base64')];
  }),
  () => decoder(undefined, (b, at) => [Buffer.from(b.slice(at)).toString('base64'), b.length]),
]);
define('Base58', [() => encoder(undefined, (v) => [...fromBase58(v)]), () => decoder(undefined, (b, at) => [toBase58(b.slice(at)), b.length])]);
define('Utf8', [
  () => encoder(undefined, (v) => [...Buffer.from(v, 'utf8')]),
  () => decoder(undefined, (b, at) => [Buffer.from(b.slice(at)).toString('utf8').replace(/\0/g, ''), b.length]),
]);
define('Unit', [() => encoder(0, () => []), () => decoder(0, (b, at) => [undefined, at])]);
define('Boolean', [
  (c = {}) => encoder(1, (v) => [...(c.size ?? kit.getU8Encoder()).encode(v ? 1 : 0)]),
  (c = {}) => decoder(1, (b, at) => { const [n, to] = (c.size ?? kit.getU8Decoder()).read(b, at); return [Number(n) === 1, to]; }),
]);
const total = (cs) => (cs.every((c) => c.fixedSize !== undefined) ? cs.reduce((a, c) => a + c.fixedSize, 0) : undefined);
define('Struct', [
  (fields) => encoder(total(fields.map((f) => f[1])), (v) => fields.flatMap(([k, e]) => [...e.encode(v[k])])),
  (fields) => decoder(total(fields.map((f) => f[1])), (b, at) => {
    const out = {};
    for (const [k, d] of fields) [out[k], at] = d.read(b, at);
    return [out, at];
  }),
]);
define('Tuple', [
  (es) => encoder(total(es), (v) => es.flatMap((e, i) => [...e.encode(v[i])])),
  (ds) => decoder(total(ds), (b, at) => [ds.map((d) => { let x; [x, at] = d.read(b, at); return x; }), at]),
]);
define('Array', [
  (e, c = {}) => encoder(undefined, (v) => [...(typeof c.size === 'number' ? [] : (c.size ?? kit.getU32Encoder()).encode(v.length)), ...v.flatMap((x) => [...e.encode(x)])]),
  (d, c = {}) => decoder(undefined, (b, at) => {
    let n = c.size;
    if (typeof n !== 'number') [n, at] = (c.size ?? kit.getU32Decoder()).read(b, at);
    const out = [];
    for (let i = 0; i < Number(n); i++) { let x; [x, at] = d.read(b, at); out.push(x); }
    return [out, at];
  }),
]);
// TypeScript's numeric enums: names and values both ways
const members = (c) => Object.entries(c).filter(([k, v]) => typeof v === 'number' || Number.isNaN(Number(k)));
define('Enum', [
  (c, o = {}) => encoder(1, (v) => {
    const m = members(c);
    const i = m.findIndex(([k, x]) => x === v || k === v);
    if (i < 0) throw new Error(`not a member: ${v}`);
    const n = o.useValuesAsDiscriminators ? m[i][1] : i;
    return [...(o.size ?? kit.getU8Encoder()).encode(n)];
  }),
  (c, o = {}) => decoder(1, (b, at) => {
    const [n, to] = (o.size ?? kit.getU8Decoder()).read(b, at);
    const m = members(c);
    const hit = o.useValuesAsDiscriminators ? m.find(([, x]) => x === Number(n)) : m[Number(n)];
    if (!hit) throw new Error(`enum discriminator ${n} out of range`);
    return [hit[1], to];
  }),
]);
define('DiscriminatedUnion', [
  (vs, c = {}) => encoder(undefined, (v) => {
    const i = vs.findIndex(([k]) => k === v[c.discriminator ?? '__kind']);
    if (i < 0) throw new Error(`no such variant: ${v[c.discriminator ?? '__kind']}`);
    return [...(c.size ?? kit.getU8Encoder()).encode(i), ...vs[i][1].encode(v)];
  }),
  (vs, c = {}) => decoder(undefined, (b, at) => {
    if (at >= b.length) throw new Error('no bytes to decode');
    const [i, to] = (c.size ?? kit.getU8Decoder()).read(b, at);
    const hit = vs[Number(i)];
    if (!hit) throw new Error(`variant ${i} out of range`);
    const [v, end] = hit[1].read(b, to);
    return [{ [c.discriminator ?? '__kind']: hit[0], ...(v ?? {}) }, end];
  }),
]);
Object.assign(kit, {
  combineCodec,
  createEncoder: (e) => e,
  createDecoder: (d) => d,
  transformEncoder: (e, f) => encoder(e.fixedSize, (v) => [...e.encode(f(v))]),
  transformDecoder: (d, f) => decoder(d.fixedSize, (b, at) => { const [v, to] = d.read(b, at); return [f(v, b, at), to]; }),
  fixEncoderSize: (e, n) => encoder(n, (v) => [...e.encode(v), ...new Array(n).fill(0)].slice(0, n)),
  fixDecoderSize: (d, n) => decoder(n, (b, at) => [d.read(take(b, at, n), 0)[0], at + n]),
  containsBytes: (data, part, at) => part.every((x, i) => data[at + i] === x) && data.length >= at + part.length,
  bytesEqual: (a, b) => Buffer.from(a).equals(Buffer.from(b)),
  isAddress, assertIsAddress, address,
});
kit.fixCodecSize = (c, n) => combineCodec(kit.fixEncoderSize(c, n), kit.fixDecoderSize(c, n));
kit.transformCodec = (c, f, g) => combineCodec(kit.transformEncoder(c, f), g ? kit.transformDecoder(c, g) : c);

// ---------------------------------------------------------------- roles, signers, errors
kit.AccountRole = { READONLY: 0, WRITABLE: 1, READONLY_SIGNER: 2, WRITABLE_SIGNER: 3, 0: 'READONLY', 1: 'WRITABLE', 2: 'READONLY_SIGNER', 3: 'WRITABLE_SIGNER' };
kit.upgradeRoleToSigner = (r) => r | 2;
kit.downgradeRoleToNonSigner = (r) => r & 1;
kit.upgradeRoleToWritable = (r) => r | 1;
kit.downgradeRoleToReadonly = (r) => r & 2;
kit.isSignerRole = (r) => r >= 2;
kit.isWritableRole = (r) => (r & 1) === 1;
kit.isTransactionSigner = (v) => ['signTransactions', 'modifyAndSignTransactions', 'signAndSendTransactions'].some((k) => typeof v[k] === 'function');
kit.isProgramDerivedAddress = (v) => Array.isArray(v) && v.length === 2 && typeof v[1] === 'number' && v[1] >= 0 && v[1] <= 255 && isAddress(v[0]);
kit.isProgramError = (error, message, program, code) =>
  error?.context?.__code === 4615026 && message.instructions[error.context.index]?.programAddress === program &&
  (code === undefined || error.context.code === code);

// ---------------------------------------------------------------- program-derived addresses
const P = 2n ** 255n - 19n;
const mod = (a) => ((a % P) + P) % P;
function pow(b, e) {
  let r = 1n;
  for (b = mod(b); e > 0n; e >>= 1n, b = (b * b) % P) if (e & 1n) r = (r * b) % P;
  return r;
}
const D = mod(-121665n * pow(121666n, P - 2n));
function onCurve(bytes) {
  const y = BigInt('0x' + Buffer.from(bytes).reverse().toString('hex')) & (2n ** 255n - 1n);
  const y2 = mod(y * y);
  const u = mod(y2 - 1n);
  const v = mod(D * y2 + 1n);
  // u/v is a square iff (u*v)^((p-1)/2) is 0 or 1
  const l = pow(u * v, (P - 1n) / 2n);
  return l === 0n || l === 1n;
}
const derived = new Map();
const pda = (programAddress, seeds) => {
  if (seeds.length > 15) throw new Error('too many seeds');
  const parts = seeds.map((s) => (typeof s === 'string' ? Buffer.from(s, 'utf8') : Buffer.from(s)));
  if (parts.some((p) => p.length > 32)) throw new Error('a seed has at most 32 bytes');
  const base = Buffer.concat(parts);
  const key = programAddress + base.toString('hex');
  if (derived.has(key)) return derived.get(key);
  for (let bump = 255; bump > 0; bump--) {
    const h = createHash('sha256').update(base).update(Uint8Array.of(bump)).update(bytesOf(programAddress)).update('ProgramDerivedAddress').digest();
    if (!onCurve(h)) {
      const out = Object.freeze([toBase58(h), bump]);
      if (derived.size < 200000) derived.set(key, out);
      return out;
    }
  }
  throw new Error('no bump leads to an address off the curve');
};
kit.getProgramDerivedAddress = async ({ programAddress, seeds }) => pda(programAddress, seeds);
// the ed25519 public key of a private key
const publicKey = (seed) => {
  const secret = createPrivateKey({ key: Buffer.concat([Buffer.from('302e020100300506032b657004220420', 'hex'), Buffer.from(seed)]), format: 'der', type: 'pkcs8' });
  return createPublicKey(secret).export({ format: 'der', type: 'spki' }).subarray(12);
};
// for web3.cjs
kit.internals = { toBase58, fromBase58, onCurve, pda, publicKey };

// ---------------------------------------------------------------- accounts
const parse = (at, a) => {
  if (!a) return Object.freeze({ address: at, exists: false });
  const data = Array.isArray(a.data) ? Buffer.from(a.data[0], a.data[1]) : fromBase58(a.data);
  return Object.freeze({ address: at, exists: true, data: Uint8Array.from(data), executable: a.executable, lamports: a.lamports, programAddress: a.owner, space: a.space });
};
kit.fetchEncodedAccount = async (rpc, at, c = {}) => parse(at, (await rpc.getAccountInfo(at, { ...c, encoding: 'base64' }).send()).value);
kit.fetchEncodedAccounts = async (rpc, all, c = {}) => (await rpc.getMultipleAccounts(all, { ...c, encoding: 'base64' }).send()).value.map((a, i) => parse(all[i], a));
kit.decodeAccount = (a, d) => ('exists' in a && !a.exists ? a : Object.freeze({ ...a, data: d.decode(a.data) }));
kit.assertAccountExists = (a) => { if (!a.exists) throw new Error(`no account at ${a.address}`); };
kit.assertAccountsExist = (all) => all.forEach(kit.assertAccountExists);

// ---------------------------------------------------------------- @solana-program/token
const option = (d) => decoder(undefined, (b, at) => {
  const [flag, to] = kit.getU32Decoder().read(b, at);
  const [v, end] = d.read(b, to);
  return [flag ? { __option: 'Some', value: v } : { __option: 'None' }, end];
});
kit.getMintDecoder = () => kit.getStructDecoder([
  ['mintAuthority', option(kit.getAddressDecoder())], ['supply', kit.getU64Decoder()], ['decimals', kit.getU8Decoder()],
  ['isInitialized', kit.getBooleanDecoder()], ['freezeAuthority', option(kit.getAddressDecoder())]]);
kit.getTokenDecoder = () => kit.getStructDecoder([
  ['mint', kit.getAddressDecoder()], ['owner', kit.getAddressDecoder()], ['amount', kit.getU64Decoder()],
  ['delegate', option(kit.getAddressDecoder())], ['state', kit.getU8Decoder()], ['isNative', option(kit.getU64Decoder())],
  ['delegatedAmount', kit.getU64Decoder()], ['closeAuthority', option(kit.getAddressDecoder())]]);
kit.TOKEN_PROGRAM_ADDRESS = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
kit.ASSOCIATED_TOKEN_PROGRAM_ADDRESS = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
kit.findAssociatedTokenPda = (s) => kit.getProgramDerivedAddress({ programAddress: kit.ASSOCIATED_TOKEN_PROGRAM_ADDRESS, seeds: [bytesOf(s.owner), bytesOf(s.tokenProgram), bytesOf(s.mint)] });
// what is not modelled here says so when it is called (run.mjs then does not judge the vector)
Object.setPrototypeOf(kit, new Proxy({}, {
  get: (_, name) => (typeof name === 'symbol' || ['__esModule', 'default', 'then', 'toJSON'].includes(name) || name in Object.prototype
    ? undefined
    : Object.assign(() => { globalThis.notModelled = name; throw new Error(`${name} is not modelled`); }, {})),
}));
module.exports = kit;
