// Runs the JavaScript client on the vectors the Rust harness spelled out: run.mjs REPO VECTORS CASES_OUT STATS_OUT WORK
import { createRequire } from 'node:module';
import { readFileSync, writeFileSync, mkdirSync } from 'node:fs';
import { dirname, join } from 'node:path';
import { fileURLToPath, pathToFileURL } from 'node:url';

const [repo, vectorsFile, casesOut, statsOut, work] = process.argv.slice(2);
const here = dirname(fileURLToPath(import.meta.url));
const esbuild = createRequire('/opt/veriftools/node/')('esbuild');
mkdirSync(work, { recursive: true });
const bundle = join(work, 'client.mjs');
const stub = join(here, 'kit.cjs');
await esbuild.build({
  entryPoints: [join(repo, 'js-client/src/index.ts')], bundle: true, platform: 'node', format: 'esm', outfile: bundle, logLevel: 'error',
  banner: { js: "import { createRequire as __cr } from 'node:module'; const require = __cr(import.meta.url);" },
  plugins: [{ name: 'stubs', setup: (b) => b.onResolve({ filter: /^@solana/ }, () => ({ path: stub })) }],
});
const scripts = await import('./scripts.mjs');
const client = await import(pathToFileURL(bundle));
console.error = () => {};

const hex = (b) => Buffer.from(b).toString('hex');
const big = (v) => (typeof v === 'bigint' ? v.toString() : v);
const text = (v) => JSON.stringify(v, (_, x) => (typeof x === 'bigint' ? x.toString() : x instanceof Uint8Array ? hex(x) : x)) ?? String(v);
const show = (v) => text(v).slice(0, 300);
const attempt = async (f) => { try { return [await f()]; } catch (e) { return [undefined, e]; } };

async function decoded(why, what, name, bytes, cut, want, view = (x) => x, back = (x) => x) {
  const codec = client[`get${name}Codec`]();
  // the two halves of the codec on their own
  const [alone, e5] = await attempt(() => client[`get${name}Decoder`]().decode(bytes));
  same(why, `${what} decoded alone`, e5 ? e5.message : view(alone), want);
  const [made, e6] = await attempt(() => client[`get${name}Encoder`]().encode(back(alone)));
  same(why, `${what} encoded alone`, e6 ? e6.message : hex(made), hex(bytes));
  const [d, e] = await attempt(() => codec.decode(bytes));
  if (e) return why.push(`js ${what}: refused: ${e.message}`);
  same(why, `${what} decoded`, view(d), want);
  const [b, e2] = await attempt(() => codec.encode(back(d)));
  if (e2) why.push(`js ${what}: does not encode again: ${e2.message}`);
  else same(why, `${what} encoded`, hex(b), hex(bytes));
  // what a writer may leave out: the discriminator and the padding
  if (d && typeof d === 'object' && 'padding2' in d) {
    const { discriminator, padding1, padding2, ...given } = d;
    const [plain, e4] = await attempt(() => codec.encode(given));
    if (e4) why.push(`js ${what}: does not encode without padding: ${e4.message}`);
    else same(why, `${what} encoded without padding`, hex(plain), hex(bytes));
  }
  if (cut === undefined) return;
  const [short, e3] = await attempt(() => codec.decode(bytes.slice(0, cut)));
  if (!e3) why.push(`js ${what}: ${cut} of ${bytes.length} bytes were accepted as ${show(view(short))}`);
}
function same(why, what, got, want) {
  if (text(got) !== text(want)) why.push(`js ${what}: specified ${show(want)}; got ${show(got)}`);
}

const stateView = (s) => ({ authority: s.updateAuthority, bump: s.bump, cooldown: s.coolDownPeriodS, escrow: s.escrowedOrcaAmount, vaultBump: s.vaultBump });
const claimView = (p) => ({ amt: p.withdrawableOrcaAmount, bump: p.bump, idx: p.withdrawIndex, owner: p.unstaker, ts: p.withdrawableTimestamp });
const n = Number;
const wantState = (r) => ({ authority: r.authority, bump: n(r.bump), cooldown: r.cooldown, escrow: r.escrow, vaultBump: n(r.vaultBump) });
const wantClaim = (r) => ({ amt: r.amt, bump: n(r.bump), idx: n(r.idx), owner: r.owner, ts: r.ts });

const INSTRUCTIONS = {
  OStake: ['Stake', ['stakerAccount', 'vaultAccount', 'stakerOrcaAta', 'stakerXorcaAta', 'xorcaMintAccount', 'stateAccount', 'orcaMintAccount', 'tokenProgramAccount'],
    ([a]) => ({ orcaStakeAmount: BigInt(a) })],
  OUnstake: ['Unstake', ['unstakerAccount', 'stateAccount', 'pendingWithdrawAccount', 'unstakerXorcaAta', 'xorcaMintAccount', 'orcaMintAccount', 'vaultAccount', 'systemProgramAccount', 'tokenProgramAccount'],
    ([a, i]) => ({ xorcaUnstakeAmount: BigInt(a), withdrawIndex: n(i) })],
  OWithdraw: ['Withdraw', ['unstakerAccount', 'stateAccount', 'pendingWithdrawAccount', 'unstakerOrcaAta', 'vaultAccount', 'orcaMintAccount', 'systemProgramAccount', 'tokenProgramAccount'],
    ([i]) => ({ withdrawIndex: n(i) })],
  OInit: ['Initialize', ['payerAccount', 'updateAuthorityAccount', 'stateAccount', 'vaultAccount', 'xorcaMintAccount', 'orcaMintAccount', 'systemProgramAccount', 'tokenProgramAccount', 'associatedTokenProgramAccount'],
    ([c]) => ({ coolDownPeriodS: BigInt(c) })],
  OCooldown: ['Set', ['updateAuthorityAccount', 'stateAccount'], ([c]) => ({ instructionData: { __kind: 'UpdateCoolDownPeriod', newCoolDownPeriodS: BigInt(c) } })],
  OAuthority: ['Set', ['updateAuthorityAccount', 'stateAccount'], ([k]) => ({ instructionData: { __kind: 'UpdateUpdateAuthority', newAuthority: k } })],
};
const EVENTS = {
  EStake: ['Stake', ['orcaStakeAmount', 'vaultOrcaAmount', 'vaultEscrowedOrcaAmount', 'xorcaMintSupply', 'xorcaToMint']],
  EUnstake: ['Unstake', ['xorcaUnstakeAmount', 'vaultOrcaAmount', 'vaultEscrowedOrcaAmount', 'xorcaMintSupply', 'withdrawableOrcaAmount', 'coolDownPeriodS', 'withdrawIndex']],
  EWithdraw: ['Withdraw', ['vaultEscrowedOrcaAmount', 'withdrawableOrcaAmount', 'coolDownPeriodS', 'withdrawIndex']],
  EAuthority: ['UpdateAuthoritySet', ['newAuthority', 'setBy']],
};
const snake = (s) => s.replace(/([a-z0-9])([A-Z])/g, '$1_$2').toUpperCase();

function node(v) {
  const at = new Map(v.accounts.map(([k, owner, data, len]) => {
    const bytes = Buffer.alloc(len);
    Buffer.from(data, 'base64').copy(bytes);
    return [k, { owner, bytes }];
  }));
  const render = (k, c, dflt) => {
    const a = at.get(k);
    if (!a) return null;
    const enc = c?.encoding ?? dflt;
    let b = a.bytes;
    if (c?.dataSlice) b = b.subarray(c.dataSlice.offset, c.dataSlice.offset + c.dataSlice.length);
    if (enc === 'base58' && b.length > 128) throw new Error('Encoded binary (base 58) data should be less than 128 bytes, please use Base64 encoding.');
    const text = enc === 'base58' ? '' : b.toString('base64');
    return { data: [text, enc], executable: false, lamports: 1000000n, owner: a.owner, rentEpoch: 18446744073709551615n, space: BigInt(a.bytes.length) };
  };
  const call = (f) => ({ send: async () => {
    if (v.down) throw new Error('the node is unavailable');
    return { context: { slot: 1n }, value: f() };
  } });
  return {
    getAccountInfo: (k, c) => call(() => render(k, c, 'base58')),
    getMultipleAccounts: (ks, c) => call(() => {
      if (ks.length > 100) throw new Error('Too many inputs provided; max 100');
      return ks.map((k) => render(k, c, 'base64'));
    }),
  };
}

const CHECKS = {
  async Address(v, why) {
    const two = async (f) => { const [p, e] = await attempt(f); return e ? `failed: ${e.message}` : [p[0], p[1]]; };
    same(why, 'state address', await two(() => client.findStateAddress()), v.state);
    same(why, 'claim address', await two(() => client.findPendingWithdrawAddress(v.owner, v.idx)), v.claim);
    same(why, 'vault address', await two(() => client.findVaultAddress(v.state[0], v.known.token, v.known.orca)), v.vault);
    same(why, 'associated address', await two(() => client.findVaultAddress(...v.args)), v.other);
    same(why, 'program address', client.XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS, v.known.self);
  },
  async Instr(v, why) {
    const [name, accounts, args] = INSTRUCTIONS[v.op];
    const signers = v.metas.map((m) => m[1]);
    const input = { ...args(v.args) };
    accounts.forEach((a, i) => (input[a] = signers[i] ? { address: v.keys[i], signTransactions: async () => [] } : v.keys[i]));
    const [ix, e] = await attempt(() => client[`get${name}Instruction`](input));
    if (e) return why.push(`js get${name}Instruction: fails: ${e.message}`);
    same(why, 'program', ix.programAddress, v.metas && 'StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT');
    same(why, 'accounts', ix.accounts.map((a) => [a.address, a.role >= 2, (a.role & 1) === 1]), v.metas);
    same(why, 'data', hex(ix.data), v.data);
    same(why, 'signers at hand', ix.accounts.map((a) => Boolean(a.signer)), signers);
    // the same for a program deployed elsewhere
    const elsewhere = v.keys.at(-1);
    const [there, f] = await attempt(() => client[`get${name}Instruction`](input, { programAddress: elsewhere }));
    if (f) why.push(`js get${name}Instruction for another program address: fails: ${f.message}`);
    else same(why, 'for another program address', [there.programAddress, there.accounts.map((a) => [a.address, a.role]), hex(there.data)], [elsewhere, ix.accounts.map((a) => [a.address, a.role]), v.data]);
    const [few] = await attempt(() => client[`parse${name}Instruction`]({ ...ix, accounts: ix.accounts.slice(0, -1) }));
    if (few) why.push(`parse${name}Instruction: accepts ${accounts.length - 1} accounts`);
    const parsed = client[`parse${name}Instruction`](ix);
    same(why, 'parsed accounts', accounts.map((a) => parsed.accounts[a].address), v.keys);
    const { discriminator, ...rest } = parsed.data;
    same(why, 'parsed arguments', rest, args(v.args));
    const codec = client[`get${name}InstructionDataCodec`]();
    same(why, 'discriminator', [hex(client[`get${name}DiscriminatorBytes`]()), client[`${name.toUpperCase()}_DISCRIMINATOR`]],
      [v.data.slice(0, 2), parseInt(v.data.slice(0, 2), 16)]);
    const { __kind, ...fields } = input.instructionData ?? {};
    if (__kind) {
      same(why, 'update made', client.stateUpdateInstruction(__kind, fields), input.instructionData);
      same(why, 'update recognised', ['UpdateCoolDownPeriod', 'UpdateUpdateAuthority'].map((k) => client.isStateUpdateInstruction(k, parsed.data.instructionData)),
        ['UpdateCoolDownPeriod', 'UpdateUpdateAuthority'].map((k) => k === __kind));
    }
    same(why, 'encoded arguments', hex(client[`get${name}InstructionDataEncoder`]().encode(args(v.args))), v.data);
    same(why, 'arguments decoded alone', client[`get${name}InstructionDataDecoder`]().decode(Buffer.from(v.data, 'hex')), parsed.data);
    same(why, 'decoded arguments', codec.decode(Buffer.from(v.data, 'hex')), parsed.data);
    same(why, 'identified as', client.identifyXorcaStakingProgramInstruction(ix), client.XorcaStakingProgramInstruction[name]);
  },
  async StateV(v, why) {
    const b = Buffer.from(v.bytes, 'hex');
    await decoded(why, 'state', 'State', b, v.cut, wantState(v.rec), stateView);
    const [a, e] = await attempt(() => client.decodeState({ address: v.rec.authority, exists: true, data: b }));
    same(why, 'state account', e ? e.message : stateView(a.data), wantState(v.rec));
    same(why, 'state discriminator', [hex(client.getStateDiscriminatorBytes()), client.STATE_DISCRIMINATOR], [hex(b.subarray(0, 1)), b[0]]);
    same(why, 'state size', client.getStateSize(), b.length);
    same(why, 'state identified as', client.identifyXorcaStakingProgramAccount(b), client.XorcaStakingProgramAccount.State);
  },
  async ClaimV(v, why) {
    const b = Buffer.from(v.bytes, 'hex');
    await decoded(why, 'claim', 'PendingWithdraw', b, v.cut, wantClaim(v.rec), claimView);
    const [a, e] = await attempt(() => client.decodePendingWithdraw({ address: v.rec.owner, exists: true, data: b }));
    same(why, 'claim account', e ? e.message : claimView(a.data), wantClaim(v.rec));
    same(why, 'claim discriminator', [hex(client.getPendingWithdrawDiscriminatorBytes()), client.PENDING_WITHDRAW_DISCRIMINATOR], [hex(b.subarray(0, 1)), b[0]]);
    same(why, 'claim size', client.getPendingWithdrawSize(), b.length);
    same(why, 'claim identified as', client.identifyXorcaStakingProgramAccount(b), client.XorcaStakingProgramAccount.PendingWithdraw);
  },
  async TokenV(v, why) {
    const r = v.rec;
    await decoded(why, 'token account', 'TokenAccount', Buffer.from(v.bytes, 'hex'), v.cut,
      [r.mint, r.owner, r.amt, n(r.delegFlag), r.deleg, n(r.state), n(r.nativeFlag), r.native, r.delegAmt, n(r.closeFlag), r.close],
      (t) => [t.mint, t.owner, t.amount, t.delegateFlag, t.delegate, t.state, t.isNativeFlag, t.nativeAmount, t.delegateAmount, t.closeAuthorityFlag, t.closeAuthority]);
  },
  async MintV(v, why) {
    const r = v.rec;
    await decoded(why, 'token mint', 'TokenMint', Buffer.from(v.bytes, 'hex'), v.cut,
      [n(r.authFlag), r.auth, r.supply, n(r.dec), r.init !== '0', n(r.freezeFlag), r.freeze],
      (t) => [t.mintAuthorityFlag, t.mintAuthority, t.supply, t.decimals, t.isInitialized, t.freezeAuthorityFlag, t.freezeAuthority]);
  },
  async EventV(v, why) {
    const [kind, fields] = EVENTS[v.kind];
    const kinds = Object.values(EVENTS).map(([k]) => k);
    const want = Object.fromEntries([['__kind', kind], ...fields.map((f, i) => [f, f === 'withdrawIndex' ? n(v.vals[i]) : v.vals[i]])]);
    await decoded(why, 'event', 'Event', Buffer.from(v.bytes, 'hex'), v.cut, want);
    const { __kind, ...given } = want;
    same(why, 'event made', client.event(kind, given), want);
    same(why, 'event recognised', kinds.map((k) => client.isEvent(k, want)), kinds.map((k) => k === kind));
  },
  async ErrorV(v, why) {
    same(why, `code of ${v.name}`, client[`XORCA_STAKING_PROGRAM_ERROR__${snake(v.name)}`], v.code);
    same(why, `text of ${v.code}`, client.getXorcaStakingProgramErrorMessage(v.code), v.message);
    const message = { instructions: { 0: { programAddress: client.XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS }, 1: { programAddress: '11111111111111111111111111111111' } } };
    const error = (index) => ({ context: { __code: 4615026, index, code: v.code } });
    same(why, `error ${v.code} recognised`, [client.isXorcaStakingProgramError(error(0), message, v.code), client.isXorcaStakingProgramError(error(1), message, v.code),
      client.isXorcaStakingProgramError(error(0), message, v.code + 1)], [true, false, false]);
  },
  async Conv(v, why) {
    for (const [name, f, want] of [['convertOrcaToXorca', client.convertOrcaToXorca, v.cs], ['convertXorcaToOrca', client.convertXorcaToOrca, v.ca]]) {
      const [r, e] = await attempt(() => f(BigInt(v.amt), BigInt(v.free), BigInt(v.supply)));
      const empty = name === 'convertXorcaToOrca' && (v.free === '0' || v.supply === '0');
      if (want.ok || empty) same(why, `${name}(${v.amt}, ${v.free}, ${v.supply})`, e ? 'failure' : big(r), want.ok ? want.v : 'failure');
    }
  },
  async QueryV(v, why) {
    const rpc = node(v);
    const ask = async (what, f, want, view) => {
      if (want === 'unspecified') return;
      const [r, e] = await attempt(f);
      if (e && want !== null) why.push(`js ${what}: specified to succeed; fails with ${e.message}`);
      else if (!e && want === null) why.push(`js ${what}: specified to fail; got ${show(view(r))}`);
      else if (!e) same(why, what, view(r), want);
    };
    const w = v.want;
    await ask('state query', () => client.fetchStateAccountData(rpc), w.state && wantState(w.state), stateView);
    await ask('cooldown query', () => client.fetchStateAccountCoolDownPeriodS(rpc), w.cooldown, big);
    await ask('supply query', () => client.fetchXorcaMintSupply(rpc), w.supply, big);
    await ask('vault query', () => client.fetchVaultState(rpc), w.vault && [w.vault.address, w.vault.owner, w.vault.mint, w.vault.amt], (s) => [s.address, s.owner, s.mint, s.amount]);
    await ask('exchange rate query', () => client.fetchStakingExchangeRate(rpc), w.rate, (r) => [r.numerator, r.denominator]);
    const limit = v.limit < 0 ? [] : [v.limit];
    const pending = () => client.fetchPendingWithdrawsForStaker(rpc, v.staker, ...limit);
    const how = `pending claims query (limit ${v.limit})`;
    if (Array.isArray(w.pending)) {
      await ask(`${how}: indices`, pending, w.pending.map((p) => n(p.idx)), (ps) => ps.map((p) => p.withdrawIndex));
      const [ps] = await attempt(pending);
      if (ps && ps.length === w.pending.length) ps.forEach((p, i) => same(why, `${how}: claim ${p.withdrawIndex}`, claimView(p), wantClaim(w.pending[i])));
    } else await ask(how, pending, w.pending, (ps) => ps.map((p) => p.withdrawIndex));
    // fetching accounts by address
    const stored = new Map(v.accounts.map(([k, owner, , len]) => [k, [owner, len]]));
    const fetchers = async (what, name, at, want, view, wanted) => {
      const seen = (a) => {
        if (!a.exists) return { at: a.address, rec: null };
        if (a.programAddress !== stored.get(a.address)?.[0]) why.push(`js ${what}: owner of ${a.address} given as ${a.programAddress}`);
        return { at: a.address, rec: view(a.data) };
      };
      const expect = (l, k) => l && l.slice(0, k).map((r, i) => ({ at: at[i], rec: r && wanted(r) }));
      if (!(at.length === 0 && v.down)) {
        await ask(`${what}, all that exist`, () => client[`fetchAllMaybe${name}`](rpc, at), expect(want.some, at.length), (l) => l.map(seen));
        await ask(`${what}, all`, () => client[`fetchAll${name}`](rpc, at), expect(want.every, at.length), (l) => l.map(seen));
      }
      if (at.length === 1) {
        await ask(`${what}, if it exists`, () => client[`fetchMaybe${name}`](rpc, at[0]), expect(want.some, 1), (a) => [seen(a)]);
        await ask(what, () => client[`fetch${name}`](rpc, at[0]), expect(want.every, 1), (a) => [seen(a)]);
      }
    };
    await fetchers('claim accounts', 'PendingWithdraw', v.picks, v.claims, claimView, wantClaim);
    await fetchers('state account', 'State', [v.stateAddress], v.stateRecord, stateView, wantState);
  },
};

const cases = [];
const vectors = {};
const notRun = {};
for (const line of readFileSync(vectorsFile, 'utf8').split('\n')) {
  if (!line) continue;
  const { kind, v } = JSON.parse(line);
  const why = [];
  globalThis.notModelled = undefined;
  let skipped;
  try {
    if (scripts.kinds.includes(kind)) skipped = await scripts.check(repo, work, kind, v, why);
    else await CHECKS[kind](v, why);
  } catch (e) {
    why.push(`js client fails: ${e.message}`);
  }
  skipped ??= globalThis.notModelled;
  // code that calls what the stand-ins do not model is not judged on this vector
  if (skipped) {
    notRun[kind] ??= {};
    notRun[kind][skipped] = (notRun[kind][skipped] ?? 0) + 1;
    continue;
  }
  vectors[kind] = (vectors[kind] ?? 0) + 1;
  if (why.length && cases.length < 500) cases.push(JSON.stringify({ client: 'js', kind, why, input: v }));
}
for (const kind of Object.keys(notRun)) {
  if (vectors[kind]) continue;
  process.stderr.write(`nothing of ${kind} could be run: ${JSON.stringify(notRun[kind])}\n`);
  process.exit(3);
}
writeFileSync(casesOut, cases.map((c) => c + '\n').join(''));
writeFileSync(statsOut, JSON.stringify({ vectors, divergences: cases.length, notRun }));
