// Runs the operator scripts (ts-scripts) on the command lines and ledgers of spec/scripts.qnt, on the stand-ins of web3.cjs.
import { createRequire } from 'node:module';
import { basename, dirname, join } from 'node:path';
import { fileURLToPath, pathToFileURL } from 'node:url';

const require = createRequire(import.meta.url);
const here = dirname(fileURLToPath(import.meta.url));
const esbuild = createRequire('/opt/veriftools/node/')('esbuild');
const kit = require('./kit.cjs');
process.on('unhandledRejection', () => {});

const web3 = require('./web3.cjs');
const files = require('./files.cjs');
globalThis.standIns = { '@solana/web3.js': web3, '@solana/spl-token': web3, fs: files, 'node:fs': files, 'fs/promises': files.promises, 'node:fs/promises': files.promises, '@irys/sdk': require('./irys.cjs') };
const standIn = (name) => globalThis.standIns[name] ?? (/^@solana/.test(name) ? (globalThis.standIns[name] = kit) : undefined);
const bundles = new Map();
// one bundle per script; what belongs to the process is taken from the scene the module is loaded for
async function bundle(repo, script, work) {
  if (!bundles.has(script)) {
    const outfile = join(work, `${script}.mjs`);
    await esbuild.build({
      entryPoints: [join(repo, 'ts-scripts', `${script}.ts`)], bundle: true, platform: 'node', format: 'esm', outfile, logLevel: 'error',
      banner: { js: "import { createRequire as __cr } from 'node:module'; const require = __cr(import.meta.url);\n" +
        'const { process, console, Date, setTimeout } = globalThis.scene.process;' },
      plugins: [{ name: 'stand-ins', setup: (b) => {
        b.onResolve({ filter: /.*/ }, (a) => {
          if (standIn(a.path)) return { path: a.path, namespace: 'stand-in' };
          if (a.path === '@orca-so/xorca') return { path: join(repo, 'js-client/src/index.ts') };
        });
        b.onLoad({ filter: /.*/, namespace: 'stand-in' }, (a) => ({ contents: `module.exports = globalThis.standIns[${JSON.stringify(a.path)}];`, loader: 'js' }));
      } }],
    });
    bundles.set(script, pathToFileURL(outfile).href);
  }
  return bundles.get(script);
}

class Exit extends Error {}
const RealDate = Date;
let serial = 0;
export async function run(repo, work, script, args, v) {
  const now = Number(v.now ?? 1750000000) * 1000 + Number(v.millis ?? 0);
  const out = [];
  const say = (to) => (...xs) => { if (!scene.exited) to.push(xs.map((x) => (typeof x === 'string' ? x : x instanceof Error ? String(x.stack) : String(x))).join(' ')); };
  const files = new Map(v.files ?? []);
  const argv = args.map((a) => {
    if (typeof a === 'string') return a;
    const path = `keypairs/${files.size}.json`;
    files.set(path, JSON.stringify([...Buffer.alloc(32, 9), ...kit.internals.fromBase58(a.wallet)]));
    return path;
  });
  const scene = {
    accounts: new Map((v.accounts ?? []).map((a) => [a.at, { owner: a.owner, data: Buffer.from(a.data, 'hex') }])),
    wallets: new Set(v.wallets ?? []), fault: Number(v.fault?.at ?? -1) < 0 ? { at: Infinity, lasts: 0 } : { at: Number(v.fault.at), lasts: Number(v.fault.lasts) }, failed: false, asked: 0, now: Math.floor(now / 1000),
    sent: [], files, out, exited: false, code: 0, notModelled: undefined, unwritable: v.unwritable, refuses: v.refuses,
  };
  const exit = (code) => {
    if (!scene.exited) Object.assign(scene, { exited: true, code: code ?? 0 });
    throw new Exit('exit');
  };
  scene.process = {
    console: { log: say(out), info: say(out), debug: say(out), table: say(out), error: process.env.SCRIPTS_VERBOSE ? (...x) => process.stderr.write(x.map(String).join(" ") + "\n") : say([]), warn: say([]), trace: say([]) },
    process: { argv: ['node', `${script}.ts`, ...argv], exit, env: {}, platform: process.platform, cwd: () => '/', on: () => {}, once: () => {}, nextTick: process.nextTick,
      stdout: { write: (t) => say(out)(t.replace(/\n$/, '')), isTTY: false }, stderr: { write: () => true }, set exitCode(c) { scene.code = c; }, version: process.version, versions: process.versions },
    Date: class extends RealDate {
      constructor(...a) { if (a.length) super(...a); else super(now); }
      static now() { return now; }
    },
    setTimeout: (f, ms, ...a) => { scene.asked2 = (scene.asked2 ?? 0) + 1; return setImmediate(() => f(...a)); },
  };
  globalThis.scene = scene;
  try {
    await import(`${await bundle(repo, script, work)}?${serial++}`);
  } catch (e) {
    if (!(e instanceof Exit) && !scene.exited) scene.code = 1;
    if (/not modelled/.test(e.message)) scene.notModelled ??= e.message;
    if (e?.errors || /Could not resolve|Build failed/.test(e.message)) scene.notModelled ??= e.message;
  }
  // the scripts do not wait for main(): run until nothing is asked any more
  for (let still = 0, last = -1; still < 4 && !scene.exited; ) {
    await new Promise((r) => setImmediate(r));
    const n = scene.asked + scene.sent.length + scene.out.length + (scene.asked2 ?? 0);
    still = n === last ? still + 1 : 0;
    last = n;
  }
  scene.exited = true;
  return scene;
}

const same = (why, what, got, want) => {
  if (JSON.stringify(got) !== JSON.stringify(want)) why.push(`${what}: specified ${JSON.stringify(want)?.slice(0, 400)}; got ${JSON.stringify(got)?.slice(0, 400)}`);
};
const ATA = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
const SPL = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
// the creation of an associated token account, in either of its forms; one that cannot do anything is no instruction
function normal(i, accounts) {
  if (i.program !== ATA || !['', '00', '01'].includes(i.data) || i.accounts.length !== 6) return i;
  const [payer, at, owner, mint, system, token] = i.accounts;
  const right = JSON.stringify(i.accounts.map((a) => a.slice(1))) === JSON.stringify([[true, true], [false, true], [false, false], [false, false], [false, false], [false, false]]) ||
    (payer[0] === owner[0] && payer[1] && payer[2]);
  if (!right || system[0] !== '11111111111111111111111111111111' || token[0] !== SPL) return i;
  if (i.data === '01' && accounts.has(at[0])) return null;
  return { create: at[0], payer: payer[0], owner: owner[0], mint: mint[0] };
}

// what a command line and the files of a scene look like for a vector that has no ledger
const text = (v) => {
  const digit = (d) => (d < 0 ? 'x' : d.toString(16));
  const t = v.digits.map(digit).join('') + (v.pub ? kit.internals.publicKey(Buffer.from(v.want.seed)).toString('hex') : '') + v.rest.map(digit).join('');
  return v.upper ? t.toUpperCase() : t;
};
const IMAGE = (v) => `pictures/token.${v.ext}`;
const KEYS = 'keypairs/uploader.json';
const SETTINGS = {
  KeyFileV: (v) => ['generate-keypair', v.file ? [text(v), v.file] : [text(v)], { unwritable: !v.writable }],
  UploadV: (v) => ['upload-image', [IMAGE(v), KEYS, ...(v.network ? [v.network] : [])], { now: v.now, millis: v.millis, refuses: v.refuses, files: [
    ...(v.image ? [[IMAGE(v), Buffer.from(v.content)]] : []), ['other.png', Buffer.from('other')],
    ...(v.numbers === -2 ? [] : [[KEYS, JSON.stringify(v.numbers === -1 ? { key: v.key } : [...v.key, 1].slice(0, v.numbers))]]),
  ] }],
};

const CHECKS = {
  async KeyFileV(v, why, s, work) {
    const what = `key file from ${text(v)}`;
    const out = s.out.join('\n');
    const files = [...s.files.keys()];
    if (!v.want.written) {
      if (files.length) why.push(`${what}: specified to write nothing; writes ${files.map((f) => basename(f))}`);
      if (s.code === 0) why.push(`${what}: specified to fail; exit code 0`);
      if (/generated successfully/.test(out)) why.push(`${what}: success is reported`);
      return;
    }
    const pub = kit.internals.publicKey(Buffer.from(v.want.seed));
    same(why, `${what}: files written`, files, [join(work, 'keypairs', v.want.file)]);
    if (files.length !== 1) return;
    let got;
    try { got = JSON.parse(String(s.files.get(files[0]))); } catch (e) { got = e.message; }
    same(why, `${what}: content`, got, [...v.want.seed, ...pub]);
    for (const m of out.matchAll(/Public key: (\S+)/g)) same(why, `${what}: public key shown`, m[1], kit.internals.toBase58(pub));
    same(why, `${what}: exit code`, s.code, 0);
  },
  async UploadV(v, why, s) {
    const w = v.want;
    const what = `upload of token.${v.ext}${v.network && ` to ${v.network}`}`;
    const success = /Upload successful|completed successfully/.test(s.out.join('\n'));
    if (!w.done) {
      if (s.sent.length) why.push(`${what}: specified to upload nothing; uploads ${JSON.stringify(s.sent).slice(0, 300)}`);
      if (s.code === 0) why.push(`${what}: specified to fail; exit code 0`);
      if (success) why.push(`${what}: success is reported`);
      return;
    }
    if (s.sent.length !== 1) return why.push(`${what}: specified to upload once; uploads ${s.sent.length} times (exit code ${s.code})`);
    const [u] = s.sent;
    same(why, `${what}: content`, u.data, v.content);
    same(why, `${what}: key`, u.key, v.key);
    same(why, `${what}: network`, [u.url.replace(/\/$/, ''), u.token], [w.url, 'solana']);
    same(why, `${what}: content type`, u.tags.filter((t) => t.name === 'Content-Type').map((t) => t.value), [w.is]);
    for (const t of u.tags) if (t.name === 'Upload-Date') same(why, `${what}: date`, t.value, new RealDate(Number(v.now) * 1000 + Number(v.millis)).toISOString());
    same(why, `${what}: exit code`, s.code, 0);
  },
  async Script(v, why, s) {
    const w = v.want;
    const what = `${v.script} ${v.args.map((a) => a.wallet ?? a).join(' ')}`;
    if (w.rule === 'Never' || ((w.rule === 'May' || s.failed) && s.sent.length === 0)) {
      if (s.sent.length) why.push(`${what}: specified to send nothing; sends ${JSON.stringify(s.sent).slice(0, 600)}`);
      return;
    }
    if (s.sent.length !== 1) return why.push(`${what}: specified to send one transaction; sends ${s.sent.length} (exit code ${s.code})`);
    same(why, `${what}: fee payer`, s.sent[0].payer, w.payer);
    const got = s.sent[0].instructions.map((i) => normal(i, s.accounts)).filter(Boolean);
    same(why, `${what}: number of instructions`, got.length, w.instructions.length);
    // a right to write that is not needed is harmless
    const rights = (i, k) => ({ ...i, accounts: i.accounts?.map(([a, s, w], j) => [a, s, w || (got[k]?.accounts?.[j]?.[2] ?? false)]) });
    w.instructions.map(rights).forEach((i, k) => got[k] && Object.keys(i).forEach((f) => same(why, `${what}: instruction ${k}: ${f}`, got[k][f], i[f])));
  },
  async Pending(v, why, s) {
    const w = v.want;
    const text = s.out.join('\n');
    const found = /Found (\d+) pending withdraws/.exec(text);
    if (s.failed && !found) return;
    if (!w.shown) {
      if (found) why.push(`pending report: specified to show no list; shows ${found[1]} claims`);
      return;
    }
    if (!found) return why.push(`pending report: specified to list ${w.rows.length} claims; shows no list (exit code ${s.code})`);
    const parts = text.split(/^(?=\d+\. Pending Withdraw #)/m).slice(1);
    const blocks = parts.map((p) => p.split(/^.*Summary/m)[0]);
    const one = (b, re) => re.exec(b)?.[1];
    same(why, 'pending report: number found', found[1], String(w.rows.length));
    same(why, 'pending report: indices', blocks.map((b) => one(b, /Withdraw #(\d+)/)), w.rows.map((r) => r.idx));
    if (blocks.length === w.rows.length) w.rows.forEach((r, i) => {
      const b = blocks[i];
      const at = `pending report: claim ${r.idx}`;
      same(why, `${at}: address`, one(b, /Address: (\S+)/), r.at);
      same(why, `${at}: amount`, one(b, /Amount: (\d+)/), r.amt);
      same(why, `${at}: ready`, /READY TO WITHDRAW/.test(b) && !/COOLDOWN ACTIVE/.test(b), r.ready);
      if (r.elapsed) same(why, `${at}: time elapsed`, one(b, /Time Elapsed: (.*)/), r.elapsed);
      if (r.left) same(why, `${at}: time ${r.ready ? 'since' : 'left'}`, one(b, r.ready ? /Ready for: (.*)/ : /Time Remaining: (.*)/), r.left);
      const c = BigInt(r.created);
      if (c >= 0n && c <= 8640000000000n) same(why, `${at}: created`, one(b, /Created: (.*)/), new RealDate(Number(c) * 1000).toISOString());
    });
    if (!w.rows.length) return;
    same(why, 'pending report: total', one(text, /Total Pending Withdraws: (\d+)/), String(w.rows.length));
    same(why, 'pending report: ready', one(text, /Ready to Withdraw: (\d+)/), w.ready);
    same(why, 'pending report: waiting', one(text, /In Cooldown: (\d+)/), w.waiting);
    if (w.ready !== '0') same(why, 'pending report: total ready', one(text, /Total \S+ Ready: (\d+)/), w.readyTotal);
    if (w.waiting !== '0') same(why, 'pending report: total waiting', one(text, /Total \S+ in Cooldown: (\d+)/), w.waitingTotal);
  },
  async StatusV(v, why, s) {
    const w = v.want;
    const text = s.out.join('\n');
    const all = (re) => [...text.matchAll(new RegExp(re, 'g'))].map((m) => m[1]);
    const figure = (what, re, want, min = 1) => {
      const got = all(re);
      if (want === null) {
        if (got.length) why.push(`status report: ${what}: specified to be left out; shows ${got}`);
      } else if ((got.length < min && !s.failed) || got.some((g) => g !== want)) why.push(`status report: ${what}: specified ${want}; shows ${got}`);
    };
    figure('cooldown', 'Cool Down Period: (-?\\d+)', w.shown ? w.cooldown : null);
    figure('update authority', 'Update Authority: (\\S+)', w.shown ? w.authority : null);
    figure('escrow', 'Escrowed ORCA(?: Amount)?: (\\d+)'.replace('Escrowed', '(?<!Non-)Escrowed'), w.shown ? w.escrow : null);
    if (!w.rated) return figure('exchange rate', 'Rate[^:]*: ([\\d.]+)', null);
    if (s.failed && !/Rate/.test(text)) return;
    figure('vault', 'Total ORCA in Vault: (\\d+)', w.vault);
    figure('free ORCA', 'Non-Escrowed ORCA: (\\d+)', w.free);
    figure('supply', 'xORCA (?:Total )?Supply: (\\d+)', w.supply);
    figure('numerator', 'Numerator[^:]*: (\\d+)', w.num);
    figure('denominator', 'Denominator[^:]*: (\\d+)', w.den);
    // prices are shown with ten decimals
    const price = (what, res, num, den) => {
      const got = res.flatMap(all);
      if (got.length < res.length) why.push(`status report: ${what}: shown ${got.length} times, specified ${res.length}`);
      for (const g of got) {
        const shown = BigInt(g.replace(/\.(\d{10})$/, '$1')) * den;
        const exact = num * 10n ** 10n;
        const off = shown > exact ? shown - exact : exact - shown;
        if (!/^\d+\.\d{10}$/.test(g) || off > den + exact / 10n ** 12n) why.push(`status report: ${what}: specified ${num}/${den}; shows ${g}`);
      }
    };
    const [num, den] = [BigInt(w.num), BigInt(w.den)];
    price('ORCA for one xORCA', ['xORCA → ORCA Rate: (\\S+)', '1 xORCA = (\\S+) ORCA', 'Exchange Rate \\(xORCA→ORCA\\): (\\S+)'], num, den);
    price('xORCA for one ORCA', ['ORCA → xORCA Rate: (\\S+)'.replace('ORCA', '(?<!x)ORCA'), '1 ORCA = (\\S+) xORCA', 'Exchange Rate \\(ORCA→xORCA\\): (\\S+)'], den, num);
  },
};

/// The differences from the specification; nothing if the script uses what the stand-ins do not model.
export async function check(repo, work, kind, v, why) {
  const setting = SETTINGS[kind]?.(v);
  if (setting) {
    const s = await run(repo, work, setting[0], setting[1], setting[2]);
    if (s.notModelled) return String(s.notModelled).slice(0, 200);
    return void (await CHECKS[kind](v, why, s, work));
  }
  const script = kind === 'Script' ? v.script : kind === 'Pending' ? 'pending-withdraws' : 'status';
  const s = await run(repo, work, script, v.args ?? (kind === 'Pending' ? [v.staker] : []), v);
  if (s.notModelled) return String(s.notModelled).slice(0, 200);
  await CHECKS[kind](v, why, s);
}
export const kinds = Object.keys(CHECKS);
