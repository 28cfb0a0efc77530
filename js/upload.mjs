// C24: the script that uploads an image, run for every combination of arguments and files, with every answer of the
// service and a failure, or a file going away, at every look at the disk.
// usage: node upload.mjs quick|thorough <repository>
import { mkdirSync, writeFileSync } from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { Disk, Unmodelled, load, run as start } from './disk.mjs';
import { fromBase58, toBase58 } from './stubs/base.js';
import * as web3 from './stubs/web3.js';

const root = process.env.VERIF ?? path.join(path.dirname(fileURLToPath(import.meta.url)), '..');
const [tier, repo] = process.argv.slice(2);
const deep = tier === 'thorough';
const t0 = Date.now();
const script = await load(path.join(repo, 'ts-scripts/upload-image.ts'), root, ['@irys/sdk', '@solana/web3.js']);
const n = { runs: 0, uploads: 0, refused: 0, faults: 0 };

// ---- the service ---------------------------------------------------------------------------------------------

const RECEIPT = 'hLuB8MBPNF2GyqS1WzbUVh_Zx4CP5hBPRTyHLWd2Jyo';
const ANSWERS = [
  { title: 'stored', give: async () => ({ id: RECEIPT, timestamp: 1, version: '1.0.0', public: '', signature: '', deadlineHeight: 1, block: 1, validatorSignatures: [] }) },
  { title: 'no funds', give: async () => Promise.reject(new Error('402 error: Not enough balance for transaction')), fails: true },
  { title: 'a failure that is no Error', give: async () => Promise.reject('ECONNRESET'), fails: true },
  { title: 'a failure without a word', give: async () => Promise.reject(undefined), fails: true },
  { title: 'a failure at once', give: () => { throw new Error('the data cannot be signed'); }, fails: true },
];
function service(answer, calls, broken) {
  const strict = (what, o) =>
    new Proxy(o, {
      get(t, k) {
        if (typeof k === 'string' && !(k in t) && k !== 'then') throw new Unmodelled(`${what} has no ${k} here`);
        return t[k];
      },
    });
  return class Irys {
    constructor(config) {
      if (broken) throw new Error('the key cannot be used');
      return strict('the uploader', {
        address: 'address',
        ready: async () => this,
        upload: (data, options) => {
          const bytes = typeof data === 'string' ? Buffer.from(data) : Buffer.from(data.buffer, data.byteOffset, data.byteLength);
          calls.push({ config, bytes: Buffer.from(bytes), tags: (options?.tags ?? []).map((t) => ({ ...t })) });
          return answer.give();
        },
      });
    }
  };
}
const bytesOf = (key) => {
  if (typeof key !== 'string') return Buffer.from(Uint8Array.from(key ?? []));
  return Buffer.from(key.startsWith('[') ? JSON.parse(key) : fromBase58(key));
};

// ---- what is asked, and what is true ---------------------------------------------------------------------------

const whole = [...web3.Keypair.fromSeed(new Uint8Array(32).fill(5)).secretKey];
const second = [...web3.Keypair.fromSeed(new Uint8Array(32).fill(6)).secretKey];
const image = Buffer.from([0x89, 0x50, 0x4e, 0x47, 0, 0xff, 0x0a, 0x0d, 0xc3, 0x28, 0xef, 0xbb, 0xbf]);
const images = { small: image, one: Buffer.from([0]), large: Buffer.from({ length: 70000 }, (_, i) => (i * i + (i >> 8)) & 255) };
const keys = { good: JSON.stringify(whole), spaced: JSON.stringify(second, null, 1) + '\n' };
for (const k of [0, 31, 32, 63])
  for (const [what, v] of Object.entries({ big: 256, wrapped: 256 + whole[k], negative: whole[k] - 256, fraction: whole[k] + 0.5, nothing: null, list: [whole[k]], word: 'x', yes: true }))
    keys[`${what} at ${k}`] = JSON.stringify(whole.map((b, i) => (i === k ? v : b)));
for (const n of [0, 1, 254, 255]) keys[`of bytes ${n}`] = JSON.stringify([...web3.Keypair.fromSeed(new Uint8Array(32).fill(n)).secretKey]);
Object.assign(keys, { short: JSON.stringify(whole.slice(0, 63)), half: JSON.stringify(whole.slice(0, 32)), long: JSON.stringify([...whole, 0]), none: '[]', empty: '', cut: JSON.stringify(whole).slice(0, 100), text: JSON.stringify(toBase58(Uint8Array.from(whole))), object: JSON.stringify({ ...whole, length: 64 }), sized: JSON.stringify('x'.repeat(64)), nothing: 'null', number: '64' });
const TYPES = { png: 'image/png', jpg: 'image/jpeg', jpeg: 'image/jpeg', gif: 'image/gif', webp: 'image/webp', svg: 'image/svg+xml', bmp: 'image/bmp', tiff: 'image/tiff', tif: 'image/tiff', ico: 'image/x-icon' };
const OTHER = 'application/octet-stream';
const names = [];
for (const [e, t] of Object.entries(TYPES)) for (const x of [e, e.toUpperCase(), e[0].toUpperCase() + e.slice(1)]) names.push([`image.${x}`, t]);
for (const x of ['xyz', 'pn', 'pngx', 'png ', 'jp', 'jpg2', 'svgz', 'svg+xml', 'png~', 'constructor', 'toString', '__proto__', 'hasOwnProperty']) names.push([`image.${x}`, OTHER]);
names.push(['a.png.gif', 'image/gif'], ['a.gif.xyz', OTHER], ['image', OTHER], ['.folder.png/image', OTHER], ['folder.gif/a.png', 'image/png'], ['image.', OTHER], ['a b.webp', 'image/webp'], ['-.jpg', 'image/jpeg']);
const networks = [undefined, '', 'mainnet', 'devnet', 'Mainnet', 'testnet', 'mainnet ', 'DEVNET', 'main', 'https://devnet.irys.xyz', '0', 'constructor', '__proto__', 'toString'];
const known = { undefined: 'mainnet', '': 'mainnet', mainnet: 'mainnet', devnet: 'devnet' };
const keyOf = (text) => {
  try {
    const v = JSON.parse(text);
    return Array.isArray(v) && v.length === 64 && v.every((b) => Number.isInteger(b) && b >= 0 && b < 256) ? Buffer.from(v) : undefined;
  } catch {
    return undefined;
  }
};

let found;
const samples = [];
async function check(c) {
  const files = { 'other.png': Buffer.from('another image'), 'other.json': JSON.stringify(second) };
  const dirs = ['folder.png', '.folder.png', 'folder.gif', 'keys.json'];
  if (c.data) files[c.name] = c.data;
  if (c.key !== undefined) files['key.json'] = c.key;
  const disk = new Disk(files, dirs, c.plan);
  const calls = [];
  const args = c.args ?? [c.as ?? c.name, c.keyName ?? 'key.json', ...(c.network === undefined ? [] : [c.network]), ...(c.more ?? [])];
  const r = await start(script, 'upload-image', args, disk, { '@irys/sdk': { default: service(c.answer, calls, c.broken) }, '@solana/web3.js': web3 });
  n.runs++;
  n.uploads += calls.length;
  n.refused += calls.length === 0;
  n.faults += !!disk.happened || !!c.answer.fails || !!c.broken;
  const wrong = (() => {
    const key = c.key === undefined || c.keyName !== undefined ? undefined : keyOf(c.key);
    const network = Object.hasOwn(known, String(c.network)) ? known[String(c.network)] : undefined;
    const usable = !c.args && key && c.data && network;
    const claims = r.lines.some((s) => /success|transaction id|view on|complete/i.test(s.replace(/keypair loaded success\w*/i, '')));
    if (disk.steps) return 'it wrote to the disk';
    if (calls.length > 1) return 'it uploaded more than once';
    if (!usable && calls.length) return 'it uploaded something though it was not given what it needs';
    for (const u of calls) {
      if (!u.bytes.equals(c.data)) return `it uploaded ${u.bytes.length} bytes that are not the image`;
      if (!bytesOf(u.config.key).equals(key)) return 'it paid with another key';
      if (u.config.token !== 'solana') return `it paid in ${u.config.token}`;
      if (/devnet/.test(u.config.url) !== (network === 'devnet') || !/^https:\/\/[a-z0-9.]*irys\.xyz(\/\w*)?$/.test(u.config.url)) return `it went to ${u.config.url} for ${network}`;
      const types = u.tags.filter((t) => t.name.toLowerCase() === 'content-type').map((t) => t.value);
      if (types.length !== 1 || types[0] !== c.type) return `it calls the image ${types.join(' and ') || 'nothing'} instead of ${c.type}`;
    }
    const stored = calls.length === 1 && !c.answer.fails;
    if (claims && !stored) return 'it reports an upload that did not happen';
    if (r.exit === 0 && !stored) return 'it ends as if all were well, but nothing was uploaded';
    if (r.crash && stored) return `it failed on the answer: ${r.crash.message}`;
    if (!stored && usable && !disk.happened && !c.answer.fails && !c.broken) return 'it did not upload the image';
    if (stored) {
      if (r.exit !== 0 || !claims) return 'it uploaded the image, but does not say so';
      const link = r.lines.join('\n').match(/https:\/\/\S+/g)?.filter((l) => l.includes(RECEIPT)) ?? [];
      if (!r.lines.some((s) => s.includes(RECEIPT)) || !link.length) return 'it does not say under what name the image is to be found';
      if (link.some((l) => /devnet/.test(l) !== (network === 'devnet'))) return `it names a place on another network: ${link}`;
      const size = r.lines.map((s) => /^\W*size:?\s*(\d+)/i.exec(s)?.[1]).find((x) => x);
      if (size !== undefined && Number(size) !== c.data.length) return `it says the image has ${size} bytes`;
    }
    return undefined;
  })();
  if (n.runs % 97 === 1) samples.push(`upload-image ${args.join(' ')}; ${c.answer.title}${disk.happened ? '; ' + disk.happened : ''} -> ${r.exit}, ${calls.length} uploads`);
  if (wrong && !found) found = [`upload-image ${args.join(' ')}`, `image: ${c.data?.length} bytes; key file: ${c.key?.slice(0, 400)}`, `the service: ${c.broken ? 'refuses the key' : c.answer.title}`, ...(disk.happened ? [disk.happened] : []), ...r.lines.map((s) => `printed: ${s}`), `ended with ${r.exit}`, wrong];
  return disk.looks;
}

const base = { name: 'image.png', type: 'image/png', data: image, key: keys.good, answer: ANSWERS[0] };
async function everything() {
  for (const [name, type] of names)
    for (const network of ['mainnet', 'devnet', undefined])
      for (const data of Object.values(images))
        for (const answer of ANSWERS) await check({ ...base, name, type, network, data, answer });
  for (const [title, key] of Object.entries(keys)) for (const network of networks) for (const answer of deep ? ANSWERS : ANSWERS.slice(0, 2)) for (const data of deep ? [image, undefined, images.large] : [image, undefined]) await check({ ...base, key, network, answer, data });
  for (const as of ['./image.png', '/work/ts-scripts/image.png', '../ts-scripts/image.png', 'folder.png/../image.png']) for (const network of networks) await check({ ...base, as, network });
  for (const more of [['extra'], ['devnet', 'mainnet']]) for (const network of ['mainnet', 'devnet']) await check({ ...base, more, network });
  for (const keyName of ['keys.json', 'no.json', '', '.']) for (const network of networks) await check({ ...base, keyName, network });
  for (const as of ['folder.png', 'no.png', '', '.']) for (const network of networks) await check({ ...base, data: undefined, as, network });
  for (const args of [[], ['image.png'], ['', ''], ['mainnet', 'image.png', 'key.json'], ['key.json', 'image.png'], ['key.json', 'image.png', 'devnet']]) for (const answer of ANSWERS) await check({ ...base, args, answer });
  for (const network of networks) for (const answer of ANSWERS) await check({ ...base, network, answer, broken: true });
  for (const network of networks)
    for (const data of Object.values(images))
      for (const answer of ANSWERS) {
        const looks = await check({ ...base, network, data, answer });
        for (let k = 0; k < looks; k++) for (const kind of ['gone', 'a failure']) await check({ ...base, network, data, answer, plan: { look: k, kind } });
        if (deep) for (let k = 0; k < looks; k++) for (const [, key] of Object.entries(keys)) await check({ ...base, network, data, answer, key, plan: { look: k, kind: 'gone' } });
      }
}
try {
  await everything();
} catch (e) {
  console.log(`${e instanceof Unmodelled ? 'not modelled: ' : ''}${e?.stack ?? e}`);
  process.exit(2);
}
const wall = (Date.now() - t0) / 1000;
mkdirSync(path.join(root, 'evidence'), { recursive: true });
writeFileSync(
  path.join(root, 'evidence/C24.json'),
  JSON.stringify(
    {
      property: 'C24',
      tier,
      seed: Number(process.env.VERIF_SEED ?? 1),
      level: 'model_checking',
      coverage: {
        states: n.runs,
        transitions: n.runs,
        traces_validated_against_impl: n.runs,
        uploads: n.uploads,
        runs_without_upload: n.refused,
        runs_with_a_fault: n.faults,
        exhaustive: !found,
        rule: 'every image name x network x content x answer of the service; every key file x network; every kind of argument list; every look at the disk failing or finding the file gone',
        samples,
      },
      assumptions: ['@irys/sdk is not installed and is replaced by a stand-in that records what it is given and answers as enumerated'],
      wall_s: wall,
      violations: found ? 1 : 0,
    },
    null,
    1
  )
);
if (!found) console.log(`C24: held on ${n.runs} runs (${n.uploads} uploads, ${n.faults} with a fault) in ${wall.toFixed(1)}s`);
else {
  const out = path.join(root, 'out/C24.replay.json');
  mkdirSync(path.dirname(out), { recursive: true });
  writeFileSync(out, JSON.stringify({ property: 'C24', tier, trace: found }, null, 1));
  for (const t of found) console.log('  ' + t.slice(0, 1000));
  console.log(`VIOLATION property=C24 replay=${out}`);
  process.exitCode = 1;
}
process.exit();
