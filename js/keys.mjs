// C22: the script that saves an operator's key, run for every malformed and well-formed key, against a file system that
// records what is done to it, with the process ending, or the disk refusing, at every step - every byte written is one.
// usage: node keys.mjs quick|thorough <repository>
import { mkdirSync, writeFileSync } from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { Disk, HOME, Unmodelled, load, run as start } from './disk.mjs';
import { toBase58 } from './stubs/base.js';
import * as web3 from './stubs/web3.js';

const root = process.env.VERIF ?? path.join(path.dirname(fileURLToPath(import.meta.url)), '..');
const [tier, repo] = process.argv.slice(2);
const deep = tier === 'thorough';
const t0 = Date.now();

// ---- running the script --------------------------------------------------------------------------------------

class Keypair extends web3.Keypair {
  // The real one checks that the two halves belong together.
  static fromSecretKey(s, o) {
    if (s.length !== 64) throw new Error('bad secret key size');
    const k = super.fromSeed(s.slice(0, 32));
    if (!o?.skipValidation && toBase58(k.secretKey) !== toBase58(Uint8Array.from(s))) throw new Error('provided secretKey is invalid');
    return new Keypair(s);
  }
}
const script = await load(path.join(repo, 'ts-scripts/generate-keypair.ts'), root, ['@solana/web3.js']);
const n = { runs: 0, ended: 0, refused: 0, steps: 0, wellFormed: 0, malformed: 0, saved: 0, nothing: 0 };
async function run(args, disk) {
  n.runs++;
  return start(script, 'generate-keypair', args, disk, { '@solana/web3.js': { ...web3, Keypair } });
}

// ---- what is asked, and what is true ---------------------------------------------------------------------------

const seeds = [new Uint8Array(32).fill(0x40), Uint8Array.from({ length: 32 }, (_, i) => i * 7 + 1), Uint8Array.from({ length: 32 }, (_, i) => 255 - i)];
const hex = (b) => Buffer.from(b).toString('hex');
const whole = (seed) => web3.Keypair.fromSeed(Buffer.from(seed)).secretKey;

/** The key an argument stands for; undefined: none; null: may be taken for one or not. */
function meant(arg) {
  const strict = /^([0-9a-fA-F]{64}|[0-9a-fA-F]{128})$/;
  const b = Buffer.from(arg.trim().replace(/^0x/i, ''), 'hex');
  const fits = strict.test(arg.trim().replace(/^0x/i, ''));
  if (!fits) return undefined;
  const key = b.length === 32 ? whole(b) : hex(whole(b.subarray(0, 32))) === hex(b) ? b : undefined;
  if (key === undefined) return undefined;
  return strict.test(arg) ? { key } : { key, perhaps: true };
}

function cases() {
  const all = [];
  for (const [i, seed] of seeds.entries()) {
    for (const good of [hex(seed), hex(whole(seed))]) {
      all.push(good, good.toUpperCase(), `0x${good}`, ` ${good}`, `${good}\n`, `${good}.`, `${good}0`, `0${good}`, good + good, good.slice(0, 32) + ' ' + good.slice(32), `"${good}"`);
      if (i && !deep) continue;
      for (let k = 0; k < good.length; k++) {
        all.push(good.slice(0, k));
        for (const c of ['g', ' ', '-', '\u00e9']) all.push(good.slice(0, k) + c + good.slice(k + 1));
        for (const c of deep ? ['0', 'g', ',', '\n'] : ['0', 'g']) all.push(good.slice(0, k) + c + good.slice(k));
      }
    }
    // Another key's public half.
    const other = whole(seeds[(i + 1) % 3]);
    all.push(hex(seed) + hex(other.slice(32)), hex(other.slice(0, 32)) + hex(whole(seed).slice(32)));
  }
  all.push('abc', 'zz', '-', '0x', 'undefined', '[1,2,3]', JSON.stringify([...whole(seeds[0])]), toBase58(whole(seeds[0])));
  return [...new Set(all)].filter((x) => x !== '');
}
const OLD = JSON.stringify([...whole(Uint8Array.from({ length: 32 }, () => 9))]);
const places = [
  { title: 'a first key', files: {}, dirs: ['keypairs'], names: [undefined, 'a.json'] },
  { title: 'keys saved before', files: { 'keypairs/generated-keypair.json': OLD, 'keypairs/a.json': OLD, 'keypairs/b.json': OLD }, dirs: ['keypairs'], names: [undefined, 'a.json', 'c.json'] },
  { title: 'no folder for keys', files: {}, dirs: [], names: [undefined] },
  { title: 'a folder of that name', files: { 'keypairs/b.json': OLD }, dirs: ['keypairs', 'keypairs/a.json'], names: ['a.json', 'no/such.json'] },
];

function judge(p, args, name, r) {
  const { disk } = r;
  const want = meant(args[0] ?? '');
  const at = path.join(HOME, 'keypairs', name ?? 'generated-keypair.json');
  const claims = r.lines.some((s) => /success|saved to/i.test(s));
  const now = disk.files.get(at)?.toString();
  const saved = want && now !== undefined && (() => {
    try {
      const v = JSON.parse(now);
      return Array.isArray(v) && v.length === 64 && hex(Uint8Array.from(v)) === hex(want.key) && v.every((b) => Number.isInteger(b) && b >= 0 && b < 256);
    } catch {
      return false;
    }
  })();
  const faulted = !!disk.happened;
  for (const [f, v] of Object.entries(p.files)) {
    const full = path.join(HOME, f);
    if (full === at && saved) continue;
    if (disk.files.get(full)?.toString() !== v) return `the key that was saved in ${f} is ${disk.files.has(full) ? 'damaged' : 'gone'}`;
  }
  if (!faulted && r.exit === 0) for (const f of disk.files.keys()) if (f !== at && !(path.relative(HOME, f) in p.files)) return `it left ${f} behind`;
  if (claims && !saved) return 'it reports success, but the key is not there';
  if (r.exit === 0 && !saved) return 'it ends as if all were well, but the key is not there';
  if (faulted) return undefined;
  if (!want && disk.steps) return 'it saved something though it was given no key';
  const possible = want && p.dirs.includes('keypairs') && !p.dirs.includes(`keypairs/${name}`) && !name?.includes('/');
  if (possible && !want.perhaps) {
    if (!saved) return 'it did not save the key';
    if (r.exit !== 0 || !claims) return 'it saved the key, but does not say so';
    const text = r.lines.join('\n');
    const said = (label) => r.lines.map((s) => s.replace(/^[^\p{L}\p{N}]+/u, '')).find((s) => s.startsWith(label + ':'))?.slice(label.length + 1).trim();
    if (said('Public key') !== toBase58(Uint8Array.from(want.key.slice(32)))) return `the public key it prints is not the key's: ${text}`;
    if (said('Saved to') !== at) return `the key is not where it says: ${text}`;
  }
  return undefined;
}

let found;
const list = cases();
const some = new Set([hex(seeds[0]), hex(whole(seeds[1])), ...(deep ? list.filter(meant) : [])]);
const samples = [];
async function everything() {
  for (const p of places)
    for (const name of p.names)
      for (const key of [...list, undefined]) {
        const args = key === undefined ? [] : name === undefined ? [key] : [key, name];
        const check = async (plan) => {
          const r = await run(args, new Disk(p.files, p.dirs, plan));
          if (plan) n[plan.kind === 'the process ends' ? 'ended' : 'refused']++;
          const wrong = judge(p, args, name, r);
          if (wrong) found = { trace: [`${p.title}: generate-keypair ${args.join(' ')}`, ...(r.disk.happened ? [r.disk.happened] : []), ...r.lines.map((s) => `printed: ${s}`), `ended with ${r.exit}${r.crash ? `: ${r.crash.message}` : ''}`, wrong] };
          return r;
        };
        const r = await check();
        if (found) return;
        n[key !== undefined && meant(key) ? 'wellFormed' : 'malformed']++;
        n[r.disk.steps ? 'saved' : 'nothing']++;
        n.steps += r.disk.steps;
        if (n.runs % 900 === 1) samples.push(`${p.title}: ${args.join(' ').slice(0, 80)} -> ${r.exit}, ${r.disk.steps} steps`);
        if (!some.has(key)) continue;
        for (let k = 0; k < r.disk.steps; k++)
          for (const kind of ['the process ends', 'the disk refuses']) {
            await check({ at: k, kind });
            if (found) return;
          }
      }
}
try {
  await everything();
} catch (e) {
  console.log(`${e instanceof Unmodelled ? 'not modelled: ' : ''}${e?.stack ?? e}`);
  process.exit(2);
}
const wall = (Date.now() - t0) / 1000;
mkdirSync(path.join(root, 'evidence'), { recursive: true });
writeFileSync(
  path.join(root, 'evidence/C22.json'),
  JSON.stringify(
    {
      property: 'C22',
      tier,
      seed: Number(process.env.VERIF_SEED ?? 1),
      level: 'model_checking',
      coverage: {
        states: n.runs,
        transitions: n.steps,
        traces_validated_against_impl: n.runs,
        arguments: list.length,
        runs_with_a_key: n.wellFormed,
        runs_without_a_key: n.malformed,
        runs_that_saved: n.saved,
        runs_that_changed_nothing: n.nothing,
        crash_points: n.ended,
        failing_steps: n.refused,
        exhaustive: !found,
        rule: 'every argument of the alphabet in every starting folder; for some keys with the process ending, or the disk refusing, at every step of every change to the disk, each byte written being one',
        samples,
      },
      assumptions: ['@solana/web3.js is not installed and is replaced by js/stubs', 'renaming a file is atomic; what was written before the process ended stays written'],
      wall_s: wall,
      violations: found ? 1 : 0,
    },
    null,
    1
  )
);
if (!found) console.log(`C22: held on ${n.runs} runs (${n.ended} ended by force, ${n.refused} with a failing step) in ${wall.toFixed(1)}s`);
else {
  const out = path.join(root, 'out/C22.replay.json');
  mkdirSync(path.dirname(out), { recursive: true });
  writeFileSync(out, JSON.stringify({ property: 'C22', tier, trace: found.trace }, null, 1));
  for (const t of found.trace) console.log('  ' + t.slice(0, 1000));
  console.log(`VIOLATION property=C22 replay=${out}`);
  process.exitCode = 1;
}
process.exit();
