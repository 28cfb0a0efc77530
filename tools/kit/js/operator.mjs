// Runs an operator script of the working tree under `repo` with a made-up node; nothing leaves this process.
import { mkdtempSync, readFileSync, rmSync, writeFileSync } from 'node:fs';
import { createRequire } from 'node:module';
import path from 'node:path';
import { bundle } from './bundle.mjs';
import * as web3 from './stubs/web3.js';
import * as spl from './stubs/spl-token.js';
export { web3, spl };

class Exit extends Error {}
const AsyncFunction = (async () => {}).constructor;
const require = createRequire(import.meta.url);

/** env: {get(address) -> {owner, bytes, len, lamports}, now (s), send(tx) -> may change what get returns, before(k)} */
export async function operate(repo, name, args, env, key) {
  const dir = mkdtempSync('/tmp/demo.');
  try {
    const out = path.join(dir, 'script.mjs');
    await bundle(path.join(repo, `ts-scripts/${name}.ts`), out, { '@orca-so/xorca': path.join(repo, 'js-client/src/index.ts') }, { external: ['@solana/web3.js', '@solana/spl-token', '@irys/sdk'], define: { 'import.meta.url': '__url' } });
    const names = (s) => s.replace(/(\S+)\s+as\s+(\S+)/g, '$1: $2');
    const code = readFileSync(out, 'utf8')
      .replace(/^import\s*\{([^}]*)\}\s*from\s*("[^"]+");?$/gm, (_, n, from) => `const {${names(n)}} = __import(${from});`)
      .replace(/^import\s+([A-Za-z_$][\w$]*)\s+from\s*("[^"]+");?$/gm, 'const $1 = __import($2).default;')
      .replace(/^import\s+\*\s+as\s+(\S+)\s+from\s*("[^"]+");?$/gm, 'const $1 = __import($2);')
      .replace(/^import\s*("[^"]+");?$/gm, '')
      .replace(/^export\s*\{[^}]*\};?$/gm, '')
      .replace(/^#!.*$/m, '');
    const file = path.join(dir, 'key.json');
    if (key) writeFileSync(file, JSON.stringify([...key]));
    const r = { lines: [], exit: undefined, sent: [] };
    const say = (...a) => r.exit === undefined && r.lines.push(...a.map((x) => (x instanceof Error ? x.message : String(x))).join(' ').split('\n'));
    let k = 0;
    const failed = {};
    web3.use({
      wallets: new Set(env.wallets ?? []),
      async ask(what, answer, commitment) {
        env.before?.(k++, what);
        return answer((a) => env.get(a, commitment));
      },
      confirmed: (_, signature) => failed[signature],
      async send(compile, commitment, blind) {
        const tx = compile();
        env.sending?.(commitment);
        env.before?.(k++, 'the transaction');
        r.sent.push(tx);
        const signature = '1'.repeat(64 + k);
        try {
          env.send?.(tx);
        } catch (e) {
          if (!blind) throw e;
          failed[signature] = e;
        }
        return signature;
      },
    });
    const now = env.now * 1000;
    class Clock extends Date {
      constructor(...a) {
        a.length ? super(...a) : super(now);
      }
      static now() {
        return now;
      }
    }
    const proc = { argv: ['node', `${name}.ts`, ...args.map((a) => (a === 'KEY' ? file : String(a)))], env: {}, exit(c) { r.exit ??= c ?? 0; throw new Exit(); } };
    const print = { log: say, error: say, warn: say, info: say };
    let crash;
    process.on('unhandledRejection', (e) => (crash = e));
    new AsyncFunction('__import', '__url', 'process', 'console', 'Date', 'setTimeout', code)(
      (n) => ({ '@solana/web3.js': web3, '@solana/spl-token': spl, ...env.modules })[n.replace(/^node:/, '')] ?? require(n), `file:///work/${name}.ts`, proc, print, Clock, setTimeout
    ).catch((e) => (crash = e));
    for (let i = 0; i < 200; i++) await new Promise(setImmediate);
    if (crash && !(crash instanceof Exit)) say('crashed: ' + crash.message), (r.exit ??= 1);
    r.exit ??= 0;
    return r;
  } finally {
    rmSync(dir, { recursive: true });
  }
}
/** The values printed after a label. */
export const after = (r, label) => r.lines.map((s) => s.replace(/^[^\p{L}\p{N}]+/u, '')).filter((s) => s.startsWith(label + ':')).map((s) => s.slice(label.length + 1).trim());

export const TOKEN = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
export const ORCA = 'orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE';
export const XORCA = 'xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N';
export const PROGRAM = 'StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT';
const account = (owner, bytes) => ({ owner, bytes, len: bytes.length, lamports: 5_000_000 });
export const tokens = (mint, owner, amount) => {
  const b = Buffer.alloc(165);
  b.set(new web3.PublicKey(mint).bytes, 0);
  b.set(new web3.PublicKey(owner).bytes, 32);
  b.writeBigUInt64LE(BigInt(amount), 64);
  b[108] = 1;
  return account(TOKEN, b);
};
export const mint = (supply, decimals) => {
  const b = Buffer.alloc(82);
  b.writeUInt32LE(1, 0);
  b.writeBigUInt64LE(BigInt(supply), 36);
  b[44] = decimals;
  b[45] = 1;
  return account(TOKEN, b);
};
export const owned = (bytes) => account(PROGRAM, Buffer.from(bytes));
