// C20, C21: the operator scripts of the repository, run from every reachable ledger of a bounded set against a node that
// the real program stands behind; other people's operations and failing requests in between.
// usage: node scripts.mjs C20|C21 quick|thorough <repository>
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';
import { spawn, spawnSync } from 'node:child_process';
import { closeSync, mkdirSync, openSync, readFileSync, readSync, rmSync, writeFileSync, writeSync } from 'node:fs';
import { createRequire } from 'node:module';
import path from 'node:path';
import { fileURLToPath, pathToFileURL } from 'node:url';
import { bundle } from './bundle.mjs';
import { fromBase58, toBase58 } from './stubs/base.js';
import * as web3 from './stubs/web3.js';
import * as spl from './stubs/spl-token.js';

const root = process.env.VERIF ?? path.join(path.dirname(fileURLToPath(import.meta.url)), '..');
const SCRIPTS = ['initialize', 'set', 'stake', 'unstake', 'withdraw', 'transfer-orca', 'transfer-orca-to-vault', 'update-xorca-mint-authority', 'status', 'pending-withdraws'];
const ADMIN = 3;
const DEPLOYER = 4;
class Unmodelled extends Error {}
class Exit extends Error {}

// ---- the ledger ----------------------------------------------------------------------------------------------

/** A process that holds the ledgers and runs the program; asked synchronously. */
class Ledgers {
  constructor(dir, id, depth) {
    const [ask, reply] = ['ask', 'reply'].map((n) => path.join(dir, `${n}.${id}`));
    if (spawnSync('mkfifo', [ask, reply]).status !== 0) throw new Error('no pipes');
    const hold = [openSync(ask, 'r+'), openSync(reply, 'r+')];
    const theirs = [openSync(ask, 'r'), openSync(reply, 'w')];
    this.child = spawn(path.join(root, 'target/release/xmc'), ['serve', String(depth)], { stdio: [theirs[0], theirs[1], 'inherit'] });
    this.out = openSync(ask, 'w');
    this.in = openSync(reply, 'r');
    for (const f of [...hold, ...theirs]) closeSync(f);
    this.text = '';
    this.piece = Buffer.alloc(1 << 16);
    this.accounts = new Map();
    this.worlds = new Map();
    Object.assign(this, this.read());
  }
  read() {
    const parts = [];
    for (;;) {
      const n = readSync(this.in, this.piece, 0, this.piece.length, null);
      if (n === 0) throw new Error('the ledger process ended');
      parts.push(Buffer.from(this.piece.subarray(0, n)));
      if (this.piece[n - 1] === 10) return JSON.parse(Buffer.concat(parts).toString());
    }
  }
  ask(q) {
    writeSync(this.out, JSON.stringify(q) + '\n');
    return this.read();
  }
  world(w) {
    let v = this.worlds.get(w);
    if (v) return v;
    v = this.ask({ q: 'world', w });
    for (const [id, a] of Object.entries(v.accounts)) {
      a.bytes = Buffer.alloc(a.len);
      a.bytes.write(a.data, 'hex');
      delete a.data;
      this.accounts.set(Number(id), a);
    }
    v = { now: Number(v.now), ledger: v.ledger };
    if (this.worlds.size > 20000) this.worlds.clear();
    this.worlds.set(w, v);
    return v;
  }
  get(w, address) {
    const id = this.world(w).ledger[address];
    return id === undefined ? undefined : this.accounts.get(id);
  }
  tokens(w, address) {
    const a = this.get(w, address);
    return a && a.owner === this.token && a.len === 165 ? a.bytes.readBigUInt64LE(64) : undefined;
  }
  close() {
    closeSync(this.out);
    closeSync(this.in);
  }
}

// ---- running a script ----------------------------------------------------------------------------------------

const strict = (name, module) =>
  new Proxy(module, {
    get(t, k) {
      if (typeof k === 'string' && !(k in t)) throw new Unmodelled(`${name} has no ${k} here`);
      return t[k];
    },
  });

/** The bundled script as the body of an asynchronous function. */
function body(text) {
  return text
    .replace(/^import\s*\{([^}]*)\}\s*from\s*("[^"]+");?$/gm, (_, names, from) => `const {${names.replace(/(\S+)\s+as\s+(\S+)/g, '$1: $2')}} = __import(${from});`)
    .replace(/^import\s+\*\s+as\s+(\S+)\s+from\s*("[^"]+");?$/gm, 'const $1 = __import($2);')
    .replace(/^import\s+([A-Za-z_$][\w$]*)\s+from\s*("[^"]+");?$/gm, 'const $1 = __import($2).default;')
    .replace(/^import\s+([A-Za-z_$][\w$]*)\s*,\s*\{([^}]*)\}\s*from\s*("[^"]+");?$/gm, (_, d, names, from) => `const $d = __import(${from}).default; const {${names.replace(/(\S+)\s+as\s+(\S+)/g, '$1: $2')}} = __import(${from});`.replace('$d', d))
    .replace(/^import\s*("[^"]+");?$/gm, '')
    .replace(/^export\s*\{[^}]*\};?$/gm, '')
    .replace(/^#!.*$/m, '');
}
const AsyncFunction = (async () => {}).constructor;

class Runner {
  constructor(ledgers, codes, client, keys) {
    this.l = ledgers;
    this.keys = keys;
    this.scripts = Object.fromEntries(Object.entries(codes).map(([n, c]) => [n, new AsyncFunction('__import', '__url', 'process', 'console', 'Date', 'setTimeout', c)]));
    const require = createRequire(import.meta.url);
    const modules = new Map([
      ['@solana/web3.js', strict('web3.js', web3)],
      ['@solana/spl-token', strict('spl-token', spl)],
      ['@orca-so/xorca', client],
    ]);
    this.import = (name) => {
      if (modules.has(name)) return modules.get(name);
      if (/^(node:)?(fs|path|url|buffer|util|os|assert|crypto)(\/promises)?$/.test(name)) return require(name);
      throw new Unmodelled(`the script needs ${name}`);
    };
    this.n = { runs: 0, requests: 0, transactions: 0, accepted: 0, disturbed: 0, faults: 0, by: {} };
    process.on('unhandledRejection', (e) => this.current?.ended(e));
  }
  /**
   * plan: number of the request -> {acts: [...]} before it, {fork: act} before it, that only a minority ever sees, or
   * {fault: 'error' | 'nothing' | 'lost' | 'abandoned'}. What is not yet confirmed is seen by who asks for it
   * ('processed'); what is not yet final is not seen by who asks for that.
   */
  async run(name, args, w, plan = {}) {
    const { l } = this;
    this.n.runs++;
    this.n.by[name] = (this.n.by[name] ?? 0) + 1;
    const r = { name, args, now: plan.now ?? l.world(w).now, start: w, w, final: w, fork: undefined, hasty: false, failed: new Map(), moments: [w], log: [], requests: [], sends: [], lines: [], exit: undefined, lacking: undefined };
    const stop = () => {
      if (r.exit !== undefined) throw new Exit();
    };
    r.ended = (e) => {
      if (e instanceof Unmodelled) r.lacking = e;
      if (r.exit === undefined) {
        r.exit = 1;
        r.crash = e;
      }
    };
    let timers = 0;
    const turn = (what, commitment) => {
      stop();
      if (commitment === 'processed' || commitment === 'recent') r.hasty = true;
      const k = r.requests.length;
      r.requests.push(what);
      this.n.requests++;
      const p = plan[k];
      for (const a of p?.acts ?? []) {
        const to = l.ask({ q: 'act', w: r.w, act: a }).w;
        r.log.push(`before request ${k} (${what}): ${l.acts[a]}${to === null ? ' (refused)' : ''}`);
        if (to !== null) {
          r.w = to;
          r.moments.push(to);
        }
      }
      if (p?.fork !== undefined) {
        const to = l.ask({ q: 'act', w: r.w, act: p.fork }).w;
        r.log.push(`before request ${k} (${what}), on a fork: ${l.acts[p.fork]}${to === null ? ' (refused)' : ''}`);
        if (to !== null) r.fork = to;
      }
      if (p?.fault) r.log.push(`request ${k} (${what}): ${p.fault}`);
      return p?.fault;
    };
    web3.use({
      wallets: this.wallets,
      async ask(what, answer, commitment) {
        const fault = turn(what, commitment);
        if (fault === 'nothing') return answer(() => undefined);
        if (fault) throw new Error('fetch failed');
        const at = commitment === 'processed' || commitment === 'recent' ? r.fork ?? r.w : commitment === 'finalized' ? r.final : r.w;
        return answer((address) => l.get(at, address));
      },
      confirmed: (commitment, signature) => {
        if (r.failed.has(signature)) return { InstructionError: [0, r.failed.get(signature)] };
        if (r.abandoned && commitment !== 'processed' && commitment !== 'recent') throw new Error('Signature has expired: block height exceeded.');
        if (commitment === 'finalized' || commitment === 'max') r.final = r.w;
      },
      send: async (compile, commitment, blind = false) => {
        stop();
        const tx = compile();
        const fault = turn('the transaction', commitment);
        if (fault === 'error') throw new Error('fetch failed');
        const got = l.ask({ q: 'tx', w: r.w, ...tx });
        this.n.transactions++;
        if (fault === 'abandoned' && got.ok) {
          // It is carried out where nobody follows.
          r.sends.push({ w: r.w, tx, got: { ok: false, error: 'on a fork' }, fault });
          r.fork = got.w;
          r.abandoned = true;
          if (commitment !== 'processed' && commitment !== 'recent') throw new Error('Signature has expired: block height exceeded.');
          return toBase58(new Uint8Array(64).fill(5));
        }
        r.sends.push({ w: r.w, tx, got, fault });
        if (!got.ok && blind) {
          // Sent without trying it first: it fails where only who asks finds out.
          const signature = toBase58(new Uint8Array(64).fill(6 + r.failed.size));
          r.failed.set(signature, got.error);
          return signature;
        }
        if (!got.ok) throw new Error(`Simulation failed. \nMessage: Transaction simulation failed: Error processing Instruction ${tx.ixs.length - 1}: ${got.error}. `);
        this.n.accepted++;
        r.w = got.w;
        r.moments.push(got.w);
        if (commitment === 'finalized' || commitment === 'max') r.final = got.w;
        if (fault === 'lost') throw new Error('Transaction was not confirmed in 30.00 seconds.');
        return toBase58(new Uint8Array(64).fill(5));
      },
    });
    const say = (...a) => {
      if (r.exit === undefined) r.lines.push(...a.map((x) => (typeof x === 'string' ? x : x instanceof Error ? x.message : String(x))).join(' ').split('\n'));
    };
    const now = r.now * 1000 + 917; // any way to make seconds of it but the right one shows
    class Clock extends Date {
      constructor(...a) {
        a.length ? super(...a) : super(now);
      }
      static now() {
        return now;
      }
    }
    const proc = {
      argv: ['node', `${name}.ts`, ...args],
      env: {},
      platform: 'linux',
      exitCode: undefined,
      stdout: { write: (s) => say(s.replace(/\n$/, '')) },
      stderr: { write: (s) => say(s.replace(/\n$/, '')) },
      on() {},
      cwd: () => '/',
      exit(code) {
        if (r.exit === undefined) r.exit = code ?? proc.exitCode ?? 0;
        throw new Exit();
      },
    };
    const print = { log: say, error: say, warn: say, info: say, debug: say };
    const later = (f, _ms, ...a) => {
      timers++;
      setImmediate(() => {
        timers--;
        try {
          f(...a);
        } catch (e) {
          r.ended(e);
        }
      });
    };
    this.current = r;
    this.scripts[name](this.import, `file:///scripts/${name}.ts`, proc, print, Clock, later).catch(r.ended);
    do await new Promise(setImmediate);
    while (timers > 0);
    r.exit ??= proc.exitCode ?? 0;
    if (r.crash instanceof Exit) r.crash = undefined;
    if (r.lacking) throw r.lacking;
    for (const s of r.lines) if (/ has no .* here$|^the script needs /.test(s)) throw new Unmodelled(s);
    return r;
  }
  trace(r, what) {
    const user = (s) => s;
    return [
      `ledger ${r.start}, ${r.now}: ${r.name} ${r.args.map((a) => user(a.replace(/^.*\/keys\//, 'keys/'))).join(' ')}`,
      ...r.log,
      ...r.sends.map((s) => `sent: ${JSON.stringify(s.tx.ixs)} -> ${JSON.stringify(s.got)}`),
      ...r.lines.filter((s) => s.trim()).slice(-30).map((s) => `printed: ${s.trim()}`),
      `ended with ${r.exit}${r.crash ? `: ${r.crash.message}` : ''}`,
      what,
    ];
  }
}

/** The values printed after a label; the label starts its line, save for signs before it. */
function printed(r, label) {
  const all = [];
  for (const s of r.lines) {
    const t = s.replace(/^[^\p{L}\p{N}]+/u, '');
    if (t.startsWith(label + ':')) all.push(t.slice(label.length + 1).trim());
  }
  return all;
}

// ---- C20: the scripts that act -------------------------------------------------------------------------------

/** What is asked for: the script, its arguments, and the same as an order to the program. */
function orders(l, w, fringe, keys, users) {
  const all = [];
  const add = (name, args, order) => all.push({ name, args: args.map(String), order });
  const some = (n) => [...new Set([1n, 97n, n / 2n, n, n + 1n])].filter((x) => x >= 0n);
  const odd = fringe ? ['0', '007', '-18446744073709551519', '18446744073709551713', '4294967393', '9007199254741089', '65633', '353', '4294967296', '9007199254740993', '9223372036854775808', '18446744073709551615', '18446744073709551616', '340282366920938463463374607431768211456', '-1', '-9007199254740993', '1.5', '97.0', '1e3', '12abc', 'abc', '1,000', '5 ORCA', '-', 'NaN', 'Infinity'] : [];
  const oddIndex = fringe ? ['2', '255', '256', '257', '-1', '-256', '-255', '65536', '18446744073709551616', '1.5', '1e1', 'abc', '0abc', 'NaN', '#1', '4294967296'] : [];
  const orca = (u) => l.tokens(w, l.orcaAtas[u]);
  const xorca = (u) => l.tokens(w, l.xorcaAtas[u]);
  for (const u of [0, 1]) {
    for (const x of [...some(orca(u) ?? 0n), ...(u === 0 ? odd : [])]) {
      add('stake', [keys[u], x], { kind: 'stake', user: u, amount: String(x) });
      add('transfer-orca-to-vault', [keys[u], x], { kind: 'vault', user: u, amount: String(x) });
    }
    for (const to of u === 0 ? [1, 2, 'stranger'] : [0]) {
      const r = to === 'stranger' ? l.stranger : users[to];
      for (const x of [...some(orca(u) ?? 0n), ...(to === 2 ? odd : [])]) add('transfer-orca', [keys[u], r, x], { kind: 'transfer', user: u, to: r, amount: String(x) });
    }
  }
  for (const u of [0, 1, 2]) {
    for (const x of some(xorca(u) ?? 0n)) for (const i of u === 0 ? [0, 1, 14] : [0]) add('unstake', [keys[u], x, i], { kind: 'unstake', user: u, amount: String(x), index: String(i) });
    for (const i of [0, 1, 14]) add('withdraw', [keys[u], i], { kind: 'withdraw', user: u, index: String(i) });
    if (u === 1) continue;
    for (const x of odd) add('unstake', [keys[u], x, 2], { kind: 'unstake', user: u, amount: x, index: '2' });
    for (const i of oddIndex) {
      add('unstake', [keys[u], '1', i], { kind: 'unstake', user: u, amount: '1', index: i });
      add('withdraw', [keys[u], i], { kind: 'withdraw', user: u, index: i });
    }
  }
  const terms = ['0', '3600', ...(fringe ? [...odd, '9223372036854775807', '-9223372036854775808', '-3600', '18446744073709555216', '-18446744073709548016', '4294970896'] : [])];
  for (const by of [ADMIN, 1]) {
    for (const t of terms) add('set', [keys[by], 'update-cooldown', t], { kind: 'setCooldown', user: by, cooldown: t });
    for (const to of [users[1], l.stranger]) add('set', [keys[by], 'update-authority', to], { kind: 'setAuthority', user: by, to });
  }
  for (const by of [ADMIN, 0]) add('update-xorca-mint-authority', [keys[by]], { kind: 'mintAuthority', user: by });
  for (const t of terms) add('initialize', [keys[DEPLOYER], keys[ADMIN], t], { kind: 'initialize', user: DEPLOYER, authority: ADMIN, cooldown: t });
  add('initialize', [keys[DEPLOYER], keys[0], '60'], { kind: 'initialize', user: DEPLOYER, authority: 0, cooldown: '60' });
  add('initialize', [keys[0], keys[ADMIN], '60'], { kind: 'initialize', user: 0, authority: ADMIN, cooldown: '60' });
  return all;
}
/** Arguments that are no order at all. */
const nonsense = (keys, l) => [
  ['set', [keys[ADMIN], 'update-authority', 'abc']],
  ['set', [keys[ADMIN], 'update-authority', l.stranger + '1']],
  ['set', [keys[ADMIN], 'update-authority', '']],
  ['set', [keys[ADMIN], 'cooldown', '5']],
  ['set', [keys[ADMIN], 'update-cooldown']],
  ['set', [keys[ADMIN]]],
  ['transfer-orca', [keys[0], 'abc', '5']],
  ['transfer-orca', [keys[0], '5']],
  ['transfer-orca-to-vault', [keys[0]]],
  ['stake', [keys[0]]],
  ['stake', [keys[0] + '.missing', '5']],
  ['unstake', [keys[0], '5']],
  ['withdraw', [keys[0]]],
  ['initialize', [keys[DEPLOYER], keys[ADMIN]]],
  ['update-xorca-mint-authority', []],
];

class Acting {
  constructor(l, runner, deep, keys) {
    Object.assign(this, { l, runner, deep, keys });
    this.users = l.users;
    this.possible = 0;
    this.impossible = 0;
  }
  /** Is what the script did what was asked for, or nothing? */
  judge(o, r, free) {
    const { l } = this;
    const t = (what) => this.runner.trace(r, what);
    const first = r.sends.find((s) => s.got.ok);
    if (first) {
      const want = o.order ? l.ask({ q: 'want', w: first.w, order: o.order }) : { all: [] };
      let end = first.got.w;
      for (const s of r.sends) if (s.got.ok && s !== first) end = s.got.w;
      if (!want.all.includes(end)) return t(`the ledger is not what '${JSON.stringify(o.order ?? 'nothing')}' makes of it: ${this.difference(want.all[0] ?? first.w, end)}`);
      if (r.sends.filter((s) => s.got.ok).length > 1 && free !== true) return t('it sent several transactions');
    }
    const known = r.sends.some((s) => s.got.ok && s.fault === undefined);
    if (!known && r.lines.some((s) => /success/i.test(s))) return t('it reports success, but has not learned of any');
    if (!known && r.exit === 0 && !r.lines.some((s) => /fail|error|❌|usage/i.test(s))) return t('it ends as if all were well, but has not learned of any success');
    for (const [label, value] of this.facts(o, r, free))
      for (const got of printed(r, label)) if (got !== String(value) && got.split(' ')[0] !== String(value)) return t(`it says '${label}: ${got}', which is ${value}`);
    // (Who closes the account that is being paid to stops the payment.)
    if (free === 'acts' && !first && !r.log.some((s) => /account is closed$/.test(s)) && r.moments.every((w) => l.ask({ q: 'want', w, order: o.order }).possible)) return t('it could have been done all the time, but was not');
    if (free === 'fork' && first && r.exit === 0)
      for (const [label, value] of this.report(o, r)) {
        const got = printed(r, label).at(-1);
        if (got !== undefined && got.split(' ')[0] !== String(value)) return t(`it says '${label}: ${got}', which is ${value}`);
      }
    if (free !== true) return undefined;
    const want = o.order ? l.ask({ q: 'want', w: r.start, order: o.order }) : { possible: false };
    this[want.possible ? 'possible' : 'impossible']++;
    if (want.possible && !first) return t('it could have been done, but was not');
    if (first && r.exit !== 0) return t('it was done, but the script failed');
    if (first) {
      if (!r.lines.some((s) => /success/i.test(s))) return t('it was done, but success is not reported');
      const complaint = o.order.to !== this.users[o.order.user] && r.lines.find((s) => /❌|do not match|failed/i.test(s));
      if (complaint) return t(`it was done, but it complains: '${complaint.trim()}'`);
      for (const [label, value] of this.report(o, r)) {
        const got = printed(r, label).at(-1);
        if (got === undefined) return t(`it does not say '${label}'`);
        if (got.split(' ')[0] !== String(value)) return t(`it says '${label}: ${got}', which is ${value}`);
      }
    }
    // The reason that can be waited away is told from the others.
    const late = r.name === 'withdraw' && !first && r.sends[0]?.got.code !== undefined;
    if (late) {
      const claim = l.get(r.start, l.claims[o.order.user]?.[Number(o.order.index)]);
      const waits = claim?.owner === l.program && claim.len >= 56 && claim.bytes.readBigInt64LE(48) > BigInt(l.world(r.start).now);
      const says = r.lines.some((s) => /has not elapsed yet/.test(s));
      if (waits !== says) return t(waits ? 'the cool-down period is not given as the reason' : 'the cool-down period is given as the reason');
    }
    return undefined;
  }
  /** What else it may say: addresses, and where nothing interferes, what it found. */
  facts(o, r, free) {
    const { l } = this;
    const order = o.order;
    if (!order) return [];
    const u = order.user;
    const me = this.users[u];
    this.bumps ??= [['state'], [fromBase58(l.state), fromBase58(l.token), fromBase58(l.orcaMint)]].map((seeds, i) => web3.PublicKey.findProgramAddressSync(seeds.map((x) => Buffer.from(x)), i ? spl.ASSOCIATED_TOKEN_PROGRAM_ID : new web3.PublicKey(l.program))[1]);
    const all = [];
    const add = (value, ...labels) => value !== undefined && all.push(...labels.map((n) => [n, value]));
    add(l.state, 'State', 'State account', 'State account address', 'State address', '- State account', 'New mint authority (state account)');
    add(l.vault, 'Vault', 'Vault account', 'Vault address', 'Vault account (PDA)', 'Vault account (ATA for state + ORCA)');
    add(l.orcaMint, 'ORCA mint address', 'ORCA Mint', 'ORCA mint');
    add(l.xorcaMint, 'xORCA mint address', 'xORCA Mint', 'xORCA mint');
    add(l.program, 'xORCA staking program ID');
    add(this.bumps[0], 'State bump');
    add(this.bumps[1], 'Vault bump');
    add(me, 'Staker public key', 'Sender public key', 'Payer public key', 'Current authority public key', 'Deployer address');
    add(l.orcaAtas[u], 'Staker ORCA ATA', "Staker's ORCA ATA", 'Sender ORCA ATA');
    add(l.xorcaAtas[u], 'Staker xORCA ATA', "Staker's xORCA ATA");
    if (/^(0|[1-9]\d*)$/.test(order.index ?? '')) {
      add(l.claims[u]?.[Number(order.index)], 'Pending withdraw account');
      if (Number(order.index) < 256) add(order.index, 'Withdraw index');
    }
    if (/^(0|[1-9]\d{0,14})$/.test(order.amount ?? '')) add(order.amount, 'ORCA amount to stake', 'ORCA amount', 'xORCA amount to unstake', 'Required');
    const at = order.to === l.stranger ? l.strangerAta : l.orcaAtas[this.users.indexOf(order.to)];
    if (order.kind === 'transfer') {
      add(order.to, 'Recipient', 'Recipient public key');
      add(at, 'Recipient ORCA ATA');
    }
    if (order.kind === 'setAuthority') add(order.to, 'Setting new authority to', 'Update authority updated to');
    if (order.kind === 'setCooldown' && /^(0|[1-9]\d{0,14})$/.test(order.cooldown)) add(order.cooldown, 'Setting cooldown period to', 'Cooldown period updated to');
    if (order.kind === 'initialize') {
      add(this.users[order.authority], 'Update authority', 'Update authority address');
      if (/^(0|[1-9]\d{0,14})$/.test(order.cooldown)) add(order.cooldown, 'Cool down period');
    }
    if (free !== true) return all;
    const [a, now] = [r.start, l.world(r.start).now];
    const orca = l.tokens(a, l.orcaAtas[u]);
    add(orca ?? 0n, 'Sender ORCA balance', 'Staker ORCA balance');
    if (/stake|transfer|vault/.test(order.kind) && order.kind !== 'unstake') add(orca ?? 0n, 'Available');
    if (order.kind === 'transfer') add(l.tokens(a, at) ?? 0n, 'Recipient ORCA balance');
    add(l.tokens(a, l.vault), 'Vault account exists with balance');
    if (order.kind === 'mintAuthority') {
      const m = l.get(a, l.xorcaMint);
      if (m?.len === 82) {
        add(m.bytes.readBigUInt64LE(36), 'Current supply');
        add(m.bytes[44], 'Decimals');
        add(m.bytes.readUInt32LE(0) === 1 ? toBase58(m.bytes.subarray(4, 36)) : 'None', 'Current mint authority');
        add(m.bytes.readUInt32LE(46) === 1 ? toBase58(m.bytes.subarray(50, 82)) : 'None', 'Current freeze authority');
      }
    }
    const claim = order.kind === 'withdraw' && l.get(a, l.claims[u]?.[Number(order.index)]);
    if (claim && claim.owner === l.program && claim.len >= 56) {
      const due = claim.bytes.readBigInt64LE(48);
      const rest = due - BigInt(now);
      add(due, 'Withdrawable timestamp');
      add(now, 'Current timestamp');
      add(rest, 'Seconds remaining');
      if (rest > 0n && rest < 2n ** 53n)
        for (const n of ['Cooldown period remaining', 'Time remaining'])
          for (const got of printed(r, n)) {
            const m = got.match(/^(\d+)h (\d+)m (\d+)s$/);
            if (m && (BigInt(m[1]) * 3600n + BigInt(m[2]) * 60n + BigInt(m[3]) !== rest || Number(m[2]) > 59 || Number(m[3]) > 59)) add(`${rest} seconds`, n);
          }
      if (rest <= 0n) add('over', 'Cooldown period remaining', 'Time remaining');
      else if (r.lines.some((x) => /has elapsed/.test(x))) add('not reached yet', 'Withdrawable timestamp');
    }
    return all;
  }
  report(o, r) {
    const { l } = this;
    const { user: u } = o.order;
    const [a, b] = [r.start, r.w];
    const orca = (w) => l.tokens(w, l.orcaAtas[u]) ?? 0n;
    const xorca = (w) => l.tokens(w, l.xorcaAtas[u]) ?? 0n;
    switch (o.order.kind) {
      case 'stake':
        return [['ORCA staked', orca(a) - orca(b)], ['xORCA received', xorca(b) - xorca(a)], ['Final ORCA balance', orca(b)], ['Final xORCA balance', xorca(b)], ['Staker ORCA balance', orca(a)]];
      case 'unstake':
        return [['xORCA unstaked', xorca(a) - xorca(b)], ['ORCA received', orca(b) - orca(a)], ["Staker's final xORCA balance", xorca(b)], ["Staker's final ORCA balance", orca(b)], ["Staker's current xORCA balance", xorca(a)]];
      case 'withdraw':
        return [["Staker's final ORCA balance", orca(b)]];
      case 'transfer': {
        const at = o.order.to === l.stranger ? l.strangerAta : l.orcaAtas[this.users.indexOf(o.order.to)];
        const their = (w) => l.tokens(w, at) ?? 0n;
        return [['ORCA transferred', orca(a) - orca(b)], ['ORCA received by recipient', their(b) - their(a)], ['Final sender ORCA balance', orca(b)], ['Final recipient ORCA balance', their(b)]];
      }
      case 'vault': {
        const vault = (w) => l.tokens(w, l.vault) ?? 0n;
        return [['ORCA transferred', orca(a) - orca(b)], ['Vault received', vault(b) - vault(a)], ['Final sender ORCA balance', orca(b)], ['Final vault ORCA balance', vault(b)]];
      }
      case 'mintAuthority':
        return [['New mint authority', l.state]];
      case 'setCooldown':
        return [['Setting cooldown period to', BigInt(o.order.cooldown)]];
      case 'setAuthority':
        return [['Update authority updated to', o.order.to]];
      case 'initialize':
        return [['Cool down period', BigInt(o.order.cooldown)], ['Update authority', this.users[o.order.authority]]];
    }
    return [];
  }
  difference(a, b) {
    const { l } = this;
    const [x, y] = [l.world(a).ledger, l.world(b).ledger];
    const say = (id) => {
      const acc = l.accounts.get(id);
      return acc ? `${acc.lamports} lamports of ${acc.owner}, ${acc.bytes.subarray(0, 80).toString('hex')}` : 'nothing';
    };
    return [...new Set([...Object.keys(x), ...Object.keys(y)])].filter((k) => x[k] !== y[k]).map((k) => `${k} holds ${say(y[k])} instead of ${say(x[k])}`).join('; ') || 'the time differs';
  }
  async at(w, level) {
    const { l, runner, deep } = this;
    const fringe = level <= 1;
    for (const o of orders(l, w, fringe, this.keys, this.users)) {
      const r = await runner.run(o.name, o.args, w);
      const bad = this.judge(o, r, true);
      if (bad) return bad;
    }
    if (level === 0)
      for (const [name, args] of nonsense(this.keys, l)) {
        const r = await runner.run(name, args, w);
        const bad = r.sends.length ? runner.trace(r, 'arguments that mean nothing were acted on') : this.judge({ name, args }, r, true);
        if (bad) return bad;
      }
    if (level > (deep ? 2 : 1)) return undefined;
    // Some of the orders again, with something happening before any of their requests, or going wrong with it.
    for (const o of this.disturbed(w)) {
      const { requests, hasty } = await runner.run(o.name, o.args, w);
      for (let k = 0; k < requests.length; k++) {
        // Whoever only asks for what is confirmed cannot tell that there are forks.
        for (const plan of hasty ? [...l.acts.map((_, a) => ({ fork: a })), ...(requests[k] === 'the transaction' ? [{ fault: 'abandoned' }] : [])] : []) {
          runner.n.faults++;
          const bad = this.judge(o, await runner.run(o.name, o.args, w, { [k]: plan }), 'fork');
          if (bad) return bad;
        }
        for (let a = 0; a < l.acts.length; a++) {
          runner.n.disturbed++;
          const r = await runner.run(o.name, o.args, w, { [k]: { acts: [a] } });
          const bad = this.judge(o, r, 'acts');
          if (bad) return bad;
          if (level > 0) continue;
          // Two operations, at this or later requests (quick: between the last answer and the transaction).
          if (!deep && requests[k] !== 'the transaction') continue;
          for (let j = k; j < (deep ? requests.length : k + 1); j++)
            for (let b = 0; b < l.acts.length; b++) {
              runner.n.disturbed++;
              const plan = j === k ? { [k]: { acts: [a, b] } } : { [k]: { acts: [a] }, [j]: { acts: [b] } };
              const bad = this.judge(o, await runner.run(o.name, o.args, w, plan), 'acts');
              if (bad) return bad;
            }
        }
        for (const fault of requests[k] === 'the transaction' ? ['error', 'lost'] : ['error', 'nothing']) {
          runner.n.faults++;
          const r = await runner.run(o.name, o.args, w, { [k]: { fault } });
          const bad = this.judge(o, r, false);
          if (bad) return bad;
          for (let j = k + 1; j < r.requests.length; j++)
            for (const second of ['error', 'nothing']) {
              if (r.requests[j] === 'the transaction' && second === 'nothing') continue;
              runner.n.faults++;
              const bad = this.judge(o, await runner.run(o.name, o.args, w, { [k]: { fault }, [j]: { fault: second } }), false);
              if (bad) return bad;
            }
        }
      }
    }
    return undefined;
  }
  disturbed(w) {
    const seen = new Map();
    return orders(this.l, w, false, this.keys, this.users).filter((o) => {
      // One possible order of every kind, per user, recipient and index.
      const { amount, cooldown, ...rest } = o.order;
      const key = JSON.stringify(rest);
      if (seen.has(key) || !this.l.ask({ q: 'want', w, order: o.order }).possible) return false;
      seen.set(key, true);
      return true;
    });
  }
}

// ---- C21: the scripts that show ------------------------------------------------------------------------------

const SPANS = [0, 1, 59, 60, 61, 119, 3599, 3600, 3601, 3660, 7199, 86399, 86400, 86401, 90000, 90061, 172799, 172800, 2591999, 31536000];
class Showing {
  constructor(l, runner, deep) {
    Object.assign(this, { l, runner, deep });
    this.complete = 0;
    this.silent = 0;
    this.shown = 0;
  }
  settings(w) {
    const a = this.l.get(w, this.l.state);
    if (!a || a.owner !== this.l.program || a.len !== 2048) return null;
    const d = a.bytes;
    return { bump: d[6], vaultBump: d[7], escrow: d.readBigUInt64LE(8), cooldown: d.readBigInt64LE(16), authority: toBase58(d.subarray(24, 56)) };
  }
  supply(w) {
    return this.l.get(w, this.l.xorcaMint).bytes.readBigUInt64LE(36);
  }
  /** What `status` has to say of a ledger: label -> value, or a ratio. */
  truth(w) {
    const s = this.settings(w);
    const vault = this.l.tokens(w, this.l.vault);
    if (!s || vault === undefined) return null;
    const [free, supply] = [vault - s.escrow, this.supply(w)];
    const whole = {
      'Cool Down Period': s.cooldown, 'Escrowed ORCA Amount': s.escrow, 'Update Authority': s.authority, Bump: s.bump, 'Vault Bump': s.vaultBump,
      'Total ORCA in Vault': vault, 'Escrowed ORCA': s.escrow, 'Non-Escrowed ORCA': free, 'xORCA Total Supply': supply, 'xORCA Supply': supply,
    };
    const ratio = {
      'ORCA → xORCA Rate': [supply + 100n, free + 100n], 'Exchange Rate (ORCA→xORCA)': [supply + 100n, free + 100n],
      'xORCA → ORCA Rate': [free + 100n, supply + 100n], 'Exchange Rate (xORCA→ORCA)': [free + 100n, supply + 100n],
    };
    return { whole, ratio };
  }
  near(text, [a, b]) {
    const m = text.match(/^\d+(\.\d{1,18})?(?=\s|$)/);
    if (!m) return false;
    const [i, f = ''] = m[0].split('.');
    const got = BigInt(i + f.padEnd(18, '0')) * b;
    const want = a * 10n ** 18n;
    const off = got > want ? got - want : want - got;
    // Half a unit of the tenth digit, and what doubles lose.
    return off * 10n ** 10n <= b * 10n ** 18n * 51n / 100n + want * 10n ** 10n / 10n ** 14n;
  }
  status(r, how) {
    const t = (what) => this.runner.trace(r, what);
    const { l } = this;
    const truths = r.moments.map((w) => this.truth(w));
    const one = truths.find((x) => x);
    const labels = ['State Account', 'Vault Account', 'xORCA Mint', 'ORCA Mint'];
    for (const [label, want] of labels.map((n, i) => [n, [l.state, l.vault, l.xorcaMint, l.orcaMint][i]]))
      for (const got of printed(r, label)) if (got !== want) return t(`'${label}: ${got}' is ${want}`);
    const settingsOnly = r.moments.map((w) => this.settings(w)).filter((x) => x);
    const names = Object.keys({ ...one?.whole, ...one?.ratio });
    for (const label of names.length ? names : ['Total ORCA in Vault', 'xORCA Total Supply', 'ORCA → xORCA Rate', 'xORCA → ORCA Rate']) {
      const shown = printed(r, label);
      if (shown.length && !one && !settingsOnly.length) return t(`'${label}: ${shown[0]}' although there is no pool`);
      for (const got of shown) {
        this.shown++;
        const whole = (x) => x && label in x.whole && String(x.whole[label]) === got.replace(/ seconds$/, '');
        const ratio = (x) => x && label in x.ratio && this.near(got, x.ratio[label]) && this.unit(got, x.ratio[label]);
        if (how === 'free' || how === 'fault') {
          if (one && !whole(one) && !ratio(one)) return t(`'${label}: ${got}' is ${label in one.whole ? one.whole[label] : `${one.ratio[label][0]}/${one.ratio[label][1]}`}`);
        } else if (one && label in one.whole && label !== 'Non-Escrowed ORCA' && !truths.some(whole)) return t(`'${label}: ${got}' at no moment`);
      }
      if (how === 'free' && one && !shown.length) return t(`'${label}' is not shown`);
    }
    if (how === 'free') this[one ? 'complete' : 'silent']++;
    return undefined;
  }
  /** "(1 ORCA = 2.5 xORCA)" says the same as what it follows. */
  unit(got, ratio) {
    const m = got.match(/= (\S+) x?ORCA\)/);
    return !m || this.near(m[1], ratio);
  }
  claims(w, u) {
    const all = new Map();
    if (u < 0) return all;
    for (let i = 0; i < 15; i++) {
      const a = this.l.get(w, this.l.claims[u][i]);
      if (a && a.owner === this.l.program && a.len === 1024) all.set(i, { address: this.l.claims[u][i], amount: a.bytes.readBigUInt64LE(40), due: Number(a.bytes.readBigInt64LE(48)) });
    }
    return all;
  }
  lasts(text, secs) {
    let sum = 0;
    let unit = 1;
    const units = { d: 86400, h: 3600, m: 60, s: 1, seconds: 1, second: 1 };
    const m = text.match(/^(\d+) seconds?$|^((\d+[dhms] ?)+)$/);
    if (!m) return false;
    for (const [, n, x] of text.matchAll(/(\d+) ?(seconds?|[dhms])/g)) {
      sum += Number(n) * units[x];
      unit = units[x];
    }
    return sum <= secs && secs < sum + unit;
  }
  pending(r, u, how) {
    const t = (what) => this.runner.trace(r, what);
    const { l } = this;
    const { now } = r;
    const found = printed(r, 'x').length ? undefined : r.lines.map((s) => s.match(/Found (\d+) pending withdraws?/)).find((m) => m);
    const begun = r.moments.some((w) => this.settings(w));
    if (!begun) {
      if (found && Number(found[1]) > 0) return t('claims are listed although there is no pool');
      if (how === 'free') this.silent++;
      return undefined;
    }
    if (!found) return how === 'free' ? t('no claims are listed') : undefined;
    // The entries: a line with the index, and what follows it.
    const entries = [];
    for (const s of r.lines) {
      const m = s.match(/Pending Withdraw #(\d+)/);
      if (m) entries.push({ index: Number(m[1]), lines: [] });
      else if (/Summary/.test(s)) break;
      else entries.at(-1)?.lines.push(s);
    }
    const all = r.moments.map((w) => this.claims(w, u));
    const [first] = all;
    if (new Set(entries.map((e) => e.index)).size !== entries.length) return t('a claim is listed twice');
    if (Number(found[1]) !== entries.length) return t(`${found[1]} claims are announced, ${entries.length} listed`);
    for (const i of first.keys()) if (all.every((m) => m.has(i)) && !entries.some((e) => e.index === i)) return t(`claim #${i} is not listed`);
    const sums = { ready: [0, 0n], waiting: [0, 0n] };
    for (const e of entries) {
      const s = { lines: e.lines };
      const says = (label) => printed(s, label)[0];
      const fits = all.map((m) => m.get(e.index)).filter((c) => c && says('Address') === c.address && says('ORCA Amount') === String(c.amount));
      if (!fits.length) return t(`claim #${e.index} is not what is listed: address ${first.get(e.index)?.address}, ${first.get(e.index)?.amount} ORCA`);
      this.shown++;
      const status = says('Status') ?? '';
      const timed = fits.some((c) => {
        const ready = now >= c.due;
        if (/READY/.test(status) !== ready || /COOLDOWN/.test(status) === ready) return false;
        return ready ? says('Ready for') !== undefined && this.lasts(says('Ready for'), now - c.due) : says('Time Remaining') !== undefined && this.lasts(says('Time Remaining'), c.due - now);
      });
      if (!timed) return t(`claim #${e.index}, due at ${fits[0].due}, is not '${status}' at ${now}, or not for that long`);
      // Without any change of the period, the time it was made is known.
      const period = this.settings(r.start)?.cooldown;
      if (how !== 'acts' && (period === 10n || period === 100n)) {
        const made = fits[0].due - Number(period);
        if (says('Created') !== new Date(made * 1000).toISOString()) return t(`claim #${e.index} was created at ${made}`);
        if (!this.lasts(says('Time Elapsed') ?? '', now - made)) return t(`claim #${e.index} has been waiting for ${now - made} seconds`);
      }
      const sum = sums[/READY/.test(status) ? 'ready' : 'waiting'];
      sum[0]++;
      sum[1] += fits[0].amount;
    }
    if (how !== 'acts' && entries.length !== first.size) return t(`there are ${first.size} claims`);
    if (entries.length && how !== 'acts') {
      const want = [['Total Pending Withdraws', entries.length], ['Ready to Withdraw', sums.ready[0]], ['In Cooldown', sums.waiting[0]]];
      if (sums.ready[0]) want.push(['Total ORCA Ready', sums.ready[1]]);
      if (sums.waiting[0]) want.push(['Total ORCA in Cooldown', sums.waiting[1]]);
      for (const [label, v] of want) if (printed(r, label)[0] !== String(v)) return t(`'${label}' is ${v}`);
    }
    if (how === 'free') this[entries.length ? 'complete' : 'silent']++;
    return undefined;
  }
  async at(w, level) {
    const { l, runner, deep } = this;
    const calls = [['status', [], (r, how) => this.status(r, how)]];
    for (const u of [0, 2, -1]) calls.push(['pending-withdraws', [u < 0 ? l.stranger : l.users[u]], (r, how) => this.pending(r, u, how)]);
    for (const [name, args, judge] of calls) {
      const r = await runner.run(name, args, w);
      const bad = (r.sends.length ? runner.trace(r, 'it sent a transaction') : undefined) ?? judge(r, 'free');
      if (bad) return bad;
      if (level > (deep ? 3 : 2)) continue;
      for (let k = 0; k < r.requests.length; k++) {
        runner.n.faults++;
        const bad = judge(await runner.run(name, args, w, { [k]: { fault: 'error' } }), 'fault');
        if (bad) return bad;
        if (level > (deep ? 2 : 1)) continue;
        for (let a = 0; a < l.acts.length; a++) {
          if (/pass$/.test(l.acts[a])) continue;
          if (r.hasty) {
            runner.n.faults++;
            const bad = judge(await runner.run(name, args, w, { [k]: { fork: a } }), 'fault');
            if (bad) return bad;
          }
          runner.n.disturbed++;
          const bad = judge(await runner.run(name, args, w, { [k]: { acts: [a] } }), 'acts');
          if (bad) return bad;
        }
      }
    }
    // The same ledger looked at long before and after, around every change of unit.
    for (const u of level <= (deep ? 4 : 3) ? [0, 2] : []) {
      const { cooldown = 0n } = this.settings(w) ?? {};
      const moments = new Set();
      for (const { due } of this.claims(w, u).values())
        for (const t of SPANS) for (const now of [due - t, due + t, due - Number(cooldown) + t]) if (now >= l.world(w).now) moments.add(now);
      for (const now of moments) {
        const bad = this.pending(await runner.run('pending-withdraws', [l.users[u]], w, { now }), u, 'free');
        if (bad) return bad;
      }
    }
    for (const args of level === 0 ? [[], ['abc'], ['1']] : []) {
      const r = await runner.run('pending-withdraws', args, w);
      if (r.lines.some((s) => /Found [1-9]/.test(s))) return runner.trace(r, 'claims of nobody are listed');
    }
    return undefined;
  }
}

// ---- all of it -----------------------------------------------------------------------------------------------

const WORKERS = 8;
if (!isMainThread) {
  const { id, property, deep, depth, codes, client, dir, keys, shared, deadline } = workerData;
  const l = new Ledgers(dir, id, depth);
  const cursor = new Int32Array(shared);
  const report = { cut: false, extra: {} };
  try {
    const runner = new Runner(l, codes, await import(pathToFileURL(client).href), keys);
    runner.wallets = new Set([...l.users, l.stranger]);
    const m = property === 'C20' ? new Acting(l, runner, deep, keys) : new Showing(l, runner, deep);
    report.levels = l.levels;
    report.acts = l.acts;
    const total = l.levels.at(-1);
    report.states = 0;
    for (;;) {
      const w = Atomics.add(cursor, 0, 1);
      if (w >= total || Atomics.load(cursor, 1)) break;
      if (Date.now() > deadline) {
        report.cut = true;
        break;
      }
      const trace = await m.at(w, l.levels.findIndex((n) => w < n));
      report.states++;
      if (trace) {
        report.trace = trace;
        report.at = w;
        Atomics.store(cursor, 1, 1);
        break;
      }
    }
    report.n = runner.n;
    for (const k of ['possible', 'impossible', 'complete', 'silent', 'shown']) if (m[k] !== undefined) report.extra[k] = m[k];
  } catch (e) {
    report.failed = `${e instanceof Unmodelled ? 'not modelled: ' : ''}${e?.stack ?? e}`;
    Atomics.store(cursor, 1, 1);
  }
  l.close();
  parentPort.postMessage(report);
  parentPort.close();
} else {
  const [property, tier, repo] = process.argv.slice(2);
  const deep = tier === 'thorough';
  const t0 = Date.now();
  const depth = Number(process.env.SCRIPTS_DEPTH ?? (property === 'C20' ? (deep ? 4 : 3) : deep ? 5 : 3));
  const dir = path.join(root, `target/scripts.${process.pid}`);
  mkdirSync(path.join(dir, 'keys'), { recursive: true });
  let reports;
  const keys = [];
  try {
    const client = path.join(dir, 'client.mjs');
    await bundle(path.join(repo, 'js-client/src/index.ts'), client);
    const codes = {};
    for (const s of property === 'C20' ? SCRIPTS.slice(0, 8) : SCRIPTS.slice(8)) {
      const out = path.join(dir, `${s}.mjs`);
      await bundle(path.join(repo, `ts-scripts/${s}.ts`), out, {}, { external: ['@solana/web3.js', '@solana/spl-token', '@orca-so/xorca'], define: { 'import.meta.url': '__url' } });
      codes[s] = body(readFileSync(out, 'utf8'));
    }
    const probe = new Ledgers(dir, 'probe', 0);
    probe.users.forEach((u, i) => {
      keys[i] = path.join(dir, 'keys', `${i}.json`);
      writeFileSync(keys[i], JSON.stringify([...new Uint8Array(32).fill(i + 1), ...fromBase58(u)]));
    });
    probe.close();
    const shared = new SharedArrayBuffer(8);
    reports = await Promise.all(
      Array.from(
        { length: WORKERS },
        (_, id) =>
          new Promise((resolve, reject) => {
            const w = new Worker(fileURLToPath(import.meta.url), {
              workerData: { id, property, deep, depth, codes, client, dir, keys, shared, deadline: t0 + (deep ? 720 : 150) * 1000 },
              resourceLimits: { maxOldGenerationSizeMb: 2000 },
            });
            w.on('message', resolve);
            w.on('error', reject);
          })
      )
    );
  } finally {
    rmSync(dir, { recursive: true, force: true });
  }
  const failed = reports.find((r) => r.failed);
  if (failed) {
    console.log(failed.failed);
    process.exit(2);
  }
  const n = { by: {}, states: 0 };
  const extra = {};
  for (const r of reports) {
    for (const [k, v] of Object.entries(r.n)) {
      if (k === 'by') for (const [x, y] of Object.entries(v)) n.by[x] = (n.by[x] ?? 0) + y;
      else n[k] = (n[k] ?? 0) + v;
    }
    n.states += r.states;
    for (const [k, v] of Object.entries(r.extra)) extra[k] = (extra[k] ?? 0) + v;
  }
  const cut = reports.some((r) => r.cut);
  const found = reports.filter((r) => r.trace).sort((a, b) => a.at - b.at)[0];
  const what =
    property === 'C20'
      ? { possible_orders: extra.possible, impossible_orders: extra.impossible, transactions_sent: n.transactions, transactions_accepted: n.accepted }
      : { complete_reports: extra.complete, reports_of_nothing: extra.silent, values_judged: extra.shown };
  const evidence = {
    property,
    tier,
    seed: Number(process.env.VERIF_SEED ?? 1),
    level: 'model_checking',
    coverage: {
      states: n.states,
      transitions: n.runs,
      traces_validated_against_impl: n.runs,
      ledgers_by_depth: reports[0].levels,
      operations_between_ledgers: reports[0].acts,
      requests_answered: n.requests,
      runs_by_script: n.by,
      runs_with_other_operations_in_between: n.disturbed,
      runs_with_failing_requests: n.faults,
      ...what,
      exhaustive: !cut && !found,
      rule: 'every script with every order of an alphabet is run from every ledger within the depth; from those nearer the start also with every operation of others before every request and every failure of every request',
      samples: reports[0].acts.map((a) => `other operation: ${a}`),
    },
    assumptions: [
      '@solana/web3.js and @solana/spl-token are not installed and are replaced by the re-implementations in js/stubs',
      "the node answers from one ledger state at a time; the script's clock is the ledger's",
      'the ledgers are those the model checker reached with the real program within the stated depth',
    ],
    wall_s: (Date.now() - t0) / 1000,
    violations: found ? 1 : 0,
  };
  mkdirSync(path.join(root, 'evidence'), { recursive: true });
  writeFileSync(path.join(root, `evidence/${property}.json`), JSON.stringify(evidence, null, 1));
  if (!found) console.log(`${property}: held on ${n.states} ledgers and ${n.runs} runs of scripts in ${evidence.wall_s.toFixed(1)}s${cut ? ' (cut short)' : ''} ${JSON.stringify(what)}`);
  else {
    const out = path.join(root, `out/${property}.replay.json`);
    mkdirSync(path.dirname(out), { recursive: true });
    writeFileSync(out, JSON.stringify({ property, tier, trace: found.trace }, null, 1));
    for (const t of found.trace) console.log('  ' + t.slice(0, 1500));
    console.log(`VIOLATION property=${property} replay=${out}`);
    process.exitCode = 1;
  }
}
