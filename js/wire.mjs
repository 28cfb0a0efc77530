// C18: everything the explored histories did, wrote and reported, put to the JavaScript client: it builds the same
// instructions, reads the same values, derives the same addresses and gives errors their names.
// usage: node wire.mjs <repository> <records>    prints "OK <counts>" or "WRONG <what>"; instructions built differently
// go to <records>.differ, to be judged by what they do.
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';
import { closeSync, fstatSync, mkdirSync, openSync, readSync, rmSync, writeFileSync } from 'node:fs';
import path from 'node:path';
import { fileURLToPath, pathToFileURL } from 'node:url';
import { bundle } from './bundle.mjs';
import { fromBase58, toBase58 } from './stubs/base.js';
import { AccountRole, createNoopSigner, SolanaError, SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM } from './stubs/kit.js';

const root = process.env.VERIF ?? path.join(path.dirname(fileURLToPath(import.meta.url)), '..');
const show = (x) => JSON.stringify(x, (_k, v) => (typeof v === 'bigint' ? v.toString() : v));
class Wrong extends Error {}
const wrong = (...a) => {
  throw new Wrong(a.join(' '));
};
const SYSTEM = '11111111111111111111111111111111';
const ATA_PROGRAM = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
const XORCA_MINT = 'xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N';
const OTHER = toBase58(new Uint8Array(32).fill(7));
const SAFE = BigInt(Number.MAX_SAFE_INTEGER);
const hexOf = (b) => Buffer.from(b.buffer, b.byteOffset, b.byteLength).toString('hex');

/** The ways of calling the client for one order: [builder, parser, input, the name of the kind]. */
function call(client, pool, o, num) {
  const signer = createNoopSigner(o.user);
  const at = (name) => o.derived[name];
  const mints = { orcaMintAccount: pool.orcaMint, tokenProgramAccount: pool.token };
  const n = (s) => {
    const b = BigInt(s);
    return num && b <= SAFE && b >= -SAFE ? Number(b) : b;
  };
  switch (o.kind) {
    case 'stake':
      return ['Stake', { stakerAccount: signer, vaultAccount: at('vault'), stakerOrcaAta: o.orcaAta, stakerXorcaAta: o.xorcaAta, xorcaMintAccount: XORCA_MINT, stateAccount: at('state'), ...mints }, { orcaStakeAmount: n(o.amount) }];
    case 'unstake':
      return [
        'Unstake',
        { unstakerAccount: signer, stateAccount: at('state'), pendingWithdrawAccount: at('claim'), unstakerXorcaAta: o.xorcaAta, xorcaMintAccount: XORCA_MINT, vaultAccount: at('vault'), systemProgramAccount: SYSTEM, ...mints },
        { xorcaUnstakeAmount: n(o.amount), withdrawIndex: o.index },
      ];
    case 'withdraw':
      return [
        'Withdraw',
        { unstakerAccount: signer, stateAccount: at('state'), pendingWithdrawAccount: at('claim'), unstakerOrcaAta: o.orcaAta, vaultAccount: at('vault'), systemProgramAccount: SYSTEM, ...mints },
        { withdrawIndex: o.index },
      ];
    case 'initialize':
      return [
        'Initialize',
        { payerAccount: signer, updateAuthorityAccount: createNoopSigner(o.authority), stateAccount: at('state'), vaultAccount: at('vault'), xorcaMintAccount: XORCA_MINT, systemProgramAccount: SYSTEM, associatedTokenProgramAccount: ATA_PROGRAM, ...mints },
        { coolDownPeriodS: n(o.cooldown) },
      ];
    case 'setCooldown':
      return ['Set', { updateAuthorityAccount: signer, stateAccount: at('state') }, { instructionData: client.stateUpdateInstruction('UpdateCoolDownPeriod', { newCoolDownPeriodS: n(o.cooldown) }) }];
    case 'setAuthority':
      return ['Set', { updateAuthorityAccount: signer, stateAccount: at('state') }, { instructionData: client.stateUpdateInstruction('UpdateUpdateAuthority', { newAuthority: o.authority }) }];
  }
  throw new Error(`an unknown order ${o.kind}`);
}
const same = (a, b) => {
  if (a !== null && b !== null && typeof a === 'object' && typeof b === 'object') {
    const [ka, kb] = [Object.keys(a), Object.keys(b)];
    return ka.length === kb.length && ka.every((k) => same(a[k], b[k]));
  }
  return a === b || ((typeof a === 'bigint' || typeof b === 'bigint') && a !== undefined && b !== undefined && a !== null && b !== null && String(a) === String(b));
};
const EVENTS = { Stake: 0, Unstake: 1, Withdraw: 2, UpdateAuthoritySet: 3 };
function encodeEvent(kind, fields) {
  const parts = [Buffer.from([EVENTS[kind]])];
  for (const [k, v] of fields) {
    const b = Buffer.alloc(8);
    if (k === 'withdrawIndex') parts.push(Buffer.from([Number(v)]));
    else if (k === 'coolDownPeriodS') b.writeBigInt64LE(BigInt(v)), parts.push(b);
    else if (k === 'newAuthority' || k === 'setBy') parts.push(Buffer.from(fromBase58(v)));
    else b.writeBigUInt64LE(BigInt(v)), parts.push(b);
  }
  return Buffer.concat(parts);
}

class Judge {
  constructor(client, pool) {
    this.client = client;
    this.pool = pool;
    this.counts = {};
    this.differ = [];
    this.addresses = new Map();
  }
  async derived(user, index) {
    const { client, pool } = this;
    this.poolAddresses ??= await (async () => {
      const [state] = await client.findStateAddress();
      const [vault] = await client.findVaultAddress(state, pool.token, pool.orcaMint);
      return { state, vault };
    })();
    const k = `${user} ${index}`;
    if (index !== undefined && !this.addresses.has(k)) this.addresses.set(k, (await client.findPendingWithdrawAddress(user, index))[0]);
    return { ...this.poolAddresses, claim: this.addresses.get(k) };
  }
  async judge(line) {
    const r = JSON.parse(line);
    this.counts[r.t] = (this.counts[r.t] ?? 0) + 1;
    try {
      await this[r.t === "pool" ? "pool_" : r.t](r, line);
    } catch (e) {
      if (e instanceof Wrong) throw e;
      wrong(`the client fails (${e?.message ?? e}) on ${line.slice(0, 700)}`);
    }
  }
  async pool_(r) {
    const state = await this.client.findStateAddress();
    if (state[0] !== r.state || state[1] !== r.stateBump) wrong(`findStateAddress gives ${state}, the program uses ${r.state}, ${r.stateBump}`);
    const vault = await this.client.findVaultAddress(state[0], r.token, r.orcaMint);
    if (vault[0] !== r.vault || vault[1] !== r.vaultBump) wrong(`findVaultAddress gives ${vault}, the program uses ${r.vault}, ${r.vaultBump}`);
    if (this.client.XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS !== r.program) wrong('the program has another address than the client says');
    await this.misfits(r);
  }
  async claimAddress(r) {
    const c = await this.client.findPendingWithdrawAddress(r.user, r.index);
    if (c[0] !== r.address || c[1] !== r.bump) wrong(`findPendingWithdrawAddress(${r.user}, ${r.index}) gives ${c}, the program uses ${r.address}, ${r.bump}`);
  }
  /** Arguments that no instruction can carry are refused instead of being carried as something else. */
  async misfits(r) {
    const derived = await this.derived(OTHER, 0);
    const base = { user: OTHER, orcaAta: OTHER, xorcaAta: OTHER, authority: OTHER, derived };
    const U64 = 2n ** 64n;
    const I64 = 2n ** 63n;
    const bad = [];
    for (const amount of [U64, U64 + 1n, -1n, U64 * 2n + 5n]) bad.push({ ...base, kind: 'stake', amount }, { ...base, kind: 'unstake', amount, index: 0 });
    for (const index of [256, 257, -1, 511]) bad.push({ ...base, kind: 'unstake', amount: 1n, index }, { ...base, kind: 'withdraw', index });
    for (const cooldown of [I64, -I64 - 1n, U64 + 5n]) bad.push({ ...base, kind: 'initialize', cooldown }, { ...base, kind: 'setCooldown', cooldown });
    for (const o of bad) {
      const [name, accounts, args] = call(this.client, r, o, false);
      let ix;
      try {
        ix = this.client[`get${name}Instruction`]({ ...accounts, ...args });
      } catch {
        continue;
      }
      wrong(`${name} with ${show(args)}, which cannot be carried, is built as ${hexOf(ix.data)}`);
    }
  }
  async ix(r, line) {
    const { client, pool } = this;
    r.derived = await this.derived(r.user, r.index);
    for (const num of [false, true]) {
      const [name, accounts, args] = call(client, pool, r, num);
      const ix = client[`get${name}Instruction`]({ ...accounts, ...args });
      const metas = ix.accounts.map((m) => [m.address, m.role]);
      const data = hexOf(ix.data);
      if (ix.programAddress !== r.program || data !== r.data || !same(metas, r.metas)) {
        const order = { ...r };
        delete order.derived;
        this.differ.push(`{"order":${line},"ix":${JSON.stringify({ program: ix.programAddress, metas, data })}}`);
      }
      for (const m of ix.accounts) if (m.role >= AccountRole.READONLY_SIGNER !== (m.signer !== undefined)) wrong(`${name} has no signer for the account that signs, or one for an account that does not: ${show(m)}`);
      const p = client[`parse${name}Instruction`](ix);
      const { discriminator, ...said } = p.data;
      if (!same(said, args)) wrong(`${name} with ${show(args)} is parsed as ${show(said)}`);
      const back = Object.fromEntries(Object.entries(p.accounts).map(([k, m]) => [k, m.address]));
      for (const [k, v] of Object.entries(accounts)) if (back[k] !== (v.address ?? v)) wrong(`${name}: the account ${k} is parsed as ${back[k]}, not ${v.address ?? v}`);
      const kind = client.XorcaStakingProgramInstruction[client.identifyXorcaStakingProgramInstruction(ix)];
      const kind2 = client.XorcaStakingProgramInstruction[client.identifyXorcaStakingProgramInstruction(ix.data)];
      if (kind !== name || kind2 !== name) wrong(`${name} is identified as ${kind} and ${kind2}`);
      if (client[`get${name}DiscriminatorBytes`]()[0] !== ix.data[0] || discriminator !== ix.data[0]) wrong(`${name}: the discriminator is not the first byte`);
      const codec = client[`get${name}InstructionDataCodec`]();
      if (hexOf(codec.encode(codec.decode(ix.data))) !== data) wrong(`${name}: the codec does not return ${data}`);
      const moved = client[`get${name}Instruction`]({ ...accounts, ...args }, { programAddress: OTHER });
      if (moved.programAddress !== OTHER || hexOf(moved.data) !== data) wrong(`${name} is not built for the program it was asked for`);
    }
  }
  bytes(r) {
    const b = Buffer.alloc(r.len);
    b.write(r.data, 'hex');
    return new Uint8Array(b.buffer, b.byteOffset, b.length);
  }
  codec(name, b, want, encode = true) {
    const { client } = this;
    const got = client[`get${name}Decoder`]().decode(b);
    const read = Object.fromEntries(Object.keys(want).map((k) => [k, got[k]]));
    if (!same(read, want)) wrong(`${name} is decoded as ${show(read)} where ${show(want)} is stored`);
    if (encode) {
      const again = client[`get${name}Codec`]().encode(got);
      if (hexOf(again) !== hexOf(b)) wrong(`${name}: encoding what was decoded gives other bytes: ${show(want)}`);
      const short = client[`get${name}Encoder`]().encode(read);
      if (hexOf(short) !== hexOf(b)) wrong(`${name}: encoding the values gives other bytes: ${show(want)}`);
    }
    return got;
  }
  state(r) {
    const b = this.bytes(r);
    const d = Buffer.from(b.buffer, b.byteOffset, b.length);
    const { client } = this;
    if (client.getStateSize() !== b.length) wrong(`getStateSize() gives ${client.getStateSize()}, the program uses ${b.length}`);
    const want = { bump: d[6], vaultBump: d[7], escrowedOrcaAmount: d.readBigUInt64LE(8), coolDownPeriodS: d.readBigInt64LE(16), updateAuthority: toBase58(b.subarray(24, 56)) };
    const got = this.codec('State', b, want);
    this.named(r, b, got, 'State');
  }
  claim(r) {
    const b = this.bytes(r);
    const d = Buffer.from(b.buffer, b.byteOffset, b.length);
    const { client } = this;
    if (client.getPendingWithdrawSize() !== b.length) wrong(`getPendingWithdrawSize() gives ${client.getPendingWithdrawSize()}, the program uses ${b.length}`);
    const want = { bump: d[6], withdrawIndex: d[7], unstaker: toBase58(b.subarray(8, 40)), withdrawableOrcaAmount: d.readBigUInt64LE(40), withdrawableTimestamp: d.readBigInt64LE(48) };
    const got = this.codec('PendingWithdraw', b, want);
    this.named(r, b, got, 'PendingWithdraw');
  }
  named(r, b, got, name) {
    const { client } = this;
    const kinds = client.XorcaStakingProgramAccount;
    const k = [kinds[client.identifyXorcaStakingProgramAccount(b)], kinds[client.identifyXorcaStakingProgramAccount({ data: b })]];
    if (k[0] !== name || k[1] !== name) wrong(`${name} is identified as ${k}`);
    if (client.AccountDiscriminator[got.discriminator] !== name || client[`get${name}DiscriminatorBytes`]()[0] !== b[0]) wrong(`${name} has another discriminator than the client says`);
    const account = { address: OTHER, exists: true, lamports: 5n, programAddress: this.pool.program, executable: false, space: BigInt(b.length), data: b };
    const a = client[`decode${name}`](account);
    if (a.address !== OTHER || a.lamports !== 5n || !same(a.data, got)) wrong(`${name} is decoded differently from an account`);
    const none = client[`decode${name}`]({ address: OTHER, exists: false });
    if (none.exists !== false || none.address !== OTHER) wrong(`${name}: a missing account is not reported as missing`);
  }
  tokenAccount(r) {
    const b = this.bytes(r);
    const d = Buffer.from(b.buffer, b.byteOffset, b.length);
    const key = (o) => toBase58(b.subarray(o, o + 32));
    this.codec('TokenAccount', b, {
      mint: key(0), owner: key(32), amount: d.readBigUInt64LE(64), delegateFlag: d.readUInt32LE(72), delegate: key(76), state: d[108],
      isNativeFlag: d.readUInt32LE(109), nativeAmount: d.readBigUInt64LE(113), delegateAmount: d.readBigUInt64LE(121), closeAuthorityFlag: d.readUInt32LE(129), closeAuthority: key(133),
    });
  }
  tokenMint(r) {
    const b = this.bytes(r);
    const d = Buffer.from(b.buffer, b.byteOffset, b.length);
    const key = (o) => toBase58(b.subarray(o, o + 32));
    this.codec('TokenMint', b, {
      mintAuthorityFlag: d.readUInt32LE(0), mintAuthority: key(4), supply: d.readBigUInt64LE(36), decimals: d[44], isInitialized: d[45] === 1, freezeAuthorityFlag: d.readUInt32LE(46), freezeAuthority: key(50),
    });
  }
  event(r) {
    const b = Buffer.from(r.data, 'hex');
    const honest = encodeEvent(r.kind, r.fields).equals(b);
    const got = this.client.getEventDecoder().decode(new Uint8Array(b.buffer, b.byteOffset, b.length));
    const read = r.fields.map(([k]) => [k, String(got[k])]);
    const extra = Object.keys(got).filter((k) => k !== '__kind' && !r.fields.some(([f]) => f === k));
    const list = (x) => x.map(([, v]) => v).sort().join();
    // What the program got wrong itself is another property's business.
    if (!honest && (got.__kind !== r.kind || list(read) !== list(r.fields))) {
      this.counts.dishonest = (this.counts.dishonest ?? 0) + 1;
      return;
    }
    if (got.__kind !== r.kind || extra.length || !same(read, r.fields)) wrong(`the event ${r.kind} of ${show(r.fields)} is decoded as ${show(got)}`);
    if (honest && hexOf(this.client.getEventCodec().encode(got)) !== r.data) wrong(`the event ${r.kind}: encoding what was decoded gives other bytes`);
    if (!this.client.isEvent(r.kind, got)) wrong(`the event ${r.kind} is not recognised`);
  }
  error(r) {
    const { client } = this;
    const snake = (s) => 'XORCA_STAKING_PROGRAM_ERROR__' + s.replace(/(?<!^)([A-Z])/g, '_$1').toUpperCase();
    const names = Object.keys(client).filter((k) => k.startsWith('XORCA_STAKING_PROGRAM_ERROR__') && client[k] === r.code);
    if (names.length !== 1 || !r.meanings.some((m) => snake(m) === names[0])) wrong(`${r.op} was refused for ${r.meanings} with the code ${r.code}, which the client calls ${names}`);
    const message = client.getXorcaStakingProgramErrorMessage(r.code);
    if (typeof message !== 'string' || message === '') wrong(`the client has no message for the code ${r.code}`);
    const e = new SolanaError(SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM, { code: r.code, index: 1 });
    const tx = { instructions: { 0: { programAddress: OTHER }, 1: { programAddress: this.pool.program } } };
    const is = client.isXorcaStakingProgramError;
    const foreign = new SolanaError(SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM, { code: r.code, index: 0 });
    if (!is(e, tx) || !is(e, tx, r.code) || is(e, tx, r.code + 1) || is(foreign, tx) || is(new Error('x'), tx)) wrong(`isXorcaStakingProgramError misjudges the code ${r.code}`);
  }
}

const WORKERS = 8;
if (!isMainThread) {
  const { code, file, from, to, pool } = workerData;
  console.error = () => {};
  const client = await import(pathToFileURL(code).href);
  const j = new Judge(client, pool);
  const out = {};
  const fd = openSync(file, 'r');
  try {
    const block = Buffer.alloc(1 << 22);
    let at = from;
    let rest = Buffer.alloc(0);
    while (at < to) {
      const n = readSync(fd, block, 0, Math.min(block.length, to - at), at);
      at += n;
      const chunk = Buffer.concat([rest, block.subarray(0, n)]);
      const end = chunk.lastIndexOf(10) + 1;
      for (const line of chunk.toString('latin1', 0, end).split('\n')) if (line) await j.judge(line);
      rest = Buffer.from(chunk.subarray(end));
    }
  } catch (e) {
    if (e instanceof Wrong) out.wrong = e.message;
    else out.failed = e?.stack ?? String(e);
  }
  closeSync(fd);
  parentPort.postMessage({ ...out, counts: j.counts, differ: j.differ });
} else {
  const [repo, file] = process.argv.slice(2);
  const dir = path.join(root, 'target');
  mkdirSync(dir, { recursive: true });
  const code = path.join(dir, `wire.${process.pid}.mjs`);
  await bundle(path.join(repo, 'js-client/src/index.ts'), code);
  // Cut into ranges of whole lines.
  const fd = openSync(file, 'r');
  const size = fstatSync(fd).size;
  const cuts = [0];
  const b = Buffer.alloc(1 << 16);
  for (let i = 1; i < WORKERS; i++) {
    const at = Math.floor((size / WORKERS) * i);
    const n = readSync(fd, b, 0, b.length, at);
    const nl = b.subarray(0, n).indexOf(10);
    cuts.push(nl < 0 ? size : Math.max(at + nl + 1, cuts[i - 1]));
  }
  cuts.push(size);
  // The first line tells the pool.
  const n = readSync(fd, b, 0, b.length, 0);
  const pool = JSON.parse(b.toString('latin1', 0, b.subarray(0, n).indexOf(10)));
  closeSync(fd);
  const reports = await Promise.all(
    cuts.slice(0, -1).map(
      (from, i) =>
        new Promise((resolve, reject) => {
          const w = new Worker(fileURLToPath(import.meta.url), { workerData: { code, file, from, to: cuts[i + 1], pool }, resourceLimits: { maxOldGenerationSizeMb: 2500 } });
          w.on('message', resolve);
          w.on('error', reject);
        })
    )
  ).finally(() => rmSync(code, { force: true }));
  const failed = reports.find((r) => r.failed);
  const bad = reports.find((r) => r.wrong);
  if (failed) {
    console.log(failed.failed);
    process.exit(2);
  }
  if (bad) {
    console.log(`WRONG ${bad.wrong.replace(/\n/g, ' ')}`);
    process.exit(1);
  }
  const differ = reports.flatMap((r) => r.differ);
  if (differ.length) writeFileSync(`${file}.differ`, differ.join('\n') + '\n');
  const counts = {};
  for (const r of reports) for (const [k, v] of Object.entries(r.counts)) counts[k] = (counts[k] ?? 0) + v;
  console.log(`OK ${JSON.stringify(counts)}`);
}
