// Stands in for @solana/web3.js: what the operator scripts use of it. Requests go to `env`, which the checker sets.
import { createPrivateKey, createPublicKey } from 'node:crypto';
import { findProgramAddress, fromBase58, onCurve, toBase58 } from './base.js';

let env;
export const use = (e) => {
  env = e;
};

const derived = new Set();
export class PublicKey {
  constructor(v) {
    if (v instanceof PublicKey) this.bytes = v.bytes;
    else if (typeof v === 'string') {
      try {
        this.bytes = fromBase58(v);
      } catch {
        throw new Error(`Non-base58 character`);
      }
    } else if (typeof v === 'number' || typeof v === 'bigint') {
      this.bytes = new Uint8Array(32);
      let n = BigInt(v);
      for (let i = 31; n > 0n; i--, n >>= 8n) this.bytes[i] = Number(n & 255n);
    } else this.bytes = Uint8Array.from(v);
    if (this.bytes.length !== 32) throw new Error('Invalid public key input');
  }
  equals(o) {
    return this.toBase58() === o.toBase58();
  }
  toBase58() {
    return toBase58(this.bytes);
  }
  toString() {
    return this.toBase58();
  }
  toJSON() {
    return this.toBase58();
  }
  toBytes() {
    return Uint8Array.from(this.bytes);
  }
  toBuffer() {
    return Buffer.from(this.bytes);
  }
  get [Symbol.toStringTag]() {
    return `PublicKey(${this.toString()})`;
  }
  static isOnCurve(k) {
    const a = new PublicKey(k);
    // The invented wallets of the checker are no points of the curve, yet stand for some.
    return env?.wallets?.has(a.toBase58()) || onCurve(a.bytes);
  }
  static findProgramAddressSync(seeds, program) {
    const [a, bump] = findProgramAddress(program.bytes, seeds);
    derived.add(toBase58(a));
    return [new PublicKey(a), bump];
  }
  static async findProgramAddress(seeds, program) {
    return PublicKey.findProgramAddressSync(seeds, program);
  }
}
PublicKey.default = new PublicKey('11111111111111111111111111111111');
export const isDerived = (k) => derived.has(k.toBase58());

export class Keypair {
  constructor(secret) {
    this.secretKey = Uint8Array.from(secret);
    this.publicKey = new PublicKey(this.secretKey.slice(32, 64));
  }
  static fromSecretKey(s) {
    // (The real one also checks that the two halves belong together.)
    if (s.length !== 64) throw new Error('bad secret key size');
    return new Keypair(s);
  }
  static fromSeed(seed) {
    if (seed.length !== 32) throw new Error('bad seed size');
    const der = Buffer.concat([Buffer.from('302e020100300506032b657004220420', 'hex'), seed]);
    const pub = createPublicKey(createPrivateKey({ key: der, format: 'der', type: 'pkcs8' })).export({ format: 'der', type: 'spki' });
    return new Keypair(Buffer.concat([seed, pub.subarray(-32)]));
  }
}

export class TransactionInstruction {
  constructor({ keys, programId, data }) {
    this.keys = keys;
    this.programId = programId;
    this.data = data ?? Buffer.alloc(0);
  }
}
export class Transaction {
  constructor(o) {
    this.instructions = [];
    this.signatures = [];
    if (o) for (const k of ['feePayer', 'recentBlockhash', 'blockhash', 'lastValidBlockHeight']) if (o[k]) this[k === 'blockhash' ? 'recentBlockhash' : k] = o[k];
  }
  add(...items) {
    if (items.length === 0) throw new Error('No instructions');
    for (const i of items) {
      if ('instructions' in i) this.instructions.push(...i.instructions);
      else if ('data' in i && 'programId' in i && 'keys' in i) this.instructions.push(i);
      else this.instructions.push(new TransactionInstruction(i));
    }
    return this;
  }
  sign(...signers) {
    this.signers = signers;
    compiled(this, signers);
  }
  partialSign(...signers) {
    this.signers = [...(this.signers ?? []), ...signers];
  }
  serialize() {
    if (!this.signers) throw new Error('Signature verification failed.');
    return { tx: this };
  }
}
export const SystemProgram = {
  programId: new PublicKey('11111111111111111111111111111111'),
  transfer({ fromPubkey, toPubkey, lamports }) {
    const data = Buffer.alloc(12);
    data.writeUInt32LE(2, 0);
    data.writeBigUInt64LE(BigInt(lamports), 4);
    return new TransactionInstruction({
      programId: SystemProgram.programId,
      keys: [
        { pubkey: fromPubkey, isSigner: true, isWritable: true },
        { pubkey: toPubkey, isSigner: false, isWritable: true },
      ],
      data,
    });
  },
};
export const LAMPORTS_PER_SOL = 1_000_000_000;

function compiled(tx, signers) {
  const unique = [...new Map(signers.map((s) => [s.publicKey.toBase58(), s])).values()];
  const payer = tx.feePayer ?? unique[0]?.publicKey;
  if (!payer) throw new Error('Transaction fee payer required');
  if (tx.instructions.length === 0) throw new Error('No instructions provided');
  const ixs = tx.instructions.map((i) => {
    if (i.programId === undefined) throw new Error('Transaction instruction index has undefined program id');
    return { program: i.programId.toBase58(), keys: i.keys.map((k) => [k.pubkey.toBase58(), !!k.isSigner, !!k.isWritable]), data: Buffer.from(i.data).toString('hex') };
  });
  const needed = new Set([payer.toBase58()]);
  for (const i of ixs) for (const [k, s] of i.keys) if (s) needed.add(k);
  const have = new Set(unique.map((s) => s.publicKey.toBase58()));
  for (const h of have) if (!needed.has(h)) throw new Error(`unknown signer: ${h}`);
  for (const n of needed) if (!have.has(n)) throw new Error(`Signature verification failed: missing ${n}`);
  return { payer: payer.toBase58(), ixs };
}
export async function sendAndConfirmTransaction(connection, tx, signers, options) {
  return env.send(() => compiled(tx, signers), options?.commitment ?? connection.commitment ?? 'finalized');
}

export async function sendAndConfirmRawTransaction(connection, raw, options) {
  return sendAndConfirmTransaction(connection, raw.tx, raw.tx.signers, typeof options === 'object' ? options : undefined);
}

const address = (k) => new PublicKey(k).toBase58();
const info = (a) =>
  a === undefined ? null : { data: Buffer.from(a.bytes), executable: false, lamports: Number(a.lamports), owner: new PublicKey(a.owner), rentEpoch: Number.MAX_SAFE_INTEGER, space: a.len };
const context = (value) => ({ context: { slot: 1, apiVersion: '2' }, value });
const TOKEN = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
const option = (d, at) => (d.readUInt32LE(at) === 1 ? toBase58(d.subarray(at + 4, at + 36)) : null);
const ui = (amount, decimals) => ({ amount: amount.toString(), decimals, uiAmount: Number(amount) / 10 ** decimals, uiAmountString: String(Number(amount) / 10 ** decimals) });
function parsed(a, get) {
  const i = info(a);
  if (!i || a.owner !== TOKEN || ![82, 165].includes(a.len)) return i;
  const d = i.data;
  if (a.len === 82) {
    const p = { mintAuthority: option(d, 0), supply: d.readBigUInt64LE(36).toString(), decimals: d[44], isInitialized: d[45] === 1, freezeAuthority: option(d, 46) };
    return { ...i, data: { program: 'spl-token', parsed: { type: 'mint', info: p }, space: 82 } };
  }
  const mint = toBase58(d.subarray(0, 32));
  const p = { mint, owner: toBase58(d.subarray(32, 64)), state: 'initialized', isNative: false, tokenAmount: ui(d.readBigUInt64LE(64), get(mint)?.bytes[44] ?? 0) };
  return { ...i, data: { program: 'spl-token', parsed: { type: 'account', info: p }, space: 165 } };
}
export class Connection {
  constructor(url, commitment) {
    this.rpcEndpoint = url;
    this.commitment = typeof commitment === 'object' ? commitment?.commitment : commitment;
  }
  ask(what, own, answer) {
    const c = (typeof own === 'object' ? own?.commitment : own) ?? this.commitment ?? 'finalized';
    return env.ask(what, answer, c);
  }
  getAccountInfo(k, commitment) {
    return this.ask(`getAccountInfo ${address(k)}`, commitment, (get) => info(get(address(k))));
  }
  getAccountInfoAndContext(k, commitment) {
    return this.ask(`getAccountInfo ${address(k)}`, commitment, (get) => context(info(get(address(k)))));
  }
  getMultipleAccountsInfo(list, commitment) {
    return this.ask(`getMultipleAccounts of ${list.length}`, commitment, (get) => {
      if (list.length > 100) throw new Error('Too many inputs provided; max 100');
      return list.map((k) => info(get(address(k))));
    });
  }
  getMultipleAccountsInfoAndContext(list, commitment) {
    return this.getMultipleAccountsInfo(list, commitment).then(context);
  }
  getParsedAccountInfo(k, commitment) {
    return this.ask(`getParsedAccountInfo ${address(k)}`, commitment, (get) => context(parsed(get(address(k)), get)));
  }
  getTokenAccountBalance(k, commitment) {
    return this.ask(`getTokenAccountBalance ${address(k)}`, commitment, (get) => {
      const a = get(address(k));
      if (!a) throw new Error('failed to get token account balance: Invalid param: could not find account');
      if (a.owner !== TOKEN || a.len !== 165) throw new Error('failed to get token account balance: Invalid param: not a Token account');
      const d = Buffer.from(a.bytes);
      return context(ui(d.readBigUInt64LE(64), get(toBase58(d.subarray(0, 32)))?.bytes[44] ?? 0));
    });
  }
  getTokenSupply(k, commitment) {
    return this.ask(`getTokenSupply ${address(k)}`, commitment, (get) => {
      const a = get(address(k));
      if (!a || a.owner !== TOKEN || a.len !== 82) throw new Error('failed to get token supply: Invalid param: not a Token mint');
      return context(ui(Buffer.from(a.bytes).readBigUInt64LE(36), a.bytes[44]));
    });
  }
  getBalance(k, commitment) {
    return this.ask(`getBalance ${address(k)}`, commitment, (get) => Number(get(address(k))?.lamports ?? 0));
  }
  getBalanceAndContext(k, commitment) {
    return this.getBalance(k, commitment).then(context);
  }
  getLatestBlockhashAndContext() {
    return this.getLatestBlockhash().then(context);
  }
  getLatestBlockhash() {
    return env.ask('getLatestBlockhash', () => ({ blockhash: toBase58(new Uint8Array(32).fill(9)), lastValidBlockHeight: 1000 }));
  }
  getMinimumBalanceForRentExemption(n) {
    return env.ask('getMinimumBalanceForRentExemption', () => (n + 128) * 6960);
  }
  sendTransaction(tx, signers, options) {
    return env.send(() => compiled(tx, signers), 'processed', options?.skipPreflight === true);
  }
  sendRawTransaction(raw, options) {
    return this.sendTransaction(raw.tx, raw.tx.signers, options);
  }
  confirmTransaction(s, commitment) {
    const c = commitment ?? this.commitment ?? 'finalized';
    return env.ask('confirmTransaction', () => {
      const err = env.confirmed?.(c, s?.signature ?? s) ?? null;
      return context({ err });
    }, c);
  }
  getSignatureStatuses(list) {
    return Promise.all(list.map((signature) => this.getSignatureStatus(signature))).then((all) => context(all.map((one) => one.value)));
  }
  getSignatureStatus(signature) {
    return env.ask('getSignatureStatus', () => {
      const err = env.confirmed?.('confirmed', signature) ?? null;
      return context({ slot: 1, confirmations: 1, err, confirmationStatus: 'confirmed' });
    }, 'confirmed');
  }
}
