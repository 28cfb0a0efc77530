// The parts of Solana every stand-in needs: base58, addresses, program-derived addresses.
import { createHash } from 'node:crypto';

const ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
const DIGIT = new Map([...ALPHABET].map((c, i) => [c, BigInt(i)]));
const text = new Map();
const raw = new Map();

export function toBase58(bytes) {
  const hex = Buffer.from(bytes).toString('hex');
  let s = text.get(hex);
  if (s !== undefined) return s;
  let n = hex === '' ? 0n : BigInt('0x' + hex);
  s = '';
  for (; n > 0n; n /= 58n) s = ALPHABET[Number(n % 58n)] + s;
  for (const b of bytes) {
    if (b !== 0) break;
    s = '1' + s;
  }
  text.set(hex, s);
  return s;
}
export function fromBase58(s) {
  let b = raw.get(s);
  if (b !== undefined) return b.slice();
  let n = 0n;
  for (const c of s) {
    if (!DIGIT.has(c)) throw new Error(`not base58: ${s}`);
    n = n * 58n + DIGIT.get(c);
  }
  const zeros = s.match(/^1*/)[0].length;
  const hex = n === 0n ? '' : n.toString(16);
  b = new Uint8Array(Buffer.from('00'.repeat(zeros) + (hex.length % 2 ? '0' : '') + hex, 'hex'));
  raw.set(s, b);
  return b.slice();
}
export function isAddress(s) {
  try {
    return typeof s === 'string' && s.length >= 32 && s.length <= 44 && fromBase58(s).length === 32;
  } catch {
    return false;
  }
}

const P = 2n ** 255n - 19n;
const D = 37095705934669439343138083508754565189542113879843219016388785533085940283555n;
function pow(b, e) {
  let r = 1n;
  for (b %= P; e > 0n; e >>= 1n) {
    if (e & 1n) r = (r * b) % P;
    b = (b * b) % P;
  }
  return r;
}
/** Is this the encoding of a point of the curve? */
export function onCurve(bytes) {
  const le = Buffer.from(bytes).reverse();
  const y = BigInt('0x' + le.toString('hex')) & (2n ** 255n - 1n);
  const y2 = (y * y) % P;
  const u = (y2 - 1n + P) % P;
  const v = (D * y2 + 1n) % P;
  // u / v is a square exactly if u * v is.
  const s = pow((u * v) % P, (P - 1n) / 2n);
  return s === 1n || s === 0n;
}

const found = new Map();
/** [address bytes, bump] */
export function findProgramAddress(program, seeds) {
  if (seeds.length > 15) throw new Error('too many seeds');
  for (const s of seeds) if (s.length > 32) throw new Error('a seed is too long');
  const key = seeds.map((s) => Buffer.from(s).toString('hex')).join(',') + '@' + Buffer.from(program).toString('hex');
  let r = found.get(key);
  for (let bump = 255; r === undefined && bump >= 0; bump--) {
    const h = createHash('sha256');
    for (const s of seeds) h.update(s);
    const d = h.update(new Uint8Array([bump])).update(program).update('ProgramDerivedAddress').digest();
    if (!onCurve(d)) r = [new Uint8Array(d), bump];
  }
  if (r === undefined) throw new Error('no program-derived address');
  found.set(key, r);
  return [r[0].slice(), r[1]];
}
