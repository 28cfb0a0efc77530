// Stands in for @solana/kit, which is not installed here: the codecs, addresses and account helpers the client uses,
// with the behaviour that library documents.
import { findProgramAddress, fromBase58, isAddress, onCurve, toBase58 } from './base.js';

// ---- codecs --------------------------------------------------------------------------------------------------

function encoder(e) {
  return Object.freeze({
    ...e,
    encode(value) {
      const bytes = new Uint8Array(e.fixedSize ?? e.getSizeFromValue(value));
      e.write(value, bytes, 0);
      return bytes;
    },
  });
}
function decoder(d) {
  return Object.freeze({ ...d, decode: (bytes, offset = 0) => d.read(bytes, offset)[0] });
}
export const createEncoder = encoder;
export const createDecoder = decoder;
const size = (e, v) => e.fixedSize ?? e.getSizeFromValue(v);
function need(what, n, bytes, offset) {
  if (bytes.length - offset <= 0) throw new Error(`Codec [${what}] cannot decode empty byte arrays.`);
  if (bytes.length - offset < n) throw new Error(`Codec [${what}] expected ${n} bytes, got ${bytes.length - offset}.`);
}
function view(bytes) {
  return new DataView(bytes.buffer, bytes.byteOffset, bytes.byteLength);
}
function number(name, n, min, max, set, get, big) {
  return [
    () =>
      encoder({
        fixedSize: n,
        write(value, bytes, offset) {
          if (typeof value !== 'number' && typeof value !== 'bigint') throw new Error(`Codec [${name}] expected a number, got ${value}.`);
          if (value < min || value > max || Number.isNaN(value)) throw new Error(`Codec [${name}] expected number to be in the range [${min}, ${max}], got ${value}.`);
          view(bytes)[set](offset, big ? BigInt(value) : Number(value), true);
          return offset + n;
        },
      }),
    () =>
      decoder({
        fixedSize: n,
        read(bytes, offset) {
          need(name, n, bytes, offset);
          return [view(bytes)[get](offset, true), offset + n];
        },
      }),
  ];
}
export const [getU8Encoder, getU8Decoder] = number('u8', 1, 0, 0xff, 'setUint8', 'getUint8', false);
export const [getU16Encoder, getU16Decoder] = number('u16', 2, 0, 0xffff, 'setUint16', 'getUint16', false);
export const [getU32Encoder, getU32Decoder] = number('u32', 4, 0, 0xffffffff, 'setUint32', 'getUint32', false);
export const [getI8Encoder, getI8Decoder] = number('i8', 1, -0x80, 0x7f, 'setInt8', 'getInt8', false);
export const [getI16Encoder, getI16Decoder] = number('i16', 2, -0x8000, 0x7fff, 'setInt16', 'getInt16', false);
export const [getI32Encoder, getI32Decoder] = number('i32', 4, -0x80000000, 0x7fffffff, 'setInt32', 'getInt32', false);
export const [getU64Encoder, getU64Decoder] = number('u64', 8, 0n, 2n ** 64n - 1n, 'setBigUint64', 'getBigUint64', true);
export const [getI64Encoder, getI64Decoder] = number('i64', 8, -(2n ** 63n), 2n ** 63n - 1n, 'setBigInt64', 'getBigInt64', true);

export function combineCodec(e, d) {
  if ((e.fixedSize ?? -1) !== (d.fixedSize ?? -1)) throw new Error('Encoder and decoder must have the same size.');
  return Object.freeze({ ...d, ...e, decode: d.decode, encode: e.encode, read: d.read, write: e.write });
}
export function transformEncoder(e, unmap) {
  return encoder({
    ...(e.fixedSize !== undefined ? { fixedSize: e.fixedSize } : { getSizeFromValue: (v) => e.getSizeFromValue(unmap(v)) }),
    write: (v, bytes, offset) => e.write(unmap(v), bytes, offset),
  });
}
export function transformDecoder(d, map) {
  return decoder({
    ...(d.fixedSize !== undefined ? { fixedSize: d.fixedSize } : {}),
    read(bytes, offset) {
      const [v, next] = d.read(bytes, offset);
      return [map(v, bytes, offset), next];
    },
  });
}
export const transformCodec = (c, unmap, map) => combineCodec(transformEncoder(c, unmap), map ? transformDecoder(c, map) : c);
export const getBytesEncoder = () =>
  encoder({
    getSizeFromValue: (v) => v.length,
    write(v, bytes, offset) {
      bytes.set(v, offset);
      return offset + v.length;
    },
  });
export const getBytesDecoder = () => decoder({ read: (bytes, offset) => [bytes.slice(offset), bytes.length] });
export const fixEncoderSize = (e, n) =>
  encoder({
    fixedSize: n,
    write(v, bytes, offset) {
      const b = e.encode(v);
      bytes.set(b.length > n ? b.slice(0, n) : b, offset);
      return offset + n;
    },
  });
export const fixDecoderSize = (d, n) =>
  decoder({
    fixedSize: n,
    read(bytes, offset) {
      need('fixCodecSize', n, bytes, offset);
      let b = offset > 0 || bytes.length > n ? bytes.slice(offset, offset + n) : bytes;
      if (d.fixedSize !== undefined && d.fixedSize !== b.length) {
        const f = new Uint8Array(d.fixedSize);
        f.set(b.slice(0, d.fixedSize));
        b = f;
      }
      return [d.read(b, 0)[0], offset + n];
    },
  });
function sum(list) {
  return list.every((x) => x.fixedSize !== undefined) ? list.reduce((a, x) => a + x.fixedSize, 0) : undefined;
}
export function getStructEncoder(fields) {
  const fixed = sum(fields.map((f) => f[1]));
  return encoder({
    ...(fixed !== undefined ? { fixedSize: fixed } : { getSizeFromValue: (v) => fields.reduce((a, [k, e]) => a + size(e, v[k]), 0) }),
    write(v, bytes, offset) {
      for (const [k, e] of fields) offset = e.write(v[k], bytes, offset);
      return offset;
    },
  });
}
export function getStructDecoder(fields) {
  const fixed = sum(fields.map((f) => f[1]));
  return decoder({
    ...(fixed !== undefined ? { fixedSize: fixed } : {}),
    read(bytes, offset) {
      const out = {};
      for (const [k, d] of fields) {
        const [v, next] = d.read(bytes, offset);
        offset = next;
        out[k] = v;
      }
      return [out, offset];
    },
  });
}
export const getStructCodec = (fields) => combineCodec(getStructEncoder(fields), getStructDecoder(fields));
export function getTupleEncoder(items) {
  const s = getStructEncoder(items.map((e, i) => [i, e]));
  return s;
}
export const getTupleDecoder = (items) => transformDecoder(getStructDecoder(items.map((d, i) => [i, d])), (o) => items.map((_, i) => o[i]));
export const getBooleanEncoder = (c = {}) => transformEncoder(c.size ?? getU8Encoder(), (b) => (b ? 1 : 0));
export const getBooleanDecoder = (c = {}) => transformDecoder(c.size ?? getU8Decoder(), (n) => Number(n) === 1);
export const getUnitEncoder = () => encoder({ fixedSize: 0, write: (_v, _b, offset) => offset });
export const getUnitDecoder = () => decoder({ fixedSize: 0, read: (_b, offset) => [undefined, offset] });
function variants(E) {
  const keys = Object.keys(E).filter((k) => Number.isNaN(Number(k)));
  return keys.map((k) => [k, E[k]]);
}
export function getEnumEncoder(E, c = {}) {
  const v = variants(E);
  return transformEncoder(c.size ?? getU8Encoder(), (x) => {
    const i = v.findIndex(([, val]) => val === x);
    const j = i >= 0 ? i : v.findIndex(([k]) => k === x);
    if (j < 0) throw new Error(`Invalid enum variant ${x}.`);
    return c.useValuesAsDiscriminators ? v[j][1] : j;
  });
}
export function getEnumDecoder(E, c = {}) {
  const v = variants(E);
  return transformDecoder(c.size ?? getU8Decoder(), (n) => {
    const f = c.useValuesAsDiscriminators ? v.find(([, val]) => val === Number(n)) : v[Number(n)];
    if (!f) throw new Error(`Enum discriminator out of range: ${n}.`);
    return f[1];
  });
}
export function getDiscriminatedUnionEncoder(list, c = {}) {
  const d = c.discriminator ?? '__kind';
  const prefix = c.size ?? getU8Encoder();
  const find = (v) => {
    const i = list.findIndex(([k]) => k === v[d]);
    if (i < 0) throw new Error(`Invalid discriminated union variant ${String(v[d])}.`);
    return i;
  };
  return encoder({
    getSizeFromValue(v) {
      const i = find(v);
      return size(prefix, i) + size(list[i][1], v);
    },
    write(v, bytes, offset) {
      const i = find(v);
      return list[i][1].write(v, bytes, prefix.write(i, bytes, offset));
    },
  });
}
export function getDiscriminatedUnionDecoder(list, c = {}) {
  const d = c.discriminator ?? '__kind';
  const prefix = c.size ?? getU8Decoder();
  return decoder({
    read(bytes, offset) {
      need('discriminatedUnion', 1, bytes, offset);
      const [i, next] = prefix.read(bytes, offset);
      const f = list[Number(i)];
      if (!f) throw new Error(`Union discriminator out of range: ${i}.`);
      const [v, end] = f[1].read(bytes, next);
      return [{ [d]: f[0], ...v }, end];
    },
  });
}
export function getOptionDecoder(item, c = {}) {
  const prefix = c.prefix ?? getU8Decoder();
  const zeroes = c.noneValue === 'zeroes';
  return decoder({
    ...(zeroes ? { fixedSize: prefix.fixedSize + item.fixedSize } : {}),
    read(bytes, offset) {
      const [flag, next] = prefix.read(bytes, offset);
      if (Number(flag) === 0) {
        if (zeroes) need('option', item.fixedSize, bytes, next);
        return [{ __option: 'None' }, zeroes ? next + item.fixedSize : next];
      }
      const [v, end] = item.read(bytes, next);
      return [{ __option: 'Some', value: v }, end];
    },
  });
}
const strings = (name) => [
  () =>
    encoder({
      getSizeFromValue: (s) => Buffer.from(s, name).length,
      write(s, bytes, offset) {
        const b = Buffer.from(s, name);
        bytes.set(b, offset);
        return offset + b.length;
      },
    }),
  () => decoder({ read: (bytes, offset) => [Buffer.from(bytes.slice(offset)).toString(name), bytes.length] }),
];
export const [getBase64Encoder, getBase64Decoder] = strings('base64');
export const [getUtf8Encoder, getUtf8Decoder] = strings('utf8');
export const [getBase16Encoder, getBase16Decoder] = strings('hex');
export const getBase58Encoder = () =>
  encoder({
    getSizeFromValue: (s) => fromBase58(s).length,
    write(s, bytes, offset) {
      const b = fromBase58(s);
      bytes.set(b, offset);
      return offset + b.length;
    },
  });
export const getBase58Decoder = () => decoder({ read: (bytes, offset) => [toBase58(bytes.slice(offset)), bytes.length] });
export const containsBytes = (data, bytes, offset) => {
  const s = offset === 0 && data.length === bytes.length ? data : data.slice(offset, offset + bytes.length);
  return s.length === bytes.length && bytes.every((b, i) => b === s[i]);
};
export const fixCodecSize = (c, n) => combineCodec(fixEncoderSize(c, n), fixDecoderSize(c, n));
const codec = (e, d) => (...a) => combineCodec(e(...a), d(...a));
export const getU8Codec = codec(getU8Encoder, getU8Decoder);
export const getU16Codec = codec(getU16Encoder, getU16Decoder);
export const getU32Codec = codec(getU32Encoder, getU32Decoder);
export const getU64Codec = codec(getU64Encoder, getU64Decoder);
export const getI64Codec = codec(getI64Encoder, getI64Decoder);
export const getBase64Codec = codec(getBase64Encoder, getBase64Decoder);
export const getBase58Codec = codec(getBase58Encoder, getBase58Decoder);
export const getUtf8Codec = codec(getUtf8Encoder, getUtf8Decoder);
export const getBooleanCodec = codec(getBooleanEncoder, getBooleanDecoder);
export const getEnumCodec = codec(getEnumEncoder, getEnumDecoder);
export const getBytesCodec = codec(getBytesEncoder, getBytesDecoder);
export const isSome = (o) => !!o && o.__option === 'Some';
export const isNone = (o) => !!o && o.__option === 'None';
export const unwrapOption = (o, fallback) => (isSome(o) ? o.value : fallback ? fallback() : null);
export const some = (value) => ({ __option: 'Some', value });
export const none = () => ({ __option: 'None' });

// ---- addresses -----------------------------------------------------------------------------------------------

export { isAddress };
export function assertIsAddress(a) {
  if (!isAddress(a)) throw new Error(`not an address: ${a}`);
}
export function address(a) {
  assertIsAddress(a);
  return a;
}
export const getAddressEncoder = () => transformEncoder(fixEncoderSize(getBase58Encoder(), 32), address);
export const getAddressDecoder = () => fixDecoderSize(getBase58Decoder(), 32);
export const getAddressCodec = () => combineCodec(getAddressEncoder(), getAddressDecoder());
export async function getProgramDerivedAddress({ programAddress, seeds }) {
  const bytes = seeds.map((s) => (typeof s === 'string' ? new TextEncoder().encode(s) : s));
  const [a, bump] = findProgramAddress(fromBase58(address(programAddress)), bytes);
  return Object.freeze([toBase58(a), bump]);
}
export const isProgramDerivedAddress = (v) =>
  Array.isArray(v) && v.length === 2 && typeof v[1] === 'number' && v[1] >= 0 && v[1] <= 255 && isAddress(v[0]);
export const isOffCurveAddress = (a) => !onCurve(fromBase58(a));

// ---- instructions --------------------------------------------------------------------------------------------

export const AccountRole = Object.freeze({ WRITABLE_SIGNER: 3, READONLY_SIGNER: 2, WRITABLE: 1, READONLY: 0 });
export const isSignerRole = (r) => r >= 2;
export const isWritableRole = (r) => (r & 1) !== 0;
export const upgradeRoleToSigner = (r) => r | 2;
export const upgradeRoleToWritable = (r) => r | 1;
export const downgradeRoleToNonSigner = (r) => r & ~2;
export const downgradeRoleToReadonly = (r) => r & ~1;
export const isTransactionSigner = (v) =>
  typeof v?.signTransactions === 'function' || typeof v?.modifyAndSignTransactions === 'function' || typeof v?.signAndSendTransactions === 'function';
export const createNoopSigner = (a) => Object.freeze({ address: a, signMessages: async () => [], signTransactions: async () => [] });

export const SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM = 4615026;
export class SolanaError extends Error {
  constructor(code, context) {
    super(`Solana error #${code}`);
    this.name = 'SolanaError';
    this.context = { __code: code, ...context };
  }
}
export const isSolanaError = (e, code) => e instanceof Error && e.name === 'SolanaError' && (code === undefined || e.context.__code === code);
export function isProgramError(error, message, programAddress, code) {
  if (!isSolanaError(error, SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM)) return false;
  const at = message.instructions[error.context.index]?.programAddress;
  return at === programAddress && (code === undefined || error.context.code === code);
}

// ---- accounts ------------------------------------------------------------------------------------------------

function account(a, v) {
  if (!v) return Object.freeze({ address: a, exists: false });
  return Object.freeze({
    executable: v.executable,
    lamports: v.lamports,
    programAddress: v.owner,
    space: v.space,
    address: a,
    data: getBase64Encoder().encode(v.data[0]),
    exists: true,
  });
}
export const parseBase64RpcAccount = account;
export async function fetchEncodedAccount(rpc, a, config = {}) {
  const { abortSignal, ...c } = config;
  const r = await rpc.getAccountInfo(a, { ...c, encoding: 'base64' }).send({ abortSignal });
  return account(a, r.value);
}
export async function fetchEncodedAccounts(rpc, list, config = {}) {
  const { abortSignal, ...c } = config;
  const r = await rpc.getMultipleAccounts(list, { ...c, encoding: 'base64' }).send({ abortSignal });
  return r.value.map((v, i) => account(list[i], v));
}
export function decodeAccount(a, d) {
  if ('exists' in a && !a.exists) return a;
  let data;
  try {
    data = d.decode(a.data);
  } catch {
    throw new Error(`Failed to decode account data at address: ${a.address}`);
  }
  return Object.freeze({ ...a, data });
}
export function assertAccountExists(a) {
  if (!a.exists) throw new Error(`Account not found at address: ${a.address}`);
}
export function assertAccountsExist(list) {
  const missing = list.filter((a) => !a.exists);
  if (missing.length) throw new Error(`Accounts not found at addresses: ${missing.map((a) => a.address)}`);
}
export function assertAccountDecoded(a) {
  if (!('exists' in a) || (a.exists && a.data instanceof Uint8Array)) throw new Error('Expected decoded account');
}
