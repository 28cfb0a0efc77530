// Stands in for @solana/spl-token: what the operator scripts use of it.
import { PublicKey, SystemProgram, TransactionInstruction, isDerived } from './web3.js';

export const TOKEN_PROGRAM_ID = new PublicKey('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA');
export const ASSOCIATED_TOKEN_PROGRAM_ID = new PublicKey('ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL');
export class TokenError extends Error {
  constructor(m) {
    super(m);
    this.name = new.target.name;
  }
}
export class TokenAccountNotFoundError extends TokenError {}
export class TokenInvalidAccountError extends TokenError {}
export class TokenInvalidAccountOwnerError extends TokenError {}
export class TokenInvalidAccountSizeError extends TokenError {}
export class TokenOwnerOffCurveError extends TokenError {}
export const AuthorityType = { 0: 'MintTokens', 1: 'FreezeAccount', 2: 'AccountOwner', 3: 'CloseAccount', MintTokens: 0, FreezeAccount: 1, AccountOwner: 2, CloseAccount: 3 };

export function getAssociatedTokenAddressSync(mint, owner, allowOwnerOffCurve = false, programId = TOKEN_PROGRAM_ID, associatedTokenProgramId = ASSOCIATED_TOKEN_PROGRAM_ID) {
  if (!allowOwnerOffCurve && (isDerived(owner) || !PublicKey.isOnCurve(owner.toBuffer()))) throw new TokenOwnerOffCurveError();
  return PublicKey.findProgramAddressSync([owner.toBuffer(), programId.toBuffer(), mint.toBuffer()], associatedTokenProgramId)[0];
}
export const getAssociatedTokenAddress = async (...a) => getAssociatedTokenAddressSync(...a);

const key = (pubkey, isSigner, isWritable) => ({ pubkey, isSigner, isWritable });
const create = (data) => (payer, ata, owner, mint, programId = TOKEN_PROGRAM_ID, associatedTokenProgramId = ASSOCIATED_TOKEN_PROGRAM_ID) =>
  new TransactionInstruction({
    keys: [key(payer, true, true), key(ata, false, true), key(owner, false, false), key(mint, false, false), key(SystemProgram.programId, false, false), key(programId, false, false)],
    programId: associatedTokenProgramId,
    data: Buffer.from(data),
  });
export const createAssociatedTokenAccountInstruction = create([]);
export const createAssociatedTokenAccountIdempotentInstruction = create([1]);

function owned(keys, owner, multiSigners) {
  keys.push(key(owner, !multiSigners.length, false));
  for (const s of multiSigners) keys.push(key(s.publicKey ?? s, true, false));
  return keys;
}
function amountBytes(tag, amount, rest = []) {
  const d = Buffer.alloc(9);
  d[0] = tag;
  d.writeBigUInt64LE(BigInt(amount), 1);
  return Buffer.concat([d, Buffer.from(rest)]);
}
export const createTransferInstruction = (source, destination, owner, amount, multiSigners = [], programId = TOKEN_PROGRAM_ID) =>
  new TransactionInstruction({ keys: owned([key(source, false, true), key(destination, false, true)], owner, multiSigners), programId, data: amountBytes(3, amount) });
export const createTransferCheckedInstruction = (source, mint, destination, owner, amount, decimals, multiSigners = [], programId = TOKEN_PROGRAM_ID) =>
  new TransactionInstruction({ keys: owned([key(source, false, true), key(mint, false, false), key(destination, false, true)], owner, multiSigners), programId, data: amountBytes(12, amount, [decimals]) });
export const createSetAuthorityInstruction = (account, current, type, next, multiSigners = [], programId = TOKEN_PROGRAM_ID) =>
  new TransactionInstruction({ keys: owned([key(account, false, true)], current, multiSigners), programId, data: Buffer.concat([Buffer.from([6, type, next ? 1 : 0]), next ? next.toBuffer() : Buffer.alloc(0)]) });

const at = (d, o) => new PublicKey(d.subarray(o, o + 32));
const optional = (d, o) => (d.readUInt32LE(o) === 1 ? at(d, o + 4) : null);
async function fetched(connection, address, programId, size) {
  const i = await connection.getAccountInfo(address);
  if (!i) throw new TokenAccountNotFoundError();
  if (!i.owner.equals(programId)) throw new TokenInvalidAccountOwnerError();
  if (i.data.length !== size) throw new TokenInvalidAccountSizeError();
  return i.data;
}
export async function getAccount(connection, address, _commitment, programId = TOKEN_PROGRAM_ID) {
  const d = await fetched(connection, address, programId, 165);
  return {
    address, mint: at(d, 0), owner: at(d, 32), amount: d.readBigUInt64LE(64), delegate: optional(d, 72), delegatedAmount: d.readBigUInt64LE(121),
    isInitialized: d[108] !== 0, isFrozen: d[108] === 2, isNative: d.readUInt32LE(109) === 1, rentExemptReserve: null, closeAuthority: optional(d, 129), tlvData: Buffer.alloc(0),
  };
}
export async function getMint(connection, address, _commitment, programId = TOKEN_PROGRAM_ID) {
  const d = await fetched(connection, address, programId, 82);
  return { address, mintAuthority: optional(d, 0), supply: d.readBigUInt64LE(36), decimals: d[44], isInitialized: d[45] === 1, freezeAuthority: optional(d, 46), tlvData: Buffer.alloc(0) };
}
