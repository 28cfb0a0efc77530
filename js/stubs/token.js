// Stands in for @solana-program/token: the decoders of its two account kinds.
import { getAddressDecoder, getAddressEncoder, getBooleanDecoder, getEnumDecoder, getOptionDecoder, getProgramDerivedAddress, getStructDecoder, getU32Decoder, getU64Decoder, getU8Decoder } from './kit.js';
export const TOKEN_PROGRAM_ADDRESS = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
export const ASSOCIATED_TOKEN_PROGRAM_ADDRESS = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
export const AccountState = { 0: 'Uninitialized', 1: 'Initialized', 2: 'Frozen', Uninitialized: 0, Initialized: 1, Frozen: 2 };
const option = (d) => getOptionDecoder(d, { noneValue: 'zeroes', prefix: getU32Decoder() });
export const getTokenDecoder = () =>
  getStructDecoder([
    ['mint', getAddressDecoder()],
    ['owner', getAddressDecoder()],
    ['amount', getU64Decoder()],
    ['delegate', option(getAddressDecoder())],
    ['state', getEnumDecoder(AccountState)],
    ['isNative', option(getU64Decoder())],
    ['delegatedAmount', getU64Decoder()],
    ['closeAuthority', option(getAddressDecoder())],
  ]);
export const getMintDecoder = () =>
  getStructDecoder([
    ['mintAuthority', option(getAddressDecoder())],
    ['supply', getU64Decoder()],
    ['decimals', getU8Decoder()],
    ['isInitialized', getBooleanDecoder()],
    ['freezeAuthority', option(getAddressDecoder())],
  ]);
export async function findAssociatedTokenPda({ owner, tokenProgram, mint }) {
  const e = getAddressEncoder();
  return getProgramDerivedAddress({ programAddress: ASSOCIATED_TOKEN_PROGRAM_ADDRESS, seeds: [e.encode(owner), e.encode(tokenProgram), e.encode(mint)] });
}
