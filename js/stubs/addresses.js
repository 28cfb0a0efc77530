// Stands in for @solana/addresses.
export { address, assertIsAddress, getAddressCodec, getAddressDecoder, getAddressEncoder, getProgramDerivedAddress, isAddress, isProgramDerivedAddress } from './kit.js';
