// The JavaScript client of the working tree under argv[2], bundled with stand-ins for the packages not installed here.
import { mkdtempSync, rmSync } from 'node:fs';
import path from 'node:path';
import { pathToFileURL } from 'node:url';
import { bundle } from './bundle.mjs';

export async function client(repo) {
  const dir = mkdtempSync('/tmp/demo.');
  try {
    await bundle(path.join(repo, 'js-client/src/index.ts'), path.join(dir, 'client.mjs'));
    return await import(pathToFileURL(path.join(dir, 'client.mjs')).href);
  } finally {
    rmSync(dir, { recursive: true });
  }
}

/** A connection to a node that holds what `get(address)` returns: {owner, bytes} or undefined. */
export const connection = (get) => {
  const account = (a) => {
    const x = get(a);
    return x ? { data: [Buffer.from(x.bytes).toString('base64'), 'base64'], executable: false, lamports: 1_000_000n, owner: x.owner, rentEpoch: 0n, space: BigInt(x.bytes.length) } : null;
  };
  const context = { slot: 1n };
  return {
    getAccountInfo: (a) => ({ send: async () => ({ context, value: account(a) }) }),
    getMultipleAccounts: (all) => ({ send: async () => ({ context, value: all.map(account) }) }),
  };
};
