// quotes.mjs <repo> <file>: every pool and amount the model checker reached, as (kind, amount, free, supply, paid,
// escrow) records of 41 bytes, against the JavaScript conversion helpers. Prints the count, or the first disagreement.
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath, pathToFileURL } from 'node:url';
import { bundle } from './bundle.mjs';
const [repo, file] = process.argv.slice(2);
const code = path.join(path.dirname(fileURLToPath(import.meta.url)), `../target/quotes.${process.pid}.mjs`);
await bundle(path.join(repo, 'js-client/src/index.ts'), code);
const { convertOrcaToXorca, convertXorcaToOrca } = await import(pathToFileURL(code).href).finally(() => fs.rmSync(code, { force: true }));
const MAX = (1n << 64n) - 1n;
const b = fs.readFileSync(file);
let n = 0;
for (let o = 0; o + 41 <= b.length; o += 41) {
  const kind = b[o];
  const [x, free, supply, paid, escrow] = [1, 9, 17, 25, 33].map((d) => b.readBigUInt64LE(o + d));
  const stake = (kind & 1) !== 0;
  const accepted = (kind & 2) !== 0;
  const f = stake ? convertOrcaToXorca : convertXorcaToOrca;
  let q;
  try {
    q = f(x, free, supply);
  } catch (e) {
    q = e instanceof Error ? 'an error' : e;
  }
  // What a refused operation may be quoted as: nothing, or the exact amount if that is more than can exist.
  const none_left = supply === 0n || free === 0n;
  const exact = stake ? (none_left ? x : (x * (supply + 100n)) / (free + 100n)) : none_left ? 0n : (x * (free + 100n)) / (supply + 100n);
  const none = q === 'an error' || q === 0n
    || (q === exact && (q > MAX || (stake ? supply : escrow) + q > MAX || supply + 100n > MAX || free + 100n > MAX));
  if (accepted ? q !== paid : !none) {
    console.log(`WRONG ${stake ? 'stake' : 'unstake'} ${x} with ${free} free ORCA and ${supply} xORCA: JavaScript quotes ${q}, the program ${accepted ? 'gives ' + paid : 'refuses'}`);
    process.exit(1);
  }
  n += 1;
}
console.log(`OK ${n}`);
