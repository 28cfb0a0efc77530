// The explored ledgers, and what is true of them: read from the bytes the program wrote, not with the client.
import { readFileSync } from 'node:fs';

export class Graphs {
  constructor(file) {
    const { token, ...rest } = JSON.parse(readFileSync(file, 'utf8'));
    Object.assign(this, rest, { tokenProgram: token });
    for (const g of this.graphs) {
      g.out = g.ledgers.map(() => []);
      for (const [from, label, to] of g.steps) g.out[from].push([label, to]);
    }
  }
  bytes(a) {
    if (!a.bytes) {
      a.bytes = Buffer.alloc(a.len);
      a.bytes.write(a.data, 'hex');
    }
    return a.bytes;
  }
  text(a) {
    a.text ??= this.bytes(a).toString('base64');
    return a.text;
  }
  get(l, address) {
    const i = l[address];
    return i === undefined ? undefined : this.accounts[i];
  }
  key(d, at) {
    return d.subarray(at, at + 32).toString('hex');
  }
  settings(l) {
    const a = this.get(l, this.state);
    if (!a || a.owner !== this.program || a.len !== 2048 || !a.data.startsWith('01')) return null;
    const d = this.bytes(a);
    return { bump: d[6], vaultBump: d[7], escrowedOrcaAmount: d.readBigUInt64LE(8), coolDownPeriodS: d.readBigInt64LE(16), updateAuthority: this.key(d, 24) };
  }
  token(l, address) {
    const a = this.get(l, address);
    if (!a || a.owner !== this.tokenProgram || a.len !== 165) return null;
    const d = this.bytes(a);
    return d[108] === 1 ? { mint: this.key(d, 0), owner: this.key(d, 32), amount: d.readBigUInt64LE(64) } : null;
  }
  supply(l) {
    const a = this.get(l, this.xorcaMint);
    if (!a || a.owner !== this.tokenProgram || a.len !== 82) return null;
    const d = this.bytes(a);
    return d[45] === 1 ? d.readBigUInt64LE(36) : null;
  }
  rate(l) {
    const [s, v, x] = [this.settings(l), this.token(l, this.vault), this.supply(l)];
    return s && v && x !== null && v.amount >= s.escrowedOrcaAmount ? { numerator: v.amount - s.escrowedOrcaAmount, denominator: x } : null;
  }
  claim(l, address) {
    const a = this.get(l, address);
    if (!a || a.owner !== this.program || a.len !== 1024 || !a.data.startsWith('02')) return null;
    const d = this.bytes(a);
    return { bump: d[6], withdrawIndex: d[7], unstaker: this.key(d, 8), withdrawableOrcaAmount: d.readBigUInt64LE(40), withdrawableTimestamp: d.readBigInt64LE(48) };
  }
  claimsOf(l, user, below) {
    const all = [];
    for (let i = 0; i < below && i < 256; i++) {
      const c = this.claim(l, this.claims[user][i]);
      if (c) all.push(c);
    }
    return all;
  }
}
