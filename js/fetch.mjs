// C19: the fetch helpers of the JavaScript client, run against every reachable ledger, with every order in which the
// node can answer their requests, every way the pool can change in between, and every missing or failing response.
// usage: node fetch.mjs quick|thorough <ledgers.json> <repository>
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';
import { mkdirSync, rmSync, writeFileSync } from 'node:fs';
import path from 'node:path';
import { fileURLToPath, pathToFileURL } from 'node:url';
import { Graphs } from './graph.mjs';
import { bundle } from './bundle.mjs';
import { fromBase58, toBase58 } from './stubs/base.js';

const root = process.env.VERIF ?? path.join(path.dirname(fileURLToPath(import.meta.url)), '..');
const hex = (a) => Buffer.from(fromBase58(a)).toString('hex');
const STRANGER = toBase58(new Uint8Array(32).fill(9));
const show = (x) => JSON.stringify(x, (_k, v) => (typeof v === 'bigint' ? v.toString() : v));

// ---- what is asked, and what is true ---------------------------------------------------------------------------

/** Throws what the helper throws. */
async function make(client, world, rpc, c) {
  const claim = (p) => ({ bump: p.bump, withdrawIndex: p.withdrawIndex, unstaker: hex(p.unstaker), withdrawableOrcaAmount: p.withdrawableOrcaAmount, withdrawableTimestamp: p.withdrawableTimestamp });
  const state = (s) => ({ bump: s.bump, vaultBump: s.vaultBump, escrowedOrcaAmount: s.escrowedOrcaAmount, coolDownPeriodS: s.coolDownPeriodS, updateAuthority: hex(s.updateAuthority) });
  const entry = (read) => (m) => (m.exists === false ? null : { address: m.address, lamports: String(m.lamports), owner: m.programAddress, data: read(m.data) });
  switch (c.kind) {
    case 'Settings':
      return state(await client.fetchStateAccountData(rpc));
    case 'Cooldown':
      return await client.fetchStateAccountCoolDownPeriodS(rpc);
    case 'Vault': {
      const v = await client.fetchVaultState(rpc);
      return { address: v.address, owner: hex(v.owner), mint: hex(v.mint), amount: v.amount };
    }
    case 'Supply':
      return await client.fetchXorcaMintSupply(rpc);
    case 'Rate': {
      const { numerator, denominator } = await client.fetchStakingExchangeRate(rpc);
      return { numerator, denominator };
    }
    case 'Claims': {
      const who = world.users[c.user] ?? STRANGER;
      const got = c.limit === undefined ? await client.fetchPendingWithdrawsForStaker(rpc, who) : await client.fetchPendingWithdrawsForStaker(rpc, who, c.limit);
      return got.map(claim).sort((a, b) => a.withdrawIndex - b.withdrawIndex);
    }
    case 'State': {
      const a = world.state;
      if (c.strict) return (c.one ? [await client.fetchState(rpc, a)] : await client.fetchAllState(rpc, [a])).map(entry(state));
      return (c.one ? [await client.fetchMaybeState(rpc, a)] : await client.fetchAllMaybeState(rpc, [a])).map(entry(state));
    }
    case 'Accounts': {
      const a = c.indices.map((i) => world.claims[0][i]);
      if (c.strict) return (c.one ? [await client.fetchPendingWithdraw(rpc, a[0])] : await client.fetchAllPendingWithdraw(rpc, a)).map(entry(claim));
      return (c.one ? [await client.fetchMaybePendingWithdraw(rpc, a[0])] : await client.fetchAllMaybePendingWithdraw(rpc, a)).map(entry(claim));
    }
  }
}

/** An honest answer about one ledger; null: there is nothing to answer with. */
function truth(world, l, c) {
  const entry = (a, data) => ({ address: a, lamports: world.get(l, a).lamports, owner: world.get(l, a).owner, data });
  switch (c.kind) {
    case 'Settings':
      return world.settings(l);
    case 'Cooldown':
      return world.settings(l)?.coolDownPeriodS ?? null;
    case 'Vault': {
      const v = world.token(l, world.vault);
      return v && { address: world.vault, owner: v.owner, mint: v.mint, amount: v.amount };
    }
    case 'Supply':
      return world.supply(l);
    case 'Rate':
      return world.rate(l);
    case 'Claims':
      return world.users[c.user] ? world.claimsOf(l, c.user, c.limit ?? 15) : [];
    case 'State': {
      const s = world.settings(l);
      if (!s && (c.strict || l[world.state] !== undefined)) return null;
      return [s && entry(world.state, s)];
    }
    case 'Accounts': {
      const all = [];
      for (const i of c.indices) {
        const a = world.claims[0][i];
        const p = world.claim(l, a);
        // Not an account of the program: nothing to return, and the lenient fetchers may refuse to say.
        if (!p && (c.strict || l[a] !== undefined)) return null;
        all.push(p && entry(a, p));
      }
      return all;
    }
  }
}

/** What is wrong with the outcome, given the ledgers the pool went through while the helper ran; or undefined. */
function judge(world, g, run, c, fault) {
  const truths = run.path.map((i) => truth(world, g.ledgers[i], c));
  if (run.stuck) return 'it never returned';
  if (run.error !== undefined) {
    if (fault || truths.some((t) => t === null)) return;
    return `it failed (${run.error}) although the node answered and the ledger had ${show(truths[0])}`;
  }
  const v = show(run.value);
  if (truths.some((t) => t !== null && show(t) === v)) return;
  if (c.kind === 'Claims' && c.limit > 100 && world.users[c.user]) {
    const each = run.path.map((i) => world.claimsOf(g.ledgers[i], c.user, c.limit).map(show));
    const mine = run.value.map(show);
    const real = mine.every((x) => each.some((l) => l.includes(x)));
    const once = new Set(run.value.map((x) => x.withdrawIndex)).size === mine.length;
    const all = each[0].filter((x) => each.every((l) => l.includes(x))).every((x) => mine.includes(x));
    if (real && once && all) return;
  }
  return `it returned ${v}, but the ledger had ${truths.map(show).join(', then ')}`;
}

// ---- the node and the scheduler --------------------------------------------------------------------------------

class Unmodelled extends Error {}
const turn = () => new Promise((r) => setImmediate(r));

class Machine {
  constructor(world, client) {
    this.world = world;
    this.client = client;
    this.n = { calls: 0, requests: 0, steps: 0, executions: 0, faults: 0, sequences: 0, pairs: 0, most: 0, concurrent: 0, by: {} };
  }

  answer(g, at, request, fault) {
    const world = this.world;
    const { method, params } = request;
    const l = g.ledgers[at];
    const config = params[1] ?? {};
    const account = (address, j, fallback) => {
      const a = world.get(l, address);
      if (!a || (fault?.kind === 'gone' && fault.j === j)) return null;
      const encoding = config.encoding ?? fallback;
      let bytes = world.bytes(a);
      let text;
      if (config.dataSlice) {
        bytes = bytes.subarray(Number(config.dataSlice.offset), Number(config.dataSlice.offset) + Number(config.dataSlice.length));
        text = bytes.toString('base64');
      } else text = world.text(a);
      let data;
      if (encoding === 'base64') data = [text, 'base64'];
      else if (encoding === 'base58' || encoding === 'binary') {
        if (bytes.length > 128) throw new Error('Encoded binary (base 58) data should be less than 128 bytes, please use Base64 encoding.');
        data = encoding === 'base58' ? [toBase58(bytes), 'base58'] : toBase58(bytes);
      } else throw new Unmodelled(`encoding ${encoding}`);
      return { data, executable: false, lamports: BigInt(a.lamports), owner: a.owner, rentEpoch: 18446744073709551615n, space: BigInt(a.len) };
    };
    const context = { slot: 9n };
    const ok = (value) => ({ context, value: fault?.kind === 'null' ? null : value });
    switch (method) {
      case 'getAccountInfo':
        return ok(account(params[0], 0, 'binary'));
      case 'getMultipleAccounts':
        if (params[0].length > 100) throw new Error('Too many inputs provided; max 100');
        return ok(params[0].map((a, j) => account(a, j, 'base64')));
      case 'getTokenAccountBalance': {
        const t = world.token(l, params[0]);
        if (!t || fault?.kind === 'gone') throw new Error('Invalid param: could not find account');
        return ok({ amount: t.amount.toString(), decimals: 6, uiAmountString: (Number(t.amount) / 1e6).toString() });
      }
      case 'getTokenSupply': {
        const s = params[0] === world.xorcaMint ? world.supply(l) : null;
        if (s === null || fault?.kind === 'gone') throw new Error('Invalid param: could not find account');
        return ok({ amount: s.toString(), decimals: 6, uiAmountString: (Number(s) / 1e6).toString() });
      }
      default:
        throw new Unmodelled(`method ${method}`);
    }
  }

  /** A connection to the node, and the requests that wait for their answers. */
  line() {
    const line = { pending: [] };
    line.rpc = new Proxy(
      {},
      {
        get: (_t, method) =>
          method === 'then'
            ? undefined
            : (...params) => ({ send: () => new Promise((resolve, reject) => line.pending.push({ method: String(method), params, resolve, reject })) }),
      }
    );
    return line;
  }

  /** One execution of a call, or of several at once. `choices` holds [taken, alternatives] and is extended on the way. */
  async once(gi, at, c, budget, choices, fault, line = this.line()) {
    const g = this.world.graphs[gi];
    const run = { path: [at], labels: [], sizes: [], asked: [] };
    let answered = 0;
    const calls = Array.isArray(c) ? c : [c];
    const ends = calls.map(() => ({}));
    let left = calls.length;
    calls.forEach((call, i) =>
      Promise.resolve()
        .then(() => make(this.client, this.world, line.rpc, call))
        .then(
          (v) => ((ends[i].value = v), left--),
          (e) => ((ends[i].error = String(e?.message ?? e)), left--)
        )
    );
    let next = 0;
    const choose = (n) => {
      if (n === 1) return 0;
      if (next === choices.length) choices.push([0, n]);
      return choices[next++][0];
    };
    for (;;) {
      await turn();
      if (left === 0 && line.pending.length === 0) break;
      if (line.pending.length === 0) {
        // Nothing is outstanding, yet the helper has not returned.
        for (let k = 0; k < 50 && left > 0 && line.pending.length === 0; k++) await new Promise((r) => setTimeout(r, k));
        if (left === 0 || line.pending.length > 0) continue;
        run.stuck = true;
        break;
      }
      if (line.pending.length > 1) this.n.concurrent++;
      let k;
      for (;;) {
        const out = budget > 0 && answered > 0 ? g.out[at] : [];
        k = choose(line.pending.length + out.length);
        if (k < line.pending.length) break;
        const [label, to] = out[k - line.pending.length];
        budget--;
        at = to;
        run.path.push(at);
        run.labels.push(`before answer ${answered + 1}: ${g.labels[label]}`);
        this.n.steps++;
      }
      const r = line.pending[k];
      line.pending = line.pending.filter((x) => x !== r);
      const list = Array.isArray(r.params[0]) ? r.params[0] : [r.params[0]];
      run.sizes.push(list.length);
      run.asked.push(list);
      const f = fault && fault.request === answered ? fault : undefined;
      answered++;
      this.n.requests++;
      if (f?.kind === 'fail') r.reject(new Error('the node is unreachable'));
      else if (f?.kind === 'nothing') r.resolve(undefined);
      else {
        let v;
        // Who asks for what is not confirmed yet may be shown what never will be.
        const forks = r.params[1]?.commitment === 'processed' ? g.out[at] : [];
        const fork = choose(1 + forks.length);
        if (fork) run.labels.push(`answer ${answered}, on a fork: ${g.labels[forks[fork - 1][0]]}`);
        try {
          v = this.answer(g, fork ? forks[fork - 1][1] : at, r, f);
        } catch (e) {
          if (e instanceof Unmodelled) throw e;
          r.reject(e);
          continue;
        }
        r.resolve(v);
      }
      if (answered > 400) {
        run.stuck = true;
        break;
      }
    }
    choices.length = next;
    this.n.executions++;
    if (fault) this.n.faults++;
    this.n.most = Math.max(this.n.most, answered);
    for (const [i, call] of calls.entries()) {
      this.n.by[call.kind] = (this.n.by[call.kind] ?? 0) + 1;
      const wrong = judge(this.world, g, Object.assign(run, { value: undefined, error: undefined }, ends[i]), call, !!fault);
      if (!wrong) continue;
      return {
        run,
        trace: [`ledger ${run.path[0]} of "${g.title}"`, ...calls.map((x) => `call ${show(x)}`), ...run.labels, ...(fault ? [`the response to request ${fault.request + 1} is spoiled: ${show(fault)}`] : []), `${show(call)}: ${wrong}`],
      };
    }
    return { run };
  }

  async schedules(gi, at, c, budget) {
    this.n.calls++;
    const choices = [];
    for (;;) {
      const { trace } = await this.once(gi, at, c, budget, choices);
      if (trace) return trace;
      let last;
      while ((last = choices.pop())) {
        if (last[0] + 1 < last[1]) {
          choices.push([last[0] + 1, last[1]]);
          break;
        }
      }
      if (!last) return;
    }
  }

  /** One call after another over the same connection, the pool having moved in between. */
  async sequences(gi, at, c) {
    const g = this.world.graphs[gi];
    for (const [label, to] of [[undefined, at], ...g.out[at]])
      for (const after of HABITS) {
        const line = this.line();
        const first = await this.once(gi, at, c, 0, [], undefined, line);
        const { trace } = first.trace ? first : await this.once(gi, to, after, 0, [], undefined, line);
        this.n.sequences++;
        if (trace) return [`over the same connection: ${show(c)} at ledger ${at}`, `then ${label === undefined ? 'nothing' : g.labels[label]}, then:`, ...trace];
      }
  }
  /** Two calls at once over the same connection. */
  async pairs(gi, at, c, budget) {
    for (const other of HABITS) {
      const choices = [];
      for (;;) {
        const { trace } = await this.once(gi, at, [c, other], budget, choices);
        this.n.pairs++;
        if (trace) return trace;
        let last;
        while ((last = choices.pop()))
          if (last[0] + 1 < last[1]) {
            choices.push([last[0] + 1, last[1]]);
            break;
          }
        if (!last) break;
      }
    }
  }

  async faults(gi, at, c) {
    const { run } = await this.once(gi, at, c, 0, []);
    const l = this.world.graphs[gi].ledgers[at];
    const optional = c.kind === 'Claims' || ((c.kind === 'Accounts' || c.kind === 'State') && !c.strict);
    for (const [request, n] of run.sizes.entries()) {
      // A single absent account is an honest answer to those who may find nothing.
      const all = [{ kind: 'fail' }, { kind: 'nothing' }];
      if (!(c.one && optional)) all.push({ kind: 'null' });
      if (!optional) for (let j = 0; j < n; j++) if (l[run.asked[request][j]] !== undefined) all.push({ kind: 'gone', j });
      for (const f of all) {
        const { trace } = await this.once(gi, at, c, 0, [], { request, ...f });
        if (trace) return trace;
      }
    }
  }
}

/** What is called again, or along with something else. */
const HABITS = [
  ...['Settings', 'Cooldown', 'Vault', 'Supply', 'Rate'].map((kind) => ({ kind })),
  { kind: 'State', strict: true, one: true },
  { kind: 'Claims', user: 0, limit: undefined },
  { kind: 'Claims', user: 0, limit: 1 },
  { kind: 'Claims', user: 1, limit: undefined },
  { kind: 'Accounts', strict: false, one: false, indices: [0, 2] },
];
function worklist(world, deep) {
  const work = [];
  for (let at = 0; at < Math.min(world.graphs[0].ledgers.length, deep ? 600 : 100); at++)
    for (const c of HABITS) work.push({ g: 0, at, c, mode: 'sequences' }, { g: 0, at, c, mode: 'pairs', budget: at < (deep ? 60 : 8) ? 1 : 0 });
  const limits = [0, 1, 2, 14, 15, 16, 98, 99, 100, 101, 102, 199, 200, 201, 254, 255];
  for (const [g, graph] of world.graphs.entries()) {
    for (let at = 0; at < graph.ledgers.length; at++) {
      const faults = g === 0 ? at < 60 || (deep && at % 16 === 0) : at < 5;
      const budget = g === 0 ? (deep && at < 400 ? 3 : 2) : 1;
      const add = (c) => work.push({ g, at, c, faults, budget });
      if (g === 0) {
        for (const kind of ['Settings', 'Cooldown', 'Vault', 'Supply', 'Rate']) add({ kind });
        for (const strict of [true, false]) for (const one of [true, false]) add({ kind: 'State', strict, one });
        for (let user = 0; user < 3; user++) for (const limit of [undefined, 0, 1, 3]) add({ kind: 'Claims', user, limit });
        if (at % 8 === 0) add({ kind: 'Claims', user: 9 });
        for (const strict of [true, false]) {
          add({ kind: 'Accounts', strict, one: true, indices: [0] });
          for (const indices of [[0], [0, 2], [2, 0], [2, 1, 0], [0, 0]]) add({ kind: 'Accounts', strict, one: false, indices });
        }
      } else {
        for (const limit of limits) if (at < 5 || (limit > 97 && ![102, 199, 254].includes(limit))) add({ kind: 'Claims', user: 0, limit });
        add({ kind: 'Claims', user: 0 });
        add({ kind: 'Accounts', strict: false, one: false, indices: world.edges });
        add({ kind: 'Accounts', strict: true, one: false, indices: world.edges });
      }
    }
  }
  return work;
}

// ---- running ---------------------------------------------------------------------------------------------------

const WORKERS = 8;
if (!isMainThread) {
  const { file, code, deep, id, shared, deadline } = workerData;
  console.error = () => {};
  console.warn = () => {};
  const world = new Graphs(file);
  const client = await import(pathToFileURL(code).href);
  const work = worklist(world, deep);
  const m = new Machine(world, client);
  const cursor = new Int32Array(shared);
  const report = { n: m.n, cut: false };
  try {
    for (;;) {
      const from = Atomics.add(cursor, 0, 64);
      if (from >= work.length || Atomics.load(cursor, 1)) break;
      for (let i = from; i < Math.min(from + 64, work.length); i++) {
        if (Date.now() > deadline) {
          report.cut = true;
          Atomics.store(cursor, 1, 1);
          break;
        }
        const { g, at, c, faults, budget } = work[i];
        const { mode } = work[i];
        const trace = mode ? await m[mode](g, at, c, budget) : (await m.schedules(g, at, c, budget)) ?? (faults ? await m.faults(g, at, c) : undefined);
        if (trace) {
          report.trace = trace;
          report.at = i;
          Atomics.store(cursor, 1, 1);
          break;
        }
      }
    }
    // Limits that are no number of claims are refused, not searched with.
    if (id === 0 && !report.trace) {
      for (const limit of [-1, -0.5, 0.5, 14.5, 255.5, 256, 257, 1000, 2 ** 32, NaN, Infinity, -Infinity]) {
        const { run } = await m.once(0, 0, { kind: 'Claims', user: 0, limit }, 0, []);
        if (run.error === undefined) report.trace = [`claims searched with the limit ${limit}`, `it answered ${show(run.value)}`];
      }
    }
  } catch (e) {
    report.failed = `${e instanceof Unmodelled ? 'the client asks the node something that is not modelled: ' : ''}${e?.stack ?? e}`;
    Atomics.store(cursor, 1, 1);
  }
  parentPort.postMessage(report);
} else {
  const [tier, file, repo] = process.argv.slice(2);
  const deep = tier === 'thorough';
  const t0 = Date.now();
  const dir = path.join(root, 'target');
  mkdirSync(dir, { recursive: true });
  const code = path.join(dir, `client.${process.pid}.mjs`);
  await bundle(path.join(repo, 'js-client/src/index.ts'), code);
  const shared = new SharedArrayBuffer(8);
  const reports = await Promise.all(
    Array.from(
      { length: WORKERS },
      (_, id) =>
        new Promise((resolve, reject) => {
          const w = new Worker(fileURLToPath(import.meta.url), { workerData: { file, code, deep, id, shared, deadline: t0 + (deep ? 720 : 150) * 1000 }, resourceLimits: { maxOldGenerationSizeMb: 3000 } });
          w.on('message', resolve);
          w.on('error', reject);
        })
    )
  ).finally(() => rmSync(code, { force: true }));
  const failed = reports.find((r) => r.failed);
  if (failed) {
    console.log(failed.failed);
    process.exit(2);
  }
  const world = new Graphs(file);
  const work = worklist(world, deep);
  const n = { by: {} };
  for (const r of reports)
    for (const [k, v] of Object.entries(r.n)) {
      if (k === 'by') for (const [x, y] of Object.entries(v)) n.by[x] = (n.by[x] ?? 0) + y;
      else n[k] = k === 'most' ? Math.max(n[k] ?? 0, v) : (n[k] ?? 0) + v;
    }
  const cut = reports.some((r) => r.cut);
  const found = reports.filter((r) => r.trace).sort((a, b) => (a.at ?? 0) - (b.at ?? 0))[0];
  const every = Math.ceil(work.length / 12);
  const evidence = {
    property: 'C19',
    tier,
    seed: Number(process.env.VERIF_SEED ?? 1),
    level: 'model_checking',
    coverage: {
      states: n.calls,
      transitions: n.requests + n.steps,
      traces_validated_against_impl: n.executions,
      schedules: n.executions - n.faults,
      spoiled_responses: n.faults,
      calls_after_another_over_one_connection: n.sequences,
      calls_at_once_over_one_connection: n.pairs,
      requests_answered: n.requests,
      pool_steps_between_answers: n.steps,
      most_requests_in_one_call: n.most,
      moments_with_several_requests_outstanding: n.concurrent,
      executions_by_helper: n.by,
      ledger_graphs: world.graphs.map((g) => ({ title: g.title, depth: g.depth, ledgers: g.ledgers.length, steps: g.steps.length })),
      exhaustive: !cut && !found,
      rule: "a state is one (ledger, helper, arguments); from it every order of answering the helper's requests, with up to two (some: three) pool operations in between, is executed, and from some every missing or failing response",
      samples: work.filter((_, i) => i % every === 0).map((w) => ({ graph: world.graphs[w.g].title, ledger: w.at, call: show(w.c), answer: show(truth(world, world.graphs[w.g].ledgers[w.at], w.c)).slice(0, 300) })),
    },
    assumptions: [
      'the node answers each request from one ledger state, and refuses more than 100 addresses, as Agave does',
      'the ledgers are those the model checker reached with the real program within the stated depth',
      '@solana/kit, @solana/addresses and @solana-program/token are not installed and are replaced by the re-implementations in js/stubs',
    ],
    wall_s: (Date.now() - t0) / 1000,
    violations: found ? 1 : 0,
  };
  mkdirSync(path.join(root, 'evidence'), { recursive: true });
  writeFileSync(path.join(root, 'evidence/C19.json'), JSON.stringify(evidence, null, 1));
  if (!found) console.log(`C19: held on ${n.calls} calls, ${n.executions} executions (${n.faults} with a spoiled response) in ${evidence.wall_s.toFixed(1)}s${cut ? ' (cut short)' : ''}`);
  else {
    const out = path.join(root, 'out/C19.replay.json');
    mkdirSync(path.dirname(out), { recursive: true });
    writeFileSync(out, JSON.stringify({ property: 'C19', tier, trace: found.trace }, null, 1));
    for (const t of found.trace) console.log('  ' + t.slice(0, 1200));
    console.log(`VIOLATION property=C19 replay=${out}`);
    process.exitCode = 1;
  }
}
