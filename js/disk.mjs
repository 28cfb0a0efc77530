// A file system that records what is done to it and can fail, or end the process, at every step; and the loader of
// scripts that are bundled and run in this process with everything they reach replaced.
import { createRequire } from 'node:module';
import { mkdirSync, readFileSync, rmSync } from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { bundle } from './bundle.mjs';

const require = createRequire(import.meta.url);
export class Unmodelled extends Error {}
export class Exit extends Error {}
export class Killed extends Error {}
export const HOME = '/work/ts-scripts';

// ---- the file system -----------------------------------------------------------------------------------------

export class Disk {
  constructor(files, dirs, plan) {
    this.files = new Map(Object.entries(files).map(([k, v]) => [path.join(HOME, k), Buffer.from(v)]));
    this.dirs = new Set(['/', '/work', HOME, ...dirs.map((d) => path.join(HOME, d))]);
    this.handles = new Map();
    this.steps = 0;
    this.plan = plan;
    this.dead = false;
    this.looks = 0;
  }
  /** Whatever looks at the disk goes through here, and may find that things have just changed, or fail. */
  look(at) {
    const k = this.looks++;
    if (this.plan?.look !== k) return;
    this.happened = `${this.plan.kind} at the look at ${at}`;
    if (this.plan.kind === 'gone') this.files.delete(at);
    else throw this.fail('EIO', at);
  }
  fail(code, at) {
    return Object.assign(new Error(`${code}: '${at}'`), { code, path: at });
  }
  /** Whatever changes the disk goes through here, and may be what the process does not survive, or the disk refuses. */
  step(what) {
    if (this.dead) throw new Killed();
    const k = this.steps++;
    if (this.plan?.at !== k) return;
    this.happened = `${this.plan.kind} at ${what}`;
    if (this.plan.kind === 'the process ends') {
      this.dead = true;
      throw new Killed();
    }
    throw this.fail('ENOSPC', what);
  }
  resolve(p) {
    if (p instanceof URL) p = fileURLToPath(p);
    if (typeof p !== 'string') throw new Unmodelled(`a path of type ${typeof p}`);
    return path.resolve(HOME, p);
  }
  open(p, flags = 'r') {
    const at = this.resolve(p);
    if (this.dirs.has(at)) throw this.fail('EISDIR', at);
    if (!/^(r|r\+|w|wx|xw|w\+|wx\+|a|ax)$/.test(flags)) throw new Unmodelled(`open with ${flags}`);
    const there = this.files.has(at);
    if (flags[0] === 'r') {
      if (!there) throw this.fail('ENOENT', at);
    } else {
      if (!this.dirs.has(path.dirname(at))) throw this.fail('ENOENT', at);
      if (there && flags.includes('x')) throw this.fail('EEXIST', at);
      if (!there || flags[0] !== 'a') {
        this.step(`opening ${at}`);
        this.files.set(at, Buffer.alloc(0));
      }
    }
    const fd = 10 + this.handles.size;
    this.handles.set(fd, { at, where: flags[0] === 'a' ? this.files.get(at).length : 0 });
    return fd;
  }
  write(fd, data, offset = 0, length) {
    const h = this.handles.get(fd);
    let bytes = typeof data === 'string' ? Buffer.from(data) : Buffer.from(data.buffer, data.byteOffset, data.byteLength).subarray(offset, length === undefined ? undefined : offset + length);
    for (const [i, b] of bytes.entries()) {
      this.step(`byte ${h.where} of ${h.at}`);
      const old = this.files.get(h.at);
      const f = Buffer.alloc(Math.max(old.length, h.where + 1));
      old.copy(f);
      f[h.where++] = b;
      this.files.set(h.at, f);
    }
    return bytes.length;
  }
  modules() {
    const d = this;
    const flagsOf = (o, f) => (typeof o === 'object' && o?.flag) || f;
    const fs = {
      existsSync: (p) => {
        try {
          d.look(d.resolve(p));
        } catch {
          return false;
        }
        return d.files.has(d.resolve(p)) || d.dirs.has(d.resolve(p));
      },
      accessSync: (p) => {
        if (!fs.existsSync(p)) throw d.fail('ENOENT', d.resolve(p));
      },
      statSync: (p) => {
        fs.accessSync(p);
        return { isFile: () => d.files.has(d.resolve(p)), isDirectory: () => d.dirs.has(d.resolve(p)), size: d.files.get(d.resolve(p))?.length ?? 0 };
      },
      readFileSync: (p, o) => {
        const at = d.resolve(p);
        d.look(at);
        if (d.dirs.has(at)) throw d.fail('EISDIR', at);
        if (!d.files.has(at)) throw d.fail('ENOENT', at);
        const b = Buffer.from(d.files.get(at));
        const e = typeof o === 'string' ? o : o?.encoding;
        return e ? b.toString(e) : b;
      },
      writeFileSync: (p, data, o) => {
        const fd = typeof p === 'number' ? p : d.open(p, flagsOf(o, 'w'));
        d.write(fd, data);
        if (typeof p !== 'number') d.handles.delete(fd);
      },
      appendFileSync: (p, data) => fs.writeFileSync(p, data, { flag: 'a' }),
      openSync: (p, f) => d.open(p, f),
      writeSync: (fd, data, o, n) => d.write(fd, data, o, n),
      closeSync: (fd) => void d.handles.delete(fd),
      fsyncSync: () => {},
      fdatasyncSync: () => {},
      chmodSync: () => {},
      mkdirSync: (p, o) => {
        const at = d.resolve(p);
        if (d.dirs.has(at)) {
          if (o?.recursive) return undefined;
          throw d.fail('EEXIST', at);
        }
        if (!d.dirs.has(path.dirname(at))) {
          if (!o?.recursive) throw d.fail('ENOENT', at);
          fs.mkdirSync(path.dirname(at), o);
        }
        d.step(`making ${at}`);
        d.dirs.add(at);
      },
      renameSync: (a, b) => {
        const [from, to] = [d.resolve(a), d.resolve(b)];
        if (!d.files.has(from) || !d.dirs.has(path.dirname(to))) throw d.fail('ENOENT', from);
        if (d.dirs.has(to)) throw d.fail('EISDIR', to);
        d.step(`renaming to ${to}`);
        d.files.set(to, d.files.get(from));
        if (from !== to) d.files.delete(from);
      },
      copyFileSync: (a, b) => fs.writeFileSync(b, fs.readFileSync(a)),
      linkSync: (a, b) => {
        const [from, to] = [d.resolve(a), d.resolve(b)];
        if (!d.files.has(from)) throw d.fail('ENOENT', from);
        if (d.files.has(to)) throw d.fail('EEXIST', to);
        d.step(`linking ${to}`);
        d.files.set(to, d.files.get(from));
      },
      unlinkSync: (p) => {
        const at = d.resolve(p);
        if (!d.files.has(at)) throw d.fail('ENOENT', at);
        d.step(`removing ${at}`);
        d.files.delete(at);
      },
      rmSync: (p, o) => {
        if (o?.force && !d.files.has(d.resolve(p))) return;
        fs.unlinkSync(p);
      },
    };
    const strict = (name, m) =>
      new Proxy(m, {
        get(t, k) {
          if (typeof k === 'string' && !(k in t) && k !== 'then' && k !== 'default') throw new Unmodelled(`${name} has no ${k} here`);
          return k === 'default' ? t : t[k];
        },
      });
    const later = Object.fromEntries(Object.entries(fs).filter(([k]) => k.endsWith('Sync')).map(([k, f]) => [k.slice(0, -4), async (...a) => f(...a)]));
    const promises = strict('fs/promises', later);
    return { fs: strict('fs', { ...fs, promises }), promises };
  }
}

// ---- running scripts -----------------------------------------------------------------------------------------

const AsyncFunction = (async () => {}).constructor;
export async function load(file, root, external) {
  const dir = path.join(root, `target/script.${process.pid}`);
  mkdirSync(dir, { recursive: true });
  let code;
  try {
    const out = path.join(dir, 'script.mjs');
    await bundle(file, out, {}, { external, define: { 'import.meta.url': '__url', 'import.meta.dirname': '__dir', 'import.meta.filename': '__file' } });
    const names = (s) => s.replace(/(\S+)\s+as\s+(\S+)/g, '$1: $2');
    code = readFileSync(out, 'utf8')
      .replace(/^import\s*\{([^}]*)\}\s*from\s*("[^"]+");?$/gm, (_, n, from) => `const {${names(n)}} = __import(${from});`)
      .replace(/^import\s+\*\s+as\s+(\S+)\s+from\s*("[^"]+");?$/gm, 'const $1 = __import($2);')
      .replace(/^import\s+([A-Za-z_$][\w$]*)\s+from\s*("[^"]+");?$/gm, 'const $1 = __import($2).default;')
      .replace(/^import\s+([A-Za-z_$][\w$]*)\s*,\s*\{([^}]*)\}\s*from\s*("[^"]+");?$/gm, (_, d, n, from) => `const $1 = __import(${from}).default, {${names(n)}} = __import(${from});`.replace('$1', d))
      .replace(/^export\s*\{[^}]*\};?$/gm, '')
      .replace(/^#!.*$/m, '');
  } finally {
    rmSync(dir, { recursive: true, force: true });
  }
  return new AsyncFunction('__import', '__url', '__dir', '__file', 'process', 'console', code);
}

let current;
process.on('unhandledRejection', (e) => current?.(e));

/** One run of a script; `modules` are what it may import besides files and pure helpers. */
export async function run(script, name, args, disk, modules, settle = 6) {
  const r = { args, disk, lines: [], exit: undefined };
  const end = (e) => {
    if (e instanceof Unmodelled) r.lacking = e;
    r.exit ??= e instanceof Killed ? 'killed' : 1;
    if (!(e instanceof Exit || e instanceof Killed)) r.crash = e;
  };
  current = end;
  const say = (...a) => {
    if (r.exit === undefined && !disk.dead) r.lines.push(...a.map((x) => (x instanceof Error ? x.message : String(x))).join(' ').split('\n'));
  };
  const proc = {
    argv: ['node', `${HOME}/${name}.ts`, ...args],
    env: {},
    pid: 4242,
    platform: 'linux',
    exitCode: undefined,
    on() {},
    cwd: () => HOME,
    stdout: { write: (s) => say(String(s).replace(/\n$/, '')) },
    stderr: { write: (s) => say(String(s).replace(/\n$/, '')) },
    exit(c) {
      r.exit ??= disk.dead ? 'killed' : c ?? proc.exitCode ?? 0;
      throw new Exit();
    },
  };
  const { fs, promises } = disk.modules();
  const give = (from) => {
    const bare = from.replace(/^node:/, '');
    if (bare === 'fs') return fs;
    if (bare === 'fs/promises') return promises;
    if (modules[bare]) return modules[bare];
    if (/^(path|url|buffer|util|os|crypto|assert)$/.test(bare)) return require(bare);
    throw new Unmodelled(`the script needs ${from}`);
  };
  script(give, `file://${HOME}/${name}.ts`, HOME, `${HOME}/${name}.ts`, proc, { log: say, error: say, warn: say, info: say }).catch(end);
  for (let k = 0; k < settle; k++) await new Promise(setImmediate);
  r.exit ??= disk.dead ? 'killed' : proc.exitCode ?? 0;
  if (r.lacking) throw r.lacking;
  for (const s of r.lines) if (/ has no .* here$|^the script needs /.test(s)) throw new Unmodelled(s);
  return r;
}
