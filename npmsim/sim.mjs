// The npm wrapper (npm/smd/src) in a simulated Node: its modules run unmodified (types
// stripped) in a context of their own, with a simulated process, clock, timers, module
// resolution, operating system and child processes. One seed is one execution.
import vm from 'node:vm';
import fs from 'node:fs';
import path from 'node:path';
import { stripTypeScriptTypes, isBuiltin } from 'node:module';
import { EventEmitter } from 'node:events';
import url from 'node:url';
import { spawn } from 'node:child_process';

const REPO = process.env.SMD_REPO ?? '/repo';
const SRC = path.join(REPO, 'npm/smd/src');
const HOME = '/sim/app/node_modules/smd/lib/cli';
const MODULES = '/sim/app/node_modules';
const CWD = '/sim/app';

// ---------------------------------------------------------------- randomness
function rng(seed) {
  let a = BigInt.asUintN(64, BigInt(seed) ^ 0x9e3779b97f4a7c15n);
  const next = () => {
    a = BigInt.asUintN(64, a + 0x9e3779b97f4a7c15n);
    let z = a;
    z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n);
    z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94d049bb133111ebn);
    return z ^ (z >> 31n);
  };
  const r = {
    below: (n) => Number(next() % BigInt(n)),
    p: (permille) => Number(next() % 1000n) < permille,
    of: (v) => v[Number(next() % BigInt(v.length))],
  };
  return r;
}
function seedOf(base, index) {
  const r = rng(BigInt(base) * 1000003n + BigInt(index));
  return r.below(2 ** 48);
}
function hash(s) {
  let h = 0xcbf29ce484222325n;
  for (const c of Buffer.from(s)) h = BigInt.asUintN(64, (h ^ BigInt(c)) * 0x100000001b3n);
  return h.toString(16).padStart(16, '0');
}

// ---------------------------------------------------------------- scenarios
const WORDS = ['parse', '-i', 'a.md', 'initialize', '--input', 'my notes.md', '--output=html', '-o', 'pdf', '-vv', '--help', '--version', '', '-', '--',
  'a"b', "it's", '$HOME', '*.md', 'a\\b', 'ünï.md', '--no-such-option', 'true', 'false', 'null', '0', ';ls', '&', '/abs/x.md', '../x.md', '%PATH%', 'a b  c', '\t', '日本.md', '--flag=', '😀'];
const OUT = ['', '', 'Usage: smd [OPTIONS] <COMMAND>\n', 'smd 0.1.3\n', ' ERROR smd > IO error\n', 'two\nlines\n'];
function child(r) {
  const c = { code: r.of([0, 0, 0, 1, 1, 2, 2, 101, 101, 3, 4, 126, 127, 130, 255]), signal: null, error: null, ms: r.of([0, 1, 5, 300, 4000, 29000, 61000, 700000, 86400000]), out: r.of(OUT), err: r.of(OUT) };
  if (r.p(150)) c.signal = r.of(['SIGKILL', 'SIGTERM', 'SIGSEGV', 'SIGINT', 'SIGABRT']);
  else if (r.p(150)) c.error = r.of(['ENOENT', 'EACCES', 'EAGAIN', 'ENOMEM', 'ETXTBSY', 'EMFILE', 'EPERM', 'ENOEXEC']);
  return c;
}
const OS = ['linux', 'linux', 'darwin', 'win32', 'cygwin', 'linux', 'win32', 'freebsd'];
const KEYS = ['input', 'output', 'verbose', 'help', 'configPath', 'dryRun', 'onParseError', 'x', 'aBC'];
function options(r) {
  const o = {};
  for (let i = r.below(5); i > 0; i--) o[r.of(KEYS)] = r.of([true, false, null, 'a.md', 'x y', '', 'html', ['a.md', 'b.md'], [], ['--']]);
  return o;
}
function scenario(seed) {
  const r = rng(seed);
  const platform = r.of(OS);
  const arch = r.of(['x64', 'x64', 'arm64', 'ia32']);
  const os = platform === 'win32' || platform === 'cygwin' ? 'windows' : platform;
  const mine = `smd-${os}-${arch}`;
  const packages = ['smd-linux-x64', 'smd-linux-arm64', 'smd-darwin-x64', 'smd-darwin-arm64', 'smd-windows-x64', 'smd-windows-arm64'].filter(() => r.p(400));
  const present = r.p(850);
  const at = packages.indexOf(mine);
  if (present && at < 0) packages.push(mine);
  if (!present && at >= 0) packages.splice(at, 1);
  const sc = { seed, platform, arch, packages, mode: r.p(600) ? 'cli' : 'library', calls: [], tty: r.p(500), together: r.p(500),
    env: { PATH: '/usr/bin', HOME: '/home/u', SMD__PARSE__KEEP_TEMP_FILES: r.of(['true', 'false']), ...(r.p(300) ? { NODE_ENV: 'production' } : {}), ...(r.p(200) ? { CI: '1' } : {}), ...(r.p(200) ? { DEBUG: '1', VERBOSE: '1' } : {}) } };
  const n = sc.mode === 'cli' ? 1 : 1 + r.below(4);
  for (let i = 0; i < n; i++) {
    const c = { child: child(r), args: [], at: r.of([0, 0, 0, 3, 500]) };
    if (sc.mode === 'library' && r.p(350)) c.options = options(r);
    else for (let k = r.below(6); k > 0; k--) c.args.push(r.of(WORDS));
    if (sc.mode === 'library' && r.p(400)) c.execa = r.of([{ reject: false }, { stdio: 'pipe' }, { cwd: '/elsewhere' }, { env: { EXTRA: '1' } }, { reject: false, stdio: 'pipe' }]);
    // tells the calls of one program apart
    if (n > 1) { if (c.options) c.options[`call${i}`] = true; else c.args.splice(r.below(c.args.length + 1), 0, `--call${i}`); }
    sc.calls.push(c);
  }
  return sc;
}

// What the caller's options mean (documented in index.ts).
function asArgs(o) {
  const a = [];
  for (const [k, v] of Object.entries(o)) {
    const name = '--' + [...k].map((c) => (/[A-Z]/.test(c) ? '-' + c.toLowerCase() : c)).join('');
    if (Array.isArray(v)) v.forEach((x) => a.push(name, x));
    else if (v === true) a.push(name);
    else if (v !== false && v !== null) a.push(name, v);
  }
  return a;
}

// ---------------------------------------------------------------- one run
class Exit { constructor(code) { this.exit = code; } }
const sources = new Map();
function source(file) {
  if (!sources.has(file)) sources.set(file, stripTypeScriptTypes(fs.readFileSync(file, 'utf8').replace(/^#!.*/, ''), { mode: 'transform' }));
  return sources.get(file);
}
const real = new Map();
async function builtin(name) {
  if (!real.has(name)) real.set(name, await import(name));
  return real.get(name);
}

let current = null;
process.on('unhandledRejection', (e) => current?.rejected(e));

async function run(sc) {
  const r = rng(sc.seed ^ 0x5bd1e995);
  const w = { now: 0, events: [], n: 0, spawns: [], stderr: '', stdout: '', exit: null, exitAt: null, exitCode: undefined, log: [], calls: [], faults: {}, live: 0, failure: null };
  const note = (...a) => w.log.push(`${w.now} ${a.join(' ')}`);
  const fault = (k) => { w.faults[k] = (w.faults[k] ?? 0) + 1; };
  const over = () => w.exit !== null;
  const at = (ms, f, ref = true, id = null) => {
    const e = { t: w.now + Math.max(0, Math.trunc(+ms || 0)), k: r.below(1 << 20), n: w.n++, f, ref, id };
    w.events.push(e);
    return e;
  };
  const end = (code) => { if (!over()) { w.exit = code; w.exitAt = w.now; note('exit', code); } };
  w.rejected = (e) => {
    if (e instanceof Exit || over()) return;
    w.stderr += `${e?.stack ?? e}\n`;
    note('unhandled rejection', e?.message ?? e);
    end(1);
  };
  current = w;
  const guarded = (f) => { try { f(); } catch (e) { if (!(e instanceof Exit) && !over()) { w.stderr += `${e?.stack ?? e}\n`; note('uncaught', e?.message ?? e); end(1); } } };

  // --- child processes
  function start(file, args, o, sync = false) {
    if (over()) throw new Exit(0);
    file = file instanceof URL || (typeof file === 'object' && file?.href) ? url.fileURLToPath(file.href) : String(file);
    args = [...(args ?? [])].map(String);
    o = o ?? {};
    // which call is it? The one whose mark is among the arguments; otherwise the next one.
    let i = sc.calls.length > 1 ? sc.calls.findIndex((c, k) => args.includes(`--call${k}`)) : -1;
    if (i < 0) i = sc.calls.findIndex((c, k) => w.calls[k] && !w.spawns.some((s) => s.call === k && !s.error));
    const plan = sc.calls[i]?.child ?? { code: 0, signal: null, error: null, ms: 1, out: '', err: '' };
    if (o.shell && [file, ...args].some((a) => !/^[\w\/.,:=@+-]+$/.test(a))) args = [args.join(' '), '(through a shell)'];
    const stdio = o.stdio === undefined ? ['pipe', 'pipe', 'pipe'] : typeof o.stdio === 'string' ? [o.stdio, o.stdio, o.stdio] : [...o.stdio];
    for (const [k, n] of [['stdin', 0], ['stdout', 1], ['stderr', 2]]) if (o[k] !== undefined) stdio[n] = o[k];
    const shown = (n) => stdio[n] === 'inherit' || stdio[n] === n || stdio[n] === w.process?.[n === 1 ? 'stdout' : 'stderr'] || (Array.isArray(stdio[n]) && stdio[n].includes('inherit'));
    const env = o.extendEnv === false || (sync === 'raw' && o.env) ? { ...o.env } : { ...w.process.env, ...o.env };
    const cwd = o.cwd === undefined ? CWD : String(o.cwd);
    const s = { call: i, file, args, cwd, env, begun: w.now, ended: null, plan, code: null, signal: null, error: null, out: '', err: '' };
    w.spawns.push(s);
    note('spawn', i, JSON.stringify([file, ...args]), stdio.map((x) => typeof x === 'string' ? x : typeof x).join(','), cwd);
    const known = file === s.file && sc.packages.some((p) => file === path.join(MODULES, p, 'bin', sc.platform === 'win32' || sc.platform === 'cygwin' ? 'smd.exe' : 'smd'));
    if (!known) s.error = 'ENOENT';
    else if (plan.error) { s.error = plan.error; fault('spawn:' + plan.error); }
    let ms = s.error ? 0 : plan.ms;
    let killedBy = plan.signal;
    if (!s.error && o.timeout > 0 && o.timeout < ms) { ms = o.timeout; killedBy = o.killSignal ?? 'SIGTERM'; s.cut = true; }
    s.finish = () => {
      if (s.ended !== null) return;
      s.ended = w.now;
      if (!s.error) {
        if (killedBy) { s.signal = killedBy; fault('killed:' + killedBy); } else { s.code = plan.code; if (plan.code) fault('status:' + plan.code); }
        if (shown(1)) w.stdout += plan.out; else if (stdio[1] === 'pipe') s.out = plan.out;
        if (shown(2)) w.stderr += plan.err; else if (stdio[2] === 'pipe') s.err = plan.err;
      }
      note('end', i, s.code, s.signal, s.error);
    };
    s.kill = (sig) => { if (s.ended === null) { killedBy = sig ?? 'SIGTERM'; s.cut = true; at(0, () => { s.finish(); s.done?.(); }); } return true; };
    s.ms = ms;
    return s;
  }
  const failed = (s) => s.error || s.signal || s.code !== 0;
  function outcome(s, o) {
    const cmd = [s.file, ...s.args].join(' ');
    const v = { command: cmd, escapedCommand: cmd, exitCode: s.error || s.signal ? undefined : s.code, signal: s.signal ?? undefined, stdout: s.out.replace(/\n$/, ''), stderr: s.err.replace(/\n$/, ''), all: undefined, cwd: s.cwd, failed: !!failed(s), timedOut: !!s.cut && !!o?.timeout, isCanceled: false, killed: !!s.cut };
    if (!failed(s)) return v;
    const why = s.error ? `Command failed with ${s.error}` : s.signal ? `Command was killed with ${s.signal}` : `Command failed with exit code ${s.code}`;
    return Object.assign(new ctx.Error(`${why}: ${cmd}\n${s.err}`), { ...v, shortMessage: `${why}: ${cmd}`, originalMessage: s.error ? `spawn ${s.file} ${s.error}` : '', code: s.error ?? undefined });
  }
  const args2 = (a, o) => (Array.isArray(a) || a === undefined ? [a ?? [], o ?? {}] : [[], a]);
  // execa 8: a promise that is also a child process
  function execa(file, a, b) {
    const [args, o] = args2(a, b);
    const em = new EventEmitter();
    const p = new ctx.Promise((ok, no) => {
      const s = start(file, args, o);
      w.live++;
      let ref = true;
      const go = at(s.ms, () => s.done(), true);
      s.done = () => {
        if (s.settled) return;
        s.settled = true;
        s.finish();
        if (ref) w.live--;
        const v = outcome(s, o);
        (failed(s) && o.reject !== false ? no : ok)(v);
        em.emit('exit', s.code, s.signal); em.emit('close', s.code, s.signal);
      };
      em.unref = () => { ref = false; go.ref = false; };
      em.kill = s.kill;
    });
    for (const k of ['on', 'once', 'off', 'emit', 'kill', 'unref', 'removeListener', 'addListener']) p[k] = em[k].bind(em);
    p.ref = () => {};
    p.pid = s_pid++;
    p.stdout = p.stderr = p.stdin = p.all = null;
    return p;
  }
  let s_pid = 4000;
  function execaSync(file, a, b) {
    const [args, o] = args2(a, b);
    const s = start(file, args, o, true);
    w.now += s.ms;
    s.finish();
    const v = outcome(s, o);
    if (failed(s) && o.reject !== false) throw v;
    return v;
  }
  function spawnRaw(file, a, b) {
    const [args, o] = args2(a, b);
    const s = start(file, args, o, 'raw');
    const em = new EventEmitter();
    const go = at(s.ms, () => s.done());
    s.done = () => {
      if (s.settled) return;
      s.settled = true;
      s.finish();
      if (s.error) return em.emit('error', Object.assign(new ctx.Error(`spawn ${file} ${s.error}`), { code: s.error, syscall: 'spawn' }));
      if (em.stdout) { em.stdout.emit('data', s.out); em.stdout.emit('end'); }
      if (em.stderr) { em.stderr.emit('data', s.err); em.stderr.emit('end'); }
      em.emit('exit', s.code, s.signal);
      em.emit('close', s.code, s.signal);
    };
    em.pid = s_pid++;
    em.kill = s.kill;
    em.unref = () => { go.ref = false; };
    em.ref = () => {};
    const stream = () => Object.assign(new EventEmitter(), { setEncoding() {}, pipe(to) { this.on('data', (d) => to.write(d)); return to; } });
    const piped = (n) => (o.stdio ?? 'pipe') === 'pipe' || (Array.isArray(o.stdio) && o.stdio[n] === 'pipe');
    em.stdout = piped(1) ? stream() : null;
    em.stderr = piped(2) ? stream() : null;
    em.stdin = null;
    return em;
  }
  function spawnSync(file, a, b) {
    const [args, o] = args2(a, b);
    const s = start(file, args, o, 'raw');
    w.now += s.ms;
    s.finish();
    return { pid: s_pid++, status: s.code, signal: s.signal, stdout: s.out, stderr: s.err, error: s.error ? Object.assign(new ctx.Error(`spawnSync ${file} ${s.error}`), { code: s.error }) : undefined };
  }

  // --- the process
  const handlers = new EventEmitter();
  const write = (k) => ({ isTTY: sc.tty, columns: 80, write: (d, ...f) => { w[k] += d; f.filter((x) => typeof x === 'function').forEach((x) => at(0, x)); return true; }, end() {}, on() { return this; }, once() { return this; }, fd: k === 'stdout' ? 1 : 2 });
  const proc = {
    argv: ['/usr/bin/node', HOME + '/cli.js', ...(sc.mode === 'cli' ? sc.calls[0].args : [])], argv0: 'node', execArgv: [], execPath: '/usr/bin/node',
    env: { ...sc.env }, platform: sc.platform, arch: sc.arch, pid: 77, ppid: 76, version: process.version, versions: process.versions, title: 'node',
    cwd: () => CWD, uptime: () => w.now / 1000, hrtime: Object.assign(() => [Math.trunc(w.now / 1000), (w.now % 1000) * 1e6], { bigint: () => BigInt(w.now) * 1000000n }),
    nextTick: (f, ...a) => queueMicrotask(() => { if (!over()) guarded(() => f(...a)); }), stdout: write('stdout'), stderr: write('stderr'), stdin: { isTTY: sc.tty, on() { return this; }, resume() {}, pipe() {} },
    exit: (c) => { end(c === undefined ? (w.process.exitCode ?? 0) : c === null ? 0 : Number(c) & 255); throw new Exit(c); },
    abort: () => { end(134); throw new Exit(134); },
    kill: (pid, sig) => { if (pid === 77) { end(128 + 15); throw new Exit(sig); } return true; },
    emitWarning: (m) => { w.stderr += m + '\n'; }, on: (k, f) => { handlers.on(k, f); return proc; }, once: (k, f) => { handlers.once(k, f); return proc; }, off: () => proc, removeListener: () => proc, removeAllListeners: () => proc, emit: () => false,
    exitCode: undefined, memoryUsage: () => ({}), umask: () => 0o22, chdir() {},
  };
  w.process = proc;
  const say = (k) => (...a) => { w[k] += a.map((x) => (typeof x === 'string' ? x : (x?.stack ?? JSON.stringify(x)))).join(' ') + '\n'; };
  const timer = (rep) => (f, ms, ...a) => {
    const t = { dead: false, unref() { e && (e.ref = false); return t; }, ref() { return t; }, hasRef: () => true, [Symbol.toPrimitive]: () => 1 };
    let e;
    const go = () => { e = at(Math.max(1, ms || 1), () => { if (t.dead) return; if (rep) go(); f(...a); }, e ? e.ref : true, t); };
    go();
    return t;
  };
  const clear = (t) => { if (t) { t.dead = true; w.events = w.events.filter((e) => e.id !== t); } };
  const ctx = vm.createContext({
    process: proc, console: { log: say('stdout'), info: say('stdout'), debug: say('stdout'), error: say('stderr'), warn: say('stderr'), trace: say('stderr') },
    setTimeout: timer(false), setInterval: timer(true), setImmediate: (f, ...a) => timer(false)(f, 0, ...a), clearTimeout: clear, clearInterval: clear, clearImmediate: clear,
    queueMicrotask, URL, URLSearchParams, Buffer, TextEncoder, TextDecoder, AbortController, AbortSignal, structuredClone,
  });
  ctx.global = ctx;
  vm.runInContext('globalThis.__set = (now, rnd) => { const D = Date; globalThis.Date = class extends D { constructor(...a) { a.length ? super(...a) : super(now()); } static now() { return now(); } }; Math.random = rnd; }', ctx);
  ctx.__set(() => 1.7e12 + w.now, () => r.below(2 ** 30) / 2 ** 30);
  for (const k of ['Error', 'Promise', 'Object', 'Array']) ctx[k] ??= vm.runInContext(k, ctx);

  // --- modules
  const os = { platform: () => sc.platform, arch: () => sc.arch, type: () => ({ linux: 'Linux', darwin: 'Darwin', win32: 'Windows_NT' })[sc.platform] ?? sc.platform, machine: () => ({ x64: 'x86_64', arm64: 'aarch64' })[sc.arch] ?? sc.arch, EOL: '\n', tmpdir: () => '/tmp', homedir: () => '/home/u', hostname: () => 'sim', cpus: () => [], constants: { signals: { SIGHUP: 1, SIGINT: 2, SIGABRT: 6, SIGKILL: 9, SIGSEGV: 11, SIGTERM: 15 }, errno: {} }, availableParallelism: () => 1, release: () => '6', endianness: () => 'LE' };
  const resolve = (spec) => {
    if (/^(node|file|data):/.test(spec)) return spec;
    if (spec.startsWith('.') || spec.startsWith('/')) return new URL(spec, `file://${HOME}/cli.js`).href;
    const pkg = spec.split('/').slice(0, spec.startsWith('@') ? 2 : 1).join('/');
    if (isBuiltin(spec)) return 'node:' + spec;
    note('resolve', spec);
    if (sc.packages.includes(pkg) || pkg === 'execa') return `file://${MODULES}/${spec.split('/').map(encodeURIComponent).join('/')}`;
    fault('package-missing');
    throw Object.assign(new ctx.Error(`Cannot find package '${pkg}' imported from ${HOME}/cli.js`), { code: 'ERR_MODULE_NOT_FOUND' });
  };
  const files = new Set(sc.packages.map((p) => path.join(MODULES, p, 'bin', p.includes('windows') ? 'smd.exe' : 'smd')));
  const exists = (p) => { p = p?.href ? url.fileURLToPath(p.href) : String(p); return files.has(p) || [...files].some((f) => f.startsWith(p + '/')); };
  const enoent = (p) => Object.assign(new ctx.Error(`ENOENT: no such file or directory, '${p}'`), { code: 'ENOENT' });
  const need = (p) => { if (!exists(p)) throw enoent(p); };
  const stat = (p) => { need(p); return { isFile: () => files.has(String(p)), isDirectory: () => !files.has(String(p)), mode: 0o100755, size: 1000 }; };
  const constants = fs.constants;
  const fsp = { access: async (p) => need(p), stat: async (p) => stat(p), chmod: async (p) => need(p), constants };
  const fsm = { existsSync: exists, accessSync: need, statSync: stat, chmodSync: need, constants, promises: fsp };
  const mod = { createRequire: () => Object.assign((n) => { throw new ctx.Error('require of ' + n); }, { resolve: (n) => url.fileURLToPath(resolve(n)) }), isBuiltin };
  const fakes = { execa: { execa, execaSync, default: { execa, execaSync } }, os, child_process: { spawn: spawnRaw, spawnSync }, process: proc, fs: fsm, 'fs/promises': fsp, module: mod,
    timers: { setTimeout: ctx.setTimeout, setInterval: ctx.setInterval, setImmediate: ctx.setImmediate, clearTimeout: clear, clearInterval: clear },
    'timers/promises': { setTimeout: (ms, v) => new ctx.Promise((ok) => ctx.setTimeout(() => ok(v), ms)), setImmediate: (v) => new ctx.Promise((ok) => ctx.setImmediate(() => ok(v))) } };
  const cache = new Map();
  const synthetic = (name, o) => {
    const keys = [...new Set([...Object.keys(o), 'default'])];
    return new vm.SyntheticModule(keys, function () { for (const k of keys) this.setExport(k, k === 'default' ? (o.default ?? o) : o[k]); }, { context: ctx, identifier: name });
  };
  async function load(spec, from) {
    const name = spec.replace(/^node:/, '');
    const key = fakes[name] ? name : isBuiltin(spec) ? spec : path.resolve(path.dirname(from), spec).replace(/\.js$/, '.ts');
    if (!cache.has(key)) {
      const m = fakes[name] ? synthetic(name, fakes[name]) : isBuiltin(spec) ? synthetic(spec, { ...(await builtin(spec)) })
        : new vm.SourceTextModule(source(key), { context: ctx, identifier: key, importModuleDynamically: dynamic, initializeImportMeta: (meta) => { meta.resolve = resolve; meta.url = `file://${HOME}/cli.js`; meta.filename = HOME + '/cli.js'; meta.dirname = HOME; } });
      cache.set(key, m);
    }
    return cache.get(key);
  }
  async function dynamic(spec, m) {
    const x = await load(spec, m.identifier);
    if (x.status === 'unlinked') await x.link((s, f) => load(s, f.identifier));
    await x.evaluate();
    return x;
  }
  const tick = () => new Promise((ok) => setImmediate(ok));
  const entry = path.join(SRC, sc.mode === 'cli' ? 'cli.ts' : 'index.ts');
  const m = await load(entry, entry);
  await m.link((s, f) => load(s, f.identifier));
  if (sc.mode === 'cli') {
    w.calls[0] = { begun: 0 };
    m.evaluate().catch((e) => w.rejected(e));
  } else {
    await m.evaluate();
    const ns = m.namespace;
    const f = ns.runGitCliff ?? ns.runSmd ?? ns.run ?? ns.default ?? Object.values(ns).find((x) => typeof x === 'function');
    const call = (c, i) => {
      w.calls[i] = { begun: w.now };
      note('call', i);
      let p;
      const inner = (x) => vm.runInContext(`(${JSON.stringify(x)})`, ctx);
      try { p = f(inner(c.options ?? c.args), ...(c.execa ? [inner(c.execa)] : [])); } catch (e) { p = Promise.reject(e); }
      Promise.resolve(p).then((v) => { Object.assign(w.calls[i], { ok: true, v, at: w.now }); note('resolved', i, v?.exitCode, v?.stdout); }, (e) => { Object.assign(w.calls[i], { ok: false, v: e, at: w.now }); note('rejected', i, e?.shortMessage ?? e?.message); });
    };
    if (sc.together) at(0, () => sc.calls.forEach(call));
    else sc.calls.forEach((c, i) => at(c.at, () => call(c, i)));
  }
  // --- the event loop
  let steps = 0;
  for (;;) {
    await tick();
    if (over()) break;
    if (!w.events.some((e) => e.ref)) { end(proc.exitCode ?? 0); break; }
    if (++steps > 20000 || w.now > 400 * 86400000) { w.hang = true; break; }
    w.events.sort((a, b) => a.t - b.t || (sc.calm ? a.n - b.n : a.k - b.k || a.n - b.n));
    const e = w.events.shift();
    w.now = Math.max(w.now, e.t);
    guarded(e.f);
  }
  current = null;
  w.steps = steps;
  return w;
}

// ---------------------------------------------------------------- the judge
function judge(sc, w) {
  const os = sc.platform === 'win32' || sc.platform === 'cygwin' ? 'windows' : sc.platform;
  const exe = path.join(MODULES, `smd-${os}-${sc.arch}`, 'bin', os === 'windows' ? 'smd.exe' : 'smd');
  const present = sc.packages.includes(`smd-${os}-${sc.arch}`);
  const bad = (kind, msg) => ({ kind, msg });
  const premises = [];
  if (w.hang) return bad('hang', 'the wrapper does not end');
  for (const [i, c] of sc.calls.entries()) {
    const who = sc.mode === 'cli' ? 'the wrapper' : `call ${i}`;
    const want = c.options ? asArgs(c.options) : c.args;
    const mine = w.spawns.filter((s) => s.call === i);
    const works = present && !c.child.error && !c.child.signal && c.child.code === 0;
    if (!present) {
      if (mine.length && mine.some((s) => !s.error)) return bad('wrong-binary', `${who} ran ${mine[0].file} on ${sc.platform}-${sc.arch}`);
    } else {
      if (mine.length === 0) return bad('not-run', `${who} never started ${exe}`);
      if (mine.filter((s) => !s.error).length > 1) return bad('run-twice', `${who} started a binary ${mine.length} times`);
      const s = mine.at(-1);
      if (s.file !== exe) return bad('wrong-binary', `${who} ran ${s.file} instead of ${exe}`);
      if (JSON.stringify(s.args) !== JSON.stringify(want)) return bad('wrong-arguments', `${who} ran smd with ${JSON.stringify(s.args)} instead of ${JSON.stringify(want)}`);
      if (s.cut) return bad('killed', `${who} killed smd`);
      const cwd = c.execa?.cwd ?? CWD;
      if (s.cwd !== cwd) return bad('wrong-directory', `${who} ran smd in ${s.cwd} instead of ${cwd}`);
      for (const [k, v] of Object.entries({ ...sc.env, ...c.execa?.env })) if (s.env[k] !== v) return bad('wrong-environment', `${who} ran smd with ${k}=${s.env[k]} instead of ${v}`);
      if (!s.error && s.ended === null) return bad('ended-early', `${who} ended before smd did`);
    }
    if (sc.mode === 'cli') {
      if (w.exit === null) return bad('hang', 'the wrapper does not end');
      if ((w.exit === 0) !== works) return bad('wrong-status', `the wrapper exited with ${w.exit} although ${!present ? 'there is no binary' : c.child.error ? 'smd could not be started' : c.child.signal ? 'smd was killed' : 'smd exited with ' + c.child.code}`);
      if (mine.at(-1) && w.exitAt < mine.at(-1).ended) return bad('ended-early', 'the wrapper exited before smd did');
      if (present && !c.child.error && (!w.stdout.includes(c.child.out) || !w.stderr.includes(c.child.err))) return bad('output-lost', "smd's output does not appear");
      if (w.exit !== 0 && (!present || c.child.error || c.child.signal) && !w.stderr.replace(c.child.err, '').trim()) return bad('silent', 'the wrapper failed without saying why');
    } else {
      const r = w.calls[i];
      if (!r || r.ok === undefined) return bad('unsettled', `${who} was never settled`);
      if (mine.at(-1) && r.at < mine.at(-1).ended) return bad('ended-early', `${who} settled before smd ended`);
      const lenient = present && c.execa?.reject === false;
      if (!lenient && r.ok !== works) return bad('wrong-status', `${who} ${r.ok ? 'resolved' : 'was rejected'} although ${!present ? 'there is no binary' : JSON.stringify(c.child)}`);
      if (lenient && !r.ok) return bad('wrong-status', `${who} was rejected although the caller asked for no rejection`);
      if (r.ok && !c.child.error && !c.child.signal && r.v?.exitCode !== c.child.code) return bad('wrong-result', `${who} gave exit code ${r.v?.exitCode} instead of ${c.child.code}`);
      if (!r.ok && !(r.v?.message ?? '').trim()) return bad('silent', `${who} was rejected without a message`);
      if (r.ok && c.execa?.stdio === 'pipe' && !c.child.error && r.v?.stdout !== c.child.out.replace(/\n$/, '')) return bad('wrong-result', `${who} gave the output ${JSON.stringify(r.v?.stdout)} instead of ${JSON.stringify(c.child.out)}`);
    }
    premises.push(!present ? 'no-binary' : c.child.error ? 'cannot-start' : c.child.signal ? 'killed' : c.child.code ? 'failed' : 'succeeded');
  }
  const extra = w.spawns.find((s) => s.call < 0);
  if (extra) return bad('run-twice', `${extra.file} was started additionally`);
  if (sc.calls.length > 1) premises.push('concurrent');
  return { premises };
}

async function attempt(sc) {
  const w = await run(sc);
  const v = judge(sc, w);
  return { w, v, hash: hash(w.log.join('\n') + w.exit + JSON.stringify(v)) };
}

// ---------------------------------------------------------------- minimising
async function shrink(sc, kind) {
  let best = sc;
  const same = async (x) => { const o = await attempt(x); return o.v.kind === kind ? o : null; };
  let change = true;
  while (change) {
    change = false;
    const c = [];
    const edit = (f) => { const x = structuredClone(best); f(x); if (JSON.stringify(x) !== JSON.stringify(best)) c.push(x); };
    best.calls.forEach((_, i) => best.calls.length > 1 && i === best.calls.length - 1 && edit((x) => x.calls.splice(i, 1)));
    best.calls.forEach((k, i) => {
      k.args.forEach((_, j) => edit((x) => x.calls[i].args.splice(j, 1)));
      if (k.options) Object.keys(k.options).forEach((o) => edit((x) => delete x.calls[i].options[o]));
      edit((x) => delete x.calls[i].execa);
      edit((x) => { x.calls[i].child.out = x.calls[i].child.err = ''; });
      edit((x) => { x.calls[i].child.ms = 1; });
      edit((x) => { x.calls[i].at = 0; });
      edit((x) => { Object.assign(x.calls[i].child, { code: 0, signal: null, error: null }); });
      edit((x) => { Object.assign(x.calls[i].child, { signal: null, error: null }); });
    });
    best.packages.forEach((_, i) => edit((x) => x.packages.splice(i, 1)));
    edit((x) => { x.env = { PATH: '/usr/bin' }; });
    edit((x) => { x.tty = false; });
    edit((x) => { x.calm = true; });
    for (const x of c) if (JSON.stringify(x).length <= JSON.stringify(best).length + 12 && await same(x) && !(x.calm && best.calm)) { best = x; change = true; break; }
  }
  return best;
}

// ---------------------------------------------------------------- commands
const opt = {};
for (let i = 3; i < process.argv.length; i += 2) opt[process.argv[i].replace(/^--/, '')] = process.argv[i + 1];
const cmd = process.argv[2];
const PROPERTY = 'C17';

if (cmd === 'replay') {
  const f = JSON.parse(fs.readFileSync(opt.file, 'utf8'));
  const o = await attempt(f.scenario);
  if (opt.log === '1') console.log(o.w.log.join('\n') + '\n' + o.w.stderr);
  if (o.v.kind === f.kind) {
    console.log(`${o.v.kind}: ${o.v.msg}\ntrace ${o.hash} (${o.hash === f.trace_hash ? 'identical' : 'differs from ' + f.trace_hash})\nVIOLATION property=${PROPERTY} replay=${opt.file}`);
    process.exit(1);
  }
  console.log('held');
  process.exit(0);
} else if (cmd === 'determinism') {
  let d = 0;
  for (let i = 0; i < +(opt.runs ?? 500); i++) {
    const sc = scenario(seedOf(1, i));
    if ((await attempt(sc)).hash !== (await attempt(sc)).hash) d++;
  }
  console.log('differences', d);
  process.exit(d ? 1 : 0);
}

const tier = opt.tier ?? 'quick';
const base = Number(opt.seed ?? 1);
const total = Number(opt.runs ?? (tier === 'thorough' ? 1000000 : 20000));
const cap = tier === 'thorough' ? 1800 : 200;
const t0 = Date.now();
const CHUNK = 400; // contexts of one process are not freed fast enough for more
if (cmd === 'work') {
  const ev = { runs: 0, steps: 0, ms: 0, hashes: [], premises: {}, faults: {}, modes: {}, spawns: 0, samples: [], found: null };
  for (let i = Number(opt.from); i < Number(opt.to); i++) {
    const seed = seedOf(base, i);
    const sc = scenario(seed);
    const { w, v, hash: h } = await attempt(sc);
    ev.runs++; ev.steps += w.steps; ev.ms += w.now; ev.hashes.push(h); ev.spawns += w.spawns.length;
    ev.modes[sc.mode] = (ev.modes[sc.mode] ?? 0) + 1;
    for (const [k, n] of Object.entries(w.faults)) ev.faults[k] = (ev.faults[k] ?? 0) + n;
    for (const p of v.premises ?? []) ev.premises[p] = (ev.premises[p] ?? 0) + 1;
    if (i % 7 === 0 && i < 22) ev.samples.push({ index: i, seed, scenario: sc, trace: w.log.slice(0, 12), exit: w.exit });
    if (v.kind) { ev.found = { i, seed }; break; }
  }
  fs.writeSync(1, JSON.stringify(ev));
  process.exit(0);
}
const ev = { runs: 0, steps: 0, ms: 0, hashes: new Set(), premises: {}, faults: {}, modes: {}, spawns: 0, samples: [] };
let found = null;
let next = 0;
let broken = null;
async function lane() {
  while (next < total && !found && !broken && (Date.now() - t0) / 1000 < cap) {
    const from = next;
    next = Math.min(total, next + CHUNK);
    const c = spawn(process.execPath, [...process.execArgv, process.argv[1], 'work', '--seed', String(base), '--from', String(from), '--to', String(next)], { stdio: ['ignore', 'pipe', 'inherit'] });
    let text = '';
    c.stdout.on('data', (d) => { text += d; });
    await new Promise((ok) => c.on('close', ok));
    let t;
    try { t = JSON.parse(text); } catch { broken ??= from; return; }
    for (const k of ['runs', 'steps', 'ms', 'spawns']) ev[k] += t[k];
    t.hashes.forEach((h) => ev.hashes.add(h));
    for (const k of ['premises', 'faults', 'modes']) for (const [n, v] of Object.entries(t[k])) ev[k][n] = (ev[k][n] ?? 0) + v;
    ev.samples.push(...t.samples);
    if (t.found && (!found || t.found.i < found.i)) found = t.found;
  }
}
await Promise.all(Array.from({ length: 8 }, lane));
if (broken !== null) { console.log(`the wrapper cannot be simulated (runs from ${broken})`); process.exit(3); }
if (found) { found.sc = scenario(found.seed); found.v = (await attempt(found.sc)).v; }
let code = 0;
const list = [];
if (found) {
  const again = await attempt(found.sc);
  if (again.v.kind === found.v.kind) {
    const sc = await shrink(found.sc, found.v.kind);
    const o = await attempt(sc);
    const dir = opt.replays ?? '/verif/replays';
    fs.mkdirSync(dir, { recursive: true });
    const file = `${dir}/${PROPERTY}-${base}-${found.i}.json`;
    fs.writeFileSync(file, JSON.stringify({ property: PROPERTY, kind: o.v.kind, message: o.v.msg, base_seed: base, index: found.i, seed: found.seed, trace_hash: o.hash, scenario: sc, trace: o.w.log }, null, 1));
    console.log(`seed ${found.seed} (index ${found.i}): ${o.v.kind}: ${o.v.msg}\n  ${o.w.log.join('\n  ')}\nVIOLATION property=${PROPERTY} replay=${file}`);
    list.push({ kind: o.v.kind, message: o.v.msg, seed: found.seed, replay: file });
    code = 1;
  } else console.log('did not reproduce; ignored');
}
const wall = (Date.now() - t0) / 1000;
const perHour = ev.runs / wall * 3600;
console.log(`${PROPERTY}: ${ev.runs} runs, ${ev.hashes.size} distinct executions, ${Math.round(ev.ms / 1000)} simulated s, ${wall.toFixed(1)} s`);
const dir = opt.evidence ?? '/verif/evidence';
fs.mkdirSync(dir, { recursive: true });
fs.writeFileSync(`${dir}/${PROPERTY}.json`, JSON.stringify({
  property: PROPERTY, tier, seed: base, level: 'exploration', wall_s: wall,
  coverage: {
    evaluations: ev.runs, distinct_nontrivial: ev.hashes.size,
    rule: 'one evaluation is one simulated run of the wrapper (one seed): command line or one to four concurrent library calls, with a platform, installed packages and fates of the started binaries; distinct by a hash over the whole trace (resolutions, spawns, ends, settlements, exit); every run starts the wrapper, so every distinct one is non-trivial',
    samples: ev.samples, runs_per_hour: perHour, seeds_per_hour: perHour, simulated_seconds: ev.ms / 1000, events: ev.steps, processes_started: ev.spawns,
    faults_injected: ev.faults, premises: ev.premises, workload_families: ev.modes, distinct_executions: ev.hashes.size,
    components_real: ['npm/smd/src (cli, index, getExePath, optionsToStringArgs), types stripped', 'V8 promises and module linking'],
    components_stub: ['execa 8 and child_process (contract model over simulated child processes)', 'process, timers, clock, os, fs, module resolution', 'the native binary (its exit status, signal, output and duration only)'],
    budget_runs: total, time_cap_s: cap, complete: ev.runs === total,
  },
  assumptions: ["execa's model follows its documented contract: rejects on non-zero status, signal and failed start unless reject is false; resolves with exitCode"],
  violations: list.length, violation_list: list,
}, null, 1));
process.exit(code);
