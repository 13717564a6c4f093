# sourced by the demos of the npm wrapper: builds it in $T/app with a small execa and
# a stand-in for the binary of this platform ($T/app/node_modules/smd-OS-ARCH/bin/smd)
cat > "$T/build.mjs" <<'X'
import fs from 'node:fs'; import module from 'node:module'; import os from 'node:os';
const [src, app] = process.argv.slice(2);
const lib = app + '/node_modules/smd/lib';
fs.mkdirSync(lib, { recursive: true });
fs.writeFileSync(app + '/node_modules/smd/package.json', '{"name":"smd","type":"module"}');
for (const f of fs.readdirSync(src)) fs.writeFileSync(`${lib}/${f.replace(/\.ts$/, '.js')}`, module.stripTypeScriptTypes(fs.readFileSync(`${src}/${f}`, 'utf8').replace(/^#!.*/, ''), { mode: 'transform' }));
const execa = app + '/node_modules/execa';
fs.mkdirSync(execa, { recursive: true });
fs.writeFileSync(execa + '/package.json', '{"name":"execa","version":"8.0.1","type":"module","exports":"./index.js"}');
fs.writeFileSync(execa + '/index.js', `import { spawn } from 'node:child_process';
export function execa(file, args, o = {}) {
  return new Promise((ok, no) => {
    const c = spawn(file, args, { ...o, env: { ...process.env, ...o.env } });
    const out = { stdout: '', stderr: '' };
    for (const k of ['stdout', 'stderr']) c[k]?.on('data', (d) => { out[k] += d; });
    const end = (exitCode, signal, code) => {
      const v = { ...out, exitCode, signal, failed: exitCode !== 0 };
      if (!v.failed || o.reject === false) ok(v);
      else no(Object.assign(new Error('Command failed: ' + file), v, { code }));
    };
    c.on('error', (e) => end(undefined, undefined, e.code));
    c.on('close', (code, signal) => end(code ?? undefined, signal ?? undefined));
  });
}
`);
const bin = `${app}/node_modules/smd-${os.platform()}-${os.arch()}/bin`;
fs.mkdirSync(bin, { recursive: true });
fs.writeFileSync(`${app}/node_modules/smd-${os.platform()}-${os.arch()}/package.json`, '{"name":"x"}');
fs.writeFileSync(bin + '/smd', '#!/bin/bash\n' + fs.readFileSync(0, 'utf8'), { mode: 0o755 });
X
npm_app() { node --no-warnings "$T/build.mjs" "$REPO/npm/smd/src" "$T/app"; WRAPPER="node --no-warnings $T/app/node_modules/smd/lib/cli.js"; }
