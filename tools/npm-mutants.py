#!/usr/bin/env python3
"""Recall of C17: mutants of the npm wrapper in a scratch copy."""
import os, shutil, subprocess as sp, sys
R='/tmp/nr'
CLI='cli.ts'; IDX='index.ts'; EXE='getExePath.ts'; OPT='optionsToStringArgs.ts'
RUN='''  return execa(fileURLToPath(exePath), args, {
    stdio: "inherit",
    ...execaOptions,
  });'''
M={
'clean': [],
'refactor-reject-false': [(CLI,'''  const processResult = await runGitCliff(args);

  process.exit(processResult.exitCode ?? 0);''','''  const { exitCode, failed, signal } = await runGitCliff(args, { reject: false });
  if (failed && exitCode === undefined) console.error(`smd could not be run (${signal ?? "not started"})`);
  process.exit(exitCode ?? 1);''')],
'refactor-spawn': [(CLI,'import { runGitCliff } from "./index.js";','import { spawn } from "node:child_process";\nimport { fileURLToPath } from "node:url";\nimport { getExePath } from "./getExePath.js";'),(CLI,'''  const processResult = await runGitCliff(args);

  process.exit(processResult.exitCode ?? 0);''','''  const child = spawn(fileURLToPath(await getExePath()), args, { stdio: "inherit" });
  child.on("error", (e) => { console.error(e.message); process.exit(1); });
  child.on("exit", (code) => process.exit(code ?? 1));''')],
'signal-is-0': [(CLI,'await runGitCliff(args)','await runGitCliff(args, { reject: false })')],
'catch-0': [(CLI,'void run();','run().catch((e: Error) => { console.error(e.message); process.exitCode = Number((e as any).exitCode); });')],
'catch-code': [(CLI,'void run();','run().catch((e: any) => { console.error(e.message); process.exit(e.exitCode); });')],
'silent-catch': [(CLI,'void run();','run().catch(() => process.exit(1));')],
'arm-x64': [(EXE,'  const arch = getArch();','  const arch = getPlatform() === "win32" ? "x64" : getArch();')],
'no-exe-cygwin': [(EXE,'''    os = "windows";
    extension = ".exe";''','''    os = "windows";
    extension = platform === "win32" ? ".exe" : "";''')],
'filter-empty': [(CLI,'process.argv.slice(2)','process.argv.slice(2).filter(Boolean)')],
'trim': [(CLI,'process.argv.slice(2)','process.argv.slice(2).map((a) => a.trim())')],
'no-await': [(CLI,'const processResult = await runGitCliff(args);\n\n  process.exit(processResult.exitCode ?? 0);','void runGitCliff(args).then((r) => { process.exitCode = r.exitCode; });\n  setTimeout(() => process.exit(), 60_000).unref();')],
'shell-win': [(IDX,'    stdio: "inherit",','    stdio: "inherit",\n    shell: process.platform === "win32",')],
'timeout': [(IDX,'    stdio: "inherit",','    stdio: "inherit",\n    timeout: 30 * 60_000,')],
'cached-path-args': [(IDX,'''  const exePath = await getExePath();
  const args = Array''','''  args = Array'''),(IDX,RUN,'  const exePath = await getExePath();\n'+RUN),(IDX,'export type { Options } from "./options.js";','export type { Options } from "./options.js";\nlet args: string[] = [];')],
'dedupe': [(IDX,'  return execa(','  return (running ??= execa('),(IDX,'''    ...execaOptions,
  });''','''    ...execaOptions,
  }).finally(() => { running = undefined; }) as any);'''),(IDX,'export type { Options } from "./options.js";','export type { Options } from "./options.js";\nlet running: any;')],
'lock-queue': [(IDX,'export type { Options } from "./options.js";','export type { Options } from "./options.js";\nlet last: Promise<unknown> = Promise.resolve();'),(IDX,RUN,'''  const mine = last.then(() => execa(fileURLToPath(exePath), args, {
    stdio: "inherit",
    ...execaOptions,
  }));
  last = mine;
  return mine;''')],
'opt-empty': [(OPT,'value === false || value === null','!value')],
'opt-join': [(OPT,'''      for (const arrValue of value) {
        args.push(`--${hyphenCaseKey}`, arrValue);
      }''','''      args.push(`--${hyphenCaseKey}`, value.join(","));''')],
'opt-eq': [(OPT,'''key.replace(/([A-Z])/g, "-$1")''','''key.replace(/([A-Z]+)/g, "-$1")''')],
'options-order': [(IDX,'''    stdio: "inherit",
    ...execaOptions,''','''    ...execaOptions,
    stdio: "inherit",''')],
'pipe-print': [(CLI,'await runGitCliff(args);','await runGitCliff(args, { stdio: ["inherit", "pipe", "inherit"] });\n  process.stdout.write(processResult.stdout.trim());')],
'env-clean': [(IDX,'    stdio: "inherit",','    stdio: "inherit",\n    extendEnv: false,\n    env: { PATH: process.env.PATH, HOME: process.env.HOME },')],
'cwd-pkg': [(CLI,'await runGitCliff(args)','await runGitCliff(args, { cwd: import.meta.dirname })')],
'path-fallback': [(IDX,'  const exePath = await getExePath();','  const exePath = await getExePath().catch(() => "file:///usr/local/bin/smd");')],
'first-arch-cached': [(EXE,'''  try {''','''  if (process.env.CI) os = "linux";
  try {''')],
'retry-failed': [(IDX,RUN,'''  const start = () => execa(fileURLToPath(exePath), args, {
    stdio: "inherit",
    ...execaOptions,
  });
  return start().catch((e) => (e.exitCode === 101 || e.signal ? start() : Promise.reject(e)));''')],
'retry-eagain-ok': [(IDX,RUN,'''  const start = () => execa(fileURLToPath(exePath), args, {
    stdio: "inherit",
    ...execaOptions,
  });
  return start().catch((e) => (e.code === "EAGAIN" ? start() : Promise.reject(e)));''')],
'exit-127-ok': [(CLI,'process.exit(processResult.exitCode ?? 0);','process.exit(processResult.exitCode ?? 0);'),(CLI,'await runGitCliff(args)','await runGitCliff(args).catch((e) => { if (e.exitCode > 2) return e; throw e; })'),(CLI,'processResult.exitCode ?? 0','processResult.exitCode & 1')],
}
for k in sys.argv[1:] or M:
    shutil.rmtree(R,ignore_errors=True); os.makedirs(R+'/npm'); shutil.copytree('/repo/npm/smd',R+'/npm/smd')
    f=f'{R}/npm/smd/src/getExePath.ts'; t=open(f).read().replace('git-cliff','smd'); open(f,'w').write(t)
    for f,o,n in M[k]:
        f=f'{R}/npm/smd/src/{f}'; t=open(f).read(); assert t.count(o)==1,(k,f,t.count(o)); open(f,'w').write(t.replace(o,n))
    r=sp.run(['node','--no-warnings','--experimental-vm-modules','/verif/npmsim/sim.mjs','check','--evidence','/tmp/ev','--replays','/tmp/ev'],env=dict(os.environ,SMD_REPO=R),stdout=sp.PIPE,stderr=sp.STDOUT,text=True)
    print(k,r.returncode,r.stdout.strip().splitlines()[0][:170],flush=True)
