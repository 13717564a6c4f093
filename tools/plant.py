#!/usr/bin/env python3
"""plant.py new ID...   verifies plants (tools/plants.py) in a scratch copy and writes seeded/ID
   plant.py run [ID...] runs the property's check against each, one after another"""
import json, os, subprocess as sp, sys, shutil, time
V = '/verif'; S = '/tmp/scratch'
env = dict(os.environ, RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_PROFILE_TEST_DEBUG='line-tables-only')
def sh(c, cwd=S, t=900): return sp.run(c, shell=True, cwd=cwd, env=env, stdout=sp.PIPE, stderr=sp.STDOUT, timeout=t, text=True, errors='replace')

def results():
    sh('timeout 300 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > target/vp-test.log 2>&1')
    sp.run(['python3', '/opt/vp/results.py', '/tmp/plant.json', f'cargo:{S}/target/vp-test.log'], stdout=sp.DEVNULL)
    return set(json.load(open('/tmp/plant.json'))['passed'])

def new(ids):
    sys.path.insert(0, V + '/tools')
    import plants
    if not os.path.exists(S): sp.run(['cp', '-a', '/repo', S], check=True)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids or [k for k in plants.P if not os.path.exists(f'{V}/seeded/{k}/patch.diff')]:
        p = plants.P[i]
        sh('git checkout -q -- . && git clean -fdq -e target && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
        d = f'/tmp/plant/{i}'
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n' + p['demo'].strip() + '\nexit 0\n')
        for f in ['lib.sh'] + p.get('with', []): shutil.copy(f'{V}/tools/demo/{f}', d)
        for n, c in p.get('files', {}).items():
            os.makedirs(os.path.dirname(f'{d}/{n}') or d, exist_ok=True); open(f'{d}/{n}', 'w').write(c)
        a = sh(f'timeout 300 bash {d}/demo.sh')
        ok = a.returncode == 0
        for f, old, nw in p['edits']:
            s = open(f'{S}/{f}').read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(f'{S}/{f}', 'w').write(s.replace(old, nw))
        b = sh('cargo test --workspace --no-run --offline')
        miss = stable - results() if b.returncode == 0 else stable
        c = sh(f'timeout 300 bash {d}/demo.sh') if b.returncode == 0 else None
        good = ok and b.returncode == 0 and not miss and c.returncode not in (0, 2)
        print(i, 'GOOD' if good else 'BAD', 'clean', a.returncode, 'build', b.returncode, 'tests missing', len(miss), 'patched', c and c.returncode, flush=True)
        if not good:
            print('   clean:', a.stdout[-1500:]); print('   build:', b.stdout[-2500:] if b.returncode else ''); print('   patched:', c and c.stdout[-1500:], list(miss)[:3])
            continue
        print('   ', c.stdout.strip().splitlines()[-1][:200] if c.stdout.strip() else '')
        o = f'{V}/seeded/{i}'
        shutil.rmtree(o, ignore_errors=True); shutil.copytree(d, o)
        open(o + '/patch.diff', 'w').write(sh('git diff').stdout)
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        sh('git checkout -q -- .')

def run(ids):
    for i in ids or sorted(os.listdir(V + '/seeded')):
        m = json.load(open(f'{V}/seeded/{i}/meta.json'))
        props = m['property'].split() if not os.environ.get('PROPS') else os.environ['PROPS'].split()
        assert not sh('git status --short', '/repo').stdout.strip()
        a = sh(f'git apply {V}/seeded/{i}/patch.diff', '/repo')
        if a.returncode: print(i, 'does not apply', a.stdout); continue
        try:
            for p in props:
                t = time.time()
                r = sh(f'bash check.sh {p} quick', V, 1200)
                v = [l for l in r.stdout.splitlines() if l.startswith('seed ') or 'VIOLATION' in l]
                print(f'{i} {p}: rc {r.returncode} {time.time()-t:.0f}s', (v[0][:230] if v else r.stdout[-300:]), flush=True)
        finally:
            sh('git checkout -q -- .', '/repo')

{'new': new, 'run': run}[sys.argv[1]](sys.argv[2:])
