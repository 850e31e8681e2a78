#!/usr/bin/env python3
"""seed.py <name> : builds seeded/<name> from tools/bugs/<name>.py and validates it in a scratch copy (/tmp/seedwt)
   seed.py --check <name>: runs the property's check with the patch applied to /repo (undone afterwards)"""
import os, subprocess, sys, json, runpy, shutil
V = '/verif'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='1.85.0', CARGO_NET_OFFLINE='true')
DEMO = '''#!/bin/bash
# run with cwd = the repository after its build; exit 0 if the property holds for these inputs
d=$(cd "$(dirname "$0")" && pwd)
t=/tmp/cavc_demo_%(name)s
mkdir -p $t/src
cp "$d/demo.rs" $t/src/main.rs
cp Cargo.lock $t/Cargo.lock
cat > $t/Cargo.toml <<X
[package]
name = "cavc-demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
cavalier_contours = { path = "$PWD/cavalier_contours" }
%(dep)sX
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true
cargo run -q --offline --manifest-path $t/Cargo.toml
r=$?
rm -rf /tmp/cavc_demo_%(name)s
exit $r
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(name):
    b = runpy.run_path(f'{V}/tools/bugs/{name}.py')
    wt = '/tmp/seedwt'
    if not os.path.exists(wt): sh('cp -a /repo ' + wt)
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- .', cwd=wt)
    out = f'{V}/seeded/{name}'
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.rs', 'w').write(b['demo'])
    open(out + '/demo.sh', 'w').write(DEMO % {'name': name, 'dep': 'cavalier_contours_ffi = { path = "$PWD/cavalier_contours_ffi" }\n' if b.get('ffi') else ''})
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    r0 = sh(f'bash {out}/demo.sh', cwd=wt)
    if r0.returncode != 0:
        print(name, 'DEMO FAILS ON CLEAN TREE', r0.stdout[-1500:]); return False
    for f, old, new in b['edits']:
        p = f'{wt}/{f}'
        s = open(p).read()
        if s.count(old) != 1:
            print(name, 'anchor count', s.count(old), f); return False
        open(p, 'w').write(s.replace(old, new))
    d = sh('git diff', cwd=wt).stdout
    open(out + '/patch.diff', 'w').write(d)
    t = sh('cargo test --workspace --locked --offline 2>&1 | grep -E "^test result|FAILED|^error" ', cwd=wt)
    fails = [l for l in t.stdout.splitlines() if 'FAILED' in l or l.startswith('error')]
    r1 = sh(f'bash {out}/demo.sh', cwd=wt)
    sh('git checkout -q -- .', cwd=wt)
    print(name, 'tests:', 'PASS' if not fails else 'FAIL ' + str(fails[:4]), '| demo with patch rc', r1.returncode, r1.stdout.strip()[-200:].replace('\n', ' / '))
    ok = not fails and r1.returncode != 0
    if not ok: shutil.move(out, '/tmp/rejected_' + name) if not os.path.exists('/tmp/rejected_' + name) else shutil.rmtree(out)
    return ok
def check(name):
    m = json.load(open(f'{V}/seeded/{name}/meta.json'))
    assert sh('git -C /repo status --porcelain').stdout == ''
    r = sh(f'git -C /repo apply {V}/seeded/{name}/patch.diff')
    if r.returncode: print(name, 'does not apply', r.stdout); return
    try:
        import time
        t = time.time()
        r = subprocess.run(['python3', 'check.py', m['property']], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        print(name, m['property'], 'CAUGHT' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode, '%.0fs' % (time.time() - t), r.stdout.strip()[:300], r.stderr[-300:] if r.returncode not in (0, 1) else '', flush=True)
    finally:
        sh('git -C /repo checkout -- .')
if sys.argv[1] == '--check':
    for n in sys.argv[2:] or sorted(os.listdir(V + '/seeded')): check(n)
else:
    for n in sys.argv[1:]: make(n)
