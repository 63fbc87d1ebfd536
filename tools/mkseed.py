#!/usr/bin/env python3
"""mkseed.py ID...: (re)create planted changes from tools/seeds.py in a scratch copy of /repo: patch, build, tests, demo both ways; kept under seeded/ID when all is confirmed."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import seeds
R = os.environ.get('SCRATCH', '/tmp/seedrepo')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, cwd=R, **k)
def demo(d):
    r = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=R, capture_output=True, text=True); return r.returncode, (r.stdout + r.stderr)[-600:]
ENV = '. /opt/vp/env.sh; '
SH = '''#!/bin/bash
# run with the repository as working directory, after it was built: exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
CARGO_INCREMENTAL=0 cargo rustc --crate-type=cdylib --target wasm32-unknown-unknown --release --locked --offline -p %s >/dev/null 2>&1
exec node --no-warnings "$D/demo.js" "$PWD/target/wasm32-unknown-unknown/release/%s.wasm"
'''
KSH = '''#!/bin/bash
# run with the repository as working directory: the real upload tool against a recording agent, exit 0 when what it sends is the file
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export VERIF_REPO=$PWD TMPDIR=$T
bash "$D/build.sh" "$T" || exit 2
rc=0
%s
exit $rc
'''
for sid in sys.argv[1:] or list(seeds.SEEDS):
    s = seeds.SEEDS[sid]
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD')
    for f, old, new in s['edits']:
        p = os.path.join(R, f); t = open(p).read()
        assert t.count(old) == 1, (sid, f, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    patch = sh('git diff').stdout
    d = os.path.join(V, 'seeded', sid); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    crate = s.get('crate', 'core_nft')
    if 'kcases' in s:
        for x in ('harness.rs', 'agent.rs', 'build.sh'): shutil.copy(os.path.join(V, 'replica', 'upload', x), d)
        open(os.path.join(d, 'demo.sh'), 'w').write(KSH % '\n'.join('$T/upload %s || rc=1' % k for k in s['kcases']))
    elif 'sh' in s: open(os.path.join(d, 'demo.sh'), 'w').write(s['sh'])
    else:
        open(os.path.join(d, 'demo.sh'), 'w').write(SH % (crate, crate))
        for x in ('wasmfix.js', 'candid.js', 'ic.js', 'world.js', 'core.did') + (('index.did', 'ledger.did', 'iworld.js') if crate != 'core_nft' else ()): shutil.copy(os.path.join(V, 'replica', x), d)
        open(os.path.join(d, 'demo.js'), 'w').write("'use strict';\nconst assert=require('assert');const {World,A,B,C,D,ANON,P,acct,akey,sub,ZERO,canon}=require('./world.js');\n" + s.get('pre', '') + s['demo'].strip() + '\nconsole.log("ok");\n')
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    ok = True
    rc, out = demo(d)
    if rc == 0: ok = False; print(sid, 'demo passes with the patch', out)
    else: print(sid, 'with patch:', rc, out.strip().split('\n')[-12:][:12] if '-v' in os.environ.get('SEEDV', '') else [l for l in out.split('\n') if 'Error' in l][:1])
    b = sh(ENV + 'cargo test --workspace --exclude integration_tests --lib --bins --no-fail-fast --locked --offline -- --test-threads 8')
    if b.returncode: ok = False; print(sid, 'tests fail', b.stderr[-300:])
    sh('git checkout -q -- .')
    rc, out = demo(d)
    if rc: ok = False; print(sid, 'demo fails on the unchanged tree', out)
    print(sid, 'OK' if ok else 'BAD', flush=True)
