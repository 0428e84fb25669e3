#!/usr/bin/env python3
"""newseed.py ID PROP 'needs' 'breaks' FILE OLD NEW < demo.rs : plants a bug in a scratch copy, checks everything, writes seeded/ID.
The demonstration is a unit test module compiled into a scratch copy of the crate (so it can name private items)."""
import sys, os, subprocess, json, shutil, tempfile
def run(c, cwd, t=900, env=None):
    p = subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env=env); return p.returncode, p.stdout + p.stderr
DEMO = '''#!/bin/bash
# Compiles demo.rs as a test module of a scratch copy of the crate; exit 0 iff it passes.
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d) || exit 9
trap 'rm -rf "$S"' EXIT
cp -r src build.rs Cargo.toml Cargo.lock "$S"/ || exit 9
for f in examples testdata research c; do [ -e "$f" ] && ln -s "$PWD/$f" "$S/$f"; done
cp "$D/demo.rs" "$S/src/verif_demo.rs"
printf '\\n#[cfg(test)]\\nmod verif_demo;\\n' >> "$S/src/lib.rs"
cd "$S" && CARGO_TARGET_DIR="$S/target" timeout 280 cargo test --offline --lib verif_demo 2>&1 | tail -30
exit ${PIPESTATUS[0]}
'''
def main():
    id, prop, needs, breaks, f, old, new = sys.argv[1:8]
    demo = sys.stdin.read()
    d = '/verif/seeded/' + id
    S = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        run('git -C /repo worktree list', '/')
        run('cp -a /repo/. %s/r' % S, '/') if False else None
        r = S + '/r'
        run('git clone -q /repo %s && cp /repo/Cargo.lock %s' % (r, r), '/')
        p = os.path.join(r, f); t = open(p).read()
        if t.count(old) != 1: print('OLD occurs', t.count(old)); return 1
        open(p, 'w').write(t.replace(old, new))
        rc, patch = run('git diff', r)
        D = S + '/d'; os.makedirs(D)
        open(D + '/demo.rs', 'w').write(demo); open(D + '/demo.sh', 'w').write(DEMO); os.chmod(D + '/demo.sh', 0o755)
        rc, o = run('bash %s/demo.sh' % D, r, 300)
        if rc == 0 or 'test result: FAILED' not in o and 'panicked' not in o: print('demo does not fail with the patch:', rc, o[-3000:]); return 1
        print('patched demo fails:', [l for l in o.splitlines() if 'panicked' in l or 'assert' in l][:2])
        e = dict(os.environ, CARGO_TARGET_DIR='/tmp/sd/target', CARGO_NET_OFFLINE='true')
        rc, o = run('timeout 150 cargo nextest run --workspace --offline --no-fail-fast --test-threads 8 2>&1 | tail -25', r, 900, e)
        print('\n'.join(o.splitlines()[-6:]))
        bad = [l for l in o.splitlines() if 'FAIL' in l or 'error' in l]
        if bad or 'passed' not in o: print('existing tests fail with the patch', bad[:5]); return 1
        run('git checkout -- .', r)
        rc, o = run('bash %s/demo.sh' % D, r, 300)
        if rc: print('demo fails on the unchanged tree', o[-3000:]); return 1
        os.makedirs(d, exist_ok=True)
        for x in ('demo.rs', 'demo.sh'): shutil.copy(D + '/' + x, d)
        open(d + '/patch.diff', 'w').write(patch)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        print('kept', d); return 0
    finally: shutil.rmtree(S, ignore_errors=True)
sys.exit(main())
