#!/usr/bin/env python3
"""Dev helper: plant(id, property, path, old, new, needs, breaks, demo_body) makes and validates a seeded bug in a scratch copy of /repo.
No check uses this file."""
import os, subprocess, json, sys, shutil
SCR = '/tmp/plantrepo'
DEMO = r'''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
fundsp = { path = "$root", default-features = false, features = ["std"FEATS] }
TOML
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
cargo build --offline >"$tmp/log" 2>&1 || { tail -20 "$tmp/log"; exit 3; }
timeout 120 "$tmp/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def scratch():
    if not os.path.exists(SCR): sh('cp -a /repo ' + SCR)
    sh(f'cd {SCR} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
def plant(id, prop, edits, needs, breaks, demo, files=False):
    scratch()
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    open(d + '/main.rs', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO.replace('FEATS', ', "files"' if files else ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    a = sh(f'cd {SCR} && bash {d}/demo.sh')
    if a.returncode != 0: print(id, 'DEMO FAILS ON UNCHANGED', a.stdout[-1500:], a.stderr[-800:]); return False
    for path, old, new in edits:
        p = SCR + '/' + path; s = open(p).read()
        assert s.count(old) == 1, (id, path, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh(f'cd {SCR} && git diff').stdout)
    b = sh(f'cd {SCR} && bash {d}/demo.sh')
    if b.returncode in (0, 2, 3): print(id, 'DEMO DOES NOT FAIL / BUILD', b.returncode, b.stdout[-2500:]); return False
    t = sh(f'cd {SCR} && CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo test --workspace --no-fail-fast --offline -- --test-threads 8')
    if t.returncode != 0: print(id, 'TESTS FAIL', [l for l in t.stdout.splitlines() if 'FAILED' in l or 'panicked' in l][:8], t.stderr[-500:]); return False
    print(id, 'ok:', (b.stdout + b.stderr).strip().splitlines()[-2:])
    return True
def check(id, prop=None):
    """Run the check of the property against the planted bug in /repo."""
    d = '/verif/seeded/' + id
    prop = prop or json.load(open(d + '/meta.json'))['property']
    assert sh('git -C /repo status --porcelain').stdout.strip() == ''
    r = sh(f'git -C /repo apply {d}/patch.diff')
    assert r.returncode == 0, r.stderr
    try: o = sh(f'cd /verif && ./run.sh {prop}')
    finally: sh('git -C /repo checkout -- .')
    print(id, prop, 'CAUGHT' if o.returncode == 1 and 'VIOLATION property=' + prop in o.stdout else 'MISSED rc=%d' % o.returncode, '|', o.stdout.splitlines()[0][:160] if o.stdout else '')
if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
    for i in ids: check(i)
