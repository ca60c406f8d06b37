#!/usr/bin/env python3
"""Helper for planting bugs: turns a description into /verif/seeded/<id>/ and
confirms in a scratch copy that it compiles, passes the existing tests and that
its demonstration tells the two trees apart.

usage: plant.py FILE.py [id...]   FILE.py defines BUGS = [dict(id, property,
needs, breaks, edits=[(file, old, new)...], demo)]
"""
import json, os, re, runpy, shutil, subprocess, sys
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
W = '/tmp/plant'
DEMO = '''#!/bin/bash
# Run with the repository as the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)" || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" "$w/files"
cp "$here/demo.rs" "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat >"$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
adextopa-core = { path = "$repo" }
regex = "1.5.4"
EOF
export CARGO_TARGET_DIR="$w/target"
(cd "$w" && timeout 200 cargo build --offline -q >"$w/log" 2>&1) || { tail -20 "$w/log"; exit 3; }
cd "$w/files" && timeout 60 "$w/target/debug/demo"
'''
def sh(c, cwd=W, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
def tests():
    r = sh('CARGO_TARGET_DIR=/tmp/plant/target cargo test --workspace --no-fail-fast --offline -- --test-threads 8')
    ok = set(re.findall(r'^test (\S+) \.\.\. ok', r.stdout, re.M))
    return ok, r
def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if not os.path.isdir(W):
        shutil.copytree('/repo', W, symlinks=True)
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target')
    base = None
    for b in bugs:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        sh('git checkout -q -f .')
        d = os.path.join(OUT, b['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.rs', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r = sh(f'bash {d}/demo.sh')
        if r.returncode != 0:
            print(b['id'], 'BAD: demo fails on the unchanged tree', r.returncode, r.stdout[-1500:], r.stderr[-1500:])
            continue
        if base is None:
            base, _ = tests()
        bad = False
        for f, old, new, *every in b['edits']:
            s = open(f'{W}/{f}').read()
            if s.count(old) != 1 and not (every and old in s):
                print(b['id'], 'BAD: found', s.count(old), 'times in', f, repr(old[:80])); bad = True; break
            open(f'{W}/{f}', 'w').write(s.replace(old, new))
        if bad: continue
        open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
        ok, r = tests()
        if base - ok:
            print(b['id'], 'BAD: tests fail', sorted(base - ok)[:5], r.stderr[-800:] if not ok else ''); continue
        r = sh(f'bash {d}/demo.sh')
        if r.returncode in (0, 3):
            print(b['id'], 'BAD: demo with the change gives', r.returncode, r.stdout[-800:]); continue
        # lines of the original repository
        print(b['id'], 'planted; demo:', r.returncode, (r.stdout + r.stderr)[-200:].replace('\n', ' | '))
    sh('git checkout -q -f .')
main()
