#!/usr/bin/env python3
"""make a planted bug:  mkseed.py SPEC.py   (SPEC defines id, prop, edits=[(file, old, new)], main, needs, breaks)"""
import sys, os, json, subprocess, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds a small program against the tree in the current directory; exit 0 iff the property holds on it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
svd-rs = { path = "$repo/svd-rs"%s }
svd-parser = { path = "$repo/svd-parser", features = ["expand"] }
svd-encoder = { path = "$repo/svd-encoder" }
%s
[workspace]
EOF
cp "$here/../../client/Cargo.lock" "$d/" 2>/dev/null
CARGO_TARGET_DIR="$d/t" cargo run --offline -q --manifest-path "$d/Cargo.toml"
'''
def make(id, prop, edits, main, needs, breaks, deps='', feats=''):
    out = os.path.join(HERE, 'seeded', id)
    os.makedirs(out, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/w', 'HEAD'], check=True)
    try:
        for f, a, b in edits:
            p = os.path.join(w, 'w', f); s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        d = subprocess.run(['git', '-C', w + '/w', 'diff'], stdout=subprocess.PIPE, text=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/w'])
        shutil.rmtree(w)
    open(out + '/patch.diff', 'w').write(d)
    open(out + '/main.rs', 'w').write(main)
    open(out + '/demo.sh', 'w').write(DEMO.replace('cp "$here/../../client/Cargo.lock" "$d/" 2>/dev/null\n', '') % (feats, deps)); os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
for s in ns['SEEDS']: make(**s); print(s['id'])
