#!/usr/bin/env python3
"""mkseed.py ID PROP FILE  (reads JSON on stdin: edits=[[file,old,new],...], needs, breaks, demo)
Makes /verif/seeded/ID from edits tried in a scratch copy; confirms that the
change builds, passes the stable tests, and that the demo separates the trees."""
import json, os, shutil, subprocess, sys, tempfile
sid, prop = sys.argv[1:3]
spec = json.load(sys.stdin)
out = '/verif/seeded/' + sid
tmp = tempfile.mkdtemp(prefix='seed-')
wt = os.path.join(tmp, 'repo')
subprocess.check_call(['git', 'clone', '-q', '/repo', wt])
for f, old, new in spec['edits']:
    p = os.path.join(wt, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, 'w').write(s.replace(old, new))
diff = subprocess.check_output(['git', 'diff'], cwd=wt).decode()
assert diff
env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(tmp, 'target'), RUST_BACKTRACE='0', CARGO_TERM_COLOR='never')
t = subprocess.run('cargo test --workspace --no-fail-fast --offline --lib', shell=True, cwd=wt, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
txt = t.stdout.decode()
fails = [l for l in txt.split('\n') if '... FAILED' in l or l.startswith('error')]
assert t.returncode == 0, txt[-3000:]
os.makedirs(out, exist_ok=True)
open(out + '/patch.diff', 'w').write(diff)
open(out + '/demo.rs', 'w').write(spec['demo'])
json.dump(dict(property=prop, needs=spec['needs'], what_it_breaks=spec['breaks']), open(out + '/meta.json', 'w'), indent=1)
open(out + '/demo.sh', 'w').write('''#!/bin/bash
# Builds demo.rs against the crates of the current directory (/repo) and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/demo/src"
cp "$here/demo.rs" "$tmp/demo/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/demo/Cargo.lock"
cat > "$tmp/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
at-x64 = { path = "$repo/at-x64" }
at-mac = { path = "$repo/at-mac" }
at-obj = { path = "$repo/at-obj" }
at-asm = { path = "$repo/at-asm" }
EOF
cd "$tmp/demo"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" RUST_BACKTRACE=0
cargo build --offline --quiet 2> "$tmp/log" || { cat "$tmp/log"; exit 2; }
if grep -q ATASM "$here/demo.rs"; then
  cargo build --offline --quiet --manifest-path "$repo/Cargo.toml" -p at-asm --bins --target-dir "$tmp/target" 2> "$tmp/log" || { cat "$tmp/log"; exit 2; }
fi
cd "$tmp"
ATASM="$tmp/target/debug/at-asm" timeout 120 "$tmp/target/debug/demo"
''')
os.chmod(out + '/demo.sh', 0o755)
a = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
b = subprocess.run(['bash', out + '/demo.sh'], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print('clean rc', a.returncode, '| patched rc', b.returncode, b.stdout.decode()[-300:])
ok = a.returncode == 0 and b.returncode not in (0, 2)
if not ok:
    print(a.stdout.decode()[-2000:])
shutil.rmtree(tmp)
print(sid, 'OK' if ok else 'BAD')
sys.exit(0 if ok else 1)
