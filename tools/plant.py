#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a bug description (a Python file), after confirming it in scratch copies.

A description defines PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], MAIN (source of the demonstration) and
optionally MIRI = True.  Usage: plant.py FILE.py...   (the id is the file's name)
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Run in the root of the repository: builds main.rs beside this file against it and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$here/main.rs" "$T/src/main.rs"; cp "$repo/Cargo.lock" "$T/" 2>/dev/null
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rusty-rtree = { path = "$repo" }
noisy_float = "0.2.0"
[workspace]
TOML
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" PATH="/root/.cargo/bin:$PATH"
unset RUSTFLAGS MIRIFLAGS
cd "$T" || exit 2
@RUN@
'''
RUN = '''cargo build --release --offline -q >"$T/log" 2>&1 || { tail -20 "$T/log"; exit 3; }
timeout 120 "$T/target/release/demo"'''
RUNMIRI = '''export XDG_CACHE_HOME="$T/cache" MIRIFLAGS="-Zmiri-ignore-leaks"
cargo +nightly miri setup >"$T/log" 2>&1 || { tail -20 "$T/log"; exit 3; }
timeout 200 cargo +nightly miri run --offline -q'''

def sh(cmd, cwd, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, env=dict(os.environ, CARGO_NET_OFFLINE='true'))
    return r.returncode, r.stdout

def main(path):
    name = os.path.basename(path)[:-3]
    d = {}
    exec(open(path).read(), d)
    W = '/tmp/plant-work'
    shutil.rmtree(W, ignore_errors=True)
    sh(f'cp -a /repo {W}', '/')
    sh('git checkout -q -- .', W)
    out = f'{V}/seeded/{name}'
    new = out + '.new'
    shutil.rmtree(new, ignore_errors=True)
    os.makedirs(new)
    open(new + '/main.rs', 'w').write(d['MAIN'].lstrip())
    open(new + '/demo.sh', 'w').write(DEMO.replace('@RUN@', d.get('RUN') or (RUNMIRI if d.get('MIRI') else RUN)))
    os.chmod(new + '/demo.sh', 0o755)
    rc, o = sh(f'bash {new}/demo.sh', W)
    if rc: print(name, 'BAD: demo fails on the unchanged tree\n', o[-3000:]); return 1
    for f, a, b in d['EDITS']:
        s = open(f'{W}/{f}').read()
        n = d.get('COUNT', {}).get(f, 1)
        if s.count(a) != n: print(name, f'BAD: {s.count(a)} matches of an edit in', f, repr(a[:80])); return 1
        open(f'{W}/{f}', 'w').write(s.replace(a, b))
    rc, diff = sh('git diff', W)
    open(new + '/patch.diff', 'w').write(diff)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    rc, o = sh('cargo test --offline --no-fail-fast 2>&1; cargo test --bench rtree --offline 2>&1', W)
    okd = set(t.split('::')[-1] for t in re.findall(r'^test (\S+) \.\.\. ok', o, re.M))
    okd |= set(m.split('::')[-1] for m in re.findall(r'^Testing (\S+)\nSuccess', o, re.M))
    miss = [t for t in base if t.split('::')[-1] not in okd]
    if miss: print(name, 'BAD: stable tests fail', miss[:5]); return 1
    rc, o = sh(f'bash {new}/demo.sh', W)
    if rc == 0 or rc == 3: print(name, 'BAD: demo says', rc, 'with the change', o[-1500:]); return 1
    json.dump(dict(property=d['PROP'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(new + '/meta.json', 'w'), indent=1)
    shutil.rmtree(out, ignore_errors=True)
    os.rename(new, out)
    print(name, 'ok:', o.strip()[-200:].replace('\n', ' | '))
    return 0

bad = 0
for p in sys.argv[1:]:
    bad |= main(p)
shutil.rmtree('/tmp/plant-work', ignore_errors=True)
sys.exit(bad)
