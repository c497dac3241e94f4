#!/usr/bin/env python3
"""Mutation testing of the checks, by hand: mutate.py gen | tests SLOT SLOTS | checks SLOT SLOTS

gen:    small syntactic changes to /repo/src (outside tests), one file of JSON lines: /tmp/mut/all.jsonl
tests:  which of them compile and pass the stable tests       -> /tmp/mut/survive.SLOT.jsonl
checks: which property's native stage notices the survivors   -> /tmp/mut/result.SLOT.jsonl
Works on copies in /tmp/mut, laid over /repo in a mount namespace (run under unshare -m by itself).
"""
import json, os, re, time, shutil, subprocess, sys, hashlib
M = '/tmp/mut'

def code_lines(path):
    """(number, text) of lines outside tests and comments"""
    out, depth_test, skip = [], False, 0
    src = open(path).read().split('\n')
    for i, l in enumerate(src):
        if '#[cfg(test)]' in l:
            break
        s = l.strip()
        if s.startswith('//') or s.startswith('#[') or s.startswith('use ') or not s:
            continue
        out.append((i, l))
    return src, out

OPS = [(r' <= ', ' < '), (r' < ', ' <= '), (r' >= ', ' > '), (r' > ', ' >= '), (r' == ', ' != '), (r' != ', ' == '),
       (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r'\bmin\b\(', 'max('), (r'\bmax\b\(', 'min('), (r'\ball_le\(', 'all_ge('), (r'\ball_ge\(', 'all_le('),
       (r'componentwise_min\(', 'componentwise_max('), (r'componentwise_max\(', 'componentwise_min('),
       (r'\.min\b(?!\()', '.max'), (r'\.max\b(?!\()', '.min'), (r'\bif (?!let)', 'if !'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\bcontains\(', 'intersects('), (r'\bintersects\(', 'contains('), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'),
       (r'swap_remove\(', 'remove('), (r'min_by\(', 'max_by('), (r'min_by_key\(', 'max_by_key('), (r'find\(', 'rfind('),
       (r'\.position\(', '.rposition('), (r'leaf_len', 'x'), (r'left', 'right'), (r'right', 'left'), (r'lhs', 'rhs'), (r'rhs', 'lhs'),
       (r'Some\(', 'None.or(Some('), (r'\.iter\(\)', '.iter().skip(1)'), (r'\.iter\(\)', '.iter().rev()'), (r'\.cmp\(', '.partial_cmp('),
       (r'\bidx_1\b', 'idx_2'), (r'\bidx_2\b', 'idx_1'), (r'bounds_1', 'bounds_2'), (r'bounds_2', 'bounds_1'), (r'candidate_1', 'candidate_2'),
       (r'candidate_2', 'candidate_1'), (r'\bt1\b', 't2'), (r'\bt2\b', 't1'), (r'tmin', 'tmax'), (r'tmax', 'tmin'), (r'padding0', 'padding1'),
       (r'padding1', 'padding0'), (r'node0', 'node1'), (r'root0', 'root1'), (r'root1', 'root0'), (r'level', '(level + 1)'), (r'\bself\.level\b', '0'),
       (r'saturating_sub', 'wrapping_sub'), (r'cmp::max', 'cmp::min'), (r'cmp::min', 'cmp::max'), (r'\* ', '+ '), (r'f64::MAX', 'f64::INFINITY'),
       (r'0\.0', '1.0'), (r'1\.0', '0.5'), (r'break;', ''), (r'max\(1\)', 'max(0)'), (r'\bcap\b', 'len'), (r'\blen\b\(\)', 'cap()'),
       (r'as usize', 'as u8 as usize')]

def gen():
    seen, out = set(), []
    for f in sorted(os.listdir('/repo/src')) + ['geom/' + x for x in sorted(os.listdir('/repo/src/geom'))]:
        if not f.endswith('.rs'): continue
        p = '/repo/src/' + f
        src, lines = code_lines(p)
        def add(i, new, why):
            k = (f, i, new)
            if new != src[i] and k not in seen:
                seen.add(k)
                out.append(dict(file='src/' + f, line=i, old=src[i], new=new, why=why))
        for i, l in lines:
            if re.match(r'\s*(where|pub struct|struct|union|impl|type|pub\(crate\) (struct|type|enum)|enum|pub mod|mod|panic!|unsafe impl)', l) or re.match(r'\s*[A-Z]\w*: [\w<>]', l):
                continue
            for a, b in OPS:
                for m in re.finditer(a, l):
                    if b.startswith('None.or'): continue
                    add(i, l[:m.start()] + b + l[m.end():], f'{a} -> {b}')
            s = l.strip()
            if s.endswith(';') and not s.startswith(('let', 'return', 'type', 'const', '}', 'pub', 'static', '.')) and s.count('(') == s.count(')'):
                add(i, '', 'statement removed')
            if s.startswith('return') and s.endswith(';'):
                add(i, '', 'statement removed')
    with open(M + '/all.jsonl', 'w') as o:
        for n, m in enumerate(out):
            m['id'] = n
            o.write(json.dumps(m) + '\n')
    print(len(out))

def sh(cmd, t, env=None):
    try:
        r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, ''

def put(R, m):
    p = f'{R}/{m["file"]}'
    s = open('/repo.orig/' + m['file']).read().split('\n') if os.path.exists('/repo.orig') else None
    return p

# the stable tests of the library (the others are the benchmark and doc tests)
LIB = ['test_intersects', 'test_line_bounds_intersect', 'test_line_bounds_not_intersect', 'test_reusable_box', 'test_product_iter', 'get', 'get_mut',
       'insert', 'test_drop', 'clone', 'insert_unique', 'sorted_iter_asc', 'remove', 'join']

def tests(slot, slots):
    R = f'{M}/r{slot}'
    shutil.rmtree(R, ignore_errors=True)
    sh(f'cp -a /repo {R}; rm -rf {R}/target', 100)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_BUILD_JOBS='2')
    o = open(f'{M}/survive.{slot}.jsonl', 'a')
    done = set(json.loads(l)['id'] for l in open(f'{M}/survive.{slot}.jsonl'))
    ms = [json.loads(l) for l in open(M + '/all.jsonl')]
    for m in ms:
        if m['id'] % slots != slot or m['id'] in done: continue
        p = f'{R}/{m["file"]}'
        src = open('/repo/' + m['file']).read()
        ls = src.split('\n')
        ls[m['line']] = m['new']
        open(p, 'w').write('\n'.join(ls))
        rc, t = sh(f'cd {R} && cargo build --offline -q 2>&1', 120, env)
        if rc: m['st'] = 'nobuild'
        else:
            rc, t = sh(f'cd {R} && ulimit -v 8000000; timeout 60 cargo test --offline --lib --no-fail-fast 2>&1', 100, env)
            ok = set(x.split('::')[-1] for x in re.findall(r'^test (\S+) \.\.\. ok', t, re.M))
            m['st'] = 'survives' if all(b in ok for b in LIB) else 'killed'
        open(p, 'w').write(src)
        o.write(json.dumps(m) + '\n'); o.flush()
    print('done', slot)

PROPS = ['C01', 'C02', 'C03', 'C05', 'C07', 'C08', 'C09', 'C10', 'C16', 'C17', 'C18', 'C21', 'C22', 'C25', 'C04', 'C06', 'C11', 'C12', 'C14', 'C19', 'C20', 'C23', 'C24', 'C15']

GEO = ['C16', 'C17', 'C18', 'C25', 'C03', 'C05', 'C20', 'C22', 'C07']
# where to look first, to save time
FIRST = {'left_join': ['C08', 'C04'], 'src/join': ['C07', 'C04'], 'intersects': ['C17'], 'geom': ['C17'], 'fc_vec': ['C12', 'C14'],
         'bounds': ['C16', 'C17'], 'vector': ['C25', 'C16'], 'iter': ['C03', 'C05', 'C21'], 'node': ['C09', 'C02', 'C01']}

def checks(slot, slots):
    # in a mount namespace: /repo is a copy
    R = f'{M}/k{slot}'
    shutil.rmtree(R, ignore_errors=True)
    sh(f'cp -a /repo {R}; rm -rf {R}/target', 100)
    ms = {}
    for s in range(64):
        if os.path.exists(f'{M}/survive.{s}.jsonl'):
            for l in open(f'{M}/survive.{s}.jsonl'):
                m = json.loads(l)
                if m['st'] == 'survives': ms[m['id']] = m
    out = f'{M}/result.{slot}.jsonl'
    open(out, 'a').close()
    done = set(json.loads(l)['id'] for l in open(out))
    o = open(out, 'a')
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=f'{M}/t{slot}', CARGO_BUILD_JOBS='4', RUST_BACKTRACE='0')
    sh(f'rm -rf {M}/h{slot}; cp -a /verif/harness {M}/h{slot}; rm -rf {M}/h{slot}/target', 60)
    sh(f'sed -i "s#/repo#{R}#" {M}/h{slot}/Cargo.toml', 10)
    lvl = os.environ.get('LVL', '0')
    sh(f"sed -i 's/^opt-level = .*/opt-level = {lvl}/; s/^debug = .*/debug = false/' {M}/h{slot}/Cargo.toml", 10)
    for i in sorted(ms):
        m = ms[i]
        if i % slots != slot or i in done: continue
        p = f'{R}/{m["file"]}'
        src = open('/repo/' + m['file']).read()
        ls = src.split('\n')
        ls[m['line']] = m['new']
        open(p, 'w').write('\n'.join(ls))
        props = GEO if re.search('bounds|intersects|contains|geom|vector|filter', m['file']) else [q for q in PROPS if q not in ('C16', 'C17', 'C18', 'C25', 'C20', 'C15')]
        feats = ','.join(p.lower() for p in props)
        rc, t = sh(f'cargo build --release --offline -q --manifest-path {M}/h{slot}/Cargo.toml --features {feats} 2>&1', 300, env)
        hits = {}
        if rc: hits['build'] = t[-300:]
        else:
            b = f'{M}/t{slot}/release/rtv'
            ps = []
            first = [q for f, qs in FIRST.items() if f in m['file'] for q in qs]
            for q in [q for q in first if q in props] + [q for q in props if q not in first]:
                ps.append((q, subprocess.Popen(f'ulimit -v 6000000; timeout 60 {b} run {q} --seed 77 --shard 0 --shards 1 --cases 100000000 --secs 6 --hang 50', shell=True,
                          stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')))
                while sum(x.poll() is None for _, x in ps) >= 4:
                    time.sleep(0.05)
                if any(x.poll() not in (None, 0, 4, 124) for _, x in ps) and not os.environ.get('ALL'):
                    break
            while any(x.poll() is None for _, x in ps) and not any(x.poll() not in (None, 0, 4, 124) for _, x in ps): time.sleep(0.05)
            for q, x in ps:
                if x.poll() is None:
                    sh(f'pkill -P {x.pid}; kill {x.pid}', 5)
                    subprocess.run(['pkill', '-f', f'{b} run {q} '])
                    x.communicate()
                    continue
                t = x.communicate()[0]
                if x.returncode not in (0, 4, 124):
                    f = re.search(r'"msg":"(.{0,200})', t)
                    hits[q] = f.group(1) if f else f'exit {x.returncode}'
        m['hits'] = hits
        open(p, 'w').write(src)
        o.write(json.dumps(m) + '\n'); o.flush()
    print('done', slot)

a = sys.argv
if a[1] == 'gen': gen()
elif a[1] == 'tests': tests(int(a[2]), int(a[3]))
else: checks(int(a[2]), int(a[3]))
