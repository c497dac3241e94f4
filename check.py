#!/usr/bin/env python3
"""Builds the monitored workload of one property from /repo's working tree, runs it, and reports.

  check.py C01 [--tier quick|thorough]     run the check (tier and seed default to VERIF_TIER, VERIF_SEED)
  check.py --replay replays/C01-....json   run again the one case of a reported violation

Exit 0: held on everything explored. Exit 1, with a line VIOLATION property=.. replay=..: broken.
Anything else: the check itself failed.
"""
import contextlib, json, os, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
TRIPLE = 'x86_64-unknown-linux-gnu'
# num-traits probes the compiler in a way that fails under -Zsanitizer; these are the probes' answers.
NUMCFG = ' '.join('--cfg ' + c for c in (
    'has_i128 has_to_int_unchecked has_reverse_bits has_leading_trailing_ones '
    'has_int_assignop_ref has_div_euclid has_copysign').split())

# property -> list of stages (kind, cases quick, seconds quick, cases thorough, seconds thorough)
STAGES = {
    'C01': [('native', 60000, 45, 1200000, 600)],
    'C02': [('native', 60000, 45, 1200000, 600)],
    'C03': [('native', 50000, 45, 1000000, 600)],
    'C04': [('native', 40000, 45, 800000, 600)],
    'C05': [('native', 40000, 45, 800000, 600)],
    'C06': [('native', 24000, 45, 480000, 600)],
    'C07': [('native', 48000, 45, 960000, 600)],
    'C08': [('native', 80000, 45, 1600000, 600)],
    'C09': [('native', 20000, 45, 400000, 600)],
    'C10': [('native', 24000, 45, 480000, 600)],
    'C11': [('native', 32000, 45, 640000, 600)],
    'C12': [('native', 24000, 45, 480000, 600)],
    'C13': [('asan', 8000, 30, 100000, 120), ('miri-sb', 800, 90, 8000, 240), ('miri-tb', 800, 90, 8000, 240)],
    'C14': [('native', 24000, 45, 480000, 600)],
    'C15': [('native', 8000, 20, 120000, 150), ('tsan', 1600, 30, 24000, 200), ('miri-sb', 32, 80, 800, 150)],
    'C16': [('native', 1600000, 45, 32000000, 600)],
    'C17': [('native', 500000, 45, 10000000, 600)],
    'C18': [('native', 600000, 45, 12000000, 600)],
    'C19': [('native', 32000, 45, 640000, 600)],
    'C20': [('native', 160000, 45, 3200000, 600)],
    'C21': [('native', 16000, 45, 320000, 600)],
    'C22': [('native', 16000, 45, 320000, 600)],
    'C23': [('native', 16000, 45, 320000, 600)],
    'C24': [('native', 10000, 45, 320000, 600)],
    'C25': [('native', 1600000, 45, 32000000, 600)],
}
# 'native' has debug assertions and overflow checks; a part of its cases (others) run in 'opt', which has neither,
# as users build the crate.
for p, st in STAGES.items():
    STAGES[p] = [y for (k, qc, qs, tc, ts) in st for y in (
        [(k, qc * 7 // 10, qs, tc * 7 // 10, ts * 7 // 10), ('opt', qc * 3 // 10, qs // 2, tc * 3 // 10, ts * 3 // 10)]
        if k == 'native' else [(k, qc, qs, tc, ts)])]
LEVEL = {'C14': 'fault_enumeration'}


class Broken(Exception):
    """The check itself could not be carried out."""


def env_for(kind, prop):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'MIRIFLAGS',
              'CARGO_PROFILE_RELEASE_DEBUG', 'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.setdefault('HOME', '/root')
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0',
             CARGO_TARGET_DIR=os.path.join(V, 'target', kind))
    if kind == 'opt':
        e.update(CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS='false', CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS='false',
                 CARGO_PROFILE_RELEASE_OPT_LEVEL='3')
    if kind == 'asan':
        e['RUSTFLAGS'] = '-Zsanitizer=address ' + NUMCFG
        # The workload forgets iterators and panics in user code; leaks are C14's, which counts allocated bytes.
        # as released: no overflow checks, so that sizes wrap here where they would wrap for users
        e['CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS'] = 'false'
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1'
    if kind == 'tsan':
        e['RUSTFLAGS'] = '-Zsanitizer=thread ' + NUMCFG
        e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66'
    if kind.startswith('miri'):
        e['MIRIFLAGS'] = '-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-symbolic-alignment-check' + (
            ' -Zmiri-tree-borrows' if kind == 'miri-tb' else '')
        # a fresh sandbox has no Miri sysroot; build it where we may write
        e['XDG_CACHE_HOME'] = os.path.join(V, 'target', 'xdg')
        e['CARGO_TARGET_DIR'] = os.path.join(V, 'target', 'miri')
    return e


def feats(kind, prop):
    f = prop.lower()
    if kind in ('asan', 'tsan'):
        f += ',plainalloc'
    return f


def cargo(kind, prop):
    """(command that builds, command prefix that runs)"""
    m = ['--manifest-path', os.path.join(V, 'harness', 'Cargo.toml'), '--offline', '--features', feats(kind, prop)]
    t = os.path.join(V, 'target', kind)
    if kind in ('native', 'opt'):
        return ['cargo', 'build', '--release', '-q'] + m, [t + '/release/rtv']
    if kind == 'asan':
        return (['cargo', '+nightly', 'build', '--release', '-q', '--target', TRIPLE] + m,
                [f'{t}/{TRIPLE}/release/rtv'])
    if kind == 'tsan':
        return (['cargo', '+nightly', 'build', '--release', '-q', '-Zbuild-std', '--target', TRIPLE] + m,
                [f'{t}/{TRIPLE}/release/rtv'])
    run = ['cargo', '+nightly', 'miri', 'run', '-q'] + m + ['--']
    return run + ['none', 'none'], run


MIRI_LOCK = threading.Lock()


def build(kind, prop):
    t0 = time.time()
    with MIRI_LOCK if kind.startswith('miri') else contextlib.nullcontext():
        return build1(kind, prop), time.time() - t0


def build1(kind, prop):
    b, run = cargo(kind, prop)
    if kind.startswith('miri'):
        s = subprocess.run(['cargo', '+nightly', 'miri', 'setup', '-q'], env=env_for(kind, prop), cwd=V,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if s.returncode != 0:
            raise Broken('miri setup failed:\n' + s.stdout[-4000:])
    r = subprocess.run(b, env=env_for(kind, prop), cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = r.returncode == 0 or (kind.startswith('miri') and 'unknown property' in r.stdout)
    if not ok:
        raise Broken(f'build failed ({kind}):\n' + r.stdout[-6000:])
    return run


def limits(kind):
    def f():
        if kind in ('native', 'opt'):
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def tier_arg(kind, tier):
    if kind.startswith('miri'):
        return 'tiny'
    return tier


def run_case(kind, prop, run, seed, tier, timeout):
    """(status, text): ok | fail | crash | hang"""
    try:
        r = subprocess.run(run + ['case', prop, str(seed), '--tier', tier_arg(kind, tier)], env=env_for(kind, prop),
                           cwd=V, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                           timeout=timeout, preexec_fn=limits(kind))
    except subprocess.TimeoutExpired:
        return 'hang', f'still running after {timeout} s'
    if r.returncode == 0:
        return 'ok', r.stdout
    if r.returncode == 1 and r.stdout.startswith('FAIL'):
        return 'fail', r.stdout[5:].strip()
    return 'crash', f'exit {r.returncode}: ' + (r.stderr[-3000:] or r.stdout[-1000:])


def summary(text):
    """The telling lines of a sanitizer report or a panic."""
    keep = [l for l in text.splitlines() if re.search(
        r'error:|ERROR: |WARNING: ThreadSan|SUMMARY|panicked|Undefined Behavior|memory allocation|-->|HANG|exit ', l)]
    return ' | '.join(k.strip() for k in keep[:8])[:1500] or text[-500:]


def stage(kind, prop, tier, seed, cases, secs, made, workers=8):
    run, built = made.result()
    if kind == 'opt':
        seed += 1000003
    work = os.path.join(V, 'target', 'run', f'{prop}-{kind}')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    ps = []
    for w in range(workers):
        out, prog, err = (os.path.join(work, f'{n}{w}') for n in ('out', 'prog', 'err'))
        cmd = run + ['run', prop, '--seed', str(seed), '--shard', str(w), '--shards', str(workers), '--cases', str(cases),
                     '--secs', str(secs), '--tier', tier_arg(kind, tier), '--out', out, '--hang', '120', '--prog', prog]
        ps.append((subprocess.Popen(cmd, env=env_for(kind, prop), cwd=V, stdin=subprocess.DEVNULL,
                                    stdout=subprocess.DEVNULL, stderr=open(err, 'wb'), preexec_fn=limits(kind)),
                   out, prog, err))
    t0 = time.time()
    end = t0 + secs + 150
    res, bad = [], []
    for w, (p, out, prog, err) in enumerate(ps):
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 4
        etxt = open(err, errors='replace').read()
        j = None
        if os.path.exists(out) and os.path.getsize(out):
            j = json.load(open(out))
            res.append(j)
        if rc == 0 and j:
            continue
        case = None
        if os.path.exists(prog):
            m = re.search(r'\d+', open(prog).read())
            case = int(m.group()) if m else None
        if j and j['failed']:
            bad.append(dict(kind=kind, case=j['failed']['case'], msg=j['failed']['msg'], how='fail'))
        elif rc == 4:
            bad.append(dict(kind=kind, case=case, msg='a case did not end', how='hang', worker=w))
        else:
            bad.append(dict(kind=kind, case=case, msg=f'exit {rc}: ' + summary(etxt), how='crash', worker=w))
    return run, built, res, bad


def confirm(b, prop, tier, run):
    """Runs a failing case once more by itself. Returns whether it is to be reported."""
    if b['how'] == 'fail':
        return True
    if b['case'] is not None:
        st, txt = run_case(b['kind'], prop, run, b['case'], tier, 150)
        if st != 'ok':
            b['msg'] = (txt if st == 'fail' else f'{st}: ' + summary(txt))
            return True
    if b['how'] == 'crash' and ('Sanitizer' in b['msg'] or 'Undefined Behavior' in b['msg']):
        return True  # a sanitizer's report stands, even if a leak or race needs the whole run to show
    if b['how'] == 'crash' and re.search(r'exit -(4|6|7|8|11)\b', b['msg']):
        return True  # memory was corrupted by an earlier case of the same run
    return False


def known():
    """Findings recorded in known_findings.txt: lines 'known: property=<id> <text the message contains>'."""
    k = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) (.*)', l.strip())
            if m:
                k.append(m.groups())
    return k


def replay_file(prop, tier, seed, b):
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    p = os.path.join(V, 'replays', f"{prop}-{b['kind']}-{b['case']}.json")
    json.dump(dict(property=prop, stage=b['kind'], case=b['case'], tier=tier, seed=seed, message=b['msg'],
                   replay=f'python3 /verif/check.py --replay {p}'), open(p, 'w'), indent=1)
    return p


RULE = {}


def check(prop, tier, seed):
    t0 = time.time()
    counts, maxima, samples, distinct = {}, {}, [], set()
    evals, stages, found, unsure = 0, [], [], []
    pool = ThreadPoolExecutor(4)
    # all of them are built at once; the Miri ones share a directory
    made = {k: pool.submit(build, k, prop) for k in dict.fromkeys(s[0] for s in STAGES[prop])}
    for (kind, qc, qs, tc, ts) in STAGES[prop]:
        cases, secs = (qc, qs) if tier == 'quick' else (tc, ts)
        run, built, res, bad = stage(kind, prop, tier, seed, cases, secs, made[kind])
        n = sum(r['cases'] for r in res)
        stages.append(dict(stage=kind, cases=n, build_s=round(built, 1), run_s=max([r['wall'] for r in res] or [0])))
        evals += n
        for r in res:
            s = r['stats']
            for k, v in s['counts'].items():
                counts[k] = counts.get(k, 0) + v
            for k, v in s['maxima'].items():
                maxima[k] = max(maxima.get(k, 0), v)
            distinct.update((kind.split('-')[0], d) for d in s['distinct'])
            samples += s['samples'][:1]
        for b in bad:
            (found if confirm(b, prop, tier, run) else unsure).append(b)
        if found:
            break
    pool.shutdown()
    viol = []
    for b in found:
        hit = [k for k in known() if k[0] == prop and k[1] in b['msg']]
        if hit:
            print(f'KNOWN-FINDING: property={prop} {hit[0][1]}')
            continue
        viol.append(dict(replay=replay_file(prop, tier, seed, b), stage=b['kind'], message=b['msg']))
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL.get(prop, 'exploration'),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct),
                            rule='a case counts as distinct and non-trivial by a fingerprint of what the monitor observed in it '
                                 '(inputs and events), if the tree it ran on had more than one node or the comparison was not vacuous',
                            samples=samples[:8] or ['-'], stages=stages, observed=counts, maxima=maxima,
                            worker_seed_rule='case i of stage s has seed mix(VERIF_SEED, property, i)'),
              wall_s=round(time.time() - t0, 1), violations=len(viol), violation_list=viol)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', f'{prop}.json'), 'w'), indent=1)
    for v in viol:
        print(f"{prop} ({v['stage']}): {v['message'][:1500]}")
    if viol:
        print(f"VIOLATION property={prop} replay={viol[0]['replay']}")
        return 1
    if unsure:
        print('not reproducible:', unsure)
        return 3
    if evals == 0 or not distinct:
        print('nothing was observed')
        return 3
    print(f"{prop}: held on {evals} cases ({len(distinct)} distinct, non-trivial), {ev['wall_s']} s; "
          + ', '.join(f'{k} {v}' for k, v in sorted(counts.items())[:12]))
    return 0


def replay(path):
    d = json.load(open(path))
    run, _ = build(d['stage'], d['property'])
    st, txt = run_case(d['stage'], d['property'], run, d['case'], d['tier'], 300)
    print(st, txt[:4000])
    if st != 'ok':
        print(f"VIOLATION property={d['property']} replay={path}")
    return 0 if st == 'ok' else 1


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == '--replay':
            return replay(a[1])
        tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
        return check(a[0], tier, int(os.environ.get('VERIF_SEED', '1')))
    except Broken as e:
        print('CHECK BROKEN:', e)
        return 2


sys.exit(main())
