#!/usr/bin/env python3
"""Deterministic-simulation checks for Caligo.

  check.py <property> [quick|thorough]   run a check (exit 0 held, 1 violated, 2 error)
  check.py replay <file>                 re-execute a replay file in a fresh process
  check.py build [variant...]            only build
  check.py determinism [property...]     run samples twice, at two worker counts, and diff the event-log hashes
"""
import os, sys, json, time, subprocess, hashlib, shutil, fcntl, threading, queue, re

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(ROOT, 'build'))
EVID = os.environ.get('SIM_EVID', os.path.join(ROOT, 'evidence'))
sys.path.insert(0, os.path.join(ROOT, 'sim'))
from props import PROPS, COMPONENTS  # noqa

JOBS = int(os.environ.get('SIM_JOBS', '8'))
COMMON = ('-std=gnu++20 -g1 -fno-omit-frame-pointer -maes -mpclmul -msse4.2 -ftrivial-auto-var-init=pattern '
          '-include cstring -include algorithm -include memory -include variant -include filesystem -include stdexcept '
          '-include functional -include array -include cstdint -include span -include string -include vector -w ')
VARIANTS = {
    'fast':  dict(opt='-O2', cov='', link=''),
    'asan':  dict(opt='-O1 -fsanitize=address -D_GLIBCXX_SANITIZE_VECTOR=1 -D_GLIBCXX_SANITIZE_STD_ALLOCATOR=1', cov='', link='-fsanitize=address'),
    'sched': dict(opt='-O1 -DSIM_THREADS', cov='-fsanitize=thread -fsanitize-coverage=trace-pc-guard', link=''),
}

class CheckError(Exception):
    pass

def sync(src, dst, exts):
    """Copy by content, so that file times only move when the text does."""
    want = {}
    for d, _, fs in os.walk(src):
        for f in fs:
            if f.endswith(exts):
                want[os.path.relpath(os.path.join(d, f), src)] = os.path.join(d, f)
    have = set()
    for d, _, fs in os.walk(dst):
        for f in fs:
            have.add(os.path.relpath(os.path.join(d, f), dst))
    for r in have - set(want):
        os.remove(os.path.join(dst, r))
    for r, p in want.items():
        t = os.path.join(dst, r)
        data = open(p, 'rb').read()
        if r in have and open(t, 'rb').read() == data:
            continue
        os.makedirs(os.path.dirname(t), exist_ok=True)
        open(t, 'wb').write(data)

def build(targets):
    """targets: list of (scenario source name, variant). Returns {target: binary}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    stage = os.path.join(BUILD, 'stage')
    sync(os.path.join(REPO, 'include'), os.path.join(stage, 'include'), ('.h', '.hpp', '.inc', '.ipp'))
    sync(os.path.join(REPO, 'src'), os.path.join(stage, 'src'), ('.cpp', '.cc', '.h', '.hpp', '.inc'))
    srcs = sorted(f for f in os.listdir(os.path.join(stage, 'src')) if f.endswith(('.cpp', '.cc')))
    n = ['rule cxx', '  command = clang++-18 $flags -MD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
         'rule link', '  command = clang++-18 $flags $in -o $out -rdynamic -lcrypto -ldl -lpthread']
    outs = {}
    for v in sorted({t[1] for t in targets}):
        V = VARIANTS[v]
        keys = os.path.join(ROOT, 'sim', 'keys', 'keys.pem')
        base = f"{COMMON}{V['opt']} -I{stage}/include -I{stage}/src -I{ROOT}/sim/core"
        core = []
        for c in ('core', 'seams', 'sched', 'oracle'):
            o = f'{BUILD}/{v}/core/{c}.o'
            n += [f'build {o}: cxx {ROOT}/sim/core/{c}.cpp', f"  flags = {base} -DSIM_KEYS='\"{keys}\"' -DSIM_VARIANT='\"{v}\"'"]
            core.append(o)
        lib = []
        for s in srcs:
            o = f'{BUILD}/{v}/lib/{s}.o'
            n += [f'build {o}: cxx {stage}/src/{s}', f"  flags = {base} {V['cov']}"]
            lib.append(o)
        for s in sorted({t[0] for t in targets if t[1] == v}):
            o = f'{BUILD}/{v}/scen/{s}.o'
            n += [f'build {o}: cxx {ROOT}/sim/scen/{s}.cpp', f"  flags = {base} {V['cov']}"]
            b = f'{BUILD}/{v}/{s}'
            n += [f"build {b}: link {o} {' '.join(core + lib)}", f"  flags = {V['opt'].split()[0]} {V['link']}"]
            outs[(s, v)] = b
    nf = os.path.join(BUILD, f'build-{os.getpid()}.ninja')
    open(nf, 'w').write('builddir = ' + BUILD + '\n' + '\n'.join(n) + '\n')
    r = subprocess.run(['ninja', '-f', nf, '-j', str(JOBS)] + sorted(outs.values()), capture_output=True, text=True)
    os.remove(nf)
    fcntl.flock(lock, fcntl.LOCK_UN)
    if r.returncode:
        raise CheckError('build failed:\n' + r.stdout[-6000:] + r.stderr[-2000:])
    return outs

ENV = dict(os.environ, ASAN_OPTIONS='exitcode=77:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=1:quarantine_size_mb=8:handle_segv=1:max_allocation_size_mb=4096',
           MALLOC_ARENA_MAX='1', LC_ALL='C.UTF-8', TZ='UTC')

def classify(rc, err):
    if rc == 77:
        m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
        return 'crash:memory-error'
    if rc == -27:
        return 'crash:hang'
    if rc < 0:
        return f'crash:signal-{-rc}'
    return f'crash:exit-{rc}'

def replay_text(binary, text, cpu):
    p = os.path.join(BUILD, f'plan-{os.getpid()}-{threading.get_ident()}.txt')
    open(p, 'w').write(text)
    try:
        r = subprocess.run([binary, 'replay', '--plan', p, '--cpu', str(cpu)], capture_output=True, text=True, env=ENV, timeout=cpu * 20 + 60, errors='replace')
    except subprocess.TimeoutExpired:
        return dict(violation=True, cls='crash:hang', msg='no answer', hash='0')
    finally:
        os.remove(p)
    for l in r.stdout.splitlines():
        if l.startswith('RESULT '):
            d = json.loads(l[7:])
            if 'crash:' in d['cls'] and r.stderr:
                d['detail'] = '\n'.join(r.stderr.splitlines()[:25])
            return d
    return dict(violation=True, cls=classify(r.returncode, r.stderr), msg='ended without a result', hash='0', detail='\n'.join(r.stderr.splitlines()[:25]))

def replay_exact(binary, x, cpu, known=''):
    r = explore_one(binary, x['seed'], x['index'], x['tier'], cpu, known)
    return r or dict(violation=False, cls='', msg='', hash='0')

def explore_one(binary, seed, index, tier, cpu, known):
    r = subprocess.run([binary, 'explore', '--seed', str(seed), '--first', str(index), '--stride', '1', '--count', str(index + 1), '--tier', tier,
                        '--cpu', str(cpu), '--known', known], capture_output=True, text=True, env=ENV, timeout=cpu * 20 + 60, errors='replace')
    for l in r.stdout.splitlines():
        if l.startswith('VIOL '):
            v = json.loads(l[5:])
            return dict(violation=True, cls=v['cls'], msg=v['msg'], hash=v['hash'])
    return None

def minimise(binary, text, cls, cpu, budget):
    end = time.time() + budget
    tries = 0
    def bad(lines):
        nonlocal tries
        tries += 1
        r = replay_text(binary, '\n'.join(lines) + '\n', cpu)
        return r['violation'] and r['cls'] == cls
    lines = [l for l in text.split('\n') if l.strip()]
    n = 2
    while len(lines) >= 2 and time.time() < end:
        size = max(1, len(lines) // n)
        cut = False
        for i in range(0, len(lines), size):
            if time.time() > end:
                break
            cand = lines[:i] + lines[i + size:]
            if cand and bad(cand):
                lines, cut = cand, True
                n = max(n - 1, 2)
                break
        if not cut:
            if size == 1:
                break
            n = min(len(lines), n * 2)
    # smaller arguments
    for i in range(len(lines)):
        toks = lines[i].split(' ')
        if toks[0] == 'switch':
            continue
        for j in range(1, len(toks)):
            if '=' not in toks[j] or time.time() > end:
                continue
            k, v = toks[j].split('=', 1)
            v = int(v)
            for c in sorted({0, 1, v // 16, v // 2, v - 1}):
                if 0 <= c < v and time.time() < end:
                    t2 = toks[:j] + [f'{k}={c}'] + toks[j + 1:]
                    cand = lines[:i] + [' '.join(t2)] + lines[i + 1:]
                    if bad(cand):
                        lines, toks = cand, t2
                        break
    return '\n'.join(lines) + '\n', tries

def explore(binary, seed, count, tier, wall, cpu, workers=None, known='', hashes=False):
    workers = workers or JOBS
    res = dict(runs=0, nontrivial=0, steps=0, simtime=0, faults={}, probes={}, known={}, capped=False, samples=[], shapes=set(), viol=[], hashes={})
    lk = threading.Lock()
    stop = threading.Event()
    procs = []
    def work(w):
        cmd = [binary, 'explore', '--seed', str(seed), '--first', str(w), '--stride', str(workers), '--count', str(count),
               '--tier', tier, '--wall', str(int(wall)), '--cpu', str(cpu), '--known', known] + (['--hashes', '1'] if hashes else [])
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=ENV, errors='replace')
        with lk:
            procs.append(p)
            if stop.is_set():
                p.kill()
        at, done = None, False
        killer = threading.Timer(wall + cpu * 4 + 60, p.kill)
        killer.start()
        for l in p.stdout:
            if l.startswith('AT '):
                at = int(l[3:])
            elif l.startswith('HASH '):
                _, i, h = l.split()
                res['hashes'][int(i)] = h
            elif l.startswith('VIOL '):
                d = json.loads(l[5:])
                with lk:
                    res['viol'].append(d)
                    stop.set()
                    for q in procs:
                        q.kill()
            elif l.startswith('DONE '):
                done = True
                d = json.loads(l[5:])
                with lk:
                    for k in ('runs', 'nontrivial', 'steps', 'simtime'):
                        res[k] += d[k]
                    for m in ('faults', 'probes', 'known'):
                        for k, v in d[m].items():
                            res[m][k] = res[m].get(k, 0) + v
                    res['capped'] |= d['capped']
                    if d['sample']:
                        res['samples'].append(d['sample'])
                    s = d['shapes']
                    res['shapes'].update(s[i:i + 16] for i in range(0, len(s), 16))
        killer.cancel()
        rc = p.wait()
        if not done and not stop.is_set():
            with lk:
                res['viol'].append(dict(index=at if at is not None else -1, cls=classify(rc, ''), msg='worker died', plan=None))
            stop.set()
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res

def load_known(pid):
    p = os.path.join(ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) class=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def run_check(pid, tier):
    P = PROPS[pid]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    known = load_known(pid)
    kn = ','.join(k for k, _ in known)
    parts = P['parts']
    bins = build([(p['src'], p['variant']) for p in parts])
    tb = time.time() - t0
    total = dict(runs=0, nontrivial=0, steps=0, simtime=0, faults={}, probes={}, known={}, shapes=set(), samples=[], capped=False)
    viol = None
    per_part = []
    tmax = P.get('wall', {}).get(tier, 300 if tier == 'quick' else 2400)
    for p in parts:
        b = bins[(p['src'], p['variant'])]
        cpu = p.get('cpu', 60)
        ts = time.time()
        r = explore(b, seed, p[tier], tier, tmax * p.get('share', 1.0 / len(parts)), cpu, known=kn)
        per_part.append(dict(scenario=p['src'], build=p['variant'], runs=r['runs'], seconds=round(time.time() - ts, 1), distinct=len(r['shapes']), stopped_at_time_cap=r['capped']))
        for k in ('runs', 'nontrivial', 'steps', 'simtime'):
            total[k] += r[k]
        for m in ('faults', 'probes', 'known'):
            for k, v in r[m].items():
                total[m][k] = total[m].get(k, 0) + v
        total['shapes'] |= {p['variant'] + s for s in r['shapes']}
        total['samples'] += r['samples'][:2]
        total['capped'] |= r['capped']
        if r['viol']:
            viol = (p, b, cpu, sorted(r['viol'], key=lambda d: d['index'])[0])
            break
    texp = time.time() - t0 - tb
    code = 0
    vinfo = None
    if viol:
        p, b, cpu, d = viol
        plan = d.get('plan')
        if plan is None:
            if d['index'] < 0:
                raise CheckError('the simulator could not start: ' + d['cls'])
            plan = subprocess.run([b, 'gen', '--seed', str(seed), '--index', str(d['index']), '--tier', tier], capture_output=True, text=True, env=ENV).stdout
        a1, a2 = replay_text(b, plan, cpu), replay_text(b, plan, cpu)
        exact = None
        if a1['violation'] and a2['violation']:
            # Damaged memory may show differently in the explorer and in a fresh process (another heap layout); the class of the fresh
            # process is what a replay reproduces.
            cls = d['cls'] if d['cls'] in (a1['cls'], a2['cls']) else a1['cls']
        else:
            # The plan alone does not show it: repeat it exactly as the explorer ran it (same seed, same index).
            exact = dict(seed=seed, index=d['index'], tier=tier)
            a1, a2 = replay_exact(b, exact, cpu, kn), replay_exact(b, exact, cpu, kn)
            if not (a1['violation'] and a2['violation']):
                raise CheckError(f"violation {d['cls']} ({d['msg']}) at seed {seed} run {d['index']} did not replay: {a1} / {a2}")
            cls = a1['cls']
        mini, tries = plan, 0
        if exact is None and 'hang' not in cls and a1['cls'] == a2['cls'] and not a1['msg'].startswith('no-minimise'):
            mini, tries = minimise(b, plan, cls, cpu, 40 if tier == 'quick' else 300)
        a3 = replay_text(b, mini, cpu) if exact is None else a1
        if not (a3['violation'] and a3['cls'] == cls):
            mini, a3 = plan, a1
        rd = os.path.join(EVID, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"{pid}-{re.sub('[^A-Za-z0-9]+', '-', cls)}.plan")
        with open(rp, 'w') as f:
            f.write(f"# property={pid} scenario={p['src']} variant={p['variant']} class={cls}\n{'# exact' if exact else '#'} seed={seed} run={d['index']} tier={tier} hash={a3['hash']}\n# {a3['msg']}\n")
            for l in (a3.get('detail') or '').splitlines():
                f.write('# ' + l + '\n')
            f.write(mini)
        print(f"{pid}: {cls}: {a3['msg']}")
        print(f"  seed {seed}, run {d['index']}, minimised from {len(plan.splitlines())} to {len(mini.splitlines())} plan lines in {tries} replays; same event log on both replays: {a1['hash'] == a2['hash']}")
        print(f"  replay with: python3 {ROOT}/check.py replay {rp}")
        print(f"VIOLATION property={pid} replay={rp}")
        vinfo = dict(cls=cls, msg=a3['msg'], seed=seed, run=d['index'], replay=rp)
        code = 1
    else:
        for k, what in known:
            print(f"KNOWN-FINDING: property={pid} {what} (reached {total['known'].get(k, 0)} times in this run)")
        missing = [k for k in P.get('must_reach', []) if not (total['probes'].get(k) or total['faults'].get(k))]
        if missing and not total['capped']:
            raise CheckError('these conditions were never reached, the exploration is not meaningful: ' + ', '.join(missing))
    wall = time.time() - t0
    hours = max(texp, 0.001) / 3600
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=1 if vinfo else 0,
              coverage=dict(
                  evaluations=total['runs'], distinct_nontrivial=len(total['shapes']),
                  rule=P['rule'], samples=[s for s in total['samples']][:3],
                  runs_with_faults_or_preemptions=total['nontrivial'], operations=total['steps'],
                  simulated_runs_per_hour=int(total['runs'] / hours), seeds_per_hour=int(total['runs'] / hours),
                  simulated_time=f"{total['simtime']} {P.get('timeunit', 'steps')}",
                  faults_injected=dict(sorted(total['faults'].items())), conditions_reached=dict(sorted(total['probes'].items())),
                  parts=per_part, stopped_at_time_cap=total['capped'], build_s=round(tb, 1), explore_s=round(texp, 1),
                  components_real=COMPONENTS['real'] + P.get('real', []), components_stub=P.get('stub', []) + COMPONENTS['stub'],
                  known_findings_reached=total['known']),
              assumptions=P.get('assumptions', []) + COMPONENTS['assumptions'])
    if vinfo:
        ev['coverage']['violation'] = vinfo
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f'.{pid}.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(EVID, f'{pid}.json'))
    print(f"{pid} {tier}: {'VIOLATED' if code else 'held'} on {total['runs']} runs ({len(total['shapes'])} distinct), build {tb:.1f}s, explore {texp:.1f}s, faults {sum(total['faults'].values())}")
    return code

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == 'replay':
        text = open(a[1]).read()
        m = re.search(r'property=(\S+) scenario=(\S+) variant=(\S+) class=(\S+)', text)
        b = build([(m.group(2), m.group(3))])[(m.group(2), m.group(3))]
        x = re.search(r'^# exact seed=(\d+) run=(\d+) tier=(\S+)', text, re.M)
        r = replay_exact(b, dict(seed=x.group(1), index=int(x.group(2)), tier=x.group(3)), 120) if x else replay_text(b, text, 120)
        print(json.dumps(r, indent=1))
        return 1 if r['violation'] else 0
    if a[0] == 'build':
        sel = a[1:]
        build(sorted({(p['src'], p['variant']) for k, P in PROPS.items() for p in P['parts'] if not sel or k in sel}))
        return 0
    if a[0] == 'determinism':
        ids = a[1:] or sorted(PROPS)
        bad = 0
        for pid in ids:
            for p in PROPS[pid]['parts']:
                b = build([(p['src'], p['variant'])])[(p['src'], p['variant'])]
                n = min(p['quick'], int(os.environ.get('SIM_DET', '400')))
                tot = diff = 0
                for seed in (1, 2, 77, 20261118):
                    x = explore(b, seed, n, 'quick', 120, p.get('cpu', 60), workers=8, hashes=True)['hashes']
                    y = explore(b, seed, n, 'quick', 120, p.get('cpu', 60), workers=3, hashes=True)['hashes']
                    both = set(x) & set(y)
                    tot += len(both)
                    dd = [i for i in both if x[i] != y[i]]
                    diff += len(dd)
                    if dd:
                        print(f'  {pid} {p["variant"]} seed {seed}: differing runs {sorted(dd)[:10]}')
                print(f'{pid} {p["src"]} {p["variant"]}: {tot} runs twice (8 and 3 workers), {diff} differ')
                bad += diff
        return 2 if bad else 0
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if pid not in PROPS:
        print('unknown property', pid)
        return 2
    try:
        return run_check(pid, tier)
    except CheckError as e:
        print('ERROR:', e)
        return 2

if __name__ == '__main__':
    sys.exit(main())
