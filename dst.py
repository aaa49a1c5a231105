#!/usr/bin/env python3
"""Driver of the deterministic simulations.

  dst.py check C01 [--tier quick|thorough] [--seconds N]   decide one property
  dst.py replay FILE                                        run a replay file again
  dst.py build                                              build everything (setup)
"""
import json, os, re, struct, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build, propinfo
NPROC = 8
ENV = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG')}

def err(*a):
    print(*a, file=sys.stderr, flush=True)

def classify(rc, out):
    """message and class (what stays the same when a schedule is minimised) of one run; None when it was fine"""
    if rc == 0: return None
    m = re.search(r'^VIOL (.*)$', out, re.M)
    if m:
        msg = m.group(1)
        c = re.sub(r'^(verify \S+ )?line \d+ \(.*?\): ', '', msg)
        c = re.sub(r'\{[^}]*\}', '{}', c)
        c = re.sub(r'\[[^\]]*\]', '[]', c)
        c = re.sub(r'/sim/\S+', 'F', c)
        return msg, re.sub(r'-?\d+(\.\d+)?', 'N', c)[:90]
    m = re.search(r'^(HANG.*)$', out, re.M)
    if m or rc == 77: return 'the library made no progress (CPU limit of the simulated world exceeded)', 'HANG'
    m = re.search(r'runtime error: (.*)$', out, re.M)
    fn = re.search(r'#\d+ 0x\w+ in (\S+).* (/repo/\S+?|\S*/src/\S+?|\S*/generated/\S+?):\d+', out)
    where = f' in {fn.group(1)}' if fn else ''
    if m: return 'undefined behaviour: ' + m.group(1) + where, 'UB ' + re.sub(r'0x\w+|\d+', 'N', m.group(1))[:60] + where
    m = re.search(r'SUMMARY: AddressSanitizer: (\S+)', out) or re.search(r'ERROR: AddressSanitizer: (\S+)', out)
    if m: return 'memory error: ' + m.group(1) + where, 'ASAN ' + m.group(1) + where
    m = re.search(r'terminate called.*', out)
    if m: return 'the process was terminated by an exception: ' + m.group(0)[:120], 'TERMINATE'
    return f'the process ended with status {rc}', f'DIED {rc}'

def sh(cmd, timeout=400):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV)
        return p.returncode, p.stdout.decode('latin-1')
    except subprocess.TimeoutExpired as e:
        return 77, (e.stdout or b'').decode('latin-1') + '\nHANG: wall clock\n'

def minimise(exe, lines, cls, tmp, budget):
    """ddmin over the lines of a scenario; the first failing prefix keeps its class"""
    end = time.time() + budget
    cnt = [0]
    def fails(ls):
        cnt[0] += 1
        f = os.path.join(tmp, f'm{cnt[0]}.txt')
        with open(f, 'w', encoding='latin-1') as o: o.write('\n'.join(ls) + '\n')
        r = classify(*sh([exe, 'run', f], 200))
        os.unlink(f)
        return bool(r and r[1] == cls)
    n = 2
    with ThreadPoolExecutor(NPROC) as ex:
        while len(lines) > 1 and time.time() < end:
            k = max(1, len(lines) // n)
            cuts = [(i, min(i + k, len(lines))) for i in range(0, len(lines), k)]
            done = False
            for g in range(0, len(cuts), NPROC):
                if time.time() > end: return lines
                grp = cuts[g:g + NPROC]
                ok = list(ex.map(lambda c: fails(lines[:c[0]] + lines[c[1]:]), grp))
                hit = [c for c, o in zip(grp, ok) if o]
                if hit:
                    both = list(lines)
                    for a, b in reversed(hit): both[a:b] = []
                    if len(hit) > 1 and both and fails(both): lines = both
                    else: a, b = hit[0]; lines = lines[:a] + lines[b:]
                    done = True
                    break
            if done: n = max(2, n - 1)
            elif k == 1: break
            else: n = min(len(lines), n * 2)
    return lines

def known():
    r = []
    try:
        for l in open(os.path.join(V, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) class=(".*?") (.*)', l.strip())
            if m: r.append((m.group(1), json.loads(m.group(2)), m.group(3)))
    except OSError: pass
    return r

def replay_header(prop, seed, variant, engine, msg):
    return [f'# property {prop} seed {seed} variant {variant} engine {engine}', f'# violation: {msg}',
            f'# reproduce: python3 /verif/dst.py replay THIS_FILE']

class ErrExit(Exception): pass

def check(prop, tier, seconds):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    info = propinfo.P[prop]
    secs = seconds or info['quick' if tier == 'quick' else 'thorough']
    tmp = tempfile.mkdtemp(prefix='dst-')
    stats, trans, worlds, fails, hashes, seeds = {}, set(), set(), [], {}, 0
    mykn = [k for k in known() if k[0] == prop]
    for k in mykn: print(f'KNOWN-FINDING: property={prop} {k[2]}')
    kn = {k[1] for k in mykn}
    try:
        engines = info['engines']   # [(engine, share of the time)]
        total = sum(s for _, s in engines)
        tbuild = 0.0
        samples = []
        for engine, share in engines:
            tb = time.time()
            exe = build.build(engine)
            tbuild += time.time() - tb
            budget = secs * share / total
            end = time.time() + budget
            stop = []
            def worker(w):
                off, r = w, []
                while time.time() < end and not stop:
                    stf, svf = os.path.join(tmp, f'st{engine}{w}'), os.path.join(tmp, f'sv{engine}{w}')
                    rc, out = sh([exe, 'batch', prop, str(seed), str(off), str(NPROC), '100000000', f'{max(1.0, end - time.time()):.1f}', stf, svf], budget + 300)
                    v = None
                    m = re.search(r'^VIOLSEED (\d+) (-?\d+) (.*)$', out, re.M)
                    if m: v = (int(m.group(1)), int(m.group(2)), svf, classify(1, 'VIOL ' + m.group(3)))
                    elif rc != 0:
                        with open(stf, 'rb') as f: sd, var, _ = struct.unpack('Qii', f.read(16))
                        sh([exe, 'seed', prop, str(sd), str(var), svf + 'x'])
                        v = (sd, var, svf + 'x', classify(rc, out))
                    r.append((out, v))
                    if not v: break
                    off = v[0] - seed * 1000003 + NPROC
                    if v[3][1] not in kn: stop.append(1)
                return r
            with ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(worker, range(NPROC)))
            for rr in res:
                for out, v in rr:
                    for a, b in re.findall(r'^stat (-?\d+) (.*)$', out, re.M): stats[b] = stats.get(b, 0) + int(a)
                    trans.update(re.findall(r'^T (\w+)$', out, re.M))
                    worlds.update(re.findall(r'^W (\w+)$', out, re.M))
                    for a, b in re.findall(r'^seedhash (\d+) (\w+)$', out, re.M): hashes[(engine, int(a))] = b
                    m = re.search(r'^seeds (\d+)$', out, re.M)
                    if m: seeds += int(m.group(1))
                    if v and v[3][1] not in kn: fails.append((engine, exe) + v)
            sf = os.path.join(tmp, 'sample')
            sh([exe, 'seed', prop, str(seed * 1000003), '-1', sf])
            if os.path.exists(sf):
                with open(sf, encoding='latin-1') as f: samples.append([l.rstrip('\n')[:100] for l in f][:40])
            # determinism: the first seeds again, in fresh processes
            todo = [k for k in sorted(hashes) if k[0] == engine][:16]
            def again(k):
                rc, out = sh([exe, 'seed', prop, str(k[1]), '-2'])
                m = re.search(r'^hash (\w+)$', out, re.M)
                return (k, m.group(1) if m else f'exit {rc}')
            if not fails:
                with ThreadPoolExecutor(NPROC) as ex:
                    for k, h in ex.map(again, todo):
                        if h != hashes[k]: raise ErrExit(f'seed {k[1]} of {prop} is not deterministic: {hashes[k]} / {h}')
            if fails: break
        rep = None
        if fails:
            fails.sort(key=lambda f: (f[5][1] == 'HANG', f[2]))
            bad = []
            def twice(exe, sv):
                with ThreadPoolExecutor(2) as ex: return list(ex.map(lambda _: classify(*sh([exe, 'run', sv])), range(2)))
            for engine, exe, sd, var, sv, (msg, cls) in fails:
                with open(sv, encoding='latin-1') as f: lines = [l.rstrip('\n') for l in f if l.strip() and not l.startswith('#')]
                r = twice(exe, sv)
                if engine == 'fast' and (not r[0] or r[0] != r[1] or r[0][1] != cls):
                    # undefined behaviour may show differently each time: the checked build decides
                    exe = build.build('asan')
                    r = twice(exe, sv)
                    if r[0]: engine, (msg, cls) = 'asan', r[0]
                if not r[0] or r[0] != r[1] or r[0][1] != cls:
                    bad.append(f'seed {sd} variant {var}: {msg!r} / replay {r}')
                    continue
                small = minimise(exe, lines, cls, tmp, 60 if tier == 'quick' else 300)
                os.makedirs(os.path.join(V, 'replay'), exist_ok=True)
                rep = os.path.join(V, 'replay', f'{prop}-{sd}.txt')
                for ls in (small, lines):
                    with open(rep, 'w', encoding='latin-1') as o: o.write('\n'.join(replay_header(prop, sd, var, engine, msg) + ls) + '\n')
                    f = classify(*sh([exe, 'run', rep]))
                    if f and f[1] == cls: break
                else:
                    bad.append(f'seed {sd}: the minimised scenario does not replay'); rep = None
                    continue
                err(f'{prop}: {f[0]}')
                err(f'  seed {sd} variant {var}, minimised from {len(lines)} to {len(ls)} lines: {rep}')
                break
            if not rep: raise ErrExit('violations that do not replay: ' + '; '.join(bad)[:3000])
        wall = time.time() - t0
        run_s = max(0.1, wall - tbuild)
        faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault ')}
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2),
            'violations': 1 if rep else 0,
            'coverage': {
                'evaluations': stats.get('worlds', 0),
                'distinct_nontrivial': len(worlds),
                'rule': info['rule'],
                'samples': samples or [['none']],
                'seeds': seeds, 'seeds_per_hour': int(seeds / run_s * 3600), 'simulated_runs_per_hour': int(stats.get('worlds', 0) / run_s * 3600),
                'simulated_time': {'note': 'the code under test reads no clock; simulated time is counted in simulated storage calls, library calls and scheduler steps',
                                   'storage_calls': stats.get('storage calls', 0), 'library_calls': stats.get('api calls', 0), 'scheduler_steps': stats.get('scheduler steps', 0)},
                'faults_injected': faults,
                'distinct_states_reached': {'measure': info.get('measure', 'distinct (session phase, call, outcome, fault pending) combinations'), 'count': len(trans)},
                'counters': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault ')},
                'real_code': info['real'], 'stubs': info['stub'],
                'determinism': f'{len(hashes)} seeds hashed, up to 16 per engine repeated in fresh processes with equal event hashes',
            },
            'assumptions': info['assume'],
        }
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as o: json.dump(ev, o, indent=1)
        if rep:
            print(f'VIOLATION property={prop} replay={rep}', flush=True)
            return 1
        print(f'{prop}: held in {stats.get("worlds", 0)} simulated runs ({seeds} seeds, {sum(faults.values())} injected faults, {wall:.0f} s)')
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    a = sys.argv[1:]
    def opt(n, d=None):
        if n in a:
            i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return v
        return d
    tier = opt('--tier') or os.environ.get('VERIF_TIER') or 'quick'
    secs = opt('--seconds')
    if a[0] == 'build':
        for e in sorted({e for p in propinfo.P.values() for e, _ in p['engines']}): print(build.build(e))
        return 0
    if a[0] == 'check': return check(a[1], tier, float(secs) if secs else None)
    if a[0] == 'replay':
        with open(a[1], encoding='latin-1') as f: h = f.readline()
        m = re.search(r'property (\S+) .*engine (\S+)', h)
        exe = build.build(m.group(2))
        rc, out = sh([exe, 'run', a[1]])
        sys.stdout.write(out[-6000:])
        c = classify(rc, out)
        if c: print(f'VIOLATION property={m.group(1)} replay={a[1]}'); return 1
        return 0
    return 2

if __name__ == '__main__':
    try: sys.exit(main())
    except ErrExit as e:
        err('ERROR', e); sys.exit(3)
