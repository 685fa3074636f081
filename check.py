#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decides one property of /repo's current tree by symbolic execution.

Builds the executor (if needed) and the harness crate against /repo's current sources, explores every stage
listed for the property in specs.py, replays each counterexample (and a sample of passing paths) natively
against the compiled real code, and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored; 1: violation, confirmed natively; 2: no answer (error)."""
import sys, os, json, time, subprocess, fcntl, shutil, re, glob, tempfile
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import specs
B = os.path.join(V, 'build')
T0 = time.time()

def log(*a): print(f'[{time.time()-T0:6.1f}s]', *a, flush=True)
def die(msg):
    print('CHECK-ERROR:', msg, flush=True); sys.exit(2)
def sh(cmd, timeout, env=None, cwd=V):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env, cwd=cwd, errors='replace')
    return p.returncode, p.stdout

class Lock:
    def __init__(s, n): os.makedirs(B, exist_ok=True); s.f = open(os.path.join(B, n), 'w')
    def __enter__(s): fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): fcntl.flock(s.f, fcntl.LOCK_UN); s.f.close()

def build_engine():
    with Lock('.engine.lock'):
        rc, out = sh([os.path.join(V, 'engine/build.sh')], 600)
        if rc: die('building the executor failed\n' + out)

def build_harness(features, dest):
    """harness + /repo's current xtra -> dest/h.bc, dest/replay"""
    name = 'h' + ('-' + features if features else '')
    out = os.path.join(B, name)
    with Lock(f'.{name}.lock'):
        rc, txt = sh([os.path.join(V, 'build_harness.sh'), out] + ([features] if features else []), 800)
        if rc: die('building the harness against /repo failed\n' + txt[-6000:])
        os.makedirs(dest, exist_ok=True)
        shutil.copy(os.path.join(out, 'h.bc'), dest); shutil.copy(os.path.join(out, 'hi.bc'), dest)
    # native binary for replays: build in the background
    return subprocess.Popen(['clang++-18', '-O1', '-Wno-override-module', os.path.join(dest, 'hi.bc'), os.path.join(V, 'engine/replay.cpp'),
                             '-o', os.path.join(dest, 'replay'), '-rdynamic', '-lpthread', '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def native(binary, path, secs=20, wrap=()):
    try: p = subprocess.run(list(wrap) + [binary, path, str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs * (20 if wrap else 1) + 20, errors='replace')
    except subprocess.TimeoutExpired: return 'fail nontermination 0', [], ''
    lines = [l for l in p.stdout.splitlines() if l.strip()]
    last = lines[-1] if lines else f'exit {p.returncode}'
    return last, lines, p.stderr

def confirm(binary, path):
    """does the compiled real code show the same failure under the recorded inputs and schedule?"""
    exp = [l for l in open(path) if l.startswith('expect ')][0].split()
    kind, code = exp[1], exp[2]
    last, _, _ = native(binary, path, 20)
    f = last.split()
    if f[:1] == ['fail']:
        if kind == 'assert': return f[1] == 'assert' and f[2] == code, last
        if kind in ('panic', 'abort'): return f[1] in ('panic', 'abort'), last
        if kind in ('deadlock', 'nontermination'): return f[1] in ('deadlock', 'nontermination'), last
        if kind == 'memory' and f[1] in ('memory', 'abort'): return True, last
    if kind == 'memory':
        r, _, err = native(binary, path, 20, ('valgrind', '-q', '--error-exitcode=9', '--undef-value-errors=no'))
        return 'Invalid ' in err or 'Process terminating' in err or r.startswith('fail memory'), r + ' (valgrind)'
    if kind == 'leak':
        return f[:2] == ['fail', 'leak'], last
    return False, last

def known_findings(prop):
    r = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) code=(\d+) (.*)', l.strip())
            if m and m.group(1) == prop: r[int(m.group(2))] = m.group(3)
    return r

def main():
    if len(sys.argv) < 2: die(__doc__)
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = specs.CHECKS[prop]
    budget = spec.get('budget', {}).get(tier, 45 if tier == 'quick' else 780)
    deadline_all = T0 + (820 if tier == 'quick' else 10**6)
    run_dir = tempfile.mkdtemp(prefix=f'run-{prop}-', dir=(os.makedirs(B, exist_ok=True) or B))
    known = known_findings(prop)
    build_engine()
    feats = {}
    try:
        for r in spec['runs']:
            f = r.get('features', '')
            if f not in feats:
                d = os.path.join(run_dir, 'b' + f)
                feats[f] = (d, build_harness(f, d))
        log('built')
        tb = time.time()
        stages, violations, done_names = [], [], []
        runs = spec['runs']
        incomplete_must = []
        def explore(r, h, pre, secs):
            secs = min(secs, specs.MAX_SECS.get(h, secs))
            d = feats[r.get('features', '')][0]
            out = os.path.join(run_dir, f'o-{h}-{pre}'); os.makedirs(out, exist_ok=True)
            cmd = [os.path.join(B, 'xse'), 'explore', os.path.join(d, 'h.bc'), h, '--preempt', str(pre), '--jobs', str(specs.JOBS), '--budget', str(max(5, int(secs))),
                   '--samples', '1', '--seed', str(seed), '--out', out]
            if h in specs.MAX_STEPS: cmd += ['--max-steps', str(specs.MAX_STEPS[h])]
            for lo, hi in spec['codes']: cmd += ['--codes', str(lo), str(hi)]
            for c in known: cmd += ['--allow', str(c)]
            rc, txt = sh(cmd, secs + 300)
            if rc: die(f'{h}: the executor failed\n' + txt[-3000:])
            j = json.load(open(os.path.join(out, h + '.json')))
            j['dir'] = d
            log(f"{h} preemptions<={pre}: paths={j['paths']} instr={j['instructions_all_rounds']} queries={j['queries_all_rounds']} solver={j['solver_s']:.1f}s wall={j['wall_s']:.1f}s complete={j['complete']}" + (f" VIOLATIONS={len(j['violations'])}" if j['violations'] else ''))
            stages.append(j)
            for v in j['violations']: violations.append((v, d))
            return j
        stop = False
        must_budget = 600 if tier == 'quick' else 2400
        # first what has to be completed, then deeper as time allows
        for r in runs:
            for (h, pre) in r['must']:
                j = explore(r, h, pre, max(20, must_budget - (time.time() - tb)))
                if j['stopped']: stop = True; break
                if not j['complete']: incomplete_must.append(f'{h}/{pre}')
            if stop: break
            cov = set().union(*[set(j['covers']) for j in stages if j['harness'] in [x[0] for x in r['must']]])
            miss = [c for c in r.get('cover', [1]) if str(c) not in cov]
            if miss and not incomplete_must: die(f'vacuous: {r["must"]} never reached cover point(s) {miss}')
        if not stop:
            deep = [(r, s) for r in runs for s in r.get('deep', {}).get(tier, [])]
            skip = set()
            for i, (r, (h, pre)) in enumerate(deep):
                left = budget - (time.time() - tb)
                if left < 8: break
                if id(r) in skip: continue
                share = left / max(1, len(set(id(x[0]) for x in deep[i:]) - skip))
                j = explore(r, h, pre, share)
                if j['stopped']: stop = True; break
                if not j['complete']: skip.add(id(r))
        # native side
        bins = {}
        for f, (d, p) in feats.items():
            txt, _ = p.communicate()
            if p.returncode: die('building the native replay failed\n' + txt[-3000:])
            bins[d] = os.path.join(d, 'replay')
        real, unconfirmed, knownhit = [], [], []
        rep_dir = os.path.join(B, 'replay'); os.makedirs(rep_dir, exist_ok=True)
        seen = set()
        for v, d in violations:
            head = [l for l in open(v) if l.startswith('expect ')][0].split()
            key = (head[1], head[2], os.path.basename(v).split('.')[0])
            if key in seen: continue
            seen.add(key)
            okc, last = confirm(bins[d], v)
            dst = os.path.join(rep_dir, f'{prop}-{key[2]}-{key[0]}{key[1]}.txt')
            shutil.copy(v, dst)
            if head[1] == 'assert' and int(head[2]) in known:
                if okc: knownhit.append((int(head[2]), dst))
                else: unconfirmed.append((dst, last))
            elif okc: real.append((dst, head))
            else: unconfirmed.append((dst, last))
        validated, badsample = 0, []
        samples_txt = []
        for j in stages:
            for s in j['samples']:
                last, lines, _ = native(bins[j['dir']], s, 20)
                exp = sorted(l.strip() for l in open(s) if l.startswith(('note ', 'cover ')))
                got = sorted(set(l for l in lines if l.startswith('cover '))) + sorted(l for l in lines if l.startswith('note '))
                if last == 'end ok' and sorted(got) == exp: validated += 1
                else: badsample.append((s, last))
                if len(samples_txt) < 6: samples_txt.append(open(s).read()[:1500].splitlines())
        fns = sorted(set().union(*[set(j['functions']) for j in stages])) if stages else []
        lines = set().union(*[set(j['lines']) for j in stages]) if stages else set()
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
            'coverage': {
                'states': sum(j['forks'] + 1 for j in stages), 'transitions': sum(j['blocks'] for j in stages),
                'traces_validated_against_impl': validated,
                'samples': samples_txt or [['none']],
                'exhaustive': not incomplete_must and not stop,
                'paths': sum(j['paths'] for j in stages), 'instructions': sum(j['instructions_all_rounds'] for j in stages),
                'assertions_decided': sum(j['decisions'] for j in stages),
                'solver_queries': sum(j['queries_all_rounds'] for j in stages), 'solver_sat': sum(j['sat'] for j in stages), 'solver_unsat': sum(j['unsat'] for j in stages),
                'solver_cache_hits': sum(j['query_cache_hits'] for j in stages), 'solver_model_reuse': sum(j['model_reuse_hits'] for j in stages),
                'solver_s': round(sum(j['solver_s'] for j in stages), 2),
                'functions_encoded': fns, 'xtra_source_lines_executed': len(lines),
                'bounds': [{'harness': j['harness'], 'preemptions': j['preempt'], 'complete': j['complete'], 'paths': j['paths'], 'symbolic_states': j['forks'] + 1, 'schedule_forks': j['sched_forks'],
                            'longest_path_instructions': j['max_path_instructions'], 'wall_s': round(j['wall_s'], 2)} for j in stages],
                'bounds_text': spec['bounds'],
                'bad_samples': [[s, l] for s, l in badsample][:5],
            },
            'assumptions': spec.get('assumptions', specs.ASSUMPTIONS), 'wall_s': round(time.time() - T0, 2), 'violations': len(real),
        }
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for c, dst in sorted(set(knownhit)): print(f'KNOWN-FINDING: property={prop} code={c} {known[c]} (replay {dst})')
        for dst, head in real:
            msg = specs.CODES.get(int(head[2]), '') if head[1] == 'assert' else ''
            log(f'{head[1]} {head[2]} {msg}')
            print(open(dst).read())
        if real:
            print(f'VIOLATION property={prop} replay={real[0][0]}', flush=True)
            sys.exit(1)
        if unconfirmed: die(f'counterexample(s) not reproduced natively: {unconfirmed}')
        # a sampled path whose schedule could not be followed natively says nothing either way (the evidence counts it as not
        # validated); one that ended otherwise than the engine said, or no path followed at all, is an error of the check
        lost = [x for x in badsample if x[1].startswith('diverged')]
        if len(lost) < len(badsample) or (lost and validated < len(lost)): die(f'passing path(s) not reproduced natively: {badsample[:3]}')
        if lost: print(f'NOTE: {len(lost)} of {validated + len(lost)} sampled passing paths could not be followed natively: {lost[0]}', flush=True)
        if incomplete_must: print(f'NOTE: bound(s) not completed in time (evidence says exhaustive: false): {incomplete_must}', flush=True)
        log(f'property={prop} held: {sum(j["paths"] for j in stages)} paths, {validated} replayed natively')
        sys.exit(0)
    finally:
        if not os.environ.get('KEEP'): shutil.rmtree(run_dir, ignore_errors=True)

main()
