#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Builds the explorer from /repo's working tree, runs every job of the property's exploration on all cores,
confirms a violation by re-running its job, and writes evidence/<property>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Anything else: error of the check.
"""
import hashlib, json, os, re, shlex, signal, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'mc'))
import build as B
import extra
WORK = B.WORK
NCPU = os.cpu_count() or 8

LEVEL = {c: 'model_checking' for c in ['C%02d' % i for i in range(1, 21)]}
LEVEL.update({'C13': 'fault_enumeration', 'C17': 'fault_enumeration', 'C18': 'fault_enumeration'})
ASSUME = {
    'common': ['hash functions are evaluated by /verif/mc/prim.cpp (checked against libcrypto at every start) in place of libcrypto one-shot calls',
               'x86-64 Linux, gcc -O3, the compiler is trusted'],
}

def parse_args():
    a = sys.argv[1:]
    prop, tier, replay = None, os.environ.get('VERIF_TIER', 'quick'), None
    i = 0
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 2
        elif a[i] == '--replay': replay = a[i + 1]; i += 2
        else: prop = a[i]; i += 1
    if prop not in LEVEL:
        print('unknown property', prop); sys.exit(2)
    return prop, tier, replay

class Res:
    pass

def run_job(cmd, timeout, env=None):
    """one job in its own process group; parsed output"""
    r = Res(); r.viol = None; r.done = False; r.stats = {}; r.samples = []; r.notes = []; r.err = ''; r.timeout = False; r.lists = {}
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True, env=e, cwd=HERE)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, err = p.communicate()
    try: os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError): pass
    r.rc = p.returncode; r.err = err[-2000:]
    for l in out.splitlines():
        if l.startswith('STAT '):
            k, v = l[5:].rsplit(' ', 1); r.stats[k] = r.stats.get(k, 0) + int(v)
        elif l.startswith('SAMPLE '): r.samples.append(l[7:])
        elif l.startswith('NOTE '): r.notes.append(l[5:])
        elif l.startswith('VIOL '): r.viol = r.viol or l[5:]
        elif l == 'DONE': r.done = True
    if r.rc != 0 and r.viol is None: r.done = False
    return r

def main():
    prop, tier, replay = parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mc = B.build()
    if replay:
        d = json.load(open(replay))
        extra.prepare(d['property'], d.get('tier', 'quick'), mc)
        cmd = [B.build(c[1:]) if c.startswith('@') else c for c in d['cmd']]
        print('replaying:', ' '.join(map(shlex.quote, cmd)))
        r = run_job(cmd, 3600, d.get('env'))
        print('VIOL ' + r.viol if r.viol else 'not reproduced'); sys.exit(1 if r.viol else 0)
    extra.prepare(prop, tier, mc)
    limit = 760 if tier == 'quick' else 6 * 3600
    jobs = []
    o = subprocess.run([mc, 'jobs', prop, tier], stdout=subprocess.PIPE, text=True)
    for l in o.stdout.splitlines():
        if '\t' not in l: continue  # notes of the machinery
        c, a = l.split('\t'); a = a.split(' '); v = a.pop(0) if a[0].startswith('@') else '@mc'
        jobs.append((float(c), [v, 'run', prop] + a, None))
    jobs += extra.jobs(prop, tier, mc)
    if not jobs:
        print('no jobs for', prop, o.returncode); sys.exit(2)
    jobs.sort(key=lambda j: -j[0])
    known = [l.strip() for l in open(os.path.join(HERE, 'known-findings.txt')) if l.startswith('finding: property=%s ' % prop)]
    lock = threading.Lock(); nxt = [0]; results = []; bad = []; errors = []; stop = threading.Event(); found_known = []
    bins = {}; variant_notes = []
    for v in sorted({j[1][0] for j in jobs if j[1][0].startswith('@')}):
        try: bins[v] = B.build(v[1:])
        except RuntimeError as e:
            if v == '@mc': raise
            variant_notes.append('jobs of variant %s left out, it does not build: %s' % (v[1:], str(e)[-300:])); jobs = [j for j in jobs if j[1][0] != v]
    def expand(cmd): return [bins.get(c, c) for c in cmd]
    def worker():
        while not stop.is_set():
            with lock:
                if nxt[0] >= len(jobs): return
                j = jobs[nxt[0]]; nxt[0] += 1
            left = limit - (time.time() - t0)
            if left < 5:
                with lock: errors.append(('not run: time limit', j, None))
                continue
            tj = time.time(); r = run_job(expand(j[1]), left, j[2]); r.secs = time.time() - tj
            with lock:
                if r.viol: bad.append((j, r)); stop.set()
                elif not r.done: errors.append(('incomplete', j, r))
                else: results.append((j, r))
    ths = [threading.Thread(target=worker) for _ in range(NCPU)]
    for t in ths: t.start()
    for t in ths: t.join()
    # abnormal endings: once more, alone
    hard = []
    for why, j, r in errors:
        if bad or r is None: continue
        if r.timeout: continue
        r2 = run_job(expand(j[1]), max(30, limit + 60 - (time.time() - t0)), j[2])
        if r2.viol: bad.append((j, r2))
        elif not r2.done: hard.append((j, r2))
        else: results.append((j, r2))
    capped = [j for why, j, r in errors if r is None or r.timeout]
    # confirm: the same job must fail again
    confirmed = None
    for j, r in sorted(bad, key=lambda x: x[0][0]):
        again = [run_job(expand(j[1]), 600, j[2]) for _ in range(1)]
        if not again[0].viol: again.append(run_job(expand(j[1]), 600, j[2]))
        if any(a.viol for a in again): confirmed = (j, r); break
        print('NOTE: not reproduced, ignored: %s: %s' % (' '.join(j[1]), r.viol))
    try: open(os.path.join(WORK, 'times-%s-%s' % (prop, tier)), 'w').writelines('%.1f\t%.1f\t%s\n' % (r.secs, j[0], ' '.join(j[1][3:])) for j, r in sorted(results, key=lambda x: -getattr(x[1], 'secs', 0)) if hasattr(r, 'secs'))
    except OSError: pass
    stats = {}; samples = []; notes = []
    for j, r in results:
        for k, v in r.stats.items(): stats[k] = stats.get(k, 0) + v
        notes += r.notes
    notes += variant_notes
    for j, r in sorted(results, key=lambda x: -x[0][0]):
        for s in r.samples[:1]:
            if len(samples) < 12: samples.append(s)
    cov = {'jobs_completed': len(results), 'jobs_listed': len(jobs), 'samples': samples or ['none']}
    lv = LEVEL[prop]
    if lv == 'model_checking':
        cov['states'] = stats.pop('states', 0); cov['transitions'] = stats.pop('transitions', 0); cov['traces_validated_against_impl'] = stats.pop('traces', len(results))
    else:
        cov['evaluations'] = stats.pop('evaluations', 0); cov['distinct_nontrivial'] = stats.pop('distinct_nontrivial', 0); cov['rule'] = extra.RULE.get(prop, '')
    cov['counters'] = stats
    cov['exhaustive'] = not capped and not hard and not confirmed and not stats.get('jobs_capped')
    cov['exhaustive_note'] = 'every behaviour within the bounds stated in DESIGN.md for this tier was executed' if cov['exhaustive'] else 'stopped early: %d jobs not completed' % (len(jobs) - len(results))
    if notes: cov['notes'] = sorted(set(notes))[:20]
    if capped: cov['capped_jobs'] = [' '.join(j[1][2:]) for j in capped][:50]
    ev = {'property': prop, 'tier': 'thorough' if tier == 'thorough' else 'quick', 'seed': seed, 'level': lv, 'coverage': cov,
          'assumptions': ASSUME['common'] + extra.ASSUME.get(prop, []), 'wall_s': round(time.time() - t0, 1), 'violations': 1 if confirmed else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in known: print('KNOWN-FINDING: ' + k[len('finding: '):])
    if confirmed:
        j, r = confirmed
        rd = os.path.join(WORK, 'replay'); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%s.json' % (prop, hashlib.sha256(' '.join(j[1]).encode()).hexdigest()[:10]))
        json.dump({'property': prop, 'tier': tier, 'cmd': j[1], 'env': j[2], 'violation': r.viol}, open(path, 'w'), indent=1)
        print('what failed: ' + r.viol)
        print('replay with: python3 /verif/check.py %s --replay %s' % (prop, path))
        print('VIOLATION property=%s replay=%s' % (prop, path)); sys.exit(1)
    if hard:
        for j, r in hard[:5]: print('ERROR: job %s ended abnormally (rc %s): %s' % (' '.join(j[1]), r.rc, r.err[-500:]))
        sys.exit(2)
    print('%s %s: held; %d jobs, %s, %.1f s%s' % (prop, tier, len(results), ', '.join('%s=%s' % (k, cov[k]) for k in cov if isinstance(cov[k], int) and not isinstance(cov[k], bool)), time.time() - t0, ' (CAPPED: %d jobs not completed)' % len(capped) if capped else ''))
    sys.exit(0)

if __name__ == '__main__':
    main()
