#!/usr/bin/env python3
"""Runs the checks of one property: builds the code under test from /repo's working tree, runs the workloads under their
monitors, matches what they report against known-findings.txt, writes evidence/<id>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Anything else: error of the check (inconclusive)."""
import sys, os, json, subprocess, hashlib, time, re, shutil, glob
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, '.build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
sys.path.insert(0, V)
import targets

def die(msg, code=3):
    print('ERROR (inconclusive): ' + msg); sys.stdout.flush(); sys.exit(code)

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p): fs = [p]
        else: fs = sorted(f for f in glob.glob(os.path.join(p, '**'), recursive=True) if os.path.isfile(f))
        for f in fs:
            if '/.git/' in f: continue
            h.update(f.encode() + b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:16]

_repo_hash = None
def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        _repo_hash = tree_hash([os.path.join(REPO, d) for d in ('include', 'pwart', 'pwart_syslib', 'sljit')])
    return _repo_hash

def build(names):
    """Builds the programs named, returns {name: path}. Objects are keyed by the content of every source they may use."""
    T = targets.programs(REPO, V)
    hv = tree_hash([os.path.join(V, 'engine'), os.path.join(V, 'harness'), os.path.join(V, 'targets.py')])
    os.makedirs(BUILD, exist_ok=True)
    jobs, links, out = {}, [], {}
    for n in names:
        objs = []
        for src, flags in T[n]['objs']:
            key = hashlib.sha256((src + '|' + ' '.join(flags) + '|' + hv + '|' + (repo_hash())).encode()).hexdigest()[:20]
            if src.startswith(V) and not T[n].get('uses_repo_src'): pass
            o = os.path.join(BUILD, os.path.basename(src).replace('.', '_') + '-' + key + '.o')
            jobs[o] = flags[:1] + flags[1:] + ['-c', src, '-o', o + '.tmp']
            objs.append(o)
        key = hashlib.sha256((n + ' '.join(objs) + ' '.join(T[n]['link'])).encode()).hexdigest()[:20]
        exe = os.path.join(BUILD, n + '-' + key)
        links.append((exe, T[n]['link'][:1] + objs + T[n]['link'][1:] + ['-o', exe + '.tmp']))
        out[n] = exe
    todo = [(o, c) for o, c in jobs.items() if not os.path.exists(o)]
    running = []
    def reap(block):
        for r in list(running):
            o, c, p, lf = r
            if block or p.poll() is not None:
                p.wait(); running.remove(r)
                if p.returncode != 0:
                    for q in running: q[2].kill()
                    die('build failed: %s\n%s' % (' '.join(c), open(lf).read()[-3000:]))
                os.rename(o + '.tmp', o); os.unlink(lf)
                if block: return
    for o, c in todo:
        while len(running) >= 8:
            reap(False); time.sleep(0.02)
        lf = o + '.log'
        running.append((o, c, subprocess.Popen(c, stdout=open(lf, 'w'), stderr=subprocess.STDOUT), lf))
    while running: reap(True)
    for exe, c in links:
        if os.path.exists(exe): continue
        r = subprocess.run(c, capture_output=True, text=True)
        if r.returncode != 0: die('link failed: %s\n%s' % (' '.join(c), r.stderr[-3000:]))
        os.rename(exe + '.tmp', exe)
    # drop what earlier trees left behind
    keep = set(jobs) | {e for e, _ in links}
    now = time.time()
    for f in os.listdir(BUILD):
        p = os.path.join(BUILD, f)
        if p not in keep and os.path.isfile(p) and now - os.path.getmtime(p) > 3 * 3600: os.unlink(p)
    for p in keep:
        if os.path.exists(p): os.utime(p)
    return out

def known():
    res = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: res.append(m.groups())
    return res

def main():
    cid = sys.argv[1]
    C = targets.checks()[cid]
    t0 = time.time()
    paths = build(sorted({j['prog'] for j in C['jobs']}))
    tb = time.time() - t0
    rep = os.path.join(V, 'evidence', 'replays'); os.makedirs(rep, exist_ok=True)
    for f in glob.glob(os.path.join(rep, cid + '.*')): os.unlink(f)
    env = dict(os.environ, LC_ALL='C', ASAN_OPTIONS='abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0',
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=78', TSAN_OPTIONS='exitcode=79:halt_on_error=0:second_deadlock_stack=1')
    tot = {'evaluations': 0, 'distinct_nontrivial': 0}; per = []; samples = []; viols = []; assumptions = C.get('assumptions', [])
    for k, j in enumerate(C['jobs']):
        if TIER == 'quick' and j.get('thorough_only'): continue
        count = j['quick'] if TIER == 'quick' else j['thorough']
        oj = os.path.join(rep, '%s.%d.json' % (cid, k))
        cmd = [paths[j['prog']]] + j['args'] + ['--seed', str(SEED * 1000 + k), '--count', str(count), '--json', oj, '--replays', rep, '--tag', cid + '.' + str(k)]
        cap = 280 if TIER == 'quick' else j.get('cap', 3000)
        e2 = dict(env); e2.update(j.get('env', {}))
        d = None
        for attempt in range(2):
            if os.path.exists(oj): os.unlink(oj)
            try:
                r = subprocess.run(cmd + ['--secs', str(cap - 60)], env=e2, cwd=rep, timeout=cap, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            except subprocess.TimeoutExpired:
                continue
            if os.path.exists(oj):
                try: d = json.load(open(oj)); break
                except Exception: d = None
        if d is None: die('workload %s gave no answer' % ' '.join(cmd))
        ev = d.get('evaluations', d.get('cases', 0))
        if not d['violations_list'] and (ev < j.get('min', count) or d['distinct_nontrivial'] < j.get('min_distinct', 2)):
            die('workload %s observed too little: %d evaluations (want %d), %d distinct' % (' '.join(cmd), ev, j.get('min', count), d['distinct_nontrivial']))
        tot['evaluations'] += ev; tot['distinct_nontrivial'] += d['distinct_nontrivial']
        samples += d.get('samples', [])[:2]
        for v in d['violations_list']: viols.append((j, v, cmd))
        per.append({'workload': j['name'], 'program': j['prog'], 'observed': {a: b for a, b in d.items() if isinstance(b, (int, float)) and a not in ('seed',)}})
    kf = [x for x in known() if x[0] == cid]
    new = []; hit = {}
    for j, v, cmd in viols:
        m = [x for x in kf if x[1] == v.get('key', '')]
        if m: hit[m[0]] = hit.get(m[0], 0) + 1
        else: new.append((j, v, cmd))
    for x in kf:
        print('KNOWN-FINDING: property=%s %s%s' % (cid, x[2], '' if x in hit else ' (not exercised in this run)'))
    evd = {'property': cid, 'tier': TIER, 'seed': SEED, 'level': C['level'],
           'coverage': {'evaluations': tot['evaluations'], 'distinct_nontrivial': tot['distinct_nontrivial'], 'rule': C['rule'], 'samples': samples[:6] or ['(none)'],
                        'workloads': per, 'known_findings_hit': len(hit), 'build_s': round(tb, 1)},
           'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(evd, open(os.path.join(V, 'evidence', cid + '.json'), 'w'), indent=1)
    if new:
        for j, v, cmd in new[:3]:
            print('%s: %s' % (j['name'], v['msg'][:1500]))
        p = new[0][1].get('replay') or os.path.join(rep, cid + '.txt')
        if not os.path.exists(p): open(p, 'w').write(new[0][1]['msg'] + '\n')
        open(p, 'a').write('\ncommand: ' + ' '.join(new[0][2]) + '\n')
        print('VIOLATION property=%s replay=%s' % (cid, os.path.relpath(p, V)))
        sys.exit(1)
    print('OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs (build %.1fs)' % (cid, tot['evaluations'], tot['distinct_nontrivial'], time.time() - t0, tb))

if __name__ == '__main__':
    main()
