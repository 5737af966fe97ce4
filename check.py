#!/usr/bin/env python3
"""check.py PROPERTY [--seed N] [--tier T] [--only JOB:CASE] : build what the property needs from /repo's working tree, run its
monitored workload, judge, write evidence/<PROPERTY>.json.  Exit 0 held, 1 violated (VIOLATION line), 2 no verdict."""
import sys, os, re, json, time, shutil, subprocess, tempfile, signal, atexit, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, PROFILES

REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
T0 = time.time()

def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

class Broken(Exception):
    pass

def known_findings():
    known = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known

def build_libs(scratch, profile):
    pr = PROFILES[profile]
    dest = os.path.join(scratch, 'b-' + profile)
    env = dict(os.environ, VERIF_REPO=REPO, VERIF_JOBS=str(NPROC))
    r = subprocess.run(['bash', os.path.join(HERE, 'lib/build.sh'), dest, pr['cc'], pr['flags']] + pr['targets'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if r.returncode != 0:
        raise Broken('library build failed (%s):\n%s' % (profile, r.stdout.decode(errors='replace')[-3000:]))
    return dest

def build_harness(scratch, job, dest, pr):
    out = os.path.join(scratch, 'h-' + job['name'])
    src = os.path.join(HERE, 'harness', job['src'])
    obj = out + '.o'
    cmd = ['g++', '-std=c++17', '-O2', '-g1', '-w', '-I' + os.path.join(dest, 'include'), '-I' + os.path.join(HERE, 'harness'),
           '-c', '-o', obj, src] + ['-D' + d for d in job.get('defines', [])] + (pr['flags'].split() if job.get('instrument') else [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise Broken('harness does not compile:\n' + r.stdout.decode(errors='replace')[-3000:])
    libs = [os.path.join(dest, 'build/lib', l + '.a') for l in job.get('libs', ['libre', 'libfsm'])]
    extra = [e.replace('@B@', dest) for e in job.get('link', [])]
    cmd = ['g++', '-o', out, obj] + pr['link'] + ['-Wl,--start-group'] + libs + extra + ['-Wl,--end-group', '-lpthread', '-ldl'] + job.get('linklibs', [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise Broken('harness does not link:\n' + r.stdout.decode(errors='replace')[-3000:])
    return out

FRAME = re.compile(r'^\s*#\d+\s+0x[0-9a-f]+\s+in\s+(\S+)\s+(\S+)', re.M)

def crash_key(err, end, rc):
    """a name for what went wrong: kind of report and the function of the code under test it happened in"""
    m = re.search(r'^(?:\S*?: )?(\S+?):\d+: ([^\n]*?): Assertion [`\'](.*?)\' failed', err, re.M)
    if m:
        fn = re.sub(r'\(.*', '', m.group(2)).split()[-1] if m.group(2) else '?'
        return 'assert:%s:%s' % (fn.strip('*'), re.sub(r'\s+', '', m.group(3))[:80])
    kind = None
    m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer|ThreadSanitizer): ([A-Za-z-]+)', err)
    if m:
        kind = m.group(2)
    m2 = re.search(r'WARNING: ThreadSanitizer: ([A-Za-z -]+)', err)
    if m2:
        kind = 'tsan-' + m2.group(1).strip().replace(' ', '-')
    m3 = re.search(r'([^\s:]+):(\d+):(\d+): runtime error: ([^\n]*)', err)
    if m3:
        t = re.sub(r'0x[0-9a-f]+|-?\d+(\.\d+)?(e\+?\d+)?', 'N', m3.group(4))
        t = re.sub(r"'[^']*'", 'T', t)
        kind = 'ub-' + re.sub(r'[^A-Za-z]+', '-', t).strip('-')[:48]
    fn = '?'
    for f in FRAME.finditer(err):
        if '/src/' in f.group(2) and '/libsanitizer/' not in f.group(2) and '/harness/' not in f.group(2):
            fn = f.group(1); break
    if kind:
        return 'san:%s:%s' % (kind, fn)
    if end == 'timeout' or rc == 124:
        return 'hang'
    return 'crash:rc=%s:%s' % (rc, fn)

class Worker:
    def __init__(self, exe, job, seed, tier, scratch, dest, w, n, total, start=None, cpu=None, only=None, queue=None, gen=0):
        self.job, self.w, self.n, self.total = job, w, n, total
        self.start = w if start is None else start
        self.dir = os.path.join(scratch, 'w-%s-%d-%d-%d' % (job['name'], w, self.start, gen) + ('-only' if only is not None else ''))
        os.makedirs(self.dir)
        self.out = os.path.join(self.dir, 'out.json')
        self.err = os.path.join(self.dir, 'err.txt')
        self.cpu = cpu or job.get('cpu', 30)
        cmd = [exe, '--seed', str(seed), '--stride', str(n), '--end', str(total), '--start', str(self.start), '--out', self.out,
               '--tier', tier, '--scratch', self.dir, '--build', dest, '--cpu', str(self.cpu)]
        if only is not None:
            cmd += ['--only', str(only)]
        if queue:
            cmd += ['--queue', queue]
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=%d:detect_stack_use_after_return=0:handle_abort=0:quarantine_size_mb=%d' % (job.get('rss', 3000), job.get('quarantine', 16))
        env['UBSAN_OPTIONS'] = 'abort_on_error=1:print_stacktrace=1:halt_on_error=1'
        env['TSAN_OPTIONS'] = 'abort_on_error=0:exitcode=134:halt_on_error=1:second_deadlock_stack=1:report_thread_leaks=1'
        env['VERIF_HERE'] = HERE
        env['LC_ALL'] = 'C'
        env.update(job.get('env', {}))
        self.cmd = cmd
        self.wall0 = time.time()
        self.p = subprocess.Popen(cmd, stdout=open(os.path.join(self.dir, 'stdout.txt'), 'wb'), stderr=open(self.err, 'wb'),
                                  stdin=subprocess.DEVNULL, env=env, start_new_session=True, cwd=self.dir)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def errtext(self):
        try:
            with open(self.err, 'rb') as f:
                f.seek(0, 2); size = f.tell(); f.seek(max(0, size - 200000)); return f.read().decode(errors='replace')
        except OSError:
            return ''

def run_job(exe, job, seed, tier, scratch, dest, agg, only=None):
    total = job['cases'][1 if tier == 'thorough' else 0]
    n = 1 if only is not None else min(NPROC, total, job.get('workers', NPROC))
    if only is not None:
        total = only + 1
    queue = os.path.join(scratch, 'queue-' + job['name'])   # shared counter: which case comes next
    open(queue, 'wb').write(b'\0' * 8)
    live = [Worker(exe, job, seed, tier, scratch, dest, w, n, total, start=0, only=only, queue=queue) for w in range(n)]
    deaths = 0
    wall = job.get('wall', 600 if tier != 'thorough' else 6 * 3600)
    t0 = time.time()
    retries = []   # (worker index, case)
    while live:
        time.sleep(0.03)
        for wk in list(live):
            rc = wk.p.poll()
            if rc is None:
                if time.time() - t0 > wall:
                    wk.kill(); live.remove(wk)
                    agg['notes'].append('%s: worker %d stopped by the wall-clock watchdog' % (job['name'], wk.w))
                    agg['inconclusive'] += 1; agg['watchdog'] = True
                continue
            live.remove(wk)
            wk.kill()
            d = None
            if os.path.exists(wk.out):
                try:
                    d = json.load(open(wk.out))
                except ValueError:
                    d = None
            if d is None:
                raise Broken('worker left no result (rc %s): %s\n%s' % (rc, ' '.join(wk.cmd), wk.errtext()[-3000:]))
            merge(agg, job, d, wk)
            if rc == 0 and d['end'] == 'done':
                for l in wk.errtext().splitlines():
                    if l.startswith('SLOW'): print(l)
                shutil.rmtree(wk.dir, ignore_errors=True); continue
            if rc == 3:
                raise Broken('harness failed: ' + wk.errtext()[-3000:])
            err = wk.errtext()
            idx = d['idx']
            if re.search(r'hard rss limit exhausted|allocation-size-too-big|out-of-memory', err) and not job.get('oomviolates'):
                agg['inconclusive'] += 1; agg['counters']['inconclusive:memory-limit'] = agg['counters'].get('inconclusive:memory-limit', 0) + 1
            elif 'HARNESS' in err[-4000:] and re.search(r'^HARNESS', err, re.M):
                raise Broken('harness failed in case %d: %s' % (idx, err[-3000:]))
            else:
                key = crash_key(err, d['end'], rc)
                if key == 'hang':
                    retries.append((wk.w, idx))
                else:
                    m = re.search(r'^CASE (.*)$', err, re.M)
                    agg['violations'].append({'job': job['name'], 'idx': idx, 'key': key, 'msg': err[-6000:]})
            deaths += 1
            shutil.rmtree(wk.dir, ignore_errors=True)
            if deaths > 40:
                agg['notes'].append('%s: gave up restarting after %d deaths' % (job['name'], deaths))
                for o in live:
                    o.kill()
                live = []; break
            if only is None:
                live.append(Worker(exe, job, seed, tier, scratch, dest, wk.w, n, total, start=0, queue=queue, gen=deaths))
    # cases which ran out of CPU time: once more, alone, with four times the limit
    for w, idx in retries[:6]:
        wk = Worker(exe, job, seed, tier, scratch, dest, w, 1, idx + 1, start=idx, cpu=4 * job.get('cpu', 30), only=idx)
        try:
            rc = wk.p.wait(timeout=min(8 * job.get('cpu', 30) + 60, 400))
        except subprocess.TimeoutExpired:
            wk.kill(); rc = None
        err = wk.errtext()
        d = json.load(open(wk.out)) if os.path.exists(wk.out) else {'end': 'lost', 'violations': [], 'evals': 0, 'counters': {}, 'inconclusive': 0, 'samples': []}
        if rc == 0:
            merge(agg, job, d, wk)
            agg['notes'].append('%s: case %d needed more CPU time than usual and then passed' % (job['name'], idx))
        elif rc == 124 or d['end'] == 'timeout':
            if job.get('hang', 'violation') == 'violation':
                agg['violations'].append({'job': job['name'], 'idx': idx, 'key': 'hang', 'msg': 'case %d does not finish within %d s of CPU time' % (idx, 4 * job.get('cpu', 30))})
            else:
                agg['inconclusive'] += 1
        elif rc is None:
            agg['inconclusive'] += 1; agg['notes'].append('%s: case %d: no answer within the wall-clock watchdog' % (job['name'], idx))
        else:
            agg['violations'].append({'job': job['name'], 'idx': idx, 'key': crash_key(err, d['end'], rc), 'msg': err[-6000:]})
    if len(retries) > 6:
        agg['inconclusive'] += len(retries) - 6

def merge(agg, job, d, wk):
    agg['evals'] += d['evals']; agg['inconclusive'] += d['inconclusive']
    for k, v in d['counters'].items():
        agg['counters'][k] = max(v, agg['counters'].get(k, 0)) if k.startswith('max:') else agg['counters'].get(k, 0) + v
    agg['samples'] += d['samples']
    for v in d['violations']:
        agg['violations'].append({'job': job['name'], 'idx': v['idx'], 'key': v['key'], 'msg': v['msg']})
    h = wk.out + '.hashes'
    if os.path.exists(h):
        b = open(h, 'rb').read()
        agg['hashes'].update(b[i:i + 8] for i in range(0, len(b), 8)); os.unlink(h)

def main():
    args = sys.argv[1:]
    pid = args[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1'); tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    only = None
    i = 1
    keep = False
    while i < len(args):
        if args[i] == '--seed': seed = int(args[i + 1]); i += 2
        elif args[i] == '--tier': tier = args[i + 1]; i += 2
        elif args[i] == '--only': j, c = args[i + 1].rsplit(':', 1); only = (j, int(c)); i += 2
        elif args[i] == '--keep': keep = True; i += 1
        else: raise SystemExit('bad argument ' + args[i])
    spec = CHECKS[pid]
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % pid, dir=os.environ.get('TMPDIR', '/tmp'))
    if not keep:
        atexit.register(lambda: shutil.rmtree(scratch, ignore_errors=True))
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    agg = {'evals': 0, 'inconclusive': 0, 'counters': {}, 'samples': [], 'violations': [], 'hashes': set(), 'notes': []}
    dests, exes = {}, {}
    try:
        jobs = [j for j in spec['jobs'] if only is None or j['name'] == only[0]]
        # harness compilation needs only headers and can overlap, but keep it simple: libraries first
        for j in jobs:
            if j['profile'] not in dests:
                dests[j['profile']] = build_libs(scratch, j['profile']); log('built', j['profile'])
        from concurrent.futures import ThreadPoolExecutor
        def mk(j):
            return build_harness(scratch, j, dests[j['profile']], PROFILES[j['profile']])
        with ThreadPoolExecutor(NPROC) as ex:
            for j, e in zip(jobs, ex.map(mk, jobs)):
                exes[j['name']] = e
        log('built harnesses')
        for j in jobs:
            run_job(exes[j['name']], j, seed, tier, scratch, dests[j['profile']], agg, only[1] if only else None)
            log('ran', j['name'], 'evaluations so far', agg['evals'])
    except Broken as e:
        print('CHECK BROKEN:', e); sys.exit(2)
    known = known_findings()
    groups = {}
    for v in agg['violations']:
        groups.setdefault(v['key'], []).append(v)
    seen_known, fresh = {}, {}
    for k, vs in groups.items():
        nk = re.sub(r'\s+', '_', k)
        (seen_known if (pid, nk) in known else fresh)[nk] = vs
    evdir = os.path.join(HERE, 'evidence'); os.makedirs(evdir, exist_ok=True)
    uniq = []
    for s in agg['samples']:
        if s not in uniq: uniq.append(s)
    cov = {'evaluations': agg['evals'], 'distinct_nontrivial': len(agg['hashes']), 'rule': spec['rule'], 'samples': uniq[:6],
           'observed': dict(sorted(agg['counters'].items())), 'inconclusive': agg['inconclusive']}
    if agg['notes']: cov['notes'] = agg['notes'][:40]
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': spec.get('level', 'exploration'), 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - T0, 2), 'violations': sum(len(v) for v in fresh.values())}
    if only is None:
        with open(os.path.join(evdir, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    # every listed finding has a line, whether this run's inputs met it or not: it is known not to hold
    for (p, k), text in sorted(known.items()):
        if p == pid:
            print('KNOWN-FINDING: property=%s %s (key %s, met %d times in this run)' % (pid, text, k, len(seen_known.get(k, []))))
    print('%s: evaluations=%d distinct=%d inconclusive=%d %s' % (pid, agg['evals'], len(agg['hashes']), agg['inconclusive'],
          ' '.join('%s=%d' % kv for kv in sorted(agg['counters'].items()))))
    if fresh:
        for n, (k, vs) in enumerate(sorted(fresh.items())):
            v = vs[0]
            rp = os.path.join('evidence', 'replay-%s-%s.txt' % (pid, hashlib.sha1(k.encode()).hexdigest()[:10]))
            with open(os.path.join(HERE, rp), 'w') as f:
                f.write('property %s\nkey %s\nseen %d times; first in job %s case %d, seed %d, tier %s\nreplay: python3 check.py %s --seed %d --tier %s --only %s:%d\n\n%s\n'
                        % (pid, k, len(vs), v['job'], v['idx'], seed, tier, pid, seed, tier, v['job'], v['idx'], v['msg']))
            print('VIOLATION property=%s replay=%s  key=%s (%d times) %s' % (pid, rp, k, len(vs), v['msg'].strip().replace('\n', ' | ')[:400]))
        sys.exit(1)
    if agg['watchdog'] if 'watchdog' in agg else False:
        print('CHECK BROKEN: stopped by the wall-clock watchdog'); sys.exit(2)
    minev = spec.get('min_evals', 50)
    if only is None and (agg['evals'] < minev or len(agg['hashes']) < min(minev, 20)):
        print('CHECK BROKEN: observed too little (%d evaluations)' % agg['evals']); sys.exit(2)
    if only is None and agg['inconclusive'] > max(50, 0.5 * (agg['evals'] + agg['inconclusive'])):
        print('CHECK BROKEN: too many inconclusive cases'); sys.exit(2)
    sys.exit(0)

if __name__ == '__main__':
    main()
