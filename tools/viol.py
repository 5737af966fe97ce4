#!/usr/bin/env python3
"""viol.py BINARY CASES [SEED [TIER]]: development aid: run a built harness over all cases, print every violation (not only the first of each key)."""
import sys, os, json, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
exe, total = sys.argv[1], int(sys.argv[2]); seed = sys.argv[3] if len(sys.argv) > 3 else '1'; tier = sys.argv[4] if len(sys.argv) > 4 else 'quick'
env = dict(os.environ, ASAN_OPTIONS='abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3000', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:abort_on_error=1', LC_ALL='C', TSAN_OPTIONS='abort_on_error=0:exitcode=134:halt_on_error=1:report_thread_leaks=1')
BUILD = [d for d in (os.path.join(os.path.dirname(exe), 'b-' + k) for k in ('asanprog', 'tsan', 'asan', 'plain')) if os.path.isdir(d)][0]
def run(w):
    lines = []; start = w
    with tempfile.TemporaryDirectory(prefix='viol-') as d:
        while start < total:
            out = d + '/o.json'
            r = subprocess.run([exe, '--seed', seed, '--stride', '8', '--start', str(start), '--end', str(total), '--out', out, '--tier', tier, '--scratch', d, '--build', BUILD, '--cpu', '20'], env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            o = json.load(open(out)) if os.path.exists(out) else {'violations': [], 'idx': start, 'end': 'lost'}
            lines += ['%d %s %s' % (v['idx'], v['key'], v['msg'][-300:].replace('\n', '\\n')) for v in o['violations']]
            if o['end'] == 'done': break
            e = r.stderr.decode(errors='replace'); k = [l for l in e.split('\n') if 'Assertion' in l or 'ERROR:' in l or 'ThreadSanitizer:' in l or 'runtime error' in l or l.strip().startswith('#') and ' src/' in l][:4]
            lines.append('%d DIED %s %s' % (o['idx'], o['end'], ' | '.join(k)[:400])); start = o['idx'] + 8
            if os.path.exists(out): os.unlink(out)
    return lines
for ls in ThreadPoolExecutor(8).map(run, range(8)):
    for l in ls: print(l)
