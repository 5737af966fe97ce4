"""tools/mkseed.py NAME PROPERTY FILE 'NEEDS' 'BREAKS' < JSON [[old,new],...]; demo from /tmp/demo.c
Writes seeded/NAME from an edit of FILE and a C demonstration (needs a clean /repo)."""
import sys, subprocess, json, os, shutil
def make(name, prop, edits, needs, breaks, demo_c=None, demo_sh=None, cc='cc', extra=None):
    d = '/verif/seeded/' + name; os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--short'])
    try:
        for f, old, new in edits:
            p = '/repo/' + f; s = open(p).read(); assert s.count(old) == 1, (name, f, s.count(old)); open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', '/repo', 'diff']))
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    if demo_c:
        open(d + '/demo.c', 'w').write(demo_c)
        demo_sh = '''#!/bin/bash
# run in /repo after the build
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cc -w -g -I include -I src "$H/demo.c" build/lib/libre.a build/lib/libfsm.a -lm -o "$T/demo" || exit 99
timeout 120 "$T/demo"
'''
    open(d + '/demo.sh', 'w').write(demo_sh)
    for k, v in (extra or {}).items(): open(d + '/' + k, 'w').write(v)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
