#!/usr/bin/env python3
"""What the verifier alone says about planted bugs (units only), in private copies.
usage: bugrun.py [-j N] DIR...   (DIR contains patch.diff)"""
import os, re, shutil, subprocess, sys, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactorings import units_of
SRC = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
J = 2
if a[0] == '-j':
    J = int(a[1]); a = a[2:]
def run(d):
    rid = os.path.basename(d.rstrip('/'))
    b = '/tmp/bugs/' + rid
    shutil.rmtree(b, ignore_errors=True); os.makedirs(b)
    subprocess.check_call(['git', 'clone', '-q', '/repo', b + '/repo'])
    subprocess.check_call(f'mkdir {b}/verif && cd {SRC} && tar cf - --exclude=./seeded --exclude=./.git . | tar xf - -C {b}/verif', shell=True)
    subprocess.check_call(['git', '-C', b + '/repo', 'apply', os.path.abspath(d) + '/patch.diff'])
    files = re.findall(r'^\+\+\+ b/(\S+)', open(d + '/patch.diff').read(), re.M)
    us = ' '.join(units_of([(f, '', '') for f in files]))
    q = subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind {b}/repo /repo; mount --bind {b}/verif /verif; cd /verif; W=160 python3 check.py --report {us}'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(b)
    return ['== ' + rid] + q.stdout.splitlines()
with cf.ThreadPoolExecutor(J) as ex:
    for o in ex.map(run, a):
        print('\n'.join(o), flush=True)
