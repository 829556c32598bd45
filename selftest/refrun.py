#!/usr/bin/env python3
"""Runs the checks against behaviour-preserving edits in private copies (needs mount namespaces).
usage: refrun.py [-j N] [--only id,id]"""
import os, shutil, subprocess, sys, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(__file__))
from refactorings import refs
SRC = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = int(sys.argv[sys.argv.index('-j')+1]) if '-j' in sys.argv else 2
only = sys.argv[sys.argv.index('--only')+1].split(',') if '--only' in sys.argv else None
def run(r):
    rid, props, edits = r
    b = '/tmp/refs/' + rid
    shutil.rmtree(b, ignore_errors=True); os.makedirs(b)
    subprocess.check_call(['git', 'clone', '-q', '/repo', b + '/repo'])
    subprocess.check_call(['rsync', '-a', '--exclude', 'seeded', '--exclude', '.git', SRC + '/', b + '/verif/']) if shutil.which('rsync') else subprocess.check_call(f'mkdir {b}/verif && cd {SRC} && tar cf - --exclude=./seeded --exclude=./.git . | tar xf - -C {b}/verif', shell=True)
    for f, o, n in edits:
        p = b + '/repo/' + f; s = open(p).read()
        assert s.count(o) >= 1, (rid, f, o)
        open(p, 'w').write(s.replace(o, n, 1))
    diff = subprocess.check_output(['git', '-C', b + '/repo', 'diff'])
    open(b + '/patch.diff', 'wb').write(diff)
    out = []
    if '--report' in sys.argv:
        from refactorings import units_of
        us = ' '.join(units_of(edits))
        q = subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind {b}/repo /repo; mount --bind {b}/verif /verif; cd /verif; nice -n 10 python3 check.py --report {us}'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        for u in us.split():
            subprocess.call(['cp', f'{b}/verif/work/unit_{u}.rs', b])
        out = ['== ' + rid] + q.stdout.splitlines()
        props = ''
    for p in props.split():
        q = subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind {b}/repo /repo; mount --bind {b}/verif /verif; cd /verif; python3 check.py {p}'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        open(f'{b}/out.{p}', 'w').write(q.stdout)
        lines = [l for l in q.stdout.splitlines() if l.startswith(('VIOLATION', 'UNDET', 'FAIL', p)) or 'undetermined' in l or 'violation' in l.lower()]
        out.append(f'{rid} {p} rc={q.returncode} ' + ' | '.join(l[:200] for l in lines[:3]))
    shutil.rmtree(b + '/repo'); shutil.rmtree(b + '/verif')
    return out
with cf.ThreadPoolExecutor(J) as ex:
    for o in ex.map(run, [r for r in refs if not only or r[0] in only]):
        print('\n'.join(o), flush=True)
