#!/usr/bin/env python3
"""Development aid: apply textual mutants / harmless refactorings to a scratch copy and run the checks on it.
usage: mutate.py [-j N] [filter...]   (mutants are listed in mutants.py; nothing in MANIFEST.json uses this)"""
import os, sys, subprocess, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mutants import MUTANTS
import threading
local = threading.local()
made = []


def ws():
    if not hasattr(local, 'd'):
        d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
        made.append(d)
        os.makedirs(d + '/repo')
        for x in ('lib', 'include'):
            shutil.copytree('/repo/' + x, d + '/repo/' + x)
        local.d = d
    return local.d


def run(m):
    name, props, edits, expect = m
    d = ws()
    saved = {}
    try:
        for f, a, b in edits:
            p = d + '/repo/' + f
            s = open(p).read()
            saved.setdefault(p, s)
            if s.count(a) < 1:
                return '%-40s EDIT DOES NOT APPLY %s' % (name, f)
            s = s.replace(a, b, 1)
            open(p, 'w').write(s)
        out = []
        for pr in props.split():
            env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_CACHE='/tmp/mutcache', VERIF_OUT=d)
            r = subprocess.run([sys.executable, HERE + '/../check.py', pr], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            first = next((l for l in r.stdout.split('\n') if '[' in l and l.startswith(pr)), r.stdout[-300:] if r.returncode == 2 else '')
            got = {0: 'quiet', 1: 'caught'}.get(r.returncode, 'ERROR')
            out.append('%-40s %s %-7s%s %s' % (name, pr, got, '' if got == expect else '  <<<<< expected ' + expect, first[:230]))
        return '\n'.join(out)
    finally:
        for p, s in saved.items():
            open(p, 'w').write(s)


if __name__ == '__main__':
    a = sys.argv[1:]
    j = 2
    if a and a[0] == '-j':
        j = int(a[1])
        a = a[2:]
    ms = [m for m in MUTANTS if not a or any(re.search(x, m[0]) for x in a)]
    try:
        with ThreadPoolExecutor(j) as ex:
            for o in ex.map(run, ms):
                print(o, flush=True)
    finally:
        for d in made:
            shutil.rmtree(d, ignore_errors=True)
