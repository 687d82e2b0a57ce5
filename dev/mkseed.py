#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text), FLAGS
writes /verif/seeded/ID from a scratch copy of /repo's HEAD"""
import sys, os, subprocess, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# builds demo.cpp against the freshly built library in /repo/_build and runs it
here=$(cd "$(dirname "$0")" && pwd)
root=/repo/_build/root
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export HOME=$tmp LC_ALL=C.UTF-8 LD_LIBRARY_PATH=$root/lib
g++ -std=c++14 -O1 -g %s -I$root/include "$here/demo.cpp" -rdynamic -o "$tmp/demo" -L$root/lib -lPothos -lPocoFoundation -lpthread || exit 3
timeout 120 "$tmp/demo"
rc=$?
echo "demo: exit $rc"
exit $rc
'''
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = V + '/seeded/' + g['ID']
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '--detach', '-f', w + '/r', 'HEAD'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        for f, old, new in g['EDITS']:
            p = w + '/r/' + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
        open(d + '/patch.diff', 'wb').write(diff)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w)
    open(d + '/demo.cpp', 'w').write(g['DEMO'])
    open(d + '/demo.sh', 'w').write(SH % g.get('FLAGS', ''))
    json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    print('wrote', d)
