"""C25 looking up something unknown never uses a nonexistent entry"""
from common import *
from lookup import check_lookups
SOURCES = ['lib/*', 'lib/*/*', 'lib/*/Builtin/*']
EXPLANATION = ('For every lookup (find) in a container of the library, every path from the lookup to a use of its result (dereference, erase) is checked to pass a comparison with '
               'the end position (or an equivalent membership test) that establishes that the entry exists.')


def check(prog, rep):
    rep.rule('R1 the result of a lookup is dereferenced or erased only on paths where the entry was found')
    n = check_lookups(prog, rep, [f for f in prog.repo_fns() if '/Test' not in f.tu])
    rep.count('lookups', n)
    rep.need(n >= 40, 'lookups')
