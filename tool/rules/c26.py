"""C26 elements of containers are used only where they exist"""
from common import *
from bounds import check_bounds
SOURCES = ['lib/*', 'lib/*/*', 'lib/*/Builtin/*']
EXPLANATION = ('Every use of an element by operator[], front, back, top or pop of a standard container in the library is checked on every path with difference bounds built from the comparisons, loop '
               'counters, resizes and insertions on that path: an index is below the size, a container is not empty when an end of it is used, and an element of a map that operator[] may have just '
               'created is not used as a pointer. An obligation that a helper function leaves open is checked at each of its callers.')


def check(prog, rep):
    rep.rule('R1 an index (constant, counted, or handed in by the caller) is below the size of the container on every path')
    rep.rule('R2 front, back, top, pop are used only when the container is not empty')
    rep.rule('R3 an element of a map of pointers reached by operator[] is used only when the key is known to be there')
    n = check_bounds(prog, rep, [f for f in prog.repo_fns() if '/Test' not in f.tu])
    rep.count('element_uses', n)
    rep.need(n >= 120, 'element uses')
