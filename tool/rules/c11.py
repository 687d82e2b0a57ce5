"""C11 process-wide tables are consistently guarded"""
from common import *
from tables import *

SOURCES = ['lib/*', 'lib/*/*', 'lib/*/Builtin/*']
EXPLANATION = ('Lockset inference for every process-wide table (global or function-local static) of the library: each access is recorded with the locks held on '
               'every path; one lock must be held at all accesses, in exclusive mode where the table is changed.')
# never changed after static initialisation, or single-threaded by design (start-up/shutdown of the process)
SKIP = re.compile(r'StaticFixtureInstance|4nameB5cxx11$|^_ZL\d+managed|[lL]ogger|null|typeInfoToString|isIPv6|forwardStdIo|showErrorMsg|InitSingleton|8listener|9forwarder|registerToStringFunc'
                  r'|getArchiveEntryMap|getActiveModuleLoading|currentModuleVersion')


def tables_in(prog):
    """{global: [accessor/using functions]} that are changed by some function other than an initialiser"""
    uses = globals_of(prog, lambda t: not t.startswith('lib/Testing') and '/Test' not in t)
    return {g: fs for g, fs in uses.items() if not SKIP.search(g) and '@' in g or g.startswith('_ZZN') and not SKIP.search(g)}


def check(prog, rep):
    rep.rule('R1 all accesses to a process-wide table hold one common lock')
    rep.rule('R2 accesses that change a table hold that lock exclusively')
    cand = tables_in(prog)
    bytu = {}
    for g in cand:
        tu = g.split('@')[1] if '@' in g else None
        bytu.setdefault(tu, set()).add(g)
    n = 0
    for tu, gs in sorted(bytu.items(), key=lambda x: str(x[0])):
        if tu is None:
            continue
        locks = set()
        classes = {}
        users = set()
        for g in gs:
            for fnn in cand[g]:
                f = prog.fns[fnn]
                for x in f.instrs():
                    if x.op in ('call', 'invoke') and x.a and x.a[0] == '@' + g:
                        nm = prog.call_info(x)[0]
                        if last(nm) == last(cls_of(nm)) and not STDOBJ.match(nm) and not is_init(f):
                            classes[cls_of(nm)] = g
                if prog.accessor(fnn) == g:
                    for x in prog.callers.get(fnn, []):
                        users.add(x.fn.n)
                elif not is_init(f):
                    users.add(fnn)
        tables = set(gs)
        roots = set()
        for u in users:
            for t in topmost(prog, prog.fns[u], lambda g2: g2.tu == tu and not is_init(g2)):
                if not is_init(t) and not prog.accessor(t.n):
                    roots.add(t.n)
        rule = TableRule(prog, tables, classes, {tu})
        eng = Engine(prog, rule)
        for r in sorted(roots):
            eng.run(prog.fns[r], frozenset())
        rep.engine(eng)
        for g in sorted(tables):
            acc = [a for a in rule.acc if a[0] == g]
            if not any(a[3] for a in acc):
                continue
            name = short(prog, g)
            if is_lock(prog, g, acc):
                continue
            n += 1
            held = {}
            for a in acc:
                for l in set(l for l, m in a[4]):
                    held[l] = held.get(l, 0) + 1
            rep.count('accesses', len(acc))
            if not held:
                for a in sorted(acc, key=str)[:3]:
                    rep.violation('unguarded', a[1], a[2], 'table %s is changed at run time without any lock' % name, trace=list(a[5]))
                continue
            best = max(held, key=lambda l: held[l])
            rep.analysed.append('table %s (%s): %d accesses, lock %s' % (name, tu, len(acc), show(best)))
            for a in sorted(acc, key=str):
                modes = set(m for l, m in a[4] if l == best)
                if not modes:
                    rep.violation('lockset', a[1], a[2], 'table %s accessed without its lock' % name, trace=list(a[5]))
                elif a[3] and 'X' not in modes:
                    rep.violation('shared-mutation', a[1], a[2], 'table %s changed while only the shared (reader) lock is held' % name, trace=list(a[5]))
    rep.count('tables', n)
    rep.need(n >= 10, 'process-wide tables')


def is_lock(prog, g, acc):
    return False


def short(prog, g):
    m = re.match(r'_ZZ?L?\d*(\w+)', g.split('@')[0])
    b = g.split('@')[0]
    ns = []
    i = 0
    while True:
        m = re.search(r'(\d+)', b[i:])
        if not m:
            break
        k = i + m.start()
        l = int(m.group(1))
        s = b[k + len(m.group(1)):k + len(m.group(1)) + l]
        if len(s) == l and l > 0:
            ns.append(s)
            i = k + len(m.group(1)) + l
        else:
            i = k + len(m.group(1))
    return '::'.join(ns) if ns else b
