"""the spin lock primitives: every transition of the lock word is one of the transitions of a (reader/writer) lock"""
from common import *


class WordRule(Rule):
    """state: (won, released, facts, sub): won '' / 'X' / 'S'; released: number of releases (capped);
    facts: expressions known to differ from the writer mark"""

    def __init__(self, prog, words, writer, shared=False):
        self.prog = prog
        self.shared = shared
        self.words = words
        self.writer = writer
        self.ops = set()

    def is_word(self, p):
        fl, base = loc_fields(p)
        return bool(fl) and fl[0] in self.words

    def inline(self, eng, fr, fn, name):
        return fn.in_repo

    def may_throw(self, eng, fr, ins, name):
        return False

    def on_aop(self, eng, fr, ins, kind, ptr, ops, order, st):
        if not self.is_word(ptr):
            return None
        won, rel, facts = st
        self.ops.add((ins.loc, kind))
        acq = order in ACQUIRE
        release = order in RELEASE
        if kind == 'load':
            return [((won, rel, frozenset()), None)]
        if kind == 'xchg':
            if ops[0] == ('const', 0):
                if not release:
                    eng.report(fr, ins, 'order', 'lock word released without release ordering')
                return [((won, min(rel + 1, 2), facts), None)]
            if ops[0][0] != 'const':
                eng.report(fr, ins, 'transition', 'lock word exchanged with a value that is not the locked mark')
            if not acq:
                eng.report(fr, ins, 'order', 'lock word taken without acquire ordering')
            if self.shared:
                eng.report(fr, ins, 'transition', 'a failed attempt overwrites the reader count')
            if won:
                eng.report(fr, ins, 'transition', 'lock word taken twice on one path')
            return [(('X', rel, facts), 0), ((won, rel, facts), 1)]
        if kind == 'store':
            if ops[0] != ('const', 0):
                eng.report(fr, ins, 'transition', 'lock word overwritten with %s: not an atomic acquisition' % show(ops[0]))
                return [((won, rel, facts), None)]
            if not release:
                eng.report(fr, ins, 'order', 'lock word released without release ordering')
            return [((won, min(rel + 1, 2), facts), None)]
        if kind in ('sub', 'add'):
            d = ops[0][1] if ops[0][0] == 'const' else None
            if kind == 'add' and d is not None:
                d = -d
            if d is not None and d in (1, 1 - (1 << 32), 1 - (1 << 64)):
                if not release:
                    eng.report(fr, ins, 'order', 'reader count decremented without release ordering')
                return [((won, min(rel + 1, 2), facts), None)]
            eng.report(fr, ins, 'transition', 'lock word changed by %s: not a lock transition' % show(ops[0]))
            return [(st, None)]
        if kind == 'cas':
            if not acq:
                eng.report(fr, ins, 'order', 'lock word taken without acquire ordering')
            e, n = ops[0], ops[1]
            mode = None
            if e == ('const', 0) and n[0] == 'const' and n[1] != 0 and (n[1] != 1 or not self.shared):
                mode = 'X'
            elif e == ('const', 0) and n == ('const', 1):
                mode = 'S'
            elif n == ('bin', 'add', e, ('const', 1)):
                mode = 'S'
                if e not in facts:
                    eng.report(fr, ins, 'transition', 'a reader is admitted without excluding the writer mark')
            if mode is None:
                eng.report(fr, ins, 'transition', 'compare-exchange from %s to %s is not a lock transition' % (show(e), show(n)))
                mode = 'X'
            if won:
                eng.report(fr, ins, 'transition', 'lock word taken twice on one path')
            return [((mode, rel, facts), 1), ((won, rel, frozenset()), 0)]
        eng.report(fr, ins, 'transition', 'operation %s on the lock word is not a lock transition' % kind)
        return [(st, None)]

    def on_store(self, eng, fr, ins, ptr, val, st):
        if self.is_word(ptr):
            eng.report(fr, ins, 'non-atomic', 'lock word written non-atomically')
        return st

    def on_branch(self, eng, fr, ins, atom, truth, st):
        won, rel, facts = st
        if atom[0] == 'cmp' and atom[1] == 'eq' and not truth:
            for a, b in ((atom[2], atom[3]), (atom[3], atom[2])):
                if b[0] == 'const' and b[1] in self.writer:
                    return (won, rel, facts | {a})
        if atom[0] == 'cmp' and atom[1] == 'ult' and truth and atom[3][0] == 'const' and atom[3][1] in self.writer:
            return (won, rel, facts | {atom[2]})
        return st


def words_of(prog, cname):
    w = set(cname + '::' + n for n, t in cls_fields(prog, cname) if 'atomic' in t)
    return w


def writer_marks(prog, cname, words):
    """constants that try_lock installs"""
    out = set()

    class R(Rule):
        def on_aop(self, eng, fr, ins, kind, ptr, ops, order, st):
            fl, base = loc_fields(ptr)
            if fl and fl[0] in words:
                if kind == 'cas' and ops[1][0] == 'const':
                    out.add(ops[1][1])
                if kind == 'xchg' and ops[0][0] == 'const':
                    out.add(ops[0][1])
            return None
    for f in prog.named(cname + '::try_lock'):
        Engine(prog, R()).run(f, ())
    return out


def check_class(prog, rep, cname, shared):
    words = words_of(prog, cname)
    rep.need(words, 'lock word of %s' % cname)
    marks = writer_marks(prog, cname, words)
    nops = 0
    init = ('', 0, frozenset())
    spec = [('try_lock', 'try', 'X'), ('lock', 'lock', 'X'), ('unlock', 'unlock', 'X')]
    if shared:
        spec += [('try_lock_shared', 'try', 'S'), ('lock_shared', 'lock', 'S'), ('unlock_shared', 'unlock', 'S')]
    for m, kind, mode in spec:
        for f in prog.named(cname + '::' + m):
            rule = WordRule(prog, words, marks, shared)
            eng = Engine(prog, rule)
            exits = eng.run(f, init)
            bad = set()
            for k, (won, rel, facts), rv in exits:
                if k != 'ret':
                    bad.add('leaves by an exception')
                elif kind == 'try':
                    if rv is None:
                        bad.add('reports a result that does not come from the atomic operation')
                    elif bool(rv) != bool(won):
                        bad.add('returns %s although the lock was %s' % ('true' if rv else 'false', 'taken' if won else 'not taken'))
                    elif won and won != mode:
                        bad.add('takes the lock in the wrong mode')
                elif kind == 'lock':
                    if won != mode:
                        bad.add('returns without holding the lock' if not won else 'takes the lock in the wrong mode')
                elif kind == 'unlock':
                    if rel != 1 or won:
                        bad.add('does not release the lock exactly once')
                if kind != 'unlock' and rel and k == 'ret':
                    bad.add('releases the lock word while acquiring')
            if kind == 'unlock':
                want = ('store', 'xchg') if mode == 'X' else ('sub', 'add')
                if any(k not in want for l, k in rule.ops):
                    bad.add('releases in the wrong mode')
            for b in sorted(bad):
                rep.violation('lock-contract', f.loc, f.name, '%s %s' % (m, b))
            rep.engine(eng)
            nops += len(rule.ops)
            rep.analysed.append('%s (%s): %d exits' % (f.name, f.loc, len(exits)))
    for f in prog.named(cname + '::' + last(cname)):
        if f.nargs != 1:
            continue
        rule = WordRule(prog, words, marks, shared)
        eng = Engine(prog, rule)
        for k, (won, rel, facts), rv in eng.run(f, init):
            if k == 'ret' and (won or not rel) and not rule.ops:
                pass
            if k == 'ret' and won:
                rep.violation('lock-contract', f.loc, f.name, 'a new lock starts out locked')
        rep.engine(eng)
    rep.count('lock_word_operations', nops)
    rep.need(nops >= 2, 'operations on the lock word of %s' % cname)


def check_spinlock(prog, rep):
    rep.rule('the spin lock word is taken only by an atomic exchange/compare-exchange with acquire ordering, try_lock answers true exactly when it took it, unlock releases it once with release ordering')
    check_class(prog, rep, 'Pothos::Util::SpinLock', False)


def check_spinlock_rw(prog, rep):
    rep.rule('the reader/writer lock word moves 0 -> writer, n -> n+1 (n not writer), writer -> 0, n -> n-1 only, atomically, with acquire/release ordering')
    check_class(prog, rep, 'Pothos::Util::SpinLockRW', True)


def check_shared_guard(prog, rep):
    rep.rule('the shared guard takes the shared lock of its argument once in its constructor and gives it back once in its destructor')

    class G(Rule):
        def on_call(self, eng, fr, ins, name, args, st):
            le = Locks.event(eng, fr, ins, name, args, frozenset())
            if le is not None:
                return [('ret', st + ((last(name), args[0]),), None)]
            return None
    n = 0
    P = 'Pothos::Util::SharedLock::'
    for f in prog.named(P + 'SharedLock') + prog.named(P + '~SharedLock'):
        if last(f.name).startswith('SharedLock') and f.nargs != 2:
            continue
        eng = Engine(prog, G())
        a0 = ('alloca', ('guard', 0), '%g', 'guard')
        exits = eng.run(f, (), (a0, ('arg', 1, 'mutex'))[:f.nargs])
        n += 1
        for k, st, rv in exits:
            want = 'unlock_shared' if '~' in f.name else 'lock_shared'
            ops = [s[0] for s in st]
            if k == 'ret' and ops != [want]:
                rep.violation('guard', f.loc, f.name, 'performs %s instead of one %s' % (ops or 'nothing', want))
            elif k == 'ret' and want == 'lock_shared' and st[0][1] not in (('arg', 1, 'mutex'), ('load', ('fld', a0, 'Pothos::Util::SharedLock::_mutex'))):
                rep.violation('guard', f.loc, f.name, 'locks something other than its argument')
        rep.engine(eng)
    rep.need(n >= 2, 'shared guard constructor and destructor')
    rep.count('guards', n)
