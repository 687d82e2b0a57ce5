"""C03 port mailboxes"""
from common import *

SOURCES = FRAMEWORK + ['+spin.cpp']
EXPLANATION = ('Lockset analysis of every function that touches the queues a port shares between threads: each access is checked against the lock of '
               'the same port object, along every path from the class boundary.')

PAIRS = [('Pothos::InputPort', '_asyncMessages', '_asyncMessagesLock'),
         ('Pothos::InputPort', '_slotCalls', '_slotCallsLock'),
         ('Pothos::InputPort', '_inputInlineMessages', '_bufferAccumulatorLock'),
         ('Pothos::InputPort', '_bufferAccumulator', '_bufferAccumulatorLock'),
         ('Pothos::OutputPort', '_bufferManager', '_bufferManagerLock'),
         ('Pothos::OutputPort', '_tokenManager', '_tokenManagerLock')]
PTR = ('_bufferManager', '_tokenManager')
MANAGER_OPS = ('push', 'pop', 'front', 'empty', 'setFrontBuffer', 'pushExternal')


class MailRule(Rule):
    def __init__(self, prog, guard, atomic):
        self.atomic = atomic
        self.prog = prog
        self.guard = guard
        self.acc = set()

    def inline(self, eng, fr, fn, name):
        return fn.in_repo and not name.startswith(('Pothos::Util::RingDeque::', 'Pothos::BufferAccumulator::', 'Pothos::BufferManager::')) and (
            '/Framework/' in fn.file or '/Util/' in fn.file)

    def held(self, st, base, lock):
        for l, m in Locks.held(st):
            if isinstance(l, tuple) and l[0] == 'fld' and l[2] == lock and l[1] == base:
                return True
        return False

    def check(self, eng, fr, ins, e, st, what, through=False):
        fl, base = loc_fields(e)
        for f in fl:
            g = self.guard.get(f)
            if g is None:
                continue
            ptr = last(f) in PTR
            if ptr and not through:
                continue
            # base object of that field
            x = e
            while not (x[0] == 'fld' and x[2] == f):
                x = x[1]
            own = x[1]
            if isinstance(root(own), tuple) and root(own)[0] == 'alloca' and own[0] == 'alloca':
                continue
            self.acc.add((ins.loc, f))
            if not self.held(st, own, g):
                others = [show(l) for l, m in Locks.held(st)]
                eng.report(fr, ins, 'unguarded', '%s of %s without holding %s of the same port%s' % (
                    what, last(f), last(g), ' (held: %s)' % ', '.join(others) if others else ''))

    # state: (locks, live, stale): queues consulted in the current / an earlier critical section
    def event(self, name, args):
        if not args or not isinstance(args[0], tuple):
            return None
        o = args[0]
        k = last(name)
        fl, base = loc_fields(o)
        f = next((x for x in fl if x in self.guard), None)
        if f is None:
            o2 = o
            while isinstance(o2, tuple) and o2[0] in ('deref', 'load'):
                o2 = o2[1]
                fl, base = loc_fields(o2)
                if fl and fl[0] in self.guard and last(fl[0]) in PTR:
                    f = fl[0]
        if f is None:
            return None
        if k in ('empty', 'full', 'size', 'capacity', 'getTotalBytesAvailable'):
            return 'query', self.guard[f]
        if k in ('front', 'back', 'operator[]'):
            return 'peek', self.guard[f]
        if k in ('push_back', 'emplace_back', 'push_front', 'pop_front', 'pop_back', 'pop', 'push', 'set_capacity'):
            return 'mutate', self.guard[f]
        return None

    def on_load(self, eng, fr, ins, ptr, st):
        st_ = st
        st = st[0]
        self.check(eng, fr, ins, ptr, st, 'read')
        return st_

    def on_store(self, eng, fr, ins, ptr, val, st):
        self.check(eng, fr, ins, ptr, st[0], 'write')
        return st

    def on_call(self, eng, fr, ins, name, args, st):
        full = st
        st, live, stale = full
        ev = Locks.event(eng, fr, ins, name, args, st)
        if ev is not None:
            out = []
            for k, s2, rv, a, r in ev:
                l2, t2 = live, stale
                if r and isinstance(r[0], tuple) and r[0][0] == 'fld' and r[0][2] in l2:
                    l2 = l2 - {r[0][2]}
                    t2 = t2 | {r[0][2]}
                out.append((k, (s2, l2, t2), rv))
            return out
        q = self.event(name, args)
        if q:
            if q[0] == 'query':
                live = live | {q[1]}
                stale = stale - {q[1]}
            elif q[0] == 'peek' and q[1] not in stale:
                live = live | {q[1]}
            elif q[0] == 'mutate' and q[1] in stale and self.atomic:
                eng.report(fr, ins, 'split', 'the queue is changed in a different critical section of %s than the one it was inspected in' % last(q[1]))
            full = (st, live, stale)
        nm, tg, kind = self.prog.call_info(ins)
        if (kind == 'virtual' or name.startswith('Pothos::BufferManager::') and last(name) != 'setCallback') and args:
            o = args[0]
            while isinstance(o, tuple) and o[0] in ('deref', 'load'):
                o = o[1]
                fl, base = loc_fields(o)
                if fl and fl[0] in self.guard and last(fl[0]) in PTR:
                    self.check(eng, fr, ins, o, st, 'use', through=True)
            if name == 'Pothos::BufferManager::push':
                self.acc.add((ins.loc, 'push'))
                if not Locks.held(st):
                    eng.report(fr, ins, 'unguarded', 'a buffer is returned to its manager without holding the lock of the manager')
        f = self.prog.fns.get(ins.f[1:]) if ins.f.startswith('@') else None
        if kind != 'virtual' and (f is None or not self.inline(eng, fr, f, name)):
            for a in args:
                if isinstance(a, tuple):
                    self.check(eng, fr, ins, a, st, last(name))
        if q:
            return [('ret', full, None)] + ([] if ins.d.get('nt') else [('throw', full, None)])
        return None


def check(prog, rep):
    rep.rule('R1 every access to a queue shared between the threads of two blocks happens while the lock of that same port object is held')
    rep.rule('R1b a port operation that inspects a queue and then changes it does both in one critical section')
    rep.rule('R2 a buffer or token is returned to its manager under the lock that guards the other uses of that manager')
    guard = {}
    for c, f, l in PAIRS:
        fl = dict(cls_fields(prog, c))
        rep.need(f in fl and l in fl, 'fields %s and %s of %s' % (f, l, c))
        guard[c + '::' + f] = c + '::' + l

    direct = []
    for f in prog.repo_fns():
        if last(f.name).startswith('~') or f.name in ('Pothos::InputPort::InputPort', 'Pothos::OutputPort::OutputPort'):
            continue
        hit = False
        for x in f.instrs():
            if x.op == 'gep' and any(p in guard for p in x.d['p']):
                hit = True
        if hit or any(prog.call_info(c)[0] == 'Pothos::BufferManager::push' and prog.call_info(c)[2] == 'virtual' for c in f.calls()):
            direct.append(f)
    rep.need(len(direct) >= 15, 'functions that use the shared queues')
    roots = {}
    for f in direct:
        c = cls_of(f.name)
        work = [f]
        seen = set()
        while work:
            g = work.pop()
            if g.n in seen:
                continue
            seen.add(g.n)
            ups = [x.fn for x in prog.callers.get(g.n, [])]
            inside = [u for u in ups if cls_of(u.name) == c or u.name.startswith(c)]
            if len(inside) < len(ups) or not inside or g.n in prog.addr_taken:
                roots[g.n] = g
            work += inside
    n = 0
    sites = set()
    for k in sorted(roots):
        f = roots[k]
        if f.name.startswith('Pothos::BufferManager::') or '/Builtin/' in f.file or f.name.startswith('Pothos::ManagedBuffer'):
            continue   # the managers themselves: single threaded by contract, see C24
        rule = MailRule(prog, guard, f.name.startswith(('Pothos::InputPort::', 'Pothos::OutputPort::')))
        eng = Engine(prog, rule)
        for kind, st, rv in eng.run(f, (frozenset(), frozenset(), frozenset())):
            for l, m in Locks.held(st[0]):
                if isinstance(l, tuple) and l[0] == 'fld' and l[2] in guard.values():
                    rep.violation('leaked-lock', f.loc, f.name, '%s still held on %s exit' % (last(l[2]), kind))
        rep.engine(eng)
        if rule.acc:
            n += 1
            sites |= rule.acc
            rep.analysed.append('%s (%s): %d accesses' % (f.name, f.loc, len(rule.acc)))
    rep.counts['entries'] = n
    rep.counts['access_sites'] = len(sites)
    for f in guard:
        rep.need(any(a[1] == f for a in sites), 'accesses of %s' % f)

    # R2: which lock the callback of a manager takes
    nb = 0
    for f in prog.repo_fns():
        lockargs = set()
        mgrs = set()
        binds = []
        eng = Engine(prog, Rule())
        fr = None
        for c in f.calls():
            nm = prog.call_info(c)[0]
            if nm == 'std::bind' or any(isinstance(a, str) and 'bufferManagerPush' in a for a in c.a):
                fr = fr or Frame(eng, f, tuple(('arg', i, '') for i in range(f.nargs)))
                for a in c.a:
                    e = fr.ex(a)
                    for x in values_of(fr, e):
                        if isinstance(x, tuple) and x[0] == 'fld' and x[2] in guard.values():
                            lockargs.add(x[2])
                            binds.append(c)
        if not lockargs:
            continue
        for x in f.instrs():
            if x.op == 'gep' and any(p in guard and last(p) in PTR for p in x.d['p']):
                mgrs |= set(guard[p] for p in x.d['p'] if p in guard)
        nb += 1
        if mgrs and lockargs != mgrs:
            rep.violation('wrong-lock', binds[0].loc, f.name, 'the return callback locks %s but the manager is used under %s' % (
                ', '.join(last(x) for x in lockargs), ', '.join(last(x) for x in mgrs)))
    rep.counts['return_callbacks'] = nb
    rep.need(nb >= 2, 'buffer return callbacks')
    from rules.spin import check_spinlock
    check_spinlock(prog, rep)


def values_of(fr, e):
    yield e
    if isinstance(e, tuple) and e[0] == 'alloca':
        f2 = fr.eng.frames.get(e[1])
        if f2.stores is None:
            f2._collect_stores()
        for (b, p), vs in f2.stores.items():
            if b == e[2]:
                for v in vs:
                    yield f2.ex(v)
