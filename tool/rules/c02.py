"""C02 no lost wakeups"""
from common import *

SOURCES = FRAMEWORK
EXPLANATION = ('Typestate over the IR: every path that makes input, a returned buffer/token or an external state change available to a block '
               'must afterwards raise that block\'s change flag; the worker may not consume the flag without acquiring the block; waits are bounded.')



def ring_mut(name):
    return bool(re.match(r'^Pothos::Util::RingDeque::(push_back|emplace_back|push_front|emplace_front)$', name))


class FlagRule(Rule):
    """shared recognition of the change flag"""

    def __init__(self, prog):
        self.prog = prog
        fl = field_of_type(prog, 'ActorInterface', lambda t: t.endswith('atomic_flag'))
        if len(fl) != 1:
            raise AnalysisError('anchor lost: change flag of ActorInterface')
        self.flag = 'ActorInterface::' + fl[0]
        self.sites = set()

    def is_flag(self, e):
        return isinstance(e, tuple) and e[0] == 'fld' and e[2] == self.flag

    def on_aop(self, eng, fr, ins, kind, ptr, ops, order, st):
        if not self.is_flag(ptr):
            return None
        if kind == 'store' and ops == (('const', 0),):
            self.sites.add(ins.loc)
            if order not in RELEASE:
                eng.report(fr, ins, 'flag-order', 'change flag raised without release ordering: what was enqueued before need not be visible')
            return self.raised(ptr, st)
        if kind == 'xchg':
            if order not in ACQUIRE:
                eng.report(fr, ins, 'flag-order', 'change flag consumed without acquire ordering')
            return self.consumed(ptr, st)
        return None

    def raised(self, ptr, st):
        return [(st, None)]

    def consumed(self, ptr, st):
        return None

    def inline(self, eng, fr, fn, name):
        return (fn.in_repo and '/Framework/' in fn.file) or name.startswith('std::condition_variable')


class EnqueueRule(FlagRule):
    """state: frozenset of pending owner expressions"""

    def __init__(self, prog):
        super().__init__(prog)
        self.enq = set()

    def enqueue_target(self, name, args, ins):
        if not args:
            return None
        if ring_mut(name):
            fl, base = loc_fields(args[0])
            if fl and fl[0].startswith('Pothos::InputPort::'):
                return ('fld', base, 'Pothos::InputPort::_actor')
        if name == 'Pothos::BufferAccumulator::push':
            fl, base = loc_fields(args[0])
            if fl and fl[0].startswith('Pothos::InputPort::'):
                return ('fld', base, 'Pothos::InputPort::_actor')
        if name == 'Pothos::BufferManager::push' and self.prog.call_info(ins)[2] == 'virtual':
            return ('any',)
        return None

    def on_call(self, eng, fr, ins, name, args, st):
        t = self.enqueue_target(name, args, ins)
        if t is not None:
            self.enq.add(ins.loc)
            out = [('ret', st | {t}, None)]
            if not ins.d.get('nt'):
                out.append(('throw', st, None))
            return out
        return None

    def raised(self, ptr, st):
        owner = ptr[1]
        # the flag must belong to the actor of the port that was enqueued on
        if owner[0] == 'load':
            new = frozenset(s for s in st if s != ('any',) and s != owner[1])
        else:
            new = frozenset(s for s in st if s != ('any',))
        return [(new, None)]


class AcquireRule(FlagRule):
    """state: (consumed, locked, waitingset)"""

    def __init__(self, prog, lockfield):
        super().__init__(prog)
        self.lockfield = lockfield
        self.waits = set()

    def on_call(self, eng, fr, ins, name, args, st):
        consumed, locks = st
        le = Locks.event(eng, fr, ins, name, args, locks)
        if le is not None:
            return [(k, (consumed, l2), rv) for k, l2, rv, a, r in le]
        if re.match(r'^std::condition_variable(_any)?::wait$', name):
            self.waits.add(ins.loc)
            eng.report(fr, ins, 'unbounded-wait', 'unbounded wait although changes are notified without holding the mutex: a notification between check and wait is lost')
        if re.match(r'^std::condition_variable(_any)?::wait_(for|until)$', name):
            self.waits.add(ins.loc)
        return None

    def raised(self, ptr, st):
        return [((False, st[1]), None)]

    def consumed(self, ptr, st):
        if st[0]:
            return [(st, 1)]
        return [((True, st[1]), 0), (st, 1)]


class NotifyRule(FlagRule):
    """flagExternalChange: state (cleared, waiting-known-false, notified)"""

    def on_call(self, eng, fr, ins, name, args, st):
        c, w, n = st
        if re.match(r'^std::condition_variable::notify_(one|all)$', name):
            return [('ret', (c, w, True), None)]
        return None

    def raised(self, ptr, st):
        return [((True, False, st[2]), None)]

    def on_branch(self, eng, fr, ins, atom, truth, st):
        c, w, n = st
        if any(isinstance(x, tuple) and x[0] == 'fld' and 'ActorInterface::' in x[2] for x in sub_exprs(atom)):
            if not truth and c:
                return (c, True, n)
        return st


def derives(prog, e, field, depth=0, seen=None):
    """does the value of e come (through sums, phis, selects) from loads of that field?"""
    if seen is None:
        seen = set()
    if not isinstance(e, tuple) or depth > 40:
        return False
    if e[0] == 'load':
        fl, b = loc_fields(e[1])
        return bool(fl) and fl[0] == field
    if e[0] == 'phi':
        if (e[1], e[2]) in seen:
            return False
        seen.add((e[1], e[2]))
        fn = prog.fns[e[1]]
        return any(derives_op(prog, fn, o, field, seen) for o in fn.defs[e[2]].a)
    if e[0] in ('bin', 'cmp'):
        return derives(prog, e[2], field, depth + 1, seen) or derives(prog, e[3], field, depth + 1, seen)
    if e[0] == 'select':
        return any(derives(prog, x, field, depth + 1, seen) for x in e[1:])
    if e[0] == 'call':
        return any(derives(prog, x, field, depth + 1, seen) for x in e[2])
    return False


def derives_op(prog, fn, o, field, seen):
    if not o.startswith('%') or (fn.n, o) in seen:
        return False
    seen.add((fn.n, o))
    d = fn.defs.get(o)
    if d is None:
        return False
    if d.op == 'load':
        g = fn.defs.get(d.a[0])
        return g is not None and g.op == 'gep' and any(p == field for p in g.d['p'][-1:])
    if d.op in ('bin', 'phi', 'cast', 'cmp', 'select'):
        return any(derives_op(prog, fn, x, field, seen) for x in d.a)
    if d.op in ('call', 'invoke'):
        cn = prog.call_info(d)
        for t in cn[1]:
            f2 = prog.fns.get(t)
            if f2 is not None and f2.in_repo:
                for x in f2.instrs():
                    if x.op == 'ret' and x.a and derives_op(prog, f2, x.a[0], field, seen):
                        return True
        return any(derives_op(prog, fn, x, field, seen) for x in d.a)
    return False


def uses_through_casts(fn, v):
    out = []
    for u in fn.uses.get(v, []):
        if u.op == 'cast':
            out += uses_through_casts(fn, u.v)
        else:
            out.append(u)
    return out


class WorkRule(FlagRule):
    """state: (phase, in, out): phase 0 before user work, 1 after; in/out in U(nknown) Z(ero) F(lagged)"""
    FI = 'Pothos::InputPort::_workEvents'
    FO = 'Pothos::OutputPort::_workEvents'

    def __init__(self, prog):
        super().__init__(prog)
        self.branches = set()
        self.works = 0
        self.slots = 0
        self.memo = {}

    def der(self, atom, field):
        k = (atom, field)
        if k not in self.memo:
            self.memo[k] = derives(self.prog, atom, field)
        return self.memo[k]

    def on_call(self, eng, fr, ins, name, args, st):
        ph, i, o, slot = st
        if name in USER_CALLBACKS and self.prog.call_info(ins)[2] == 'virtual':
            if last(name) == 'work':
                self.works += 1
                return [('ret', (1, 'U', 'U', slot), None), ('throw', (1, 'U', 'U', slot), None)]
            if last(name) == 'opaqueCallHandler':
                self.slots += 1
                return [('ret', (ph, i, o, True), None), ('throw', st, None)]
            return [('ret', st, None), ('throw', st, None)]
        if re.match(r'^Pothos::(CallInterface|Connectable|Block)::(call\w*|opaqueCallMethod|opaqueCall)$', name):
            # a probe result is posted as a signal: that is counted as output activity
            return [('ret', (ph, i, o, False), None), ('throw', (ph, i, o, False), None)]
        return None

    def raised(self, ptr, st):
        return [((st[0], 'F', 'F', False), None)]

    def on_branch(self, eng, fr, ins, atom, truth, st):
        ph, i, o, slot = st
        if ph == 1:
            di = self.der(atom, self.FI)
            do = self.der(atom, self.FO)
            if di or do:
                self.branches.add(ins.loc)
                zero = None
                if atom[0] != 'cmp':
                    zero = not truth
                elif atom[1] in ('ult', 'slt') and atom[2] == ('const', 0):
                    zero = not truth      # 0 < x
                elif atom[1] == 'eq' and ('const', 0) in (atom[2], atom[3]):
                    zero = truth
                if zero:
                    return (ph, 'Z' if di and i != 'F' else i, 'Z' if do and o != 'F' else o, slot)
        return st

    def may_throw(self, eng, fr, ins, name):
        return False


class EventRule(Rule):
    """port operations count as activity: state (acted, counted)"""

    def __init__(self, prog, field, acts):
        self.prog = prog
        self.field = field
        self.acts = acts
        self.hits = 0

    def inline(self, eng, fr, fn, name):
        return fn.in_repo and '/Framework/' in fn.file and not self.acts(name, None, None, eng)

    def on_call(self, eng, fr, ins, name, args, st):
        if self.acts(name, args, ins, eng):
            self.hits += 1
            return [('ret', (True, st[1]), None)]
        return None

    def on_store(self, eng, fr, ins, ptr, val, st):
        fl, b = loc_fields(ptr)
        if fl and fl[0] == self.field and not (val == ('const', 0)):
            return (st[0], True)
        return st

    def may_throw(self, eng, fr, ins, name):
        return False


def check(prog, rep):
    from rules.c01 import actor_lock_field
    rep.rule('R1 after every enqueue of a message, slot call, label, buffer, returned buffer or token, the owning actor\'s change flag is raised (release) on every normal path')
    rep.rule('R2 raising the flag from outside notifies a waiting worker, and checks for it only after the flag is raised')
    rep.rule('R3 a worker that consumes the flag (acquire) either acquires the actor or raises the flag again; condition waits are timed')
    rep.rule('R4 every external entry leaves with the change flag raised')
    rep.rule('R4b the count of external callers that the worker gives way to is balanced on every exit of every external entry')
    rep.rule('R5 when work() had input or output activity, or a slot ran, the flag is raised before the actor is released')
    rep.rule('R6 every port operation that consumes, posts or removes counts as activity')
    lf = actor_lock_field(prog)
    P = 'Pothos::WorkerActor::'

    # R1 ------------------------------------------------------------
    n = 0
    cands = {}
    rule0 = EnqueueRule(prog)

    def has_enqueue(f):
        fr = None
        for c in f.calls():
            nm = prog.call_info(c)[0]
            if ring_mut(nm) or nm == 'Pothos::BufferAccumulator::push' or (nm == 'Pothos::BufferManager::push' and prog.call_info(c)[2] == 'virtual'):
                return True
        return False
    isport = lambda f: f.name.startswith(('Pothos::InputPort::', 'Pothos::OutputPort::')) or (
        f.in_repo and re.search(r'/(InputPort|OutputPort)(Impl)?\.[ch]pp$', f.file))
    roots = set()
    for f in prog.repo_fns():
        if isport(f) and has_enqueue(f):
            # climb to the operation offered to other classes or threads
            work = [f]
            seen = set()
            while work:
                g = work.pop()
                if g.n in seen:
                    continue
                seen.add(g.n)
                ups = [x.fn for x in prog.callers.get(g.n, [])]
                inside = [u for u in ups if isport(u) and u.name.split('::')[1] == g.name.split('::')[1]]
                outside = [u for u in ups if u not in inside]
                if outside or not inside or g.n in prog.addr_taken:
                    roots.add(g.n)
                work += inside
    total = set()
    for r in sorted(roots):
        f = prog.fns[r]
        rule = EnqueueRule(prog)
        eng = Engine(prog, rule)
        exits = eng.run(f, frozenset())
        for kind, st, rv in exits:
            if kind == 'ret' and st:
                rep.violation('unflagged-enqueue', f.loc, f.name, 'a path enqueues without raising the change flag of the receiving actor afterwards', trace=sorted(rule.enq))
        rep.engine(eng)
        if rule.enq:
            n += 1
            rep.analysed.append('%s (%s): enqueues at %s' % (f.name, f.loc, ', '.join(sorted(rule.enq))))
        total |= rule.enq
    rep.counts['enqueue_entries'] = n
    rep.counts['enqueue_sites'] = len(total)
    rep.need(n >= 5 and len(total) >= 5, 'enqueue operations of the ports')

    # R2 ------------------------------------------------------------
    for f in prog.named('ActorInterface::flagExternalChange'):
        rule = NotifyRule(prog)
        eng = Engine(prog, rule)
        for kind, st, rv in eng.run(f, (False, False, False)):
            if kind == 'ret' and not st[0]:
                rep.violation('unflagged', f.loc, f.name, 'returns on some path without raising the change flag')
            elif kind == 'ret' and not (st[1] or st[2]):
                rep.violation('no-notify', f.loc, f.name, 'a worker that may be waiting is not notified after the flag was raised')
        rep.engine(eng)
    for f in prog.named('ActorInterface::flagInternalChange') + prog.named('Pothos::Block::yield'):
        rule = NotifyRule(prog)
        eng = Engine(prog, rule)
        for kind, st, rv in eng.run(f, (False, False, False)):
            if kind == 'ret' and not st[0]:
                rep.violation('unflagged', f.loc, f.name, 'returns on some path without raising the change flag')
        rep.engine(eng)

    # R3 ------------------------------------------------------------
    waits = set()
    for f in prog.named('ActorInterface::workerThreadAcquire'):
        rule = AcquireRule(prog, lf)
        eng = Engine(prog, rule)
        exits = eng.run(f, (False, frozenset()))
        for kind, st, rv in exits:
            locked = any(l[0] == 'fld' and l[2] == lf for l, m in Locks.held(st[1]) if isinstance(l, tuple))
            if st[0] and not (kind == 'ret' and locked and rv not in (0, False)):
                rep.violation('flag-dropped', f.loc, f.name, 'the change flag is consumed but the actor is not acquired and the flag not raised again')
        rep.engine(eng)
        waits |= rule.waits
        rep.need(exits, 'worker acquire exits')
    for f in prog.named('ActorInterface::externalCallAcquire'):
        rule = AcquireRule(prog, lf)
        eng = Engine(prog, rule)
        eng.run(f, (False, frozenset()))
        rep.engine(eng)
        waits |= rule.waits
    rep.counts['condition_waits'] = len(waits)

    # R4 ------------------------------------------------------------
    class ExtRule(FlagRule):
        def on_call(self, eng, fr, ins, name, args, st):
            le = Locks.event(eng, fr, ins, name, args, frozenset())
            if le is not None and args and isinstance(args[0], tuple) and args[0][0] == 'fld' and args[0][2] == lf:
                if name.endswith('try_lock'):
                    return [('ret', (True, False, st[2]), 1), ('ret', st, 0)]
                if name.endswith('::lock'):
                    return [('ret', (True, False, st[2]), None)]
            return None

        def raised(self, ptr, st):
            return [((st[0], True, st[2]), None)]

        def on_aop(self, eng, fr, ins, kind, ptr, ops, order, st):
            if isinstance(ptr, tuple) and ptr[0] == 'fld' and ptr[2] in counters and kind in ('add', 'sub'):
                d = ops[0][1] if ops and ops[0][0] == 'const' else 1
                return [((st[0], st[1], max(-3, min(3, st[2] + (d if kind == 'add' else -d)))), None)]
            return FlagRule.on_aop(self, eng, fr, ins, kind, ptr, ops, order, st)
    ext = 0
    counters = set('ActorInterface::' + n for n in field_of_type(prog, 'ActorInterface', lambda t: re.search(r'atomic<(unsigned|int|long|size_t)', t)))
    from rules.c01 import ExclusiveRule
    worker = []
    for f in prog.repo_fns():
        for c in f.calls():
            if prog.call_info(c)[0] == 'Pothos::Block::work' and prog.call_info(c)[2] == 'virtual':
                worker += topmost(prog, f, lambda g: g.name.startswith(P))
    rep.need(worker, 'the worker task')
    for f in address_taken_methods(prog, P) + prog.named('Pothos::Block::opaqueCallMethod'):
        if f in worker:
            continue
        rule = ExtRule(prog)
        eng = Engine(prog, rule)
        acq = False
        for kind, st, rv in eng.run(f, (False, False, 0)):
            if st[2] and (st[0] or kind == 'ret'):
                rep.violation('external-count', f.loc, f.name, 'the count of external callers is left %s by this entry (%s exit): the worker keeps giving way to a caller that is gone' % ('raised' if st[2] > 0 else 'lowered', kind))
            if st[0]:
                acq = True
                if not st[1]:
                    rep.violation('external-unflagged', f.loc, f.name, 'an external call that entered the actor can leave without raising the change flag (%s exit)' % kind)
        ext += acq
        rep.engine(eng)
    rep.counts['external_entries'] = ext
    rep.need(ext >= 5, 'external entries')

    # R5 ------------------------------------------------------------
    for f in {w.n: w for w in worker}.values():
        rule = WorkRule(prog)
        eng = Engine(prog, rule)
        for kind, st, rv in eng.run(f, (0, 'Z', 'Z', False)):
            if kind == 'ret' and st[0] == 1:
                for nm, v in (('consumed input', st[1]), ('produced output', st[2])):
                    if v == 'U':
                        rep.violation('activity-unflagged', f.loc, f.name, 'after work() that %s the change flag need not be raised' % nm)
                if st[3]:
                    rep.violation('slot-unflagged', f.loc, f.name, 'a slot ran but the change flag need not be raised')
            elif kind == 'ret' and st[3]:
                rep.violation('slot-unflagged', f.loc, f.name, 'a slot ran but the change flag need not be raised')
        rep.engine(eng)
        rep.need(rule.works and rule.slots, 'work and slot callbacks in the worker task')
        rep.counts['activity_branches'] = len(rule.branches)
        for n in sorted(eng.functions):
            g = prog.fns[n]
            for field in (WorkRule.FI, WorkRule.FO):
                summed = set()
                for x in g.instrs():
                    if x.op == 'load':
                        d = g.defs.get(x.a[0])
                        if d is not None and d.op == 'gep' and d.d['p'][-1:] == [field]:
                            if any(u.op == 'bin' and u.d['k'] in ('add', 'or') for u in uses_through_casts(g, x.v)):
                                summed.add(x)
                for x in summed:
                    ls = [(len(b), h) for h, b in loops(g).items() if x.b in b]
                    if not ls:
                        continue
                    h = min(ls)[1]
                    rep.count('activity_sums')
                    if iteration_can_skip(g, h, loops(g)[h], set(y.b for y in summed)):
                        rep.violation('activity-skipped', x.loc, g.name, 'the activity of a port can be left out of the sum that decides whether the change flag is raised')

    # R6 ------------------------------------------------------------
    def rm(cont):
        def acts(name, args, ins, eng):
            if args is None:
                return False
            if not args:
                return False
            fl, b = loc_fields(args[0])
            return bool(fl) and last(fl[0]) in cont and bool(re.search(r'::(erase|pop_front|pop_back|pop|clear|emplace_back|push_back)$', name))
        return acts

    def vcall(nm):
        return lambda name, args, ins, eng: args is not None and name == nm
    ops = [('Pothos::InputPort::popMessage', 'Pothos::InputPort::_workEvents', None),
           ('Pothos::InputPort::removeLabel', 'Pothos::InputPort::_workEvents', rm({'_inlineMessages'})),
           ('Pothos::InputPort::bufferAccumulatorPop', 'Pothos::InputPort::_workEvents', vcall('Pothos::BufferAccumulator::pop')),
           ('Pothos::OutputPort::popElements', 'Pothos::OutputPort::_workEvents', None),
           ('Pothos::OutputPort::postBuffer', 'Pothos::OutputPort::_workEvents', None),
           ('Pothos::OutputPort::postLabel', 'Pothos::OutputPort::_workEvents', None),
           ('Pothos::OutputPort::postMessage', 'Pothos::OutputPort::_workEvents', None)]
    nops = 0
    for q, field, acts in ops:
        for f in prog.named(q, required=not q.endswith('AccumulatorPop')):
            rule = EventRule(prog, field, acts or (lambda *a: False))
            eng = Engine(prog, rule)
            nops += 1
            for kind, st, rv in eng.run(f, (acts is None, False)):
                if kind == 'ret' and st[0] and not st[1]:
                    rep.violation('uncounted-activity', f.loc, f.name, 'a path of this port operation takes effect without being counted as activity')
            rep.engine(eng)
    rep.counts['port_operations'] = nops
