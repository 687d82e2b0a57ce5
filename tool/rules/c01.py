"""C01 actor exclusivity"""
from common import *

SOURCES = FRAMEWORK + ['+spin.cpp']
EXPLANATION = ('Interprocedural must-lockset typestate over the LLVM IR of every cross-thread entry into a block '
               '(registered actor methods, the worker task, external method calls), along normal and exceptional edges.')

# port and block configuration that is fixed when the port is allocated, before the block is shared
CONFIG = {'_actor', '_isSlot', '_isSignal', '_index', '_name', '_alias', '_dtype', '_domain'}
# statistics counter bumped by the pushing thread under the accumulator lock (see C03)
COUNTERS = {'Pothos::InputPort::_totalBuffers'}


def actor_lock_field(prog):
    l = field_of_type(prog, 'ActorInterface', lambda t: t.endswith('SpinLock'))
    if len(l) != 1:
        raise AnalysisError('anchor lost: exclusive access lock of ActorInterface')
    return 'ActorInterface::' + l[0]


class ExclusiveRule(Rule):
    def __init__(self, prog, lockfield, callbacks_only=False):
        self.prog = prog
        self.lockfield = lockfield
        self.callbacks_only = callbacks_only
        self.accesses = set()
        self.callbacks = set()
        self.acquires = set()
        self.guarded = set()
        for n, t in cls_fields(prog, 'Pothos::WorkerActor'):
            if 'atomic' in t or n == 'block':
                continue
            self.guarded.add('Pothos::WorkerActor::' + n)
        for c in ('Pothos::InputPort', 'Pothos::OutputPort'):
            fl = cls_fields(prog, c)
            # fields that have a lock of their own are decided by C03
            own = set()
            for n, t in fl:
                if t.endswith('SpinLock'):
                    own.add(n)
            for n, t in fl:
                if n in own or n in CONFIG or c + '::' + n in COUNTERS:
                    continue
                if 'RingDeque' in t and n != '_postedBuffers':
                    continue
                if 'BufferAccumulator' in t or 'shared_ptr' in t:
                    continue
                self.guarded.add(c + '::' + n)
        self.guarded.add('Pothos::Block::_workInfo')

    # state: (locks frozenset, user) -- user: exception in flight came from a user callback
    def actor_held(self, locks):
        return [l for l, m in Locks.held(locks) if isinstance(l, tuple) and l[0] == 'fld' and l[2] == self.lockfield]

    def owner(self, e):
        """expression of the actor that owns the location, None if unknown, 'foreign' through a subscriber list"""
        x = e
        while isinstance(x, tuple) and x[0] in ('fld', 'load', 'deref', 'elem', 'idx', 'base'):
            if x[0] == 'fld':
                if last(x[2]) == '_subscribers':
                    return 'foreign'
                if x[2].startswith('Pothos::WorkerActor::'):
                    return x[1]
            x = x[1]
        return None

    def access(self, eng, fr, ins, ptr, st, what):
        if self.callbacks_only:
            return
        fl, base = loc_fields(ptr)
        g = [f for f in fl if f in self.guarded]
        if not g:
            return
        if isinstance(base, tuple) and base[0] == 'alloca':
            return
        own = self.owner(ptr)
        # a subscriber list itself is owned; what hangs off its elements is foreign
        if last(g[-1]) == '_subscribers':
            own = self.owner(base)
        self.accesses.add((ins.loc, g[0]))
        held = self.actor_held(st[0])
        if own == 'foreign':
            eng.report(fr, ins, 'foreign-state', 'state %s of another block is touched while only this block is held' % last(g[0]))
            return
        if not held:
            eng.report(fr, ins, 'unlocked-access', '%s of %s without exclusive ownership of the actor' % (what, g[0]))
        elif own is not None and isinstance(own, tuple):
            if not any(h[1] == own for h in held):
                eng.report(fr, ins, 'wrong-actor', '%s of %s while a different actor is held' % (what, g[0]))

    def on_load(self, eng, fr, ins, ptr, st):
        self.access(eng, fr, ins, ptr, st, 'read')
        return st

    def on_store(self, eng, fr, ins, ptr, val, st):
        self.access(eng, fr, ins, ptr, st, 'write')
        return st

    def on_call(self, eng, fr, ins, name, args, st):
        locks, user = st
        ev = Locks.event(eng, fr, ins, name, args, locks)
        if ev is not None:
            out = []
            for kind, l2, rv, acq, rel in ev:
                if acq and isinstance(acq[0], tuple) and acq[0][0] == 'fld' and acq[0][2] == self.lockfield:
                    self.acquires.add(ins.loc)
                    if acq[0] in [h for h in self.actor_held(locks)] and not name.endswith('try_lock'):
                        eng.report(fr, ins, 're-acquire', 'exclusive ownership acquired while already held by this thread')
                if rel and isinstance(rel[0], tuple) and rel[0][0] == 'fld' and rel[0][2] == self.lockfield:
                    if rel[1] == 'none':
                        eng.report(fr, ins, 'release-unheld', 'exclusive ownership released on a path that does not hold it')
                # an exclusive try_lock that is attempted by the holder always fails
                if name.endswith('try_lock') and acq and acq[0] in self.actor_held(locks):
                    eng.report(fr, ins, 're-acquire', 'exclusive ownership requested while already held by this thread (waits forever)')
                    continue
                out.append((kind, (l2, user), rv))
            return out
        if name in USER_CALLBACKS and self.prog.call_info(ins)[2] == 'virtual':
            self.callbacks.add((ins.loc, name))
            if not self.actor_held(locks):
                eng.report(fr, ins, 'callback-unlocked', 'user callback %s invoked without exclusive ownership' % last(name))
            out = [('ret', st, None)]
            if not ins.d.get('nt'):
                out.append(('throw', (locks, True), None))
            return out
        if name == '__cxa_begin_catch':
            return [('ret', (locks, False), None)]
        f = self.prog.fns.get(ins.f[1:]) if ins.f.startswith('@') else None
        if f is None or not self.inline(eng, fr, f, name):
            for a in args:
                self.access(eng, fr, ins, a, st, 'use')
        return None

    def inline(self, eng, fr, fn, name):
        return fn.in_repo and ('/Framework/' in fn.file)


def check(prog, rep):
    lf = actor_lock_field(prog)
    rep.rule('R1 every access to block-owned state and every user callback reached from a cross-thread entry happens while that block\'s exclusive lock is held')
    rep.rule('R2 ownership is released exactly once on every exit, normal or exceptional; never released unheld, never re-acquired by the holder')
    rep.rule('R3 a thread that holds one block never touches the unshared state of another block')
    P = 'Pothos::WorkerActor::'
    roots = [f for f in address_taken_methods(prog, P)]
    worker = []
    for f in prog.repo_fns():
        for c in f.calls():
            if prog.call_info(c)[0] == 'Pothos::Block::work' and prog.call_info(c)[2] == 'virtual':
                worker += topmost(prog, f, lambda g: g.name.startswith(P))
    rep.need(worker, 'the worker task that calls Block::work')
    for w in worker:
        if w not in roots:
            roots.append(w)
    rep.need(len(roots) >= 5, 'registered actor methods')
    ext = [f for f in prog.named('Pothos::Block::opaqueCallMethod')]
    seen = set()
    nacq = 0
    for f in roots + ext:
        if f.n in seen:
            continue
        seen.add(f.n)
        rule = ExclusiveRule(prog, lf, callbacks_only=f in ext)
        eng = Engine(prog, rule)
        exits = eng.run(f, (frozenset(), False))
        isworker = f in worker
        for kind, st, rv in exits:
            if rule.actor_held(st[0]):
                if kind == 'throw' and isworker and not st[1]:
                    continue  # a library failure (no memory) in the worker thread terminates the process
                eng.violations.append(dict(rule='leaked-ownership', where=f.loc, function=f.name, trace=[], blocks=[],
                                           key='leaked-ownership|%s|%s' % (f.name, kind),
                                           message='exclusive ownership still held on %s exit' % ('exceptional' if kind == 'throw' else 'normal')))
        rep.engine(eng)
        rep.count('accesses_checked', len(rule.accesses))
        rep.count('callbacks_checked', len(rule.callbacks))
        rep.count('acquire_sites', len(rule.acquires))
        rep.analysed.append('%s (%s): %d accesses, %d callbacks, %d exits' % (f.name, f.loc, len(rule.accesses), len(rule.callbacks), len(exits)))
    rep.counts['entries'] = len(seen)
    rep.need(rep.counts['acquire_sites'] > 0 and rep.counts['accesses_checked'] > 20 and rep.counts['callbacks_checked'] >= 5, 'guarded accesses')
    # the lock primitive itself
    from rules.spin import check_spinlock
    check_spinlock(prog, rep)
