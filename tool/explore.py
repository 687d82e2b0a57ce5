"""Path-sensitive, interprocedural typestate exploration over the IR.

A Rule defines a finite abstract state and reacts to calls, loads, stores, branches and returns.  The engine
propagates *sets* of (abstract state, branch facts) along every normal and exceptional edge, inlining the
repository's own helpers, and memoises (function, argument expressions, entry state) -> exits.
No value of the program is computed; branch conditions are only used to discard contradictory branches.
"""
import re
from ir import Frame, cond, show, last, AnalysisError, root, fields, sub_exprs

NORETURN = {'std::terminate', '__clang_call_terminate', 'abort', 'exit', '_exit'}
NOTHROW = re.compile(r'^(llvm\.|__cxa_(begin_catch|end_catch|free_exception|allocate_exception|get_exception_ptr|guard_|atexit|demangle)'
                     r'|__gxx|operator delete|std::exception::what|_Unwind|pthread_)')


ORDER = {'monotonic': 0, 'unordered': 0, 'acquire': 2, 'release': 3, 'acq_rel': 4, 'seq_cst': 5}
ACQUIRE = (2, 4, 5)
RELEASE = (3, 4, 5)
ATOMIC = re.compile(r'^std::(atomic|__atomic_base|__atomic_flag_base|atomic_flag|__atomic_float)::(load|store|exchange|fetch_\w+|compare_exchange_\w+|operator\+\+|operator--'
                    r'|operator\+=|operator-=|operator=|operator [\w: ]+|test_and_set|clear|test)$')
AKIND = {'exchange': 'xchg', 'fetch_add': 'add', 'fetch_sub': 'sub', 'fetch_and': 'and', 'fetch_or': 'or', 'compare_exchange_weak': 'cas',
         'compare_exchange_strong': 'cas', 'operator++': 'add', 'operator--': 'sub', 'operator+=': 'add', 'operator-=': 'sub', 'operator=': 'store',
         'test_and_set': 'tas', 'clear': 'clear', 'test': 'load'}


class Exit(tuple):
    pass


class Rule(object):
    """override what you need; states must be hashable"""
    max_depth = 14

    def inline(self, eng, fr, fn, name):
        return fn.in_repo

    def inline_virtual(self, eng, fr, ins, name, targets):
        return False

    def on_call(self, eng, fr, ins, name, args, st):
        return None

    def on_load(self, eng, fr, ins, ptr, st):
        return st

    def on_store(self, eng, fr, ins, ptr, val, st):
        return st

    def on_atomic(self, eng, fr, ins, ptr, st):
        return st

    def on_aop(self, eng, fr, ins, kind, ptr, ops, order, st):
        """atomic operation, inlined or called: kind load/store/xchg/add/sub/cas/...; order 0..5.
        return None (default) or a list of (state, result)"""
        return None

    def on_branch(self, eng, fr, ins, atom, truth, st):
        return st

    def on_ins(self, eng, fr, ins, st):
        return st

    def may_throw(self, eng, fr, ins, name):
        return True

    def on_frame_exit(self, eng, fr, kind, st, ins):
        return st


class Budget(AnalysisError):
    pass


class Engine(object):
    def __init__(self, prog, rule, max_steps=3000000):
        self.prog = prog
        self.rule = rule
        self.frames = {}
        self.mem = {}
        self.cache = {}
        self.active = []
        self.stack = []   # (frame, call ins)
        self.steps = 0
        self.max_steps = max_steps
        self.violations = []
        self.seen_viol = set()
        self.functions = set()
        self.paths = 0
        self.cur_path = None

    # ------------------------------------------------------------ reporting
    def trace(self, fr, ins):
        out = []
        for f, c in self.stack:
            out.append('%s at %s' % (f.fn.name, c.loc))
        out.append('%s at %s' % (fr.fn.name, ins.loc if ins is not None else fr.fn.loc))
        return out

    def report(self, fr, ins, rule, msg, key=None):
        loc = ins.loc if ins is not None else fr.fn.loc
        k = (rule, loc, msg)
        if k in self.seen_viol:
            return
        self.seen_viol.add(k)
        self.violations.append(dict(rule=rule, where=loc, function=fr.fn.name, message=msg, key=key or '%s|%s|%s' % (rule, fr.fn.name, msg),
                                    trace=self.trace(fr, ins), blocks=self._blockpath()))

    def _blockpath(self):
        out = []
        n = self.cur_path
        while n is not None and len(out) < 60:
            if n[1] and (not out or out[-1] != n[1]):
                out.append(n[1])
            n = n[0]
        out.reverse()
        return out

    # ------------------------------------------------------------ running
    def run(self, fn, st, args=None):
        if args is None:
            args = tuple(('arg', i, fn.varname('%%%d' % i) or 'arg%d' % i) for i in range(fn.nargs))
        return self.explore(fn, args, st, None)

    def explore(self, fn, args, st, parent):
        key = (fn.n, args, st)
        r = self.cache.get(key)
        if r is not None:
            return r
        fr = Frame(self, fn, args, parent)
        self.functions.add(fn.n)
        self.active.append(fn.n)
        saved = self.cur_path
        try:
            r = self._explore(fr, st)
        finally:
            self.active.pop()
            self.cur_path = saved
        self.cache[key] = r
        return r

    def _explore(self, fr, st0):
        fn = fr.fn
        exits = set()
        seen = set()
        work = [(0, 0, -1, st0, frozenset(), self.cur_path)]
        rule = self.rule
        blocks = fn.blocks
        while work:
            b, i, pred, st, facts, path = work.pop()
            if i == 0:
                if pred >= 0:
                    facts = self.phis(fr, b, pred, facts)
                    if facts:
                        lv = fn.live[b]
                        ph = set(x.v for x in blocks[b] if x.op == 'phi') if blocks[b][0].op == 'phi' else ()
                        facts = frozenset(f for f in facts if f[0] in lv or f[0] in ph)
                k = (b, st, facts)
                if k in seen:
                    continue
                seen.add(k)
                ln = next((x.l for x in blocks[b] if x.l), 0)
                path = (path, '%s:%d' % (fn.name.rsplit('::', 2)[-1] if False else last(fn.name), ln) if ln else None)
            self.cur_path = path
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget('state budget exceeded in %s' % fn.name)
            blk = blocks[b]
            n = len(blk)
            while i < n:
                x = blk[i]
                op = x.op
                if op == 'phi':
                    i += 1
                    continue
                st = rule.on_ins(self, fr, x, st)
                if st is None:
                    break
                if 'ord' in x.d:
                    k2 = {'load': 'load', 'store': 'store', 'cmpxchg': 'cas'}.get(op) or x.d.get('k')
                    p = fr.ex(x.a[1] if op == 'store' else x.a[0])
                    ops = tuple(fr.ex(o) for o in (x.a[:1] if op == 'store' else x.a[1:]))
                    outs = rule.on_aop(self, fr, x, k2, p, ops, ORDER.get(x.d['ord'], 0), st)
                    if outs is not None:
                        if not outs:
                            st = None
                            break
                        if x.v:
                            facts = self.drop(facts, x)
                        nxt = []
                        for s2, rv in outs:
                            if op == 'cmpxchg' and rv is not None:
                                rv = ('cx', int(rv))
                            nxt.append((b, i + 1, pred, s2, self.setfact(fr, facts, x.v, rv) if x.v else facts, path))
                        if len(nxt) == 1:
                            st, facts = nxt[0][3], nxt[0][4]
                            i += 1
                            continue
                        work.extend(reversed(nxt))
                        st = None
                        break
                if op == 'load':
                    self.drop(facts, x)
                    p = fr.ex(x.a[0])
                    if 'ord' in x.d:
                        st = rule.on_atomic(self, fr, x, p, st)
                    else:
                        st = rule.on_load(self, fr, x, p, st)
                    if st is None:
                        break
                elif op == 'store':
                    p = fr.ex(x.a[1])
                    v = fr.ex(x.a[0])
                    self.record(p, v)
                    if 'ord' in x.d:
                        st = rule.on_atomic(self, fr, x, p, st)
                    else:
                        st = rule.on_store(self, fr, x, p, v, st)
                    if st is None:
                        break
                elif op in ('atomicrmw', 'cmpxchg'):
                    st = rule.on_atomic(self, fr, x, fr.ex(x.a[0]), st)
                    if st is None:
                        break
                elif op in ('call', 'invoke'):
                    outs = self.call(fr, x, st)
                    first = None
                    nxt = []
                    for kind, s2, rv in outs:
                        if kind == 'ret':
                            f2 = self.setfact(fr, facts, x.v, rv) if x.v else facts
                            if op == 'invoke':
                                nxt.append((x.s[0], 0, b, s2, f2, path))
                            else:
                                nxt.append((b, i + 1, pred, s2, f2, path))
                        else:
                            if op == 'invoke':
                                nxt.append((x.s[1], 0, b, s2, facts, path))
                            else:
                                s3 = rule.on_frame_exit(self, fr, 'throw', s2, x)
                                if s3 is not None:
                                    exits.add(('throw', s3, None))
                    if op == 'call' and len(nxt) == 1 and nxt[0][0] == b and nxt[0][1] == i + 1:
                        st, facts = nxt[0][3], nxt[0][4]
                        i += 1
                        continue
                    work.extend(reversed(nxt))
                    st = None
                    break
                elif op == 'br':
                    if len(x.s) == 1:
                        work.append((x.s[0], 0, b, st, facts, path))
                    else:
                        v = self.val(fr, x.a[0], facts)
                        atom, pol = cond(fr.ex(self.unalias(x.a[0], facts)))
                        for k, t in ((1, False), (0, True)):
                            if v is not None and bool(v) != t:
                                continue
                            s2 = rule.on_branch(self, fr, x, atom, (t == pol), st)
                            if s2 is None:
                                continue
                            f2 = self.assume(fr, x.a[0], t, facts)
                            work.append((x.s[k], 0, b, s2, f2, path))
                    st = None
                    break
                elif op == 'switch':
                    v = self.val(fr, x.a[0], facts)
                    e = fr.ex(x.a[0])
                    cvs = [int(c[1:]) for c in x.d['cv']]
                    if isinstance(v, (int, bool)):
                        tgt = x.s[0]
                        for c, s in zip(cvs, x.s[1:]):
                            if c == int(v):
                                tgt = s
                        work.append((tgt, 0, b, st, facts, path))
                    else:
                        for c, s in zip([None] + cvs, x.s):
                            s2 = rule.on_branch(self, fr, x, ('case', e, c), True, st)
                            if s2 is not None:
                                f2 = facts
                                if c is not None and x.a[0].startswith('%'):
                                    f2 = frozenset(set(facts) | {(x.a[0], c)})
                                work.append((s, 0, b, s2, f2, path))
                    st = None
                    break
                elif op == 'ret':
                    rv = None
                    if x.a:
                        rv = self.val(fr, x.a[0], facts)
                    s2 = rule.on_frame_exit(self, fr, 'ret', st, x)
                    if s2 is not None:
                        exits.add(('ret', s2, rv))
                    st = None
                    break
                elif op == 'resume':
                    s2 = rule.on_frame_exit(self, fr, 'throw', st, x)
                    if s2 is not None:
                        exits.add(('throw', s2, None))
                    st = None
                    break
                elif op == 'unreachable':
                    st = None
                    break
                if x.v:
                    facts = self.drop(facts, x)
                    if facts and op in ('cast', 'bin', 'cmp', 'extractvalue') and blk[-1].s and any(x.v in fn.live[s] for s in blk[-1].s):
                        # the operands may be dead in the blocks that consult this value
                        v = self.val(fr, x.v, facts)
                        if v is not None:
                            facts = self.setfact(fr, facts, x.v, v)
                i += 1
        self.paths += len(exits)
        return exits

    # ------------------------------------------------------------ calls
    def call(self, fr, x, st):
        prog = self.prog
        name, targets, kind = prog.call_info(x)
        args = tuple(fr.ex(a) for a in x.a)
        self.stack.append((fr, x))
        try:
            m = ATOMIC.match(name)
            if m and args:
                k = AKIND.get(m.group(2)) or (m.group(2) if not m.group(2).startswith('operator ') else 'load')
                order = 5
                ops = args[1:]
                if k in ('load', 'store', 'xchg', 'add', 'sub', 'cas', 'and', 'or', 'clear', 'tas') and not m.group(2).startswith('operator'):
                    if len(args) > {'load': 1, 'clear': 1, 'tas': 1, 'cas': 3}.get(k, 2) and args[-1][0] == 'const':
                        order = args[-1][1]
                        if k == 'cas' and len(args) > 4 and args[3][0] == 'const':
                            order = args[3][1]
                if k == 'tas':
                    k, ops = 'xchg', (('const', 1),)
                elif k == 'clear':
                    k, ops = 'store', (('const', 0),)
                elif m.group(2) in ('operator++', 'operator--'):
                    ops = (('const', 1),)
                o = self.rule.on_aop(self, fr, x, k, args[0], ops, order, st)
                if o is not None:
                    return [('ret', s2, rv) for s2, rv in o]
            r = self.rule.on_call(self, fr, x, name, args, st)
            if r is not None:
                return r
            if name in NORETURN:
                return []
            if name in ('__cxa_throw', '__cxa_rethrow', 'std::rethrow_exception') or name.startswith('std::__throw_'):
                return [('throw', st, None)]
            tfns = []
            if kind == 'direct':
                f = prog.fns.get(targets[0])
                if f is None and x.f[1:].find('D1') > 0:
                    f = prog.fns.get(x.f[1:].replace('D1', 'D2'))
                if f is not None and self.rule.inline(self, fr, f, name):
                    tfns = [f]
            elif kind == 'virtual' and self.rule.inline_virtual(self, fr, x, name, targets):
                tfns = [prog.fns[t] for t in targets if t in prog.fns]
            tfns = [f for f in tfns if f.n not in self.active]
            if tfns and len(self.active) < self.rule.max_depth:
                out = set()
                for f in tfns:
                    out |= self.explore(f, args, st, fr)
                nt = bool(x.d.get('nt'))
                return [o for o in out if not (nt and o[0] == 'throw')]
            out = [('ret', st, None)]
            if not x.d.get('nt') and not NOTHROW.match(name) and self.rule.may_throw(self, fr, x, name):
                out.append(('throw', st, None))
            if x.d.get('nr'):
                out = [o for o in out if o[0] == 'throw']
            return out
        finally:
            self.stack.pop()

    # ------------------------------------------------------------ memory of locals
    def record(self, p, v):
        b = p
        while isinstance(b, tuple) and b[0] == 'fld':
            b = b[1]
        if isinstance(b, tuple) and b[0] == 'alloca':
            o = self.mem.get(p)
            if o is None:
                self.mem[p] = v
            elif o != v:
                self.mem[p] = ('top',)

    # ------------------------------------------------------------ facts
    def unalias(self, o, facts):
        for _ in range(4):
            n = next((v[1] for k, v in facts if k == o and isinstance(v, tuple) and v[0] == 'alias'), None)
            if n is None:
                return o
            o = n
        return o

    def drop(self, facts, x):
        if facts and x.v:
            for k, v in facts:
                if k == x.v or v == ('alias', x.v):
                    return frozenset(f for f in facts if f[0] != x.v and f[1] != ('alias', x.v))
        return facts

    def setfact(self, fr, facts, v, val):
        facts = frozenset(f for f in facts if f[0] != v and f[1] != ('alias', v)) if facts else facts
        if val is None:
            return facts
        if not fr.fn.uses.get(v):
            return facts
        return facts | {(v, val)}

    def val(self, fr, o, facts, depth=0):
        if o.startswith('#'):
            return int(o[1:])
        if o == 'null':
            return 'null'
        if not o.startswith('%') or depth > 8:
            return None
        for k, v in facts:
            if k == o:
                if isinstance(v, tuple) and v[0] == 'alias':
                    return self.val(fr, v[1], facts, depth + 1)
                return v
        d = fr.fn.defs.get(o)
        if d is None:
            i = int(o[1:])
            if i < len(fr.args):
                e = fr.args[i]
                if e[0] == 'const':
                    return e[1]
                if e[0] == 'null':
                    return 'null'
            return None
        if d.op == 'cast' and d.d['k'] in ('zext', 'trunc', 'sext', 'bitcast'):
            v = self.val(fr, d.a[0], facts, depth + 1)
            if isinstance(v, (int, bool)) and d.d['k'] == 'trunc' and d.d.get('ty') == 'i1':
                return int(v) & 1
            return v
        if d.op == 'extractvalue' and d.d['ix'] == 1:
            v = self.val(fr, d.a[0], facts, depth + 1)
            if isinstance(v, tuple) and v[0] == 'cx':
                return v[1]
            return None
        if d.op == 'bin' and d.d['k'] == 'xor':
            a = self.val(fr, d.a[0], facts, depth + 1)
            b = self.val(fr, d.a[1], facts, depth + 1)
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                return (int(a) ^ int(b)) & 1 if b in (1, True, -1) else int(a) ^ int(b)
        if d.op == 'bin' and d.d['k'] in ('and', 'or'):
            a = self.val(fr, d.a[0], facts, depth + 1)
            b = self.val(fr, d.a[1], facts, depth + 1)
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                return int(a) & int(b) if d.d['k'] == 'and' else int(a) | int(b)
        if d.op == 'cmp' and d.d['k'] in ('eq', 'ne'):
            a = self.val(fr, d.a[0], facts, depth + 1)
            b = self.val(fr, d.a[1], facts, depth + 1)
            if a is not None and b is not None:
                if 'nonnull' in (a, b):
                    if 'null' in (a, b):
                        return d.d['k'] == 'ne'
                    return None
                return (a == b) == (d.d['k'] == 'eq')
        if d.op == 'cmp' and d.d['k'] in ('ult', 'slt', 'ugt', 'sgt', 'ule', 'sle', 'uge', 'sge'):
            a = self.val(fr, d.a[0], facts, depth + 1)
            b = self.val(fr, d.a[1], facts, depth + 1)
            if isinstance(a, int) and isinstance(b, int) and a >= 0 and b >= 0:
                k = d.d['k'][1:]
                return {'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[k]
        return None

    def assume(self, fr, o, t, facts, depth=0):
        """record the outcome of a branch for operands that are consulted again"""
        if not o.startswith('%') or depth > 6:
            return facts
        if len(fr.fn.uses.get(o, ())) > 1:
            facts = frozenset(f for f in facts if f[0] != o) | {(o, int(t))}
        d = fr.fn.defs.get(o)
        if d is None:
            return facts
        if d.op == 'cast':
            return self.assume(fr, d.a[0], t, facts, depth + 1)
        if d.op == 'bin' and d.d['k'] == 'xor' and d.a[1] in ('#1', '#-1'):
            return self.assume(fr, d.a[0], not t, facts, depth + 1)
        if d.op == 'cmp' and d.d['k'] in ('eq', 'ne') and d.a[1] in ('null', '#0'):
            eq = (d.d['k'] == 'eq') == t
            y = d.a[0]
            if y.startswith('%') and len(fr.fn.uses.get(y, ())) > 1:
                if d.a[1] == 'null':
                    facts = frozenset(f for f in facts if f[0] != y) | {(y, 'null' if eq else 'nonnull')}
                elif eq:
                    facts = frozenset(f for f in facts if f[0] != y) | {(y, 0)}
        return facts

    def phis(self, fr, b, pred, facts):
        blk = fr.fn.blocks[b]
        if blk[0].op != 'phi':
            return facts
        new = {}
        for x in blk:
            if x.op != 'phi':
                break
            v = None
            for o, p in zip(x.a, x.d['fr']):
                if p == pred:
                    v = self.val(fr, o, facts)
                    if v is None and o.startswith('%') and o != x.v and any(y in ('#0', '#1', '#-1', 'true', 'false') for y in x.a) and x.d.get('ty', 'i1') == 'i1':
                        v = ('alias', self.unalias(o, facts))
                    break
            new[x.v] = v
        out = [f for f in facts if f[0] not in new and not (isinstance(f[1], tuple) and f[1][0] == 'alias' and f[1][1] in new)]
        for k, v in new.items():
            if v is not None and fr.fn.uses.get(k):
                out.append((k, v))
        return frozenset(out)


# ---------------------------------------------------------------- lock events

_GUARD_CTOR = re.compile(r'^std::(lock_guard|unique_lock|scoped_lock|shared_lock)::(lock_guard|unique_lock|scoped_lock|shared_lock)$')
_GUARD_DTOR = re.compile(r'^std::(lock_guard|unique_lock|scoped_lock|shared_lock)::~(lock_guard|unique_lock|scoped_lock|shared_lock)$')
_GUARD_OP = re.compile(r'^std::(unique_lock|shared_lock)::(lock|unlock|try_lock|release|swap|operator=|owns_lock|operator bool|mutex)$')
_RAW = re.compile(r'^(std::(mutex|recursive_mutex|shared_timed_mutex|shared_mutex|timed_mutex)|Pothos::Util::SpinLock(RW)?|Poco::(FastMutex|Mutex|RWLock|MutexImpl|FastMutexImpl))::'
                  r'(lock|unlock|try_lock|lock_shared|unlock_shared|try_lock_shared|tryLock|readLock|writeLock)$')
_POCO_GUARD = re.compile(r'^Poco::(ScopedLock|ScopedLockWithUnlock|ScopedRWLock|ScopedReadRWLock|ScopedWriteRWLock)::(~?)(\w+)$')


class Locks(object):
    """abstract lock state: frozenset of ('g', guardexpr, lockexpr, mode, held) and ('r', lockexpr, mode)"""

    @staticmethod
    def held(st):
        out = []
        for e in st:
            if e[0] == 'g' and e[4]:
                out.append((e[2], e[3]))
            elif e[0] == 'r':
                out.append((e[1], e[2]))
        return out

    @staticmethod
    def event(eng, fr, ins, name, args, st):
        """returns None when not a lock operation, else list of (kind, st, rv, acquired, released)
        acquired/released: (lockexpr, mode) or None"""
        m = _GUARD_CTOR.match(name)
        if m:
            dem = eng.prog.dem(ins.f[1:]) if ins.f.startswith('@') else ''
            mode = 'S' if m.group(1) == 'shared_lock' else 'X'
            g = args[0]
            pstr = dem[dem.rfind('('):] if dem else ''
            params = dem.split('unique_lock(')[-1] if 'unique_lock(' in dem else dem.split('_lock(')[-1]
            if '&&' in params and len(args) == 2:  # move construction
                src = args[1]
                new = set(st)
                for e in st:
                    if e[0] == 'g' and e[1] == src:
                        new.discard(e)
                        new.add(('g', g) + e[2:])
                return [('ret', frozenset(new), None, None, None)]
            if len(args) < 2:
                return [('ret', st, None, None, None)]
            lk = args[1]
            base = frozenset(e for e in st if not (e[0] == 'g' and e[1] == g))
            if 'defer_lock' in params:
                return [('ret', base | {('g', g, lk, mode, False)}, None, None, None)]
            if 'try_to_lock' in params:
                return [('ret', base | {('g', g, lk, mode, True)}, None, (lk, mode), None),
                        ('ret', base | {('g', g, lk, mode, False)}, None, None, None)]
            if 'adopt_lock' in params:
                new = frozenset(e for e in base if not (e[0] == 'r' and e[1] == lk))
                return [('ret', new | {('g', g, lk, mode, True)}, None, None, None)]
            return [('ret', base | {('g', g, lk, mode, True)}, None, (lk, mode), None)]
        m = _GUARD_DTOR.match(name)
        if m:
            g = args[0]
            rel = None
            for e in st:
                if e[0] == 'g' and e[1] == g and e[4]:
                    rel = (e[2], e[3])
            new = frozenset(e for e in st if not (e[0] == 'g' and e[1] == g))
            return [('ret', new, None, None, rel)]
        m = _GUARD_OP.match(name)
        if m:
            g = args[0]
            cur = [e for e in st if e[0] == 'g' and e[1] == g]
            if not cur:
                return [('ret', st, None, None, None)]
            e = cur[0]
            op = m.group(2)
            rest = frozenset(x for x in st if x is not e)
            if op == 'lock':
                return [('ret', rest | {e[:4] + (True,)}, None, (e[2], e[3]), None)]
            if op == 'try_lock':
                return [('ret', rest | {e[:4] + (True,)}, 1, (e[2], e[3]), None), ('ret', rest | {e[:4] + (False,)}, 0, None, None)]
            if op == 'unlock':
                return [('ret', rest | {e[:4] + (False,)}, None, None, (e[2], e[3]))]
            if op in ('owns_lock', 'operator bool'):
                return [('ret', st, int(e[4]), None, None)]
            return [('ret', st, None, None, None)]
        m = _RAW.match(name)
        if m:
            lk = args[0]
            op = m.group(5)
            mode = 'S' if op.endswith('_shared') or op == 'readLock' else 'X'
            if op in ('lock', 'lock_shared', 'readLock', 'writeLock'):
                return [('ret', st | {('r', lk, mode)}, None, (lk, mode), None)]
            if op.startswith('try'):
                return [('ret', st | {('r', lk, mode)}, 1, (lk, mode), None), ('ret', st, 0, None, None)]
            rel = None
            for e in st:
                if e[0] == 'r' and e[1] == lk:
                    rel = (lk, e[2])
            if rel is None:
                rel = (lk, 'none')
            return [('ret', frozenset(e for e in st if not (e[0] == 'r' and e[1] == lk)), None, None, rel)]
        m = _POCO_GUARD.match(name)
        if m:
            g = args[0]
            if m.group(2):
                rel = None
                for e in st:
                    if e[0] == 'g' and e[1] == g and e[4]:
                        rel = (e[2], e[3])
                return [('ret', frozenset(e for e in st if not (e[0] == 'g' and e[1] == g)), None, None, rel)]
            if len(args) >= 2:
                return [('ret', st | {('g', g, args[1], 'X', True)}, None, (args[1], 'X'), None)]
        return None
