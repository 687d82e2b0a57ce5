"""C10 thread environments: what runs, on which thread, until when"""
from terms import *

SOURCES = ['lib/Framework/ThreadEnvironment.cpp', 'lib/Framework/ThreadPool.cpp', 'lib/Framework/Block.cpp']
EXPLANATION = ('The operations of the thread environment and both thread loops are interpreted on all paths (exceptional ones included) as sequences of locking, table, signature, thread and task events; '
               'the sequences are compared with the registration protocol.')

ENV = 'ThreadEnvironment'
LOCKC = re.compile(r'^std::(lock_guard|unique_lock|scoped_lock)::(lock_guard|unique_lock|scoped_lock)$')
LOCKD = re.compile(r'^std::(lock_guard|unique_lock|scoped_lock)::~')
ATOM = re.compile(r'^std::(__atomic_base|atomic|__atomic_flag_base|atomic_flag)::(.*)$')
READ = re.compile(r'^(operator \w|load$)')
BUMP = ('operator++', 'operator+=', 'fetch_add')
ITERV = re.compile(r'^std::(_Rb_tree_(const_)?iterator|map|_Rb_tree)')


class Shape:
    """the roles of the members, by their types"""

    def __init__(self, prog):
        f = [(n, re.sub(r'\s', '', t)) for n, t in cls_fields(prog, ENV)]
        one = lambda pred, what: self.pick([n for n, t in f if pred(t)], what)
        self.tasks = one(lambda t: t.startswith(('std::map<', 'std::unordered_map<')) and 'std::shared_ptr<TaskData>' in t, 'task table')
        self.threads = one(lambda t: t.startswith(('std::map<', 'std::unordered_map<')) and 'std::thread' in t, 'thread table')
        self.pool = one(lambda t: t.startswith(('std::vector<std::thread', 'std::deque<std::thread')), 'thread list')
        self.sig = one(lambda t: re.match(r'std::atomic<(unsigned|int|long|size_t|std::size_t)', t), 'configuration signature')
        self.args = one(lambda t: t == 'Pothos::ThreadPoolArgs', 'arguments')
        wait = [n for n, t in f if t in ('std::atomic<bool>', 'bool', 'std::atomic_bool')]
        self.wait = wait[0] if wait else None
        d = [(n, re.sub(r'\s', '', t)) for n, t in cls_fields(prog, 'TaskData')]
        self.task = self.pick([n for n, t in d if t.startswith('std::function<bool')], 'task function')
        self.wake = self.pick([n for n, t in d if t.startswith('std::function<void')], 'wake function')
        self.flag = self.pick([n for n, t in d if t.startswith(('std::atomic_flag', 'std::atomic<bool'))], 'task flag')

    def pick(self, l, what):
        if len(l) != 1:
            raise AnalysisError('anchor lost: %s of the thread environment' % what)
        return l[0]


def m(name):
    return ('fld', ('arg', 0, 'this'), ENV + '::' + name)


class EnvRule(TermRule):
    calls = ()          # operations that are events rather than entered

    def __init__(self, prog, shape):
        TermRule.__init__(self, prog)
        self.s = shape
        self.derefs = []

    def inside(self, fn, name):
        return re.match(r'^lib/Framework/ThreadEnvironment', fn.loc or '') is not None and fn.n not in self.calls \
            and last(name) not in ('applyThreadConfig', 'setPriority', 'setCPUAffinity', 'setNodeAffinity')

    def throws(self, eng, ins, name):
        return False

    def term(self, st, v):
        if isinstance(v, tuple) and v[0] == 'alloca' and ('tv', v) not in st.mem:
            w = st.rd(v)
            if isinstance(w, tuple) and w[0] in ('arg', 'r', 'L', 'size', 'at') or cval(w) is not None:
                return w
            if isinstance(w, tuple) and w[0] == 'unk' and isinstance(w[1], str) and w[1].startswith('{@'):
                return ('glob', w[1][2:].split(',')[0])
            g = [x for o, x in st.mem.items() if o[0] == 'fld' and v in prefixes(o) and isinstance(x, tuple) and x[0] == 'glob']
            if len(g) == 1:
                return g[0]
        return TermRule.term(self, st, v)

    def thread_of(self, st, ins, a):
        """(function, arguments) that a new thread runs"""
        l = [self.term(st, self.scalar(st, x)) for x in a]
        if l and isinstance(l[0], tuple) and l[0][0] == 'bind':
            l = list(l[0][1:]) + l[1:]
        if l and isinstance(l[0], tuple) and l[0][0] == 'glob' and l[0][1] in self.prog.fns:
            return ('run', l[0][1], tuple(l[1:]))
        # a closure that makes the call
        tag = re.findall(r"\d(\$_\d+)", ins.f)
        for f in self.prog.fns.values():
            if f.blocks and tag and f.name.endswith('::%s::operator()' % tag[-1]) and f.name.startswith(ENV + '::') and len(a) == 1:
                for c in f.calls():
                    k = self.prog.call_info(c)
                    t = k[1][0] if k[2] == 'direct' and k[1] else None
                    if t in self.prog.fns and self.prog.fns[t].name.startswith(ENV + '::'):
                        caps = [x for o, x in sorted(st.mem.items(), key=str) if o[0] == 'fld' and a[0] in prefixes(o)]
                        return ('run', t, tuple(('ref', x) if isinstance(x, tuple) and x[0] == 'alloca' else self.term(st, x) for x in sorted(caps, key=lambda x: x != ('arg', 0, 'this'))))
        return ('run', None, tuple(l))

    def special(self, eng, fr, ins, name, a, dst, st):
        T = lambda v: self.term(st, v)
        n = last(name)
        f = self.prog.fns.get(ins.f[1:]) if ins.f.startswith('@') else None
        if f is not None and f.n in self.calls:
            t = st.copy()
            self.emit(st, 'op', n, tuple(T(self.scalar(st, x)) for x in a))
            return [('ret', st, None), ('throw', t, None)]
        if LOCKC.match(name) and len(a) >= 2:
            x = self.place(st, a[1])
            if len(a) == 2:
                self.emit(st, 'lock', x)
            self.put(st, a[0], ('guard', x) if len(a) == 2 else ('open', x))
            return [('ret', st, None)]
        if LOCKD.match(name) or name in ('std::unique_lock::unlock', 'std::unique_lock::lock'):
            g = T(a[0])
            if isinstance(g, tuple) and g[0] == 'guard' and n != 'lock':
                self.emit(st, 'unlock', g[1])
                self.put(st, a[0], ('open', g[1]))
            if isinstance(g, tuple) and g[0] == 'open' and n == 'lock':
                self.emit(st, 'lock', g[1])
                self.put(st, a[0], ('guard', g[1]))
            return [('ret', st, None)]
        if name in ('std::mutex::lock', 'std::mutex::unlock'):
            self.emit(st, n, self.place(st, a[0]))
            return [('ret', st, None)]
        k = ATOM.match(name)
        if k and n not in ('atomic', '__atomic_base', 'atomic_flag') and not n.startswith('~') and a:
            p = self.place(st, a[0])
            r = ('at', k.group(2), p, ('n', len(st.ev)))
            self.emit(st, 'atomic', k.group(2), p, tuple(T(self.scalar(st, x)) for x in a[1:]), r)
            return [('ret', st, r)]
        if name == 'std::thread::thread' and len(a) >= 2:
            th = self.thread_of(st, ins, a[1:]) if T(a[1])[0] != 'thread' else T(a[1])
            if th[0] == 'thread':       # moved
                self.put(st, a[0], th)
                return [('ret', st, None)]
            t = st.copy()
            self.emit(st, 'spawn', th, ins.loc)
            self.put(st, a[0], ('thread', th))
            return [('ret', st, None), ('throw', t, None)]
        if name in ('std::vector::emplace_back', 'std::deque::emplace_back') and T(a[0]) == m(self.s.pool) and not (len(a) == 2 and T(a[1])[0] == 'thread'):
            th = self.thread_of(st, ins, a[1:])
            t = st.copy()
            self.emit(st, 'spawn', th, ins.loc)
            self.emit(st, 'mut', n, self.own(st, a[0]), (('thread', th),), ins.loc, fr.fn.name)
            return [('ret', st, None), ('throw', t, None)]
        if name in ('std::thread::join', 'std::thread::detach'):
            self.emit(st, n, T(a[0]), ins.loc)
            return [('ret', st, None)]
        if name == 'std::bind':
            self.put(st, dst, ('bind',) + tuple(T(self.scalar(st, x)) for x in a))
            return [('ret', st, None)]
        if name == 'std::function::operator()':
            r = ('ran', T(a[0]), ('n', len(st.ev)))
            self.emit(st, 'call', T(a[0]), ins.loc)
            return [('ret', st, r)]
        if name in ('std::swap', 'std::shared_ptr::swap', 'std::__shared_ptr::swap') and len(a) == 2:
            x, y = T(a[0]), T(a[1])
            self.put(st, a[0], ('was', y))
            if base(a[1])[0] == 'alloca':
                self.put(st, a[1], ('was', x))
            return [('ret', st, None)]
        if n in ('unique', 'use_count') and a and 'shared' in name:
            return [('ret', st, (n, T(a[0]), ('n', len(st.ev))))]
        if name == 'std::map::extract' and T(a[0]) == m(self.s.tasks):
            self.emit(st, 'mut', 'erase', T(a[0]), tuple(T(self.scalar(st, x)) for x in a[1:]), ins.loc, fr.fn.name)
            return None
        if n in ('size', 'empty') and len(a) == 1 and SEQ.match(name):
            t = T(a[0])
            e = ('size', t, ('n', sum(1 for x in st.ev if x[0] == 'mut' and root(x[2]) == root(t))))
            return [('ret', st, e if n == 'size' else compare('eq', e, K(0)))]
        if n in ('count', 'contains') and len(a) == 2 and name.startswith(('std::map', 'std::unordered_map')) and T(a[0])[0] in ('snap', 'w', 'new'):
            return [('ret', st, ('in', T(a[0]), T(a[1]), self.ep(st, T(a[0]))))]
        if name == 'Pothos::ThreadPool::ThreadPool' and len(a) == 2 and re.search(r'ThreadPoolC[12]E(RKS|OS)', ins.f):
            self.put(st, a[0], T(a[1]))
            return [('ret', st, None)]
        if name in ('Pothos::ThreadPool::getContainer', 'Pothos::ThreadPool::operator bool') and a:
            return [('ret', st, ('r', name, (unobj(T(a[0])),)))] if n != 'getContainer' else None if T(a[0]) == a[0] else self.got(st, dst, name, T(a[0]))
        # copies of the task table
        if name.count('::') > 1 and (n == 'operator=' or n == name.split('::')[-2]) and len(a) == 2 and name.startswith(('std::map', 'std::unordered_map')) and T(a[1]) == m(self.s.tasks):
            self.emit(st, 'copy', a[0], ins.loc)
            self.put(st, a[0], ('snap', ('n', len(st.ev))))
            for o in [o for o in st.mem if o[0] == 'itv']:
                del st.mem[o]
            return [('ret', st, a[0])]
        if (n in ('operator++', 'operator--') and ITERV.match(name) or name in ('std::advance', 'std::__advance') and T(self.scalar(st, a[1])) == K(1)) and isinstance(a[0], tuple) and a[0][0] == 'alloca':
            v = self.value(st, a[0])
            for o in [o for o in st.mem if o[0] == 'fld' and a[0] in prefixes(o)]:
                del st.mem[o]
            self.put(st, a[0], ('step', v, ('n', len(st.ev))))
            return [('ret', st, a[0])]
        if n in ('operator==', 'operator!=') and len(a) == 2:
            x, y = self.value(st, a[0]), self.value(st, a[1])
            f = None
            for p, q in ((x, y), (y, x)):
                if isinstance(q, tuple) and q[0] == 'r' and last(q[1]) in ('end', 'cend') and isinstance(q[2][0], tuple) and q[2][0][0] in ('snap', 'new', 'w'):
                    if p == q or isinstance(p, tuple) and p[0] == 'r' and last(p[1]) in ('end', 'cend') and p[2] == q[2]:
                        f = K(1)
                    elif isinstance(p, tuple) and p[0] == 'r' and last(p[1]) in ('begin', 'cbegin') and p[2] == q[2]:
                        f = compare('eq', ('size', q[2][0], ('n', 0)), K(0))
                    elif isinstance(p, tuple) and p[0] in ('w', 'alloca', 'step'):
                        f = ('atend', p, q[2][0], sum(1 for e in st.ev if e[0] == 'op'))
            if f is not None:
                return [('ret', st, f if n == 'operator==' else compare('eq', f, K(0)))]
        if n in ('operator*', 'operator->') and ITERV.match(name) and a:
            self.derefs.append((fr.fn, ins.loc, self.value(st, a[0]), a[0], dict(st.facts), st.ev, fr.key))
        return None

    def got(self, st, dst, name, x):
        if dst is not None:
            self.put(st, dst, ('r', name, (x,)))
            return [('ret', st, None)]
        return [('ret', st, ('r', name, (x,)))]

    # the exclusive flag of a task
    def on_rmw(self, eng, fr, ins, kind, addr, val, st):
        if kind == 'xchg' and self.is_flag(addr):
            r = ('tas', addr, ('n', len(st.ev)))
            self.emit(st, 'tas', addr, r, ins.loc)
            return r
        return None

    def on_store(self, eng, fr, ins, addr, val, st):
        if self.is_flag(addr):
            self.emit(st, 'clear', addr, ins.loc)

    def is_flag(self, addr):
        return any(isinstance(x, tuple) and x[0] == 'fld' and isinstance(x[2], str) and x[2].endswith('TaskData::' + self.s.flag) for x in prefixes(addr))

    def on_enter(self, eng, fr, header, st, phis):
        TermRule.on_enter(self, eng, fr, header, st, phis)
        self.entry = getattr(self, 'entry', {})
        self.entry.setdefault((fr.key, header), []).append(dict(phis) if phis else {})

    def on_backedge(self, eng, fr, header, it, st, phis):
        ent, hst, hphis = it
        self.heads = getattr(self, 'heads', {})
        mem = [o for o, v in hst.mem.items() if isinstance(v, tuple) and v[0] == 'w' and o[0] == 'alloca']
        self.heads.setdefault(('loop', fr.key, header), []).append((dict(ent.phis, **{}) | {o: ent.st.mem.get(o) for o in mem if hasattr(ent, 'st')}, dict(hphis) | {o: hst.mem[o] for o in mem}, dict(phis) | {o: st.mem.get(o) for o in mem}))
        TermRule.on_backedge(self, eng, fr, header, it, st, phis)


class Ctx:
    def __init__(self, prog, rep):
        self.prog = prog
        self.rep = rep
        self.s = Shape(prog)
        self.T, self.TH, self.P, self.SIG = (m(x) for x in (self.s.tasks, self.s.threads, self.s.pool, self.s.sig))
        self.W = m(self.s.wait) if self.s.wait else None
        self.NT = ('ini', ('fld', m(self.s.args), 'Pothos::ThreadPoolArgs::numThreads'))
        self.n = 0

    def run(self, f, calls=()):
        r = EnvRule(self.prog, self.s)
        r.calls = calls
        e = Affine(self.prog, r, max_steps=400000)
        out = e.run(f)
        self.rep.engine(e)
        return r, out

    def fn(self, name):
        l = [f for f in self.prog.named(ENV + '::' + name) if f.blocks]
        return l[0]

    def bad(self, rule, f, msg, loc=None):
        self.rep.violation(rule, loc or f.loc, f.name, msg)

    # ---- event sequences
    def held(self, ev, i):
        h = []
        for e in ev[:i]:
            if e[0] == 'lock':
                h.append(e[1])
            if e[0] == 'unlock' and e[1] in h:
                h.remove(e[1])
        return h

    def section(self, ev, i, lock):
        """indices of the critical section of that lock around event i, or None"""
        if lock not in self.held(ev, i):
            return None
        a = max(j for j in range(i) if ev[j] == ('lock', lock))
        b = min([j for j in range(i, len(ev)) if ev[j] == ('unlock', lock)] or [len(ev)])
        return a, b

    def muts(self, ev, cont):
        return [i for i, e in enumerate(ev) if e[0] == 'mut' and root(e[2]) == cont or e[0] in ('set', 'mut') and isinstance(e[2 if e[0] == 'mut' else 1], tuple) and has(e[2 if e[0] == 'mut' else 1], cont)]


def adds(c, ev, cont, h, content=None):
    out = []
    for i, e in enumerate(ev):
        if e[0] == 'mut' and e[1] == 'reset' and entry_of(e[2], cont, h) and e[3]:
            out.append((i, e[3]))
        elif e[0] == 'set' and entry_of(e[1], cont, h):
            out.append((i, (e[2],)))
        elif e[0] == 'mut' and e[1] in ('emplace', 'insert', 'try_emplace', 'insert_or_assign') and root(e[2]) == cont and has(e[3], h):
            out.append((i, e[3]))
    return out


def entry_of(t, cont, h):
    t = root(t)
    if isinstance(t, tuple) and t[0] == 'was':
        t = t[1]
    if isinstance(t, tuple) and t[0] == 'fld' and isinstance(t[2], str) and t[2].endswith('second'):
        t = t[1]
    return isinstance(t, tuple) and t[0] == 'elem' and root(t[1]) == cont and t[2] == h


def removes(ev, cont, h):
    return [i for i, e in enumerate(ev) if e[0] == 'mut' and e[1] == 'erase' and root(e[2]) == cont and any(x == h or isinstance(x, tuple) and x[0] == 'find' and x[2] == h or has(x, ('find', cont, h)) or has(x, h) for x in e[3])]


def bumps(c, ev):
    return [i for i, e in enumerate(ev) if e[0] == 'atomic' and e[2] == c.SIG and (e[1] in BUMP and not (len(e[3]) and e[1] != 'operator++' and e[3][0] == K(0)))
            or e[0] == 'atomic' and e[2] == c.SIG and e[1] in ('operator=', 'store') and e[3] and isinstance(e[3][0], tuple) and e[3][0] != K(0) and has(e[3][0], c.SIG) and cval(e[3][0]) is None]


def wait_restored(c, ev):
    if c.W is None:
        return True
    w = [e for e in ev if e[0] == 'atomic' and e[2] == c.W and not READ.match(e[1])]
    if not w:
        return True
    first = next(e for e in ev if e[0] == 'atomic' and e[2] == c.W)
    v = w[-1][3][0]
    return v == first[-1] or v == ('unused',) or is_mode(c, v) or len(w) == 1 and v == first[-1]


def is_mode(c, v):
    return 'yieldMode' in str(v)


def locks(c):
    """(registration lock, update lock): the update lock guards the table against the threads, the registration lock is held throughout"""
    return c.reg, c.upd


def check_register(c):
    f = c.fn('registerTask')
    r, out = c.run(f)
    A = [('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs)]
    h = A[1]
    c.targets = {}
    for kind, st, rv in out:
        ev, facts = st.ev, st.facts
        add = adds(c, ev, c.T, h)
        gone = removes(ev, c.T, h)
        spawn = [i for i, e in enumerate(ev) if e[0] == 'spawn']
        thr = adds(c, ev, c.TH, h)
        push = [i for i, e in enumerate(ev) if e[0] == 'mut' and e[1] in ('push_back', 'emplace_back') and root(e[2]) == c.P]
        c.n += 1
        if not wait_restored(c, ev):
            c.bad('R4', f, 'the wait mode that registering switches off is not switched on again on a path that %s' % ('fails' if kind == 'throw' else 'returns'))
        for i in [x for x, _ in add] + gone + bumps(c, ev):
            if c.upd not in c.held(ev, i):
                c.bad('R1', f, 'the task table or its signature is changed without the lock that the threads read it under', locof(ev[i]))
        for i in spawn + push + [x for x, _ in thr] + [x for x, _ in add]:
            if c.reg not in c.held(ev, i):
                c.bad('R1', f, 'two registrations can start threads or change the tables at the same time', locof(ev[i]))
        if kind == 'throw':
            if add:
                s = c.section(ev, add[0][0], c.upd)
                if not any(s and s[0] < g < s[1] and g > add[-1][0] for g in gone):
                    c.bad('R3', f, 'registering fails but leaves the task in the table')
            left = [i for i, e in enumerate(ev) if e[0] == 'mut' and e[1] == 'operator[]' and root(e[2]) == c.TH]
            if left and not [g for g in removes(ev, c.TH, h) if g > left[-1]]:
                c.bad('R3', f, 'registering fails but leaves a thread entry without a thread')
            continue
        if len(add) < 1 or [g for g in gone if g > add[-1][0]]:
            c.bad('R1', f, 'a task that is registered is not in the table')
            continue
        i, val = add[-1]
        s = c.section(ev, i, c.upd)
        if s and not any(s[0] < b < s[1] for b in bumps(c, ev)):
            c.bad('R1', f, 'the table changes but its signature does not, in the same critical section: threads keep the old table')
        for sp in spawn:
            if not any(b < sp for b in bumps(c, ev)):
                c.bad('R2', f, 'the thread is started before the signature is changed: it may go on without a table', ev[sp][-1])
        over = dict((p[-1].split('::')[-1], t) for x in val if isinstance(x, tuple) and x[0] == 'obj' for p, t in x[2])
        for nm, arg in ((c.s.task, A[2]), (c.s.wake, A[3])):
            got = over.get(nm)
            if got is not None and not has(got, arg) or got is None and not has(val, arg):
                c.bad('R1', f, 'the entry of the table does not hold the %s that is registered' % nm)
        single = st.decide(compare('eq', c.NT, K(0)))
        for sp in spawn:
            if sp < i and c.upd not in c.held(ev, sp):
                c.bad('R2', f, 'the thread is started before its task is in the table: it ends at once', ev[sp][-1])
            t = ev[sp][1]
            if t[1] is not None:
                c.targets.setdefault(t[1], set()).add('single' if single else 'pool')
            if t[1] is None or t[2][:1] != (A[0],):
                c.bad('R2', f, 'what the new thread runs is not a loop of this environment', ev[sp][-1])
        if single is None:
            c.bad('R2', f, 'a thread is started (or not) whatever the size of the pool is')
        elif single:
            if len(spawn) != 1 or len([x for x in thr if has(x[1], 'thread')]) != 1 or push:
                c.bad('R2', f, 'one thread per task: %d threads are started for a task' % len(spawn))
            elif ev[spawn[0]][1][2][1:] != (h,):
                c.bad('R2', f, 'the thread of a task gets another handle', ev[spawn[0]][-1])
        else:
            e = next((ft for ft in facts if isinstance(ft, tuple) and ft[0] == 'cmp' and has(ft, c.P) and has(ft, c.NT)), None)
            room = st.decide(compare('ult', ('size', c.P, ('n', 0)), c.NT))
            if room is None or room and len(spawn) != 1 or not room and spawn or len(push) != len(spawn):
                c.bad('R2', f, 'the pool does not grow to its size (or grows beyond it): %d threads are started when there %s' % (len(spawn), 'is room' if room else 'is no room' if room is not None else 'may be room or not'))
            elif room and ev[spawn[0]][1][2][1:] != (('size', c.P, ('n', 0)),):
                c.bad('R2', f, 'a pool thread does not get its position in the pool as its number', ev[spawn[0]][-1])
            if thr:
                c.bad('R2', f, 'a pool thread is entered as the thread of a task')
    kinds = set(k for v in c.targets.values() for k in v)
    c.rep.need(kinds == {'single', 'pool'}, 'thread functions of both modes')


def locof(e):
    return next((x for x in reversed(e) if isinstance(x, str) and re.search(r'\.[ch]pp:\d', x)), None)


def check_unregister(c):
    f = c.fn('unregisterTask')
    r, out = c.run(f)
    h = ('arg', 1, f.varname('%1') or 'arg1')
    for kind, st, rv in out:
        ev, facts = st.ev, st.facts
        c.n += 1
        if not wait_restored(c, ev):
            c.bad('R4', f, 'the wait mode that unregistering switches off is not switched on again on a path that %s' % ('fails' if kind == 'throw' else 'returns'))
        gone = removes(ev, c.T, h)
        joins = [i for i, e in enumerate(ev) if e[0] in ('join', 'detach')]
        for i in joins:
            if c.upd in c.held(ev, i):
                c.bad('R5', f, 'a thread is joined while the lock is held that it needs to end', ev[i][-1])
            if ev[i][0] == 'detach':
                c.bad('R5', f, 'a thread is given up without waiting for its end', ev[i][-1])
        for i in gone + bumps(c, ev):
            if c.upd not in c.held(ev, i):
                c.bad('R1', f, 'the task table or its signature is changed without the lock that the threads read it under', locof(ev[i]))
        for i in gone + joins + c.muts(ev, c.TH) + c.muts(ev, c.P):
            if c.reg not in c.held(ev, i):
                c.bad('R1', f, 'two registrations can end threads or change the tables at the same time', locof(ev[i]))
        if kind == 'throw':
            continue
        unknown = [t for ft, t in norm(facts).items() if ft[0] == 'in' and root(ft[1]) == c.T and ft[2] == h]
        if not gone:
            if False not in unknown:
                c.bad('R5', f, 'a task is still in the table after it was unregistered')
            continue
        s = c.section(ev, gone[0], c.upd)
        if s and not any(s[0] < b < s[1] for b in bumps(c, ev)):
            c.bad('R1', f, 'the table changes but its signature does not, in the same critical section: threads keep the old table')
        single = st.decide(compare('eq', c.NT, K(0)))
        if single is None:
            c.bad('R5', f, 'threads are ended (or not) whatever the size of the pool is')
            continue
        end = s[1] if s else gone[-1]
        if single:
            j = [i for i in joins if entry_of(ev[i][1], c.TH, h)]
            e = removes(ev, c.TH, h)
            if len(joins) != 1 or len(j) != 1:
                c.bad('R5', f, 'one thread per task: the thread of the task is not waited for (exactly once)')
            elif j[0] < end:
                c.bad('R5', f, 'the thread of a task is waited for before the task is out of the table', ev[j[0]][-1])
            elif not [x for x in e if x > j[0]]:
                c.bad('R5', f, 'the thread of the task was waited for but its entry stays')
        else:
            e = [ev[i] for i in c.muts(ev, c.P) if ev[i][0] == 'mut' and ev[i][1] not in ('operator[]',)]
            szP = [x for ft in facts for x in subterms(ft) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'size' and root(x[1]) == c.P]
            szT = [x for ft in facts for x in subterms(ft) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'size' and root(x[1]) == c.T]
            over = None
            for p in szP:
                for t in szT:
                    over = st.decide(compare('ult', t, p)) if over is None else over
                    muts = [i for i in c.muts(ev, c.T) if ev[i][0] == 'mut' and i <= gone[-1]]
                    if t[2] != ('n', len([i for i, x in enumerate(ev) if x[0] == 'mut' and root(x[2]) == c.T])):
                        over = None
            jb = [i for i in joins if isinstance(ev[i][1], tuple) and ev[i][1][0] == 'elem' and root(ev[i][1][1]) == c.P and (ev[i][1][2] == ('str', 'back') or ev[i][1][2] in [binop('sub', p, K(1)) for p in szP])]
            if over is None:
                c.bad('R5', f, 'the size of the pool is not compared with the number of tasks that are left')
            elif over and len(joins) == 0 or not over and joins:
                c.bad('R5', f, 'the pool has %s' % ('more threads than tasks are left, but none is waited for' if over else 'no thread too many, but one is waited for'))
            elif over:
                if len(jb) != 1 or len(joins) != 1:
                    c.bad('R5', f, 'not exactly the last thread of the pool is waited for')
                elif jb[0] < end:
                    c.bad('R5', f, 'a thread is waited for before the task is out of the table', ev[jb[0]][-1])
                ok = [x for x in e if x[1] == 'pop_back' or x[1] == 'resize' and x[3] and (x[3][0] in szT or x[3][0] in [binop('sub', p, K(1)) for p in szP]) or x[1] == 'erase']
                if len(e) != 1 or len(ok) != 1 or ev.index(ok[0]) < jb[0] if jb else False:
                    c.bad('R5', f, 'the thread that was waited for is not taken out of the pool')
            elif e:
                c.bad('R5', f, 'threads are taken out of the pool without waiting for their end')
            u = [ft for ft, t in facts.items() if ft[0] == 'unique' and t]
            u += [x for ft in facts for x in subterms(ft) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'use_count'
                  and (st.decide(compare('eq', x, K(1))) is True or st.decide(compare('slt', K(1), x)) is False or st.decide(compare('slt', x, K(2))) is True or st.decide(compare('ult', K(1), x)) is False)]
            good = [x for x in u if entry_of(x[1], c.T, h) and x[2][1] > end]
            if not good:
                c.bad('R5', f, 'unregistering returns although a thread of the pool may still run the task')


def unobj(x):
    while isinstance(x, tuple) and x[0] == 'obj':
        x = x[1]
    return x


def subterms(x):
    yield x
    if isinstance(x, tuple):
        for y in x:
            if isinstance(y, tuple):
                yield from subterms(y)


def check_loop(c, f, kind):
    r, out = c.run(f)
    top = [mk for mk in r.loops if mk[1] == ('top',)]
    A = [('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs)]
    paths = []
    main = None
    for mk in top:
        if any(e[0] == 'copy' or e[0] == 'call' for v in r.loops[mk] for e in v[2]):
            main = mk if main is None or len(r.loops[mk]) > len(r.loops[main]) else main
    if main is None:
        raise AnalysisError('anchor lost: main loop of %s' % f.name)
    for v, facts, ev, st in r.loops[main]:
        paths.append(('again', ev, st.facts, st))
    for k, st, rv in out:
        idx = [i for i, e in enumerate(st.ev) if e == main]
        if idx:
            paths.append((k, st.ev[idx[-1] + 1:], st.facts, st))
        else:
            paths.append((k, st.ev, st.facts, st))
    paths = [x for x in paths if not never(c, x[2])]
    # the signature the thread has seen: the loop variable that the signature is compared with
    heads = r.heads[main]
    sigv = set()
    for how, ev, facts, st in paths:
        for ft in facts:
            if isinstance(ft, tuple) and ft[0] == 'cmp' and ft[1] == 'eq' and any(is_sig(c, x) for x in ft[2:]):
                sigv |= set(x for x in ft[2:] if isinstance(x, tuple) and x[0] == 'w')
    var = None
    for ent, hp, bp in heads:
        for v, w in hp.items():
            if w in sigv:
                var = v
                if cval(ent.get(v)) is None and not is_sig(c, ent.get(v)):
                    pass
                elif cval(ent.get(v)) is not None and cval(ent[v]) != c.sig0:
                    c.bad('R6', f, 'a new thread starts with a signature that may be the current one: it never reads the table')
    def loc_of(ev, what):
        return next((e[-1] for e in ev if e[0] == what), None)
    for how, ev, facts, st in paths:
        c.n += 1
        copy = [i for i, e in enumerate(ev) if e[0] == 'copy']
        runs = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1][0] == 'fld' and e[1][2].endswith('::' + c.s.task)]
        same = [t for ft, t in facts.items() if isinstance(ft, tuple) and ft[0] == 'cmp' and ft[1] == 'eq' and any(is_sig(c, x) for x in ft[2:])]
        for i in copy:
            s = c.section(ev, i, c.upd)
            if s is None:
                c.bad('R6', f, 'a thread reads the task table without its lock', ev[i][-1])
        if not copy and True not in same and (runs or how == 'again'):
            c.bad('R6', f, 'a thread goes on although the signature may have changed')
        # exactly when to end
        stay = None
        snap = [x[1] for x in st.mem.items() if x[0][0] == 'tv' and isinstance(x[1], tuple) and x[1][0] == 'snap']
        if kind == 'pool':
            for ft in facts:
                for x in subterms(ft):
                    if isinstance(x, tuple) and len(x) == 3 and x[0] == 'size' and isinstance(x[1], tuple) and x[1][0] == 'snap':
                        d = st.decide(compare('ult', A[1], x))
                        stay = d if d is not None else stay
        else:
            for ft, t in norm(facts).items():
                if isinstance(ft, tuple) and ft[0] == 'in' and isinstance(ft[1], tuple) and ft[1][0] == 'snap' and ft[2] == A[1]:
                    stay = t
        if how == 'ret' and (not copy or stay is not False):
            c.bad('R6', f, 'a thread ends although its %s' % ('number is below the number of tasks' if kind == 'pool' else 'task is registered'))
        if how == 'again' and copy and stay is not True:
            c.bad('R6', f, 'a thread goes on although its %s' % ('number is not below the number of tasks' if kind == 'pool' else 'task is not registered anymore'))
        # exclusive use of a task
        open_ = {}
        for i, e in enumerate(ev):
            if e[0] == 'tas':
                got = truth_of(facts, st, e[2])
                if got is False:
                    open_[e[1]] = e[-1]
            elif e[0] == 'clear':
                if e[1] not in open_:
                    c.bad('R7', f, 'the flag of a task is cleared by a thread that does not hold it', e[-1])
                open_.pop(e[1], None)
            elif i in runs and kind == 'pool':
                if not any(sib(e[1], x, c.s) for x in open_):
                    c.bad('R7', f, 'a pool thread runs a task without holding its flag: two threads can be in one task', e[-1])
        for x in open_.values():
            c.bad('R7', f, 'the flag of a task is not cleared on every path: no thread runs the task again', x)
        for e in ev:
            if e[0] == 'lock' and len([x for x in ev if x[0] == 'unlock' and x[1] == e[1]]) < len([x for x in ev if x[0] == 'lock' and x[1] == e[1]]):
                c.bad('R6', f, 'a lock is not given up on a way round the loop')
        for i in runs:
            if c.upd in c.held(ev, i):
                c.bad('R6', f, 'a task is run while the lock of the task table is held', ev[i][-1])
    # what the thread remembers as seen
    for (ent, hp, bp), (v, facts, ev, st) in zip(heads, r.loops[main]):
        if var is None or var not in bp:
            continue
        new = bp[var]
        copy = [i for i, e in enumerate(ev) if e[0] == 'copy']
        if not copy:
            if new != hp.get(var) and not is_sig(c, new):
                c.bad('R6', f, 'the signature is remembered although the table was not read')
            if is_sig(c, new) and not any(st.decide(compare('eq', x, hp.get(var))) for x in (new,)):
                c.bad('R6', f, 'the signature is remembered although the table was not read')
            continue
        at = [i for i, e in enumerate(ev) if e[0] == 'atomic' and e[-1] == new]
        if not at:
            c.bad('R6', f, 'the table was read but the signature it belongs to is not remembered')
            continue
        s = c.section(ev, copy[0], c.upd)
        if s and at[0] > s[1]:
            c.bad('R6', f, 'the signature is read after the lock was given up: a change in between is never seen', loc_of(ev, 'copy'))
    if var is None:
        c.bad('R6', f, 'no signature is remembered between iterations')
    if kind == 'pool':
        its = set(it for fn, loc, val, it, facts, ev, key in r.derefs if key == ('top',) and isinstance(it, tuple) and it[0] == 'alloca' and has(('x',) + tuple(v for v in [val]), it))
        its |= set(it for fn, loc, val, it, facts, ev, key in r.derefs if key == ('top',) and isinstance(it, tuple) and it[0] == 'alloca' and fn is f)
        for how, ev, facts, st in paths:
            if how != 'again' or not its:
                continue
            if not any(isinstance(r.value(st, it), tuple) and r.value(st, it)[0] == 'step' for it in its):
                c.bad('R6', f, 'a pool thread stays at the same task: with fewer threads than tasks other tasks are never run')
    # inner loops handle flags in pairs, too
    for mk, cases in r.loops.items():
        if mk == main:
            continue
        for v, facts, ev, st in cases:
            op = {}
            for e in ev:
                if e[0] == 'tas':
                    if truth_of(st.facts, st, e[2]) is False or truth_of(facts, st, e[2]) is False:
                        op[e[1]] = e[-1]
                elif e[0] == 'clear':
                    if e[1] not in op:
                        c.bad('R7', f, 'the flag of a task is cleared by a thread that does not hold it', e[-1])
                    op.pop(e[1], None)
            for x in op.values():
                c.bad('R7', f, 'the flag of a task is not cleared on every path: no thread runs the task again', x)
    # uses of iterators into the local table
    for fn, loc, val, it, facts, ev, key in r.derefs:
        if key != ('top',) or never(c, facts):
            continue
        idx = [i for i, e in enumerate(ev) if e == main]
        tail = ev[idx[-1] + 1:] if idx else ev
        fresh = any(e[0] == 'copy' for e in tail)
        c.n += 1
        if isinstance(val, tuple) and val[0] == 'r' and last(val[1]) in ('end', 'cend'):
            c.bad('R6', f, 'the end of the local table is used as a task', loc)
        elif isinstance(val, tuple) and val[0] == 'find':
            if norm(facts).get(next((ft for ft in norm(facts) if ft[0] == 'in' and ft[1] == val[1] and ft[2] == val[2]), None)) is not True:
                c.bad('R6', f, 'a task is used that was not found in the local table', loc)
        elif isinstance(val, tuple) and val[0] == 'r' and last(val[1]) in ('begin', 'cbegin'):
            pass
        else:
            if fresh:
                c.bad('R6', f, 'a position in the old local table is used after the table was replaced', loc)
            elif kind == 'pool' and not any(ft[0] == 'atend' and ft[1] == val and t is False for ft, t in facts.items()):
                c.bad('R6', f, 'a position that may be the end of the local table is used as a task', loc)


def norm(facts):
    f = dict(facts)
    for ft, t in facts.items():
        if ft[0] == 'cmp' and ft[1] == 'eq' and K(0) in ft[2:]:
            f[ft[3] if ft[2] == K(0) else ft[2]] = not t
    return f


def never(c, facts):
    """the signature of an environment with tasks is not the initial one"""
    return any(t and ft[0] == 'cmp' and ft[1] == 'eq' and any(is_sig(c, x) for x in ft[2:]) and K(c.sig0) in ft[2:] for ft, t in facts.items())


def truth_of(facts, st, r):
    for ft, t in facts.items():
        if ft == r:
            return t
        if isinstance(ft, tuple) and ft[0] == 'cmp' and ft[1] == 'eq' and r in ft and K(0) in ft:
            return not t
        if isinstance(ft, tuple) and ft[0] == 'not' and ft[1] == r:
            return not t
    return None


def sib(call, flag, s):
    """the task function and the flag belong to the same task data"""
    x = call[1]
    y = flag
    while isinstance(y, tuple) and y[0] == 'fld' and not y[2].endswith('TaskData::' + s.flag):
        y = y[1]
    return isinstance(y, tuple) and y[0] == 'fld' and y[1] == x


def is_sig(c, x):
    return isinstance(x, tuple) and x[0] == 'at' and x[2] == c.SIG and (READ.match(x[1]) is not None)


def find_locks(c):
    """the lock of the table is the one held when the threads copy it; the registration lock is another one held in registerTask"""
    ups = None
    for f in [x for x in c.prog.repo_fns() if x.name.startswith(ENV + '::') and x.blocks]:
        if f.name.split('::')[-1] in ('registerTask', 'unregisterTask', ENV, '~' + ENV):
            continue
        if not any('TaskData' in c.prog.dem(x.f[1:]) and 'map' in c.prog.dem(x.f[1:]) for x in f.calls() if x.f.startswith('@')):
            continue
        r, out = c.run(f)
        for mk, cases in r.loops.items():
            for v, facts, ev, st in cases:
                for i, e in enumerate(ev):
                    if e[0] == 'copy':
                        h = set(c.held(ev, i))
                        ups = h if ups is None else ups & h if h else ups
    mut = [m(n) for n, t in cls_fields(c.prog, ENV) if 'mutex' in t or 'SpinLock' in t]
    if not ups:
        # no lock at all at the copies: take what guards the changes
        f = c.fn('registerTask')
        r, out = c.run(f)
        for k, st, rv in out:
            for i, v in adds(c, st.ev, c.T, ('arg', 1, f.varname('%1') or 'arg1')):
                h = c.held(st.ev, i)
                ups = {h[-1]} if h else ups
    c.upd = sorted(ups, key=str)[0] if ups else mut[-1]
    rest = [x for x in mut if x != c.upd]
    c.reg = rest[0] if rest else c.upd


def sig_init(c):
    f = c.fn(ENV)
    for x in f.calls():
        nm = c.prog.call_info(x)[0]
        if nm in ('std::atomic::atomic', 'std::__atomic_base::__atomic_base') and len(x.a) == 2 and x.a[1].startswith('#'):
            if 'unsigned long' in c.prog.dem(x.f[1:]) or 'atomic<unsigned' in c.prog.dem(x.f[1:]) or '__atomic_base<unsigned' in c.prog.dem(x.f[1:]) or 'Em' in x.f or 'ImE' in x.f:
                return int(x.a[1][1:])
    return 0


def check_destructor(c):
    f = c.fn('~' + ENV)
    un = c.fn('unregisterTask')
    r, out = c.run(f, calls=(un.n,))
    for k, st, rv in out:
        c.n += 1
        if k != 'ret':
            continue
        sizes = [x for ft in st.facts for x in subterms(ft) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'size' and root(x[1]) == c.T]
        if not any(st.decide(compare('eq', x, K(0))) for x in sizes) and not any(v is not None and root(v) == c.T and any(e[0] == 'op' for e in ev) for cases in r.loops.values() for v, facts, ev, s in cases):
            c.bad('R8', f, 'the environment is destroyed while tasks are registered: their threads are still running')
    for mk, cases in r.loops.items():
        for v, facts, ev, st in cases:
            if not any(e[0] == 'op' for e in ev):
                c.bad('R8', f, 'destroying the environment does not unregister its tasks')


def check_block(c):
    """Block::setThreadPool and the destructor"""
    l = [f for f in c.prog.named('Pothos::Block::setThreadPool') if f.blocks]
    f = l[0]
    reg, un = c.fn('registerTask'), c.fn('unregisterTask')
    r, out = c.run(f, calls=(reg.n, un.n))
    POOL = ('fld', ('arg', 0, 'this'), 'Pothos::Block::_threadPool')
    new = ('arg', 1, f.varname('%1') or 'arg1')
    for kind, st, rv in out:
        ev, facts = st.ev, st.facts
        c.n += 1
        ops = [(i, e) for i, e in enumerate(ev) if e[0] == 'op']
        sets = [(i, e) for i, e in enumerate(ev) if e[0] == 'set' and e[1] == POOL]
        cur = POOL
        for i, e in enumerate(ev):
            if e[0] == 'set' and e[1] == POOL:
                cur = e[2]
            elif e[0] == 'op' and e[1] == 'unregisterTask':
                if not has(e[2][0], POOL) and not has(e[2][0], 'Pothos::Block::_threadPool'):
                    c.bad('R9', f, 'the block unregisters from a pool that is not its own')
                if unobj(e[2][1]) != ('arg', 0, 'this'):
                    c.bad('R9', f, 'the block is unregistered under another handle')
                cur = None
            elif e[0] == 'op' and e[1] == 'registerTask':
                if not has(e[2][0], new):
                    c.bad('R9', f, 'the block registers with a pool that is not the new one')
                if unobj(e[2][1]) != ('arg', 0, 'this'):
                    c.bad('R9', f, 'the block is registered under another handle')
                b = [x for x in e[2][2:] if isinstance(x, tuple)]
                if len(b) == 2 and not (any('processTask' in str(y) for y in subterms(b[0])) and any('wake' in str(y) for y in subterms(b[1]))):
                    c.bad('R9', f, 'what is registered is not the processing task of the block and its wake-up')
        if kind == 'throw':
            un_ = [i for i, e in ops if e[1] == 'unregisterTask']
            if un_ and cur is None and any(e[0] != 'op' or True for e in ev):
                c.bad('R9', f, 'setting a new pool fails after the block left the old one, and the block still refers to the old one')
            continue
        valid = lambda p: next((t for ft, t in facts.items() if ft[0] == 'b' and ft[1] == p or ft[0] == 'r' and last(ft[1]) == 'operator bool' and ft[2] == (p,)), None)
        eq = next((t for ft, t in facts.items() if isinstance(ft, tuple) and ft[0] == 'eq' and has(ft, new) and has(ft, POOL)), None)
        if eq is True:
            if ops:
                c.bad('R9', f, 'setting the pool that is already set changes registrations')
            continue
        unr, rg = [e for i, e in ops if e[1] == 'unregisterTask'], [e for i, e in ops if e[1] == 'registerTask']
        if valid(POOL) is not False and len(unr) != 1:
            c.bad('R9', f, 'the block is not unregistered from its old pool (exactly once)')
        if valid(new) is not False and len(rg) != 1:
            c.bad('R9', f, 'the block is not registered with its new pool (exactly once)')
        if unr and rg and ev.index(unr[0]) > ev.index(rg[0]):
            c.bad('R9', f, 'the block is in two pools at the same time')
        if cur != new and not (cur == POOL and valid(POOL) is False and valid(new) is False):
            c.bad('R9', f, 'the block does not keep the pool that it is registered with')
    # the destructor ends the use of the block by threads before anything of it is destroyed
    d = [g for g in c.prog.named('Pothos::Block::~Block') if g.blocks]
    if d:
        r, out = c.run(d[0], calls=(f.n,))
        for kind, st, rv in out:
            c.n += 1
            if kind == 'ret' and not any(e[0] == 'op' and e[1] == 'setThreadPool' for e in st.ev):
                c.bad('R9', d[0], 'a block is destroyed while a thread pool runs its task')


def check(prog, rep):
    rep.rule('R1 registering and unregistering change the task table and its signature in one critical section of the lock the threads read them under, and exclude each other')
    rep.rule('R2 each registration starts exactly the thread that its mode requires: one per task, or one more as long as the pool is smaller than its size')
    rep.rule('R3 a registration that fails leaves nothing behind')
    rep.rule('R4 the wait mode is switched on again on every way out')
    rep.rule('R5 unregistering returns only when no thread can run the task any more: its thread was joined exactly once, or the superfluous thread was joined and no snapshot holds the task; joined threads leave the tables, no other thread does')
    rep.rule('R6 a thread runs only tasks of a table copy that it made under the lock together with its signature, makes a new copy whenever the signature changed, and ends exactly when its number or handle is not in it')
    rep.rule('R7 a pool thread runs a task only while it holds the flag of the task, and clears flags exactly when it holds them')
    rep.rule('R8 the destructor unregisters all tasks')
    rep.rule('R9 a block is registered with exactly the pool it refers to, under its own handle with its own task, on every way out')
    c = Ctx(prog, rep)
    c.sig0 = sig_init(c)
    find_locks(c)
    check_register(c)
    check_unregister(c)
    for t, kinds in sorted(c.targets.items()):
        if len(kinds) != 1:
            c.bad('R2', prog.fns[t], 'the same thread function is used for both modes')
            continue
        check_loop(c, prog.fns[t], list(kinds)[0])
    check_destructor(c)
    check_block(c)
    rep.count('paths', c.n)
    rep.need(c.n >= 20, 'paths of the thread environment')
    rep.analysed.append('roles: tasks %s, threads %s, pool %s, signature %s, update lock %s, registration lock %s' % (c.s.tasks, c.s.threads, c.s.pool, c.s.sig, show(c.upd), show(c.reg)))
