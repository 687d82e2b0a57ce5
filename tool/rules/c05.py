"""C05 lock discipline: no self-deadlock, no lock order cycle, locks released on every way out, no foreign code under a spin lock, no waiting for a thread that needs a held lock"""
from common import *

SOURCES = ['lib/*', 'lib/*/*', 'lib/*/Builtin/*']
EXPLANATION = ('Whole-program lock analysis: every function is explored with the set of locks held on each path; the locks a function may take, and whether it may run '
               'registered callables, are propagated over the call graph (virtual calls by class hierarchy, stored callbacks by what is stored) with locks named relative to the '
               'arguments. Each acquisition and each call made while a lock is held is checked against these summaries.')

USER = re.compile(r'^(Pothos::Callable::(opaqueCall|callObject|call|callVoid)|Pothos::Detail::CallableContainer::call|std::function::operator\(\))$')
USERV = set(USER_CALLBACKS)
WAIT = re.compile(r'^(std::condition_variable(_any)?::wait(_for|_until)?|std::_V2::condition_variable_any::wait(_for|_until)?|Poco::Condition::(wait|tryWait))$')
JOIN = re.compile(r'^(std::thread::join|Poco::Thread::(join|tryJoin)|std::(__basic_future|future|shared_future)::(get|wait)|Poco::ThreadPool::joinAll)$')
SKIPFN = re.compile(r'^(Pothos::Util::SharedLock|Pothos::Util::SpinLock|std::(lock_guard|unique_lock|scoped_lock|shared_lock|mutex|recursive_mutex)::)')
OPERATOR = re.compile(r'^Pothos::Object::(toString|compareTo|equals|hashCode|convert|canConvert|serialize)$')
PROTOCOL = re.compile(r'^ActorInterface::')     # hands the context over to its caller by design (C01)
STARTS = re.compile(r'^(std::thread::thread|std::async|Poco::Thread::start(Func)?)$')
LOCKWORD = re.compile(r'lock|mutex', re.I)


def strip(e):
    while isinstance(e, tuple) and e[0] in ('load', 'deref', 'base') and len(e) > 1 and isinstance(e[1], tuple):
        e = e[1]
    return e


def cls_lock(e):
    """the name of a lock: its field, or the global it is"""
    x = e
    while isinstance(x, tuple):
        if x[0] == 'fld':
            return x[2]
        if x[0] == 'glob':
            return x[1]
        if x[0] in ('elem', 'idx', 'base', 'load', 'deref') and len(x) > 1:
            x = x[1]
            continue
        break
    return None


def root(e):
    while isinstance(e, tuple) and e[0] in ('fld', 'elem', 'idx', 'base', 'load', 'deref') and len(e) > 1:
        e = e[1]
    return e


def depth(e):
    n = 0
    while isinstance(e, tuple) and e[0] in ('fld', 'elem', 'idx', 'base', 'load', 'deref') and len(e) > 1:
        e = e[1]
        n += 1
    return n


def local_lock(e):
    """a lock that lives in a local variable: nobody else can hold it"""
    x = e
    while isinstance(x, tuple) and x[0] in ('fld', 'elem', 'idx', 'base'):
        x = x[1]
    return isinstance(x, tuple) and x[0] == 'alloca'


def subst(e, args):
    """a callee's lock in terms of its caller"""
    if isinstance(e, tuple):
        if e[0] == 'arg':
            return args[e[1]] if e[1] < len(args) else None
        if e[0] == 'glob':
            return e
        if e[0] in ('fld', 'elem', 'idx', 'base', 'load', 'deref'):
            b = subst(e[1], args)
            return None if b is None else (e[0], b) + e[2:]
    return None


class LockRule(Rule):
    def __init__(self, prog, f):
        self.prog = prog
        self.f = f
        self.acq = {}
        self.calls = {}
        self.waits = {}
        self.spin = set()

    def inline(self, eng, fr, fn, name):
        return fn.in_repo and fn.name.startswith('Pothos::Util::SharedLock')

    def may_throw(self, eng, fr, ins, name):
        return not ins.d.get('nt') and not name.startswith(('std::unique_lock', 'std::lock_guard', 'std::mutex'))

    def on_call(self, eng, fr, ins, name, args, st):
        at = eng.stack[-1][1] if eng.stack else ins
        held = frozenset(Locks.held(st))
        if name.startswith('ActorInterfaceLock::'):
            lk = ('fld', args[1] if len(args) > 1 else args[0], 'ActorInterface::_extCallLock')
            if last(name) == 'ActorInterfaceLock':
                self.acq.setdefault((held, lk, 'X', True), at)
                return [('ret', st | {('g', args[0], lk, 'X', True)}, None)]
            return [('ret', frozenset(e for e in st if not (e[0] == 'g' and e[1] == args[0])), None)]
        le = Locks.event(eng, fr, ins, name, args, st)
        if le is not None:
            dem = self.prog.dem(ins.f[1:]) if ins.f.startswith('@') else ''
            for k, s2, rv, a, r in le:
                if a:
                    tried = 'try' in last(name) or 'try_to_lock' in dem
                    if 'SpinLock' in dem:
                        self.spin.add(cls_lock(a[0]) or a[0])
                    self.acq.setdefault((held, a[0], a[1], not tried), at)
            return [(k, s2, rv) for k, s2, rv, a, r in le]
        info = self.prog.call_info(ins)
        if WAIT.match(name) or JOIN.match(name):
            own = None
            if WAIT.match(name) and len(args) > 1:
                own = args[1]
            rest = frozenset((e[2], e[3]) for e in st if e[0] == 'g' and e[4] and e[1] != own) | frozenset((e[1], e[2]) for e in st if e[0] == 'r')
            self.waits.setdefault((name, rest), at)
        self.calls.setdefault((held, name, info[2], tuple(info[1] or ()), args), at)
        return None


class Summary(object):
    __slots__ = ('acq', 'user', 'event', 'calls')

    def __init__(self):
        self.acq = {}      # (lock, mode, blocking) -> chain
        self.user = None   # chain to the user code
        self.event = None  # chain to user code other than the operators of Object
        self.calls = []    # (targets, args, call instruction)


def scan(prog, f):
    """calls of a function that uses no lock itself"""
    from explore import Engine
    eng = Engine(prog, Rule())
    args = tuple(('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs))
    fr = Frame(eng, f, args, None)
    out = []
    for c in f.calls():
        info = prog.call_info(c)
        out.append((info[0], info[2], tuple(info[1] or ()), tuple(fr.ex(a) for a in c.a), c))
    return out


def callbacks(prog):
    """{field holding a std::function: functions whose address is stored in it}"""
    setters = {}
    for f in prog.fns.values():
        if not f.in_repo:
            continue
        for c in f.calls():
            nm = prog.call_info(c)[0]
            if nm == 'std::function::operator=' and c.a:
                d = f.defs.get(c.a[0])
                if d is not None and d.op == 'gep' and d.d.get('p'):
                    setters.setdefault(d.d['p'][-1], set()).add(f.n)
    out = {}
    for fld, fs in setters.items():
        tg = set()
        for s in fs:
            for x in [y.fn for y in prog.callers.get(s, [])] + [prog.fns[s]]:
                tg |= refs(prog, x)
        out[fld] = tg
    return out


def has_lock_ops(prog, f):
    for c in f.calls():
        nm = prog.call_info(c)[0]
        if LOCKWORD.search(nm) or WAIT.match(nm) or JOIN.match(nm):
            return True
    return False


def threads_of(prog, sums, tu):
    """the functions new threads of a translation unit run"""
    out = [n for n, f in prog.fns.items() if f.tu == tu and ('_State_impl' in f.n or 'std::thread' in f.name and '_M_run' in f.name)]
    for f in prog.fns.values():
        if f.tu == tu and any(STARTS.match(prog.call_info(c)[0]) for c in f.calls()):
            out += refs(prog, f)
    return out


def refs(prog, f):
    """functions of the repository whose address a function uses"""
    out = set()
    for i in f.instrs():
        for o in i.a:
            if isinstance(o, str) and '@' in o:
                out.update(x for x in re.findall(r'@([\w.$]+)', o) if x in prog.fns and prog.fns[x].in_repo)
    return out


def check(prog, rep):
    rep.rule('R1 no path takes, directly or in a callee, a lock it already holds (shared on shared excepted)')
    rep.rule('R2 the order in which locks are nested has no cycle')
    rep.rule('R3 every function gives back the locks it took on every way out, exceptions included')
    rep.rule('R4 no registered callable or block method runs while a spin lock is held exclusively, no plugin event handler while the registry lock is held at all')
    rep.rule('R5 nothing waits for a condition or a thread while holding another lock the other side needs')
    cbs = callbacks(prog)
    sums, rules = {}, {}
    spin = set()
    todo = [f for f in prog.fns.values() if not f.tu.startswith('+')]
    nlock = 0
    for f in todo:
        s = sums[f.n] = Summary()
        if SKIPFN.match(f.name) or not f.blocks:
            continue
        if f.in_repo and has_lock_ops(prog, f):
            r = LockRule(prog, f)
            eng = Engine(prog, r)
            for kind, st, rv in eng.run(f, frozenset()):
                left = [e for e in st if (e[0] == 'g' and e[4] or e[0] == 'r')]
                left = [e for e in left if not (e[0] == 'g' and root(e[1])[:2] == ('arg', 0) and f.sret)]
                if left and not PROTOCOL.match(f.name):
                    rep.violation('balance', f.loc, f.name, '%s with %s still held' % ('returns' if kind == 'ret' else 'is left by an exception', show(left[0][2] if left[0][0] == 'g' else left[0][1])))
            rep.engine(eng)
            nlock += 1
            rules[f.n] = r
            spin |= r.spin
            for (held, lk, mode, blk), at in r.acq.items():
                if not local_lock(lk):
                    s.acq.setdefault((lk, mode, blk), (at,))
            for (held, name, kind, tg, args), at in r.calls.items():
                s.calls.append((name, kind, tg, args, at))
        else:
            s.calls = scan(prog, f)
        for name, kind, tg, args, at in s.calls:
            if (USER.match(name) or name in USERV) and s.user is None and not (name == 'std::function::operator()' and fld_of(args) in cbs):
                s.user = (at,)
                if not OPERATOR.match(f.name):
                    s.event = (at,)
    # propagate
    rev = {}
    for n, s in sums.items():
        for name, kind, tg, args, at in s.calls:
            for t in targets(name, tg, args, cbs):
                if t in sums:
                    rev.setdefault(t, []).append((n, args, at))
    work = [n for n, s in sums.items() if s.acq or s.user]
    inq = set(work)
    while work:
        t = work.pop()
        inq.discard(t)
        ts = sums[t]
        for n, args, at in rev.get(t, ()):
            s = sums[n]
            ch = False
            if ts.user is not None and s.user is None and not PROTOCOL.match(prog.fns[n].name):
                s.user = (at,) + ts.user[:8]
                ch = True
            if ts.event is not None and s.event is None and not PROTOCOL.match(prog.fns[n].name) and not OPERATOR.match(prog.fns[n].name):
                s.event = (at,) + ts.event[:8]
                ch = True
            for (lk, mode, blk), chain in list(ts.acq.items()):
                e = lk if lk[0] == 'class' else subst(lk, args)
                if e is not None and local_lock(e):
                    continue
                if e is None or depth(e) > 6 or root(e)[0] not in ('arg', 'glob'):
                    c = cls_lock(lk) if lk[0] != 'class' else lk[1]
                    if c is None:
                        continue
                    e = ('class', c)
                if (e, mode, blk) not in s.acq:
                    s.acq[(e, mode, blk)] = (at,) + chain[:8]
                    ch = True
            if ch and n not in inq:
                inq.add(n)
                work.append(n)
    # decide
    edges = {}
    nacq = ncall = 0

    def trace(f, chain):
        return ['%s at %s' % (x.fn.name, x.loc) for x in chain]

    def name_of(l):
        return cls_lock(l) if l[0] != 'class' else l[1]

    def take(f, held, lk, mode, blk, chain):
        for h, hm in held:
            same = strip(h) == strip(lk)
            if same and not (hm == 'S' and mode == 'S') and blk:
                rep.violation('reacquire', chain[0].loc, f.name, '%s is taken again by the thread that holds it' % show(h), trace=trace(f, chain))
            a, b = name_of(h), name_of(lk)
            if a and b and a != b and blk:
                edges.setdefault((a, hm, b, mode), (f, chain))
    reg = {name_of(k[0]) for n in rules if prog.fns[n].name == 'Pothos::PluginRegistry::add' for k in sums[n].acq if k[1] == 'X'}
    for n, r in rules.items():
        f = prog.fns[n]
        for (held, lk, mode, blk), at in r.acq.items():
            nacq += 1
            take(f, held, lk, mode, blk, (at,))
        for (held, name, kind, tg, args), at in r.calls.items():
            if not held:
                continue
            ncall += 1
            sp = [h for h, m in held if m == 'X' and (cls_lock(h) or h) in spin and name_of(h) != 'ActorInterface::_extCallLock']
            isu = (USER.match(name) or name in USERV) and not (name == 'std::function::operator()' and fld_of(args) in cbs)
            if sp and isu:
                rep.violation('foreign', at.loc, f.name, 'foreign code (%s) runs while the spin lock %s is held' % (name, show(sp[0])))
            for t in targets(name, tg, args, cbs):
                if t not in sums:
                    continue
                ts = sums[t]
                rg = [h for h, m in held if name_of(h) in reg and m == 'S']
                if rg and ts.event is not None and not isu and not RELEASES.search(prog.fns[t].name):
                    rep.violation('foreign', at.loc, f.name, 'plugin event handlers, which add and remove plugins themselves, may run while the registry lock %s is held' % show(rg[0]), trace=trace(f, (at,) + ts.event))
                if sp and ts.user is not None and not isu and not RELEASES.search(prog.fns[t].name):
                    rep.violation('foreign', at.loc, f.name, 'foreign code may run while the spin lock %s is held' % show(sp[0]), trace=trace(f, (at,) + ts.user))
                for (lk, mode, blk), chain in ts.acq.items():
                    e = lk if lk[0] == 'class' else subst(lk, args)
                    if e is None:
                        e = ('class', cls_lock(lk))
                    if e[1] is None:
                        continue
                    take(f, held, e, mode, blk, (at,) + chain)
        for (name, rest), at in r.waits.items():
            if not rest:
                continue
            if JOIN.match(name):
                need = {}
                for t in threads_of(prog, sums, f.tu):
                    for (lk, mode, blk), chain in sums[t].acq.items():
                        need.setdefault(name_of(lk), chain)
                for h, m in rest:
                    if name_of(h) in need:
                        rep.violation('wait', at.loc, f.name, 'waits for a thread while holding %s, which the thread takes' % show(h), trace=trace(f, need[name_of(h)]))
            else:
                rep.violation('wait', at.loc, f.name, 'waits for a condition while %s stays locked' % show(sorted(rest, key=str)[0][0]))
    # cycles: a thread that waits for a lock in some mode is stopped only by a holder in a conflicting mode
    for (a, hm, b, m), (f, chain) in sorted(edges.items(), key=lambda x: str(x[0])):
        seen, st = set(), [(b, m)]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st += [(e[2], e[3]) for e in edges if e[0] == x[0] and 'X' in (e[1], x[1])]
        if any(x == a and 'X' in (hm, xm) for x, xm in seen):
            rep.violation('order', chain[0].loc, f.name, '%s is taken while %s is held, elsewhere in the opposite order' % (b, a), trace=trace(f, chain))
    for a, b in sorted({(e[0], e[2]) for e in edges}):
        rep.analysed.append('order %s -> %s' % (a, b))
    rep.count('functions_with_locks', nlock)
    rep.count('acquisitions', nacq)
    rep.count('calls_under_lock', ncall)
    rep.count('order_edges', len(edges))
    rep.need(nlock >= 40, 'functions that use locks')


RELEASES = re.compile(r'::~\w+$')


def fld_of(args):
    if args and isinstance(args[0], tuple) and args[0][0] == 'fld':
        return args[0][2]
    return None


def targets(name, tg, args, cbs):
    if name == 'std::function::operator()':
        return cbs.get(fld_of(args), ())
    return tg
