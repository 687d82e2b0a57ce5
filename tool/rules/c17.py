"""C17 connecting, disconnecting and committing a topology"""
from terms import *

SOURCES = ['lib/Framework/Topology*.cpp', 'lib/Framework/WorkerActor.cpp', 'lib/Framework/WorkerActorPortAllocation.cpp', 'lib/Framework/Connectable.cpp']
EXPLANATION = ('The topology operations are interpreted abstractly on all paths with terms for ports, flows and lists: which flows a list contains (as a filter over another list), which calls are made for each of '
               'its elements, what is recorded and removed, and in which order. Compared with the accounting rules of connections.')

IMPL = 'Pothos::Topology::Impl::'
WRAP = re.compile(r'^(getProxy|getConnectable|getInternalBlock)$')
PC = re.compile(r'^Pothos::Proxy::(call|get|callProxy|callVoid|set)$')
MEMBERS = ('flows', 'inputPortNames', 'outputPortNames')
OPAQUE = re.compile(r'(^|::)(makePort|toString|checkObj|uid|getName|collectFutureInfoErrors|getObjSetFromFlowList|envTagPort|resolvePorts|resolveFlows|proxyToPort|proxyToFlow|installBufferManagers|rectifyDomainFlows|'
                    r'createNetworkFlows|createNetworkFlow|completePassThroughFlows|squashFlows|getThreadPool|setThreadPool|getBufferManager|getBufferMode|displayText|message)$|^Pothos::(\w*Exception|\w*Error|Exception)::')


class TopoRule(TermRule):
    enter = ()
    watch = False

    def functor(self, ins):
        """the call operator of the lambda that is handed to std::async"""
        d = self.prog.dem(ins.f[1:]) if ins.f.startswith('@') else ''
        i = d.find('std::async<')
        if i < 0:
            return None
        k, n = i + len('std::async<'), 0
        j = k
        while j < len(d) and not (n == 0 and d[j] in ',>'):
            n += d[j] in '<(' and 1 or d[j] in '>)' and -1 or 0
            j += 1
        w = d[k:j].rstrip('&') + '::operator()('
        c = [f for f in self.prog.fns.values() if f.blocks and 'operator()' in f.name and self.prog.dem(f.n).startswith(w)]
        return c[0] if len(c) == 1 else None

    def inside(self, fn, name):
        if OPAQUE.search(name) and last(name) not in self.enter or last(name) in ('operator==', 'operator!='):
            return False
        return re.match(r'^lib/Framework/(Topology|PortsAndFlows)', fn.loc or '') is not None

    def pure(self, name):
        return ARule.pure(self, name) or last(name) in ('toString', 'format', 'message', 'displayText', 'checkObj', 'operator+')

    def throws(self, eng, ins, name):
        return last(name) in ('makePort', 'getObjSetFromFlowList', 'squashFlows', 'resolvePorts', 'resolveFlows', 'installBufferManagers', 'collectFutureInfoErrors', 'ensureOutputBufferManagerNoLock')

    def special(self, eng, fr, ins, name, a, dst, st):
        T = lambda v: self.term(st, v)
        n = last(name)
        if WRAP.match(name) and n not in self.enter:
            self.put(st, dst, T(a[-1]))
            return [('ret', st, None), ('throw', st.copy(), None)]
        if PC.match(name) and len(a) >= 2:
            t = ('pc',) + tuple(T(x) for x in a)
            self.emit(st, *(t + (('at', ins.loc),)))
            if dst is not None:
                self.put(st, dst, t)
            return [('ret', st, t), ('throw', st.copy(), None)]
        if n == 'operator bool' and a:
            return [('ret', st, ('b', T(a[0])))]
        if name == 'std::async':
            a = tuple(self.scalar(st, x) for x in a)
            fn = [x for x in a if isinstance(x, tuple) and x[0] == 'glob' and x[1] in self.prog.fns]
            if not fn and len(a) == 2:
                f = self.functor(ins)
                if f is not None and f.nargs == 1:
                    r = []
                    for k, s2, rv in eng._run(f, a[1:], st, fr.key + ((ins.b, ins.i),)):
                        if k == 'ret':
                            self.emit(s2, 'async', f.name)
                            if dst is not None:
                                self.put(s2, dst, ('future', f.name))
                            r.append(('ret', s2, rv))
                    return r
            if fn and not OPAQUE.search(self.prog.fns[fn[0][1]].name):
                f = self.prog.fns[fn[0][1]]
                rest = a[a.index(fn[0]) + 1:]
                outs = eng._run(f, rest if len(rest) == f.nargs else (('alloca', fr.key, 'sret'),) + rest, st, fr.key + ((ins.b, ins.i),))
                r = []
                for k, s2, rv in outs:
                    if k == 'ret':
                        self.emit(s2, 'async', f.name)
                        if dst is not None:
                            self.put(s2, dst, ('future', f.name) + tuple(self.term(s2, x) for x in rest))
                        r.append(('ret', s2, rv))
                return r
            t = ('async',) + tuple(T(x) for x in a)
            self.emit(st, *(t + (('at', ins.loc),)))
            if dst is not None:
                self.put(st, dst, t)
            return [('ret', st, t)]
        if n in ('ensureOutputBufferManagerNoLock', 'resolvePorts', 'resolveFlows'):
            self.emit(st, 'call', name, *[T(x) for x in a])
            if dst is None:
                return [('ret', st, None), ('throw', st.copy(), None)]
        if name in ('std::shared_future::get', 'std::future::get') and self.watch:
            t = st.copy()
            self.emit(t, 'failed')
            return [('ret', st, None), ('throw', t, None)]
        if n in ('installBufferManagers', 'collectFutureInfoErrors'):
            t = ('call', name) + tuple(T(x) for x in a)
            self.emit(st, *t)
            if dst is not None:
                self.put(st, dst, t)
            return [('ret', st, t), ('throw', st.copy(), None)]
        if n == 'empty' and a and not name.startswith('Pothos'):
            return [('ret', st, ('empty', T(a[0])))]
        return None


def impl(t):
    """member of the topology data, or None"""
    t = root(t)
    if isinstance(t, tuple) and t[0] == 'fld' and isinstance(t[2], str) and t[2].startswith(IMPL):
        return t[2][len(IMPL):]
    return None


def fact(facts, *pat):
    """truth of the fact that starts like pat, or None"""
    for f, t in facts.items():
        if isinstance(f, tuple) and f[:len(pat)] == pat:
            return t
    return None


def B(t):
    return ('b', t)


def muts(ev):
    return [e for e in ev if e[0] == 'mut' and impl(e[2]) in MEMBERS or e[0] == 'set' and impl(e[1]) in MEMBERS]


def port(flow, which):
    return tfld(flow, 'Flow::' + which)


def pf(p, f):
    return tfld(p, 'Port::' + f)


class Ctx(object):
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep

    def run(self, q, rule=None, args=None):
        f = self.prog.one(q)
        rule = rule or TopoRule(self.prog)
        eng = Affine(self.prog, rule, max_steps=300000)
        out = eng.run(f, args)
        self.rep.engine(eng)
        self.rep.count('paths', len(out))
        return f, rule, out

    def bad(self, rule, f, msg, loc=None):
        self.rep.violation(rule, loc or f.loc, f.name, msg, key='%s|%s|%s' % (rule, f.name, msg[:60]))


def check_connect(c, q, adding):
    f, rule, out = c.run(q)
    word = 'connect' if adding else 'disconnect'
    oks = 0
    seen = set()
    own = set(impl(e[2]) for cs in rule.loops.values() for x in cs for e in x[2] if e[0] == 'mut')
    own |= set(impl(x[0]) for cs in rule.loops.values() for x in cs if x[0] is not None)
    if any(x[0] is None for cs in rule.loops.values() for x in cs):
        own |= set(MEMBERS)     # a loop that is not understood
    for kind, st, rv in out:
        m = muts(st.ev)
        if kind == 'throw':
            if m:
                k = (m[0][1], impl(m[0][2] if m[0][0] == 'mut' else m[0][1]))
                if k not in seen:
                    seen.add(k)
                    c.bad('R1', f, 'a %s that is refused has already changed %s of the topology' % (word, k[1]), m[0][-2])
            continue
        oks += 1
        fl = [e for e in m if impl(e[2] if e[0] == 'mut' else e[1]) == 'flows']
        if len(fl) != 1:
            c.bad('R2', f, 'a successful %s changes the list of flows %d times' % (word, len(fl)))
            continue
        e = fl[0]
        known = None
        for ft, t in st.facts.items():
            if ft[0] == 'in' and impl(ft[1]) == 'flows':
                known = (ft, t)
        if known is None:
            c.bad('R2', f, '%s does not look whether the flow is in the topology' % word)
            continue
        F = known[0][2]
        if known[1] == adding:
            c.bad('R2', f, '%s goes on when the flow is %s in the topology' % (word, 'already' if adding else 'not'))
        if adding:
            if e[1] not in ('push_back', 'emplace_back') or e[3] != (F,):
                c.bad('R2', f, 'what is recorded is not the flow that was looked for', e[-2])
        elif e[1] != 'erase' or (isinstance(e[3][0], tuple) and e[3][0][0] == 'find' and e[3][0] != ('find', e[2], F)):
            c.bad('R2', f, 'what is removed is not the flow that was looked for', e[-2])
        for which, o, nm, names, ports in (('src', 1, 2, 'inputPortNames', 'outputPortNames'), ('dst', 3, 4, 'outputPortNames', 'inputPortNames')):
            p = port(F, which)
            obj, name = [('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in (o, nm)]
            other = [('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in (4 - o, 6 - nm)]
            if not has(p, obj) or not has(p, name) or any(has(p, x) for x in other):
                c.bad('R2', f, 'the %s end of the flow is not made from the %s arguments' % (which, which))
                continue
            b = fact(st.facts, *B(pf(p, 'obj')))
            ch = [x for x in m if impl(x[2] if x[0] == 'mut' else x[1]) == names]
            want = None if b is None else (0 if b else 1)
            if not adding and want == 1:
                isin = fact(st.facts, 'in', *[t for t in [x[1] for x in st.facts if x[0] == 'in' and impl(x[1]) == names][:1]] + [name])
                if isin is False:
                    want = 0
            if names not in own and (b is None and ch or want is not None and len(ch) != want):
                c.bad('R3', f, '%s with %s end changes %s %d times instead of %s' % (word, {None: 'any', True: 'a block at the ' + which, False: 'the topology itself at the ' + which}[b], names, len(ch), want or 0))
            for x in ch:
                if adding and (x[1] not in ('push_back', 'emplace_back') or x[3] != (name,)):
                    c.bad('R3', f, 'the name recorded in %s is not the name of the %s port' % (names, which), x[-2])
                if not adding and x[1] == 'erase' and isinstance(x[3][0], tuple) and x[3][0][0] == 'find' and (x[3][0][1] != x[2] or x[3][0][2] != name):
                    c.bad('R3', f, 'the name removed from %s is not the name of the %s port' % (names, which), x[-2])
            if b is True and adding:
                ok = any(t is True and ft[0] == 'in' and ft[2] == name and has(ft[1], obj) and has(ft[1], ('str', ports)) for ft, t in st.facts.items())
                if not ok:
                    c.bad('R1', f, '%s goes on although the %s block was not found to have such a port' % (word, which))
    c.rep.count('connection_paths', oks)
    c.rep.need(oks >= 4, 'successful paths of ' + q)


def loops_over(rule, pred):
    for mk, cases in rule.loops.items():
        cs = [x for x in cases if x[0] is not None and pred(x[0])]
        if cs:
            yield mk, cs


def calls(ev, name):
    return [e for e in ev if e[0] == 'pc' and len(e) > 2 and e[2] == ('str', name)]


def check_all(c):
    f, rule, out = c.run('Pothos::Topology::disconnectAll')
    for kind, st, rv in out:
        m = muts(st.ev)
        if kind == 'throw':
            if m:
                c.bad('R1', f, 'an exception leaves a half-cleared topology')
            continue
        for n in MEMBERS:
            if not any(impl(e[2] if e[0] == 'mut' else e[1]) == n and e[0:2] in (('mut', 'clear'), ('mut', 'swap'), ('mut', 'resize')) or e[0] == 'set' and impl(e[1]) == n for e in m):
                c.bad('R3', f, 'after disconnectAll the topology still has its %s' % n)
    got = set()
    for mk, cs in loops_over(rule, lambda t: impl(t) == 'flows'):
        for v, facts, ev, st in cs:
            for which, n in (('src', 'autoDeleteOutput'), ('dst', 'autoDeleteInput')):
                for e in calls(ev, n):
                    p = port(X, which)
                    if has(e[1], pf(p, 'obj')) and e[3:4] == (pf(p, 'name'),):
                        got.add((which, bool(fact(facts, *B(pf(port(X, 'dst' if which == 'src' else 'src'), 'obj'))))))
    for which in ('src', 'dst'):
        for o in (True, False):
            if (which, o) not in got:
                c.bad('R3', f, 'disconnectAll does not give back the automatic port at the %s of a flow whose other end is %s' % (which, 'a block' if o else 'the topology'))


def filt(rule, target):
    """(source, None or (container, polarity)) when target is filled by one loop with a membership test; None when not understood"""
    found = []
    for mk, cases in rule.loops.items():
        if any(e[0] == 'mut' and e[2] == target for cs in cases for e in cs[2]):
            found.append(cases)
    if len(found) != 1 or any(cs[0] is None for cs in found[0]):
        return None
    cases = found[0]
    src = cases[0][0]
    keep, drop = [], []
    for v, facts, ev, st in cases:
        pushes = [e for e in ev if e[0] == 'mut' and e[2] == target]
        if any(e[1] not in ('push_back', 'emplace_back') or e[3] != (X,) for e in pushes) or len(pushes) > 1:
            return None
        isin = [(ft[1], t) for ft, t in facts.items() if ft[0] == 'in' and ft[2] == X]
        (keep if pushes else drop).append(isin)
    if any(len(x) != 1 for x in keep + drop):
        if not drop and all(not x for x in keep):
            return (src, None)
        return None
    ks, ds = set(x[0] for x in keep), set(x[0] for x in drop)
    if len(ks) == 1 and len(ds) == 1:
        (kc, kt), (dc, dt) = ks.pop(), ds.pop()
        if kc == dc and kt != dt:
            return (src, (kc, kt))
    return None


def describe(rule, t):
    """what list t is: ('new',) ('gone',) ('active',) ('flows',) or a text"""
    if impl(t) in ('flows', 'activeFlatFlows'):
        return impl(t)
    if isinstance(t, tuple) and t[0] == 'new':
        r = filt(rule, t)
        if r is None:
            return None
        s, cond = impl(r[0]) or '?', r[1]
        if cond is None:
            return s
        return '%s that are %s %s' % (s, 'in' if cond[1] else 'not in', impl(cond[0]) or '?')
    return None


def check_subcommit(c):
    f, rule, out = c.run('topologySubCommit', args=(('arg', 0, 'topology'),))
    NEW, OLD = 'flows that are not in activeFlatFlows', 'activeFlatFlows that are not in flows'
    done = {}
    order = {}
    for mk, cases in rule.loops.items():
        for v, facts, ev, st in cases:
            if v is None:
                continue
            d = describe(rule, v)
            for n, own, end, oend, pn in (('subscribeInput', 'src', 'dst', 'input', 'add'), ('subscribeOutput', 'dst', 'src', 'output', 'add')):
                for e in calls(ev, n):
                    p, q = port(X, own), port(X, end)
                    act = e[3] if len(e) > 3 else None
                    if not isinstance(act, tuple) or act[0] != 'str':
                        continue
                    want = {'add': NEW, 'remove': OLD}.get(act[1])
                    if want is None:
                        c.bad('R4', f, 'flows are subscribed with the unknown action %s' % act[1])
                        continue
                    if d is not None and d != want:
                        c.bad('R4', f, '"%s" is called with "%s" for the %s' % (n, act[1], d), e[-1][1] if e[-1][0] == 'at' else None)
                    if e[1] != ('pc', pf(p, 'obj'), ('str', '_actor')) or e[4:5] != (pf(p, 'name'),) or e[5:6] != (('pc', pf(q, 'obj'), ('str', oend), pf(q, 'name')),):
                        c.bad('R4', f, '%s does not connect the %s port of the flow with its %s port' % (n, own, end), e[-1][1])
                        continue
                    done.setdefault((n, act[1]), set()).add(mk)
            if isinstance(v, tuple) and v[0] == 'call' and last(v[1]) == 'getObjSetFromFlowList':
                for n in ('setActiveStateOn', 'setActiveStateOff'):
                    for e in calls(ev, n):
                        if e[1] != ('pc', X, ('str', '_actor')):
                            c.bad('R5', f, '%s is not called on the block of the set' % n, e[-1][1])
                            continue
                        done.setdefault((n, ''), set()).add(mk)
                        order[mk] = (n, v[2], v[3] if len(v) > 3 else None, e[-1][1])
    for n in ('subscribeInput', 'subscribeOutput'):
        for a in ('add', 'remove'):
            mks = done.get((n, a), set())
            if not mks:
                c.bad('R4', f, '%s is never called with "%s" for the flows' % (n, a))
            for mk in mks:
                for v, facts, ev, st in rule.loops[mk]:
                    if not calls(ev, n):
                        c.bad('R4', f, '%s "%s" is skipped for some flows' % (n, a))
    for n in ('setActiveStateOn', 'setActiveStateOff'):
        if not done.get((n, '')):
            c.bad('R5', f, '%s is never called' % n)
        for mk in done.get((n, ''), set()):
            for v, facts, ev, st in rule.loops[mk]:
                if not calls(ev, n):
                    c.bad('R5', f, '%s is skipped for some blocks' % n)
    # order on the normal exits
    oks = 0
    for kind, st, rv in out:
        if kind != 'ret':
            continue
        oks += 1
        pos = dict((mk, i) for i, mk in enumerate(st.ev) if mk[0] == 'loop')
        sets = [(i, e) for i, e in enumerate(st.ev) if e[0] == 'set' and impl(e[1]) == 'activeFlatFlows']
        if len(sets) != 1 or impl(sets[0][1][2]) != 'flows':
            c.bad('R5', f, 'the flows are not taken over as the active flows exactly once')
            continue
        at = sets[0][0]
        for (n, a_), mks in done.items():
            if n.startswith('subscribe') and not any(q in pos for q in mks):
                vs = [x[0] for q in mks for x in rule.loops[q][:1]]
                if not any(has(ft, v) for ft in st.facts for v in vs):
                    c.bad('R4', f, '%s "%s" is left out on some path' % (n, a_))
        inst = [i for i, e in enumerate(st.ev) if e[0] == 'call' and last(e[1]) == 'installBufferManagers']
        for i in inst:
            d = describe(rule, st.ev[i][2])
            if d is not None and d != NEW:
                c.bad('R4', f, 'buffer managers are installed for the %s' % d)
        if not inst:
            c.bad('R4', f, 'buffer managers are not installed')
        for mk, (n, a, ex, loc) in order.items():
            i = pos.get(mk)
            if i is None:
                c.bad('R5', f, '%s is skipped on some path' % n)
                continue
            d = describe(rule, a)
            on = n == 'setActiveStateOn'
            if d is not None and d != (NEW if on else OLD):
                c.bad('R5', f, '%s is called for the blocks of the %s' % (n, d), loc)
            # the flows that are excluded: the active ones before, the wanted ones after
            x = impl(ex) if ex is not None else None
            if x == 'activeFlatFlows':
                x = 'before' if i < at else 'after'
            elif x == 'flows':
                x = 'after'
            if isinstance(ex, tuple) and ex[0] == 'new' and not any(e[0] == 'mut' and e[2] == ex for cs in rule.loops.values() for y in cs for e in y[2]) and not any(e[0] == 'mut' and e[2] == ex for e in st.ev):
                x = 'nothing'
            if ex is None or x is not None and x != ('before' if on else 'after'):
                c.bad('R5', f, '%s is not limited to blocks without a flow %s the change' % (n, 'before' if on else 'after'), loc)
            if on and inst and inst[-1] > i:
                c.bad('R4', f, 'blocks are activated before their buffer managers are installed', loc)
            for (sn, sa), mks in done.items():
                if sn.startswith('subscribe') and all(pos.get(q, -1) > i for q in mks):
                    c.bad('R4', f, 'blocks are %s before their ports are subscribed with "%s"' % ('activated' if on else 'deactivated', sa), loc)
    c.rep.need(oks >= 1, 'normal exits of topologySubCommit')
    check_errors(c, f, rule, out)


def check_errors(c, f, rule, out):
    """what runs in futures: every future is kept, collected, and its error thrown"""
    for mk, cases in rule.loops.items():
        for v, facts, ev, st in cases:
            for i, e in enumerate(ev):
                if e[0] == 'async':
                    keep = [x for x in ev[i:] if x[0] == 'mut' and x[1] in ('push_back', 'emplace_back') and (has(x[3], 'future') or has(x[3], 'async'))]
                    if not keep:
                        c.bad('R6', f, 'the outcome of %s is not kept' % (e[1] if isinstance(e[1], str) else 'a parallel step'))
    for kind, st, rv in out:
        if kind != 'ret':
            continue
        for ft, t in st.facts.items():
            if ft[0] == 'empty' and isinstance(ft[1], tuple) and ft[1][0] == 'call' and last(ft[1][1]) == 'collectFutureInfoErrors' and not t:
                c.bad('R6', f, 'collected errors do not end in an exception')
        n = [e for e in st.ev if e[0] == 'call' and last(e[1]) == 'collectFutureInfoErrors']
        k = [ft for ft in st.facts if ft[0] == 'empty' and isinstance(ft[1], tuple) and ft[1][0] == 'call' and last(ft[1][1]) == 'collectFutureInfoErrors']
        if len(n) > len(k) and len(set(n)) > len(k):
            c.bad('R6', f, 'collected errors are ignored')


def check_objset(c):
    f, rule, out = c.run('getObjSetFromFlowList')
    A = [('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs)]
    flows, excl = A[-2], A[-1]
    adds, drops = {}, {}
    for mk, cases in rule.loops.items():
        for v, facts, ev, st in cases:
            if v == flows:
                for which in ('src', 'dst'):
                    p = port(X, which)
                    b = fact(facts, *B(pf(p, 'obj')))
                    ins = [e for e in ev if e[0] == 'set' and e[2] == pf(p, 'obj') and e[1][0] == 'elem' and e[1][2] == pf(p, 'uid')] \
                        + [e for e in ev if e[0] == 'mut' and e[1] in ('emplace', 'insert') and has(e[3], pf(p, 'obj')) and has(e[3], pf(p, 'uid'))]
                    if not any(e[0] == 'loop' for e in ev):
                        adds.setdefault(which, []).append((b, bool(ins)))
            if v == excl:
                for which in ('src', 'dst') if not any(e[0] == 'loop' for e in ev) else ():
                    drops.setdefault(which, []).append(any(e[0] == 'mut' and e[1] == 'erase' and e[3] == (pf(port(X, which), 'uid'),) for e in ev))
    for which in ('src', 'dst'):
        if not adds.get(which):
            continue
        if any(b is not False and not i for b, i in adds[which]):
            c.bad('R5', f, 'the block at the %s of a flow is left out of the set' % which)
        if drops.get(which) and not all(drops[which]):
            c.bad('R5', f, 'the block at the %s of an excluded flow stays in the set' % which)
    c.rep.count('sets', len(adds))


def check_passthrough(c):
    f, rule, out = c.run('completePassThroughFlows')
    A = [('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs)]
    flows = A[-1]
    kept = 0
    for mk, cases in rule.loops.items():
        for v, facts, ev, st in cases:
            if v != flows:
                continue
            s, d = [fact(facts, *B(pf(port(X, w), 'obj'))) for w in ('src', 'dst')]
            p = [e for e in ev if e[0] == 'mut' and e[1] in ('push_back', 'emplace_back') and e[3] == (X,)]
            if p:
                kept += 1
                if s is False or d is False:
                    c.bad('R7', f, 'a flow without a block at both ends is kept')
    if not kept:
        c.bad('R7', f, 'complete flows are dropped')
    check_completed(c, f, rule, flows)
    for mk, cases in rule.loops.items():
        for v, facts, ev, st in cases:
            if v == flows and any(e[0] == 'mut' and e[1] in ('push_back', 'emplace_back') and e[3] == (X,) for e in ev):
                for v2, facts2, ev2, st2 in cases:
                    s, d = [fact(facts2, *B(pf(port(X, w), 'obj'))) for w in ('src', 'dst')]
                    if s is not False and d is not False and not any(e[0] == 'mut' and e[3] == (X,) for e in ev2):
                        c.bad('R7', f, 'a complete flow is dropped')


def check_commit(c):
    f, rule, out = c.run('Pothos::Topology::commit')
    STAGES = ('squashFlows', 'completePassThroughFlows', 'createNetworkFlows', 'rectifyDomainFlows')
    wired = None
    clear = sub = None
    for mk, cases in rule.loops.items():
        for v, facts, ev, st in cases:
            if v is None:
                continue
            for e in calls(ev, 'connect'):
                wired = (mk, v)
                p, q = port(X, 'src'), port(X, 'dst')
                if e[3:7] != (pf(p, 'obj'), pf(p, 'name'), pf(q, 'obj'), pf(q, 'name')):
                    c.bad('R8', f, 'the connection made on commit is not the one of the flow', e[-1][1])
            if calls(ev, 'disconnectAll') and impl(v) == 'remoteTopologies':
                clear = mk
            if impl(v) == 'remoteTopologies' and calls(ev, 'subCommit'):
                sub = mk
    if wired is None:
        c.bad('R8', f, 'commit does not connect the flows')
        return
    mk, v = wired
    x, stages = v, []
    while isinstance(x, tuple) and x[0] == 'call':
        stages.append(last(x[1]))
        x = x[-1]
    if isinstance(v, tuple) and v[0] == 'call' and (tuple(reversed(stages)) != STAGES or impl(x) != 'flows'):
        c.bad('R8', f, 'the committed flows are %s of %s' % (' of '.join(stages), impl(x)))
    for v2, facts, ev, st in rule.loops[mk]:
        if not calls(ev, 'connect'):
            c.bad('R8', f, 'some flows are not connected on commit')
    if clear is None:
        c.bad('R8', f, 'commit does not clear the connections of the last one')
    if sub is None:
        c.bad('R8', f, 'commit does not commit every environment')
    oks = 0
    for kind, st, rv in out:
        sets = [(i, e) for i, e in enumerate(st.ev) if e[0] == 'set' and impl(e[1]) == 'activeFlatFlows']
        if kind == 'throw':
            continue
        oks += 1
        pos = dict((m, i) for i, m in enumerate(st.ev) if m[0] == 'loop')
        if not (pos.get(clear, -1) < pos.get(mk, -1) < pos.get(sub, -1)):
            c.bad('R8', f, 'clearing, connecting and committing happen in a different order')
        if len(sets) != 1 or sets[0][1][2] != v:
            c.bad('R8', f, 'the committed flows are not recorded as active exactly once')
        for ft, t in st.facts.items():
            if ft[0] == 'empty' and not t and isinstance(ft[1], tuple) and ft[1][0] in ('w', 'alloca', 'obj', 'new') and 'string' in str(ft):
                c.bad('R6', f, 'errors of the environments do not end in an exception')
    c.rep.need(oks >= 1, 'normal exits of commit')


def check_squash(c):
    r = TopoRule(c.prog)
    r.enter = ('squashFlows',)
    f, rule, out = c.run('Pothos::Topology::Impl::squashFlows', r)
    A = [('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs)]
    flows = A[-1]
    n = 0
    for mk, cases in rule.loops.items():
        if not any(v == flows for v, _, _, _ in cases):
            continue
        asy = any(e[0] == 'async' for _, _, ev, _ in cases for e in ev)
        passed = any(e[0] == 'mut' and e[1] in ('push_back', 'emplace_back') and e[3] == (X,) for _, _, ev, _ in cases for e in ev)
        for v, facts, ev, st in cases:
            s, d = [fact(facts, *B(pf(port(X, w), 'obj'))) for w in ('src', 'dst')]
            if asy:
                for which, flag in (('src', 1), ('dst', 0)):
                    got = [e for e in ev if e[0] == 'async' and has(e, port(X, which))]
                    ok = [e for e in got if const_in(e, flag)]
                    n += bool(ok)
                    if got and not ok:
                        c.bad('R7', f, 'the %s ports of a flow are resolved as those of the other end' % which)
                    if s is not False and d is not False and not got:
                        c.bad('R7', f, 'the %s of a flow between blocks is not resolved' % which)
            if passed and not asy:
                p = [e for e in ev if e[0] == 'mut' and e[3] == (X,)]
                if p and (s is not False or d is not False):
                    c.bad('R7', f, 'a flow with a block at one end is taken for a pass-through flow')
                if not p and s is False and d is False:
                    c.bad('R7', f, 'a pass-through flow is dropped')
    c.rep.need(n >= 2, 'resolved ends of flows')
    check_assembly(c, f, rule, flows)

def lf(t, which, f):
    return pf(port(t, which), f)


def whole(t):
    """the element t is a copy of, or None: leaf terms all from one element"""
    return t


def known(facts, f):
    return facts.get(f)


def same(facts, p, q):
    """truth of p == q for two ports, from the comparison of the ports or of all that identifies them"""
    t = facts.get(('eq',) + tuple(sorted((p, q), key=str)))
    if t is not None:
        return t
    ts = [facts.get(('eq',) + tuple(sorted((pf(p, x), pf(q, x)), key=str))) for x in ('uid', 'name')]
    if False in ts:
        return False
    return True if ts == [True, True] else None


def end_of(t, which):
    """(element, end) that the end `which` of the flow t was copied from"""
    o = lf(t, which, 'obj')
    if isinstance(o, tuple) and o[0] == 'fld' and o[2] == 'Port::obj' and isinstance(o[1], tuple) and o[1][0] == 'fld' and o[1][2] in ('Flow::src', 'Flow::dst'):
        E, w = o[1][1], o[1][2][6:]
        if all(lf(t, which, x) == lf(E, w, x) for x in ('name', 'uid')):
            return (E, w)
        return (E, 'mixed')
    return None


def check_completed(c, f, rule, flows):
    """a completed flow starts where the head starts, ends where the tail ends, and both meet the same pass-through flow"""
    n = 0
    for mk, cases in rule.loops.items():
        for v, facts, ev, st in cases:
            if any(e[0] == 'loop' for e in ev):
                continue
            p = [e for e in ev if e[0] == 'mut' and e[1] in ('push_back', 'emplace_back') and len(e[3]) == 1 and e[3] != (X,)]
            for e in p:
                a, b = end_of(e[3][0], 'src'), end_of(e[3][0], 'dst')
                if a is None or b is None:
                    continue
                (H, hs), (T, td) = a, b
                if hs != 'src' or td != 'dst' or H == T:
                    c.bad('R7', f, 'a completed flow does not run from the source of its head to the destination of its tail', e[-2])
                    continue
                n += 1
                els = set()
                for ft in facts:
                    collect(ft, els)
                mid = [M for M in els - {H, T} if same(facts, port(M, 'src'), port(T, 'src')) is True and same(facts, port(M, 'dst'), port(H, 'dst')) is True]
                if not mid:
                    c.bad('R7', f, 'a flow is completed without a pass-through flow that has both the source of its tail and the destination of its head', e[-2])
                elif not any(facts.get(B(lf(M, 'src', 'obj'))) is False and facts.get(B(lf(M, 'dst', 'obj'))) is False for M in mid):
                    c.bad('R7', f, 'a flow is completed through one that has a block', e[-2])
                if facts.get(B(lf(H, 'src', 'obj'))) is False or facts.get(B(lf(T, 'dst', 'obj'))) is False:
                    c.bad('R7', f, 'a flow is completed with an end that has no block', e[-2])
                for v2, facts2, ev2, st2 in cases:
                    if any(x[0] in ('mut', 'loop') for x in ev2):
                        continue
                    M = mid[0] if mid else None
                    if M and same(facts2, port(M, 'src'), port(T, 'src')) is True and same(facts2, port(M, 'dst'), port(H, 'dst')) is True and facts2.get(B(lf(H, 'src', 'obj'))) is not False \
                            and facts2.get(B(lf(T, 'dst', 'obj'))) is not False:
                        c.bad('R7', f, 'a flow that can be completed is left out', e[-2])
    c.rep.count('completed', n)


def collect(x, out):
    if isinstance(x, tuple):
        if x[0] == 'fld' and x[2] in ('Flow::src', 'Flow::dst'):
            out.add(x[1])
        for y in x:
            collect(y, out)


def check_collect(c):
    """the error of every future ends up in the text"""
    r = TopoRule(c.prog)
    r.enter = ('collectFutureInfoErrors',)
    r.watch = True
    f, rule, out = c.run('collectFutureInfoErrors', r)
    n = 0
    for mk, cases in rule.loops.items():
        for v, facts, ev, st in cases:
            for i, e in enumerate(ev):
                if e == ('failed',):
                    n += 1
                    if not any(x[0] in ('mut', 'set') for x in ev[i:]):
                        c.bad('R6', f, 'the error of a failed step is left out')
    for kind, st, rv in out:
        if kind == 'throw' and ('failed',) in st.ev and n == 0:
            n += 1
    c.rep.count('failed_steps', n)


def check_assembly(c, f, rule, flows):
    """how squashFlows puts the flat flows together"""
    lists = {}          # list of futures -> end it resolves
    targets = set()
    for kind, st, rv in ():
        pass
    for mk, cases in rule.loops.items():
        for v, facts, ev, st in cases:
            for e in ev:
                if e[0] == 'mut' and e[1] in ('push_back', 'emplace_back') and e[3] and isinstance(e[3][0], tuple) and e[3][0][0] == 'async':
                    for w in ('src', 'dst'):
                        if has(e[3][0], port(X, w)):
                            lists.setdefault(e[2], set()).add(w)
                if e[0] == 'mut' and isinstance(e[2], tuple) and e[2][0] == 'new' and has(e[3], ('X',)) and e[3] == (X,) and v == flows:
                    targets.add(e[2])
    def which(E):
        for x, cont in rule.visited.items():
            if x == E:
                w = [ws for l, ws in lists.items() if has(cont, l)]
                if len(w) == 1 and len(w[0]) == 1:
                    return list(w[0])[0]
    for mk, cases in rule.loops.items():
        fill = [x for x in cases if any(e[0] == 'mut' and e[2] in targets for e in x[2]) and not any(e[0] == 'loop' for e in x[2])]
        for v, facts, ev, st in fill:
            for e in ev:
                if e[0] != 'mut' or e[2] not in targets or len(e[3]) != 1 or e[3] == (X,):
                    continue
                for w in ('src', 'dst'):
                    o = pf(port(e[3][0], w), 'obj')
                    if isinstance(o, tuple) and o[0] == 'fld':
                        E = o[1]
                        got = which(E) if E != X else next((list(ws)[0] for l, ws in lists.items() if v is not None and has(v, l) and len(ws) == 1), None)
                        if got is not None and got != w:
                            c.bad('R7', f, 'the %s of a flat flow is taken from the resolved %s ports' % (w, got), e[-2])
                        if got == w:
                            c.rep.count('combined_ends')
        # what comes from a future is taken as a whole, every time
        futs = [x for x in fill if any(e[0] == 'mut' and e[2] in targets and 'future::get' in str(e[3]) for e in x[2])]
        if futs and len(fill) != len(cases):
            for x in cases:
                if x not in fill and not any(e[0] == 'loop' for e in x[2]) and not any('future::get' in str(ft) for ft in x[1]):
                    c.bad('R7', f, 'the flows of some inner topology are left out')
        # objects that are asked for inner flows; wrapping keeps the end
        for v, facts, ev, st in cases:
            if v == flows:
                sets = [e for e in ev if e[0] == 'set' and isinstance(e[1], tuple) and e[1][0] == 'elem']
                ops = [e for y in cases for e in y[2] if e[0] == 'set' and isinstance(e[1], tuple) and e[1][0] == 'elem'] + [e for y in cases for e in y[2] if e[0] == 'mut' and e[1] in ('emplace', 'insert') and 'map' in str(e[2][:2])]
                if not ops or any(e[0] == 'loop' for y in cases for e in y[2]):
                    continue
                for w in ('src', 'dst'):
                    p = port(X, w)
                    ok = [e for e in sets if e[2] == pf(p, 'obj') and e[1][2] == pf(p, 'uid')] + [e for e in ev if e[0] == 'mut' and e[1] in ('emplace', 'insert') and has(e[3], pf(p, 'obj')) and has(e[3], pf(p, 'uid'))]
                    if not ok and facts.get(B(pf(p, 'obj'))) is not False:
                        c.bad('R7', f, 'the topology at the %s of a flow is not asked for its flows' % w)
            for e in ev:
                if e[0] == 'set' and isinstance(e[1], tuple) and e[1][0] == 'fld' and e[1][2] == 'Port::obj' and isinstance(e[1][1], tuple) and e[1][1][0] == 'fld' \
                        and isinstance(e[2], tuple) and e[2][0] == 'fld' and e[2][2] == 'Port::obj' and e[2] != e[1]:
                    c.bad('R7', f, 'one end of a flat flow gets the block of another', e[-2])


def const_in(e, k):
    return any(x == K(k) for x in e)


def check_resolve(c):
    r = TopoRule(c.prog)
    f, rule, out = c.run('resolvePortsFromTopology', r)
    A = [('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs)]
    name, src = A[-2], A[-1]
    n = 0
    for mk, cases in rule.loops.items():
        for v, facts, ev, st in cases:
            if v is None or impl(v) != 'flows':
                continue
            pushes = [e for e in ev if e[0] == 'mut' and e[1] in ('push_back', 'emplace_back')]
            pcs = [e for e in ev if e[0] == 'call' and last(e[1]) == 'resolvePorts']
            for which, other, fl in (('src', 'dst', True), ('dst', 'src', False)):
                for e in pushes:
                    if e[3] == (port(X, which),):
                        n += 1
                        if fact(facts, *B(pf(port(X, other), 'obj'))) is not False or fact(facts, *B(pf(port(X, which), 'obj'))) is not False:
                            c.bad('R7', f, 'a port of a block is taken for an outer port', e[-2])
                        eqs = [t for ft, t in facts.items() if ft[0] == 'eq' and pf(port(X, other), 'name') in ft and name in ft]
                        if eqs != [True]:
                            c.bad('R7', f, 'a flow is followed from a port of another name', e[-2])
                got = [e for e in pcs if port(X, which) in e]
                for e in got:
                    n += 1
                    fl_ = st.decide(e[-1]) if cval(e[-1]) is None else bool(cval(e[-1]))
                    if fl_ is not None and fl_ != fl:
                        c.bad('R7', f, 'the %s of an inner flow is resolved as the other end' % which)
                    eqs = [t for ft, t in facts.items() if ft[0] == 'eq' and pf(port(X, other), 'name') in ft and name in ft]
                    if fact(facts, *B(pf(port(X, other), 'obj'))) is not False or eqs != [True]:
                        c.bad('R7', f, 'a flow is followed that does not belong to the port of the topology')
                    if not any(x[0] == 'mut' and has(x[3], e[1]) and has(x[3], port(X, which)) for x in ev) and not any(has(ft, e[1]) for ft in facts) and not any(x[0] == 'loop' for x in ev):
                        c.bad('R7', f, 'resolved ports are left out')
                if facts.get(src) is fl and fact(facts, *B(pf(port(X, other), 'obj'))) is False and [t for ft, t in facts.items() if ft[0] == 'eq' and pf(port(X, other), 'name') in ft and name in ft] == [True] \
                        and not got and not any(e[3] == (port(X, which),) for e in pushes) and not any(e[0] == 'loop' for e in ev):
                    c.bad('R7', f, 'the %s of a flow of the port is left out' % which)
    c.rep.count('pass_through', n)


def check_equal(c):
    """two flows (ports) are equal exactly when all parts that identify them are"""
    parts = {'Port': ('Port::uid', 'Port::name'), 'Flow': ('Flow::src', 'Flow::dst')}
    n = 0
    for f in c.prog.fns.values():
        if f.name != 'operator==' or not f.in_repo:
            continue
        ps = [re.sub(r'\bconst\b|&', '', p).strip() for p in params_of(c.prog.dem(f.n))]
        if len(ps) != 2 or ps[0] != ps[1] or ps[0] not in parts:
            continue
        rule = TopoRule(c.prog)
        eng = Affine(c.prog, rule)
        a, b = ('arg', 0, 'lhs'), ('arg', 1, 'rhs')
        n += 1
        for kind, st, rv in eng.run(f, (a, b)):
            if kind != 'ret':
                continue
            facts = dict(st.facts)
            truth = [facts.get(('eq',) + tuple(sorted((fld(a, p), fld(b, p)), key=str))) for p in parts[ps[0]]]
            v = st.decide(rv) if rv is not None else None
            if cval(rv) is not None:
                v = bool(cval(rv))
            if v is None:       # the last comparison is returned
                last_ = [p for p, t in zip(parts[ps[0]], truth) if t is None]
                if truth.count(True) != len(truth) - 1 or rv != ('eq',) + tuple(sorted((fld(a, last_[0]), fld(b, last_[0])), key=str)):
                    c.bad('R9', f, 'the comparison of two %ss does not depend on all of %s' % (ps[0].lower(), ', '.join(last(p) for p in parts[ps[0]])))
            elif v and any(t is not True for t in truth):
                c.bad('R9', f, 'two %ss are taken for equal without comparing %s' % (ps[0].lower(), ', '.join(last(p) for p, t in zip(parts[ps[0]], truth) if t is not True)))
            elif not v and False not in truth:
                c.bad('R9', f, 'two equal %ss are taken for different' % ps[0].lower())
    c.rep.need(n >= 2, 'comparisons of ports and flows')


def check_worker(c):
    """the actor of a block adds and removes exactly the subscriber it is given"""
    for q, ports in (('Pothos::WorkerActor::subscribeInput', 'outputs'), ('Pothos::WorkerActor::subscribeOutput', 'inputs')):
        f, rule, out = c.run(q)
        A = [('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs)]
        n = 0
        for kind, st, rv in out:
            m = [e for e in st.ev if e[0] == 'mut' and str(e[2]).find('_subscribers') >= 0]
            act = [(ft, t) for ft, t in st.facts.items() if ft[0] == 'eq' and A[1] in ft]
            what = [x[1] for ft, t in act if t for x in ft[1:] if x[0] == 'str']
            if kind == 'throw':
                continue
            n += 1
            want = {'add': ('push_back', 'emplace_back'), 'remove': ('erase',)}.get(what[0] if what else None)
            if want is None:
                if m:
                    c.bad('R10', f, 'an unknown action changes the subscribers')
                continue
            if len(m) != 1 or m[0][1] not in want:
                c.bad('R10', f, 'the action "%s" changes the subscribers by %s' % (what[0], ', '.join(e[1] for e in m) or 'nothing'))
                continue
            e = m[0]
            if not has(e[2], A[2]) or ('::' + ports) not in str(e[2]):
                c.bad('R10', f, 'the subscribers of another port are changed', e[-2])
            x = e[3][0]
            if what[0] == 'add' and st.rd(x) != A[3] and x != A[3] and x != ('ini', A[3]):
                c.bad('R10', f, 'what is added is not the subscriber', e[-2])
            if what[0] == 'remove':
                empty = st.facts.get(('empty', e[2]))
                cache = [x for x in st.ev if x[0] == 'mut' and x[1] == 'reset' and 'TmpCache' in str(x[2])]
                flag = K(0) if ports == 'outputs' else K(1)
                for x in cache:
                    if not has(x[2], flag) or not has(x[2], A[2]):
                        c.bad('R10', f, 'the buffer manager of another port is dropped', x[-2])
                if empty is not False and not cache:
                    c.bad('R10', f, 'the last subscriber leaves and the buffer manager stays')
                if empty is not False and ports == 'outputs' and not any(x[0] == 'call' and last(x[1]) == 'ensureOutputBufferManagerNoLock' and A[2] in x for x in st.ev):
                    c.bad('R10', f, 'the last subscriber leaves and no local buffer manager is ensured')
            isin = [t for ft, t in st.facts.items() if ft[0] == 'in' and ft[1] == e[2]]
            if not isin:
                # a search written out as a loop: what the last comparison of its iterator with another one said
                its = [(ft, t) for ft, t in st.facts.items() if ft[0] == 'r' and last(ft[1]) in ('operator!=', 'operator==') and '__gnu_cxx' in ft[1] and (what[0] == 'add' or e[3][0] in ft[2])]
                isin = [its[-1][1] == (last(its[-1][0][1]) == 'operator!=')] if its else []
            if isin and isin[0] == (what[0] == 'add') or not isin:
                c.bad('R10', f, 'the action "%s" goes on when the subscriber is %s' % (what[0], 'there already' if what[0] == 'add' else 'not there'))
        c.rep.need(n >= 2, 'normal exits of ' + q)


def check(prog, rep):
    rep.rule('R1 a connection is recorded or removed only after everything that can refuse it; a refused one leaves no trace; both ends have the port')
    rep.rule('R2 exactly the flow that was asked for is recorded when it is not there yet, and removed when it is')
    rep.rule('R3 the port names of the topology follow its connections to itself; disconnectAll leaves none')
    rep.rule('R4 a commit subscribes both ends of exactly the new flows and unsubscribes both ends of exactly the old ones; buffer managers before activation')
    rep.rule('R5 exactly blocks that had no flow are activated, exactly those that have none left are deactivated')
    rep.rule('R6 errors of parallel steps are collected and thrown')
    rep.rule('R7 flattening keeps every flow: ends resolved on their own side, pass-through and complete flows kept')
    rep.rule('R8 commit clears, connects every flattened flow with its own ends, commits each environment and records the flows')
    rep.rule('R9 ports and flows are equal exactly when all that identifies them is')
    rep.rule('R10 an actor adds a subscriber that is not there, removes one that is, and nothing else')
    c = Ctx(prog, rep)
    check_connect(c, 'Pothos::Topology::_connect', True)
    check_connect(c, 'Pothos::Topology::_disconnect', False)
    check_all(c)
    check_subcommit(c)
    check_collect(c)
    check_objset(c)
    check_passthrough(c)
    check_squash(c)
    check_resolve(c)
    check_commit(c)
    check_equal(c)
    check_worker(c)
