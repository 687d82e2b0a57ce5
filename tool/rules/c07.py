"""C07: ring queues, ordered queues and the buffer accumulator lose, duplicate and reorder nothing.

R1 (ring)   every member of RingDeque maps the sequence "element k is slot (front+k) mod (mask+1)" to the sequence its contract names.
R2 (order)  OrderedQueue: an element goes to the ready queue exactly when its index is next, the index advances by one and wraps at the end.
R3 (room)   a push happens only where the queue is known not to be full, front/back/pop only where it is known not to be empty.
R4 (bytes)  the accumulator: the byte count equals the sum of the chunk lengths, chunks are merged only when contiguous, the queue is never left empty.
"""
from common import *
from affine import *
import affine as A

SOURCES = FRAMEWORK + ['lib/Framework/Builtin/GenericBufferManager.cpp', 'lib/Framework/Builtin/CircularBufferManager.cpp', '+rings.cpp']
EXPLANATION = ('Abstract interpretation with affine equalities over all paths of the queue members and of every function that uses a queue; loops are widened. '
               'What is decided: positions, counts, capacities and byte sums as affine forms; not decided: contents of elements.')
RING = 'Pothos::Util::RingDeque'
OQ = 'Pothos::Util::OrderedQueue'


def instances(prog, cls):
    """mangled class instance -> {method: [Fn]}"""
    out = {}
    for f in prog.fns.values():
        if f.name.startswith(cls + '::') and f.name.count('::') == cls.count('::') + 1:
            dem = prog.dem(f.n)
            m = re.search(re.escape(cls) + r'<', dem)
            if not m:
                continue
            i, d = m.end() - 1, 0
            while i < len(dem):
                d += {'<': 1, '>': -1}.get(dem[i], 0)
                i += 1
                if d == 0:
                    break
            out.setdefault(dem[m.start():i], {}).setdefault(last(f.name), []).append(f)
    return out


# ---------------------------------------------------------------- R1

class RingRule(ARule):
    def __init__(self, ops=False):
        self.ops = ops           # element operations are events instead of being looked into
        self.deallocs = []
        self.iters = []

    OPS = ('push_back', 'push_front', 'emplace_back', 'emplace_front', 'pop_front', 'pop_back', 'clear')

    def inline(self, eng, fn, name):
        if self.ops and name.startswith(RING + '::') and last(name) in self.OPS:
            return False
        return name.startswith(RING + '::') or (fn.in_repo and name.startswith('Pothos::Util::Detail::')) or name.startswith('std::swap') or name.startswith('std::exchange')

    def model(self, eng, fr, ins, name, args, st):
        if last(name) == 'deallocate':
            st.ev = st.ev + (('call', name, args, None, ins.loc),)
            self.deallocs.append((fr, ins, args, st.copy()))
            return [('ret', st, None)]
        if self.ops and name.startswith(RING + '::') and last(name) in self.OPS:
            st.ev = st.ev + (('call', name, args, None, ins.loc),)
            n = self.fl(args[0], '_numElements')
            f = self.fl(args[0], '_frontIndex')
            m = last(name)
            if m == 'clear':
                st.wr(n, K(0))
                return [('ret', st, None)]
            slot = ('slot', args[0], add(st.rd(f), st.rd(n)) if m.endswith('_back') else sub(st.rd(f), K(1)))
            st.wr(n, add(st.rd(n), K(1 if m[0] in 'pe' and not m.startswith('pop') else -1)))
            if m.endswith('_front'):
                st.wr(f, add(st.rd(f), K(1 if m.startswith('pop') else -1)))
            return [('ret', st, slot)]
        return None

    @staticmethod
    def fl(b, f):
        return ('fld', b, RING + '::' + f)

    def event(self, name):
        return True

    def pure(self, name):
        return False

    def on_backedge(self, eng, fr, header, it, st, phis):
        self.iters.append((fr, header, it[1], it[2], st.copy(), phis))


class Ring(object):
    def __init__(self, b):
        self.base = b
        for f in ('_frontIndex', '_numElements', '_mask', '_capacity', '_container'):
            setattr(self, f[1:], ('fld', b, RING + '::' + f))

    def at(self, st):
        r = {k: st.rd(getattr(self, k)) for k in ('frontIndex', 'numElements', 'mask', 'capacity', 'container')}
        return r


def canon(v, mask):
    """value modulo mask+1"""
    c, t = parts(v)
    out = K(c)
    for k, q in t.items():
        if k == mask:
            out = add(out, K(-q))
        elif isinstance(k, tuple) and k[0] == 'op' and k[1] == 'and' and mask in k[2:]:
            o = k[2] if k[3] == mask else k[3]
            out = add(out, scale(canon(o, mask), q))
        elif isinstance(k, tuple) and k[0] == 'op' and k[1] == 'urem' and k[3] == add(mask, K(1)):
            out = add(out, scale(canon(k[2], mask), q))
        else:
            out = add(out, scale(k, q))
    return out


def slot_of(addr, ring0):
    """absolute position (mod size) of an element address in the ring's storage"""
    if addr == ring0['container']:
        return K(0)
    if isinstance(addr, tuple) and addr[0] == 'idx' and addr[1] == ring0['container']:
        return canon(addr[2], ring0['mask'])
    return None


def same(a, b, mask):
    return canon(sub(a, b), mask) == K(0)


def check_ring(prog, rep):
    n = 0
    for inst, ms in sorted(instances(prog, RING).items()):
        for m, fs in sorted(ms.items()):
            for f in fs:
                n += 1
                check_method(prog, rep, m, f)
    rep.count('ring_members', n)
    rep.need(n >= 20, 'RingDeque members')


def check_method(prog, rep, m, f):
    bad = lambda msg: rep.violation('ring', f.loc, RING + '::' + m, msg, key='ring|%s|%s' % (m, msg))
    dem = prog.dem(f.n)
    args = tuple(('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs))
    this = args[0]
    r = Ring(this)
    i0 = r.at(State())
    F, N, M, C, P = (i0[k] for k in ('frontIndex', 'numElements', 'mask', 'capacity', 'container'))

    def run(a=args, ops=False):
        rule = RingRule(ops)
        eng = Affine(prog, rule)
        ex = [e for e in eng.run(f, a) if e[0] == 'ret']
        rep.engine(eng)
        return rule, ex, eng

    def storage_kept(o):
        return o['mask'] == M and o['container'] == P and o['capacity'] == C

    if m in ('emplace_front', 'emplace_back', 'push_front', 'push_back', 'pop_front', 'pop_back'):
        rule, ex, eng = run()
        back = m.endswith('back')
        pop = m.startswith('pop')
        for kind, st, rv in ex:
            o = r.at(st)
            if not storage_kept(o):
                bad('the storage of the queue changes')
                continue
            want = (sub(add(F, N), K(1)) if back else F) if pop else (add(F, N) if back else sub(F, K(1)))
            fr = F if back else add(F, K(1 if pop else -1))
            if o['numElements'] != add(N, K(-1 if pop else 1)):
                bad('the number of elements does not change by exactly one')
            if not same(o['frontIndex'], fr, M):
                bad('the front moves to the wrong position')
            touched = []
            for e in st.ev:
                if e[0] == 'call' and e[2]:
                    p = slot_of(e[2][0], i0)
                    if p is not None:
                        touched.append((p, last(e[1])))
            for a in st.mem:
                if a[0] not in ('alias', 'ep'):
                    for q in prefixes(a):
                        p = slot_of(q, i0)
                        if p is not None:
                            touched.append((p, 'store'))
            if any(not same(p, want, M) for p, _ in touched):
                bad('an element at the wrong position is %s' % ('destroyed' if pop else 'overwritten'))
            if not pop and not touched:
                bad('no element is constructed')
            if not pop and m.startswith('emplace') and rv is not None:
                p = slot_of(rv, i0)
                if p is not None and not same(p, want, M):
                    bad('returns a reference to another element')
            if pop and sum(1 for p, nm in touched if nm.startswith('~')) != 1 and any(True for _ in touched):
                bad('the removed element is not destroyed exactly once')
    elif m in ('front', 'back', 'operator[]'):
        rule, ex, eng = run()
        want = {'front': F, 'back': sub(add(F, N), K(1)), 'operator[]': add(F, args[1]) if len(args) > 1 else None}[m]
        for kind, st, rv in ex:
            p = slot_of(rv, i0)
            if p is None or not same(p, want, M):
                bad('returns the wrong element')
    elif m in ('size', 'capacity', 'empty', 'full'):
        rule, ex, eng = run()
        for kind, st, rv in ex:
            if m in ('size', 'capacity'):
                if rv != (N if m == 'size' else C):
                    bad('answers the wrong number')
            else:
                ref = compare('eq', N, K(0) if m == 'empty' else C)
                alt = compare('uge', N, C) if m == 'full' else compare('ult', N, K(1))
                if rv not in (ref, alt) and not (cval(rv) is not None and (st.decide(ref) == bool(cval(rv)) or st.decide(alt) == bool(cval(rv)))):
                    bad('answers the wrong condition')
    elif m == 'clear':
        rule, ex, eng = run()
        for kind, st, rv in ex:
            o = r.at(st)
            if not is_zero(st, o['numElements']):
                bad('leaves elements behind')
            if not storage_kept(o):
                bad('the storage of the queue changes')
        for fr, h, hst, hph, st, phis in rule.iters:
            if sub(st.rd(r.numElements), hst.rd(r.numElements)) != K(-1):
                bad('clearing does not remove one element at a time')
    elif m.startswith('~'):
        rule, ex, eng = run()
        for kind, st, rv in ex:
            d = [e for e in st.ev if e[0] == 'call' and last(e[1]) == 'deallocate']
            null = st.decide(compare('eq', P, K(0)))
            if null is not True and len(d) != 1:
                bad('the storage is not freed exactly once')
        check_dealloc(bad, rule, r, i0)
    elif m == 'RingDeque':
        if re.search(r'RingDeque\(.*RingDeque<.*&&\)', dem):
            rule, ex, eng = run()
            moved(bad, ex, this, args[1], ctor=True)
        elif re.search(r'RingDeque\(.*RingDeque<', dem):
            rule, ex, eng = run(ops=True)
            copied(bad, rule, ex, eng, this, args[1], ctor=True)
        else:
            rule, ex, eng = run()
            for kind, st, rv in ex:
                o = r.at(st)
                if o['numElements'] != K(0):
                    bad('a new queue is not empty')
                if len(args) > 1 and o['capacity'] != args[1]:
                    bad('a new queue has another capacity than asked for')
                size_ok(bad, eng, st, o)
    elif m == 'operator=':
        if '&&' in dem:
            rule, ex, eng = run()
            moved(bad, ex, this, args[1], ctor=False, rule=rule)
            check_dealloc(bad, rule, r, i0)
        else:
            rule, ex, eng = run(ops=True)
            copied(bad, rule, ex, eng, this, args[1], ctor=False)
            rule, ex, eng = run((this, this), ops=True)
            for kind, st, rv in ex:
                n = r.at(st)['numElements']
                if any(e[0] == 'call' and last(e[1]) in ('clear', 'pop_front', 'pop_back') for e in st.ev) and n != N:
                    bad('assigning a queue to itself loses its elements')
    elif m == 'set_capacity':
        rule, ex, eng = run(ops=True)
        for fr, h, hst, hph, st, phis in rule.iters:
            ev = [(last(e[1]), e[2]) for e in st.ev[len(hst.ev):] if e[0] == 'call' and last(e[1]) in RingRule.OPS]
            if not ev:
                continue
            now = r.at(hst)
            pushes = [e for e in ev if e[0] in ('push_back', 'emplace_back') and e[1][0] != this]
            pops = [e for e in ev if e[0] == 'pop_front' and e[1][0] == this]
            if len(pushes) != 1 or len(pops) != 1 or len(ev) != 2 or ev.index(pushes[0]) > ev.index(pops[0]):
                # indexed transfer loops (copy element i) are also fine as long as each iteration appends one element
                if len(pushes) != 1 or len(ev) != 1:
                    bad('growing does not carry over the elements one by one in order')
                continue
            p = slot_of(pushes[0][1][1], now)
            if p is not None and not same(p, now['frontIndex'], now['mask']):
                bad('growing does not carry over the front element')
        some = False
        for kind, st, rv in ex:
            o = r.at(st)
            if o['container'] == P and o['numElements'] == N:
                continue
            some = True
            if o['container'] == P:
                bad('elements are lost without new storage')
                continue
            if o['capacity'] != args[1]:
                bad('the capacity is not the one asked for')
            if not size_ok(bad, eng, st, o):
                continue
            if st.decide(compare('ult', args[1], N)) is not False and st.decide(compare('ugt', N, args[1])) is not False:
                bad('shrinks below the number of elements held')
        check_dealloc(bad, rule, r, i0)
        if not some:
            bad('never changes the capacity')


def size_ok(bad, eng, st, o):
    """allocation is mask+1 elements, a power of two not below the capacity"""
    al = [e for e in st.ev if e[0] == 'call' and last(e[1]) == 'allocate']
    size = add(o['mask'], K(1))
    if o['container'][0] == 'r' and last(o['container'][1]) == 'allocate' and o['container'][2][1] != size:
        bad('the storage has another size than the index mask')
        return False
    if any(t[0] == 'w' for t in terms(size)) or cval(size) is not None:
        if st.decide(compare('ult', size, o['capacity'])) is not False:
            bad('the storage can be smaller than the capacity')
            return False
    elif all(t[0] in ('L', 'arg', 'ini', 'fld') for t in terms(size)):
        bad('the storage size is not a power of two')
        return False
    for fr, ent in eng.entries:
        for v in ent.wid:
            if isinstance(v, str) and ('w', fr.key, ent.b, v) in terms(size):
                w = ('w', fr.key, ent.b, v)
                ok = ent.phis.get(v) in (K(1), K(2), K(4)) and all(p.get(v) in (scale(w, 2), scale(ent.phis[v], 2)) for s, p in ent.back)
                if not ok:
                    bad('the storage size is not a power of two')
                    return False
    return True


def check_dealloc(bad, rule, r, i0):
    for fr, ins, args, st in rule.deallocs:
        if len(args) > 2 and args[1] == i0['container']:
            if not same_size(args[2], st, i0):
                bad('the storage is freed with another size than it was allocated with')
            bases = [r.base] + sorted({a[1] for a in st.mem if a[0] == 'fld' and isinstance(a[2], str) and a[2].startswith(RING + '::')}, key=repr)
            if args[0][0] == 'fld' and args[0][2] == RING + '::_allocator':
                bases.insert(0, args[0][1])
            owner = next((o for o in bases if st.rd(RingRule.fl(o, '_container')) == args[1]), r.base)
            n = st.rd(RingRule.fl(owner, '_numElements'))
            if not is_zero(st, n):
                bad('the storage is freed while it may hold elements')


def same_size(v, st, i0):
    return v == add(i0['mask'], K(1))


def moved(bad, ex, this, other, ctor, rule=None):
    a, b = Ring(this), Ring(other)
    a0, b0 = a.at(State()), b.at(State())
    for kind, st, rv in ex:
        x, y = a.at(st), b.at(st)
        if x == a0 and y == b0 and not ctor and st.decide(compare('eq', this, other)) is True:
            continue
        if any(x[k] != b0[k] for k in x):
            bad('the moved-to queue does not take over the elements')
        if y['container'] == b0['container']:
            bad('two queues own the same storage after a move')
        swapped = not ctor and all(y[k] == a0[k] for k in y)
        if not swapped:
            if y['numElements'] != K(0):
                bad('a moved-from queue still counts elements')
            if not ctor:
                d = [e for e in st.ev if e[0] == 'call' and last(e[1]) == 'deallocate' and e[2][1] == a0['container']]
                if len(d) != 1:
                    bad('the previous storage is not freed exactly once')


def copied(bad, rule, ex, eng, this, other, ctor):
    a, b = Ring(this), Ring(other)
    b0 = b.at(State())
    loops = 0
    for fr, h, hst, hph, st, phis in rule.iters:
        ev = [(last(e[1]), e[2]) for e in st.ev[len(hst.ev):] if e[0] == 'call' and last(e[1]) in RingRule.OPS]
        if not ev:
            continue
        loops += 1
        if len(ev) != 1 or ev[0][0] not in ('push_back', 'emplace_back') or ev[0][1][0] != this:
            bad('copying does not append exactly one element per element')
            continue
        p = slot_of(ev[0][1][1], b0)
        if p is None:
            continue
        i = canon(sub(p, b0['frontIndex']), b0['mask'])
        if not any(i == v and phis.get(k) == add(v, K(1)) for k, v in hph.items()):
            bad('copying does not copy the elements in order')
    if not loops:
        bad('copying does not copy the elements')
    for kind, st, rv in ex:
        y = b.at(st)
        if y != b0:
            bad('copying changes the source')
        for v, t in st.facts.items():
            if v[0] == 'cmp' and v[1] in ('ult', 'slt') and t is False and v[2][0] == 'w' and v[3] != b0['numElements'] and b0['numElements'] in terms(v[3]):
                bad('copying does not run over exactly the elements of the source')


# ---------------------------------------------------------------- R2

class OqRule(RingRule):
    def __init__(self):
        RingRule.__init__(self, True)

    def inline(self, eng, fn, name):
        return name.startswith(OQ + '::') or RingRule.inline(self, eng, fn, name)

    def pure(self, name):
        return name.startswith('std::vector::size')


def check_oq(prog, rep):
    n = 0
    for inst, ms in sorted(instances(prog, OQ).items()):
        for f in ms.get('push', []):
            n += 1
            oq_push(prog, rep, f)
        for m in ('pop', 'front', 'empty', 'capacity'):
            for f in ms.get(m, []):
                n += 1
                rule = OqRule()
                eng = Affine(prog, rule)
                bad = lambda msg: rep.violation('order', f.loc, OQ + '::' + m, msg, key='order|%s|%s' % (m, msg))
                args = tuple(('arg', i, 'this') for i in range(f.nargs))
                q = ('fld', args[0], OQ + '::_readyElems')
                i0 = Ring(q).at(State())
                for kind, st, rv in eng.run(f, args):
                    ev = [(last(e[1]), e[2][0]) for e in st.ev if e[0] == 'call' and last(e[1]) in RingRule.OPS]
                    if m == 'pop' and ev != [('pop_front', q)]:
                        bad('does not remove exactly the front element')
                    if m != 'pop' and ev:
                        bad('changes the queue')
                    if m == 'front' and slot_of(rv, i0) is not None and not same(slot_of(rv, i0), i0['frontIndex'], i0['mask']):
                        bad('returns another element than the front')
                    if m == 'empty' and rv != compare('eq', i0['numElements'], K(0)):
                        bad('answers for another condition than no ready element')
                rep.engine(eng)
    rep.count('ordered_queue_members', n)
    rep.need(n >= 4, 'OrderedQueue members')


def oq_push(prog, rep, f):
    msgs = set()

    def bad(msg):
        if msg not in msgs:
            msgs.add(msg)
            rep.violation('order', f.loc, OQ + '::push', msg)
    rule = OqRule()
    eng = Affine(prog, rule)
    this, elem, index = ('arg', 0, 'this'), ('arg', 1, 'elem'), ('arg', 2, 'index')
    ack = ('fld', this, OQ + '::_indexToAck')
    vec = ('fld', this, OQ + '::_pushedElems')
    ready = ('fld', this, OQ + '::_readyElems')
    a0 = ('ini', ack)
    size = ('r', 'std::vector::size', (vec,))

    def flag(v):
        """the 'pushed' flag location of position v"""
        for t in terms(v):
            if t[0] == 'fld' and t[2].endswith('::second') and t[1][0] in ('elem', 'r') and vec in terms(t):
                return t
        return None

    def pushes(ev):
        return [(last(e[1]), e[2]) for e in ev if e[0] == 'call' and last(e[1]) in RingRule.OPS]

    def advanced(st, old, new):
        """new is old advanced by one with wrap-around at size"""
        nxt = add(old, K(1))
        d = st.decide(compare('eq', nxt, size))
        if d is None and st.decide(compare('ult', nxt, size)) is not None:
            d = not st.decide(compare('ult', nxt, size))
        if d is True:
            return new == K(0)
        if d is False:
            return new == nxt
        return new == ('op', 'urem', nxt, size)

    exits = eng.run(f, (this, elem, index))
    rep.engine(eng)
    for kind, st, rv in exits:
        if kind != 'ret':
            continue
        # the state at the loop entry is found from the entries; exits only tell that the drain loop ended on an unset flag
        fl = [(v, t) for v, t in st.facts.items() if flag(v) is not None]
        cur = st.rd(ack)
        okend = False
        for v, t in fl:
            loc = flag(v)
            if t == (v[0] == 'cmp' and v[1] == 'eq') and loc[1][-1] == cur or (t is False and v[0] != 'cmp' and loc[1][-1] == cur):
                okend = True
            if v[0] == 'op' and loc[1][-1] == cur:
                okend = True
        if not okend and cur != ('lost',) and not any(e for e in fl if flag(e[0])[1][-1] == cur):
            bad('draining stops before the next expected position was looked at')
    for fr, ent in eng.entries:
        if fr.fn is not f:
            continue
        st = ent.st
        ev = pushes(st.ev)
        d = st.decide(compare('eq', index, a0))
        if d is True:
            if [e[0] for e in ev] not in (['push_back'], ['emplace_back']) or ev[0][1][0] != ready or ev[0][1][1] != elem:
                bad('an element that is next in order does not go to the end of the ready queue')
            if not advanced(st, a0, st.rd(ack)):
                bad('the expected index is not advanced by one (with wrap-around) for an element in order')
        elif d is False:
            if ev:
                bad('an element that is not next in order goes to the ready queue')
            if st.rd(ack) != a0:
                bad('the expected index changes for an element out of order')
            sto = [a for a in st.mem if a[0] == 'fld' and a[2].endswith('::second') and vec in terms(a)]
            if not any(st.mem[a] == K(1) and a[1][-1] == index for a in sto):
                bad('an element out of order is not marked as stored at its index')
            if any(a[1][-1] != index for a in sto):
                bad('an element out of order is stored at another index')
            asg = [e for e in st.ev if e[0] == 'call' and last(e[1]) in ('operator=', 'swap') and vec in terms(e[2][0])]
            if asg and not any((e[2][0] if e[2][0][0] == 'elem' else e[2][0][1])[-1] == index and e[2][1] == elem for e in asg):
                bad('an element out of order is stored at another index')
        else:
            bad('the position of an element is not compared with the expected index')
    for fr, h, hst, hph, st, phis in rule.iters:
        if fr.fn is not f:
            continue
        ev = pushes(st.ev[len(hst.ev):])
        cur = hst.rd(ack)
        if [e[0] for e in ev] not in (['push_back'], ['emplace_back']) or ev[0][1][0] != ready:
            bad('draining does not append exactly one stored element per step')
            continue
        src = ev[0][1][1]
        if vec not in terms(src) or (src if src[0] == 'elem' else src[1])[-1] != cur:
            bad('draining takes an element from another position than the expected one')
        if not advanced(st, cur, st.rd(ack)):
            bad('draining does not advance the expected index by one with wrap-around')
        cl = [a for a in st.mem if a[0] == 'fld' and a[2].endswith('::second') and vec in terms(a) and st.mem[a] == K(0) and a[1][-1] == cur]
        if not cl:
            bad('draining leaves the element marked as stored')


# ---------------------------------------------------------------- R3 and R4

ROOM_RE = re.compile(r'^Pothos::Util::RingDeque::(push_back|push_front|emplace_back|emplace_front)$')


class UseRule(ARule):
    """call sites of ring queues; slots of a queue are ('slot', queue, absolute position)"""
    max_depth = 6

    def __init__(self, prog, touching, exempt_room=False, bytes_of=None):
        self.prog = prog
        self.touching = touching
        self.fail = []
        self.checked = 0
        self.exempt = exempt_room
        self.acc = bytes_of       # (queue address) when chunk lengths are accounted

    def inline(self, eng, fn, name):
        if name.startswith(RING + '::') or name.startswith(OQ + '::'):
            return False
        return fn.n in self.touching or name in ('std::min', 'std::max', 'Pothos::BufferChunk::getEnd')

    def event(self, name):
        return False

    def keep(self, atom):
        return any(isinstance(t, tuple) and (t[0] == 'slot' or t[0] == 'fld' and t[2].startswith(RING)) for t in terms(atom))

    def clobbers(self, eng, name, args):
        return []

    def g(self, q, k):
        return ('fld', q, RING + '::_' + k)

    def model(self, eng, fr, ins, name, args, st):
        if not name.startswith(RING + '::') or not args:
            return None
        q = args[0]
        m = last(name)
        n, f, c = self.g(q, 'numElements'), self.g(q, 'frontIndex'), self.g(q, 'capacity')
        N, F, C = st.rd(n), st.rd(f), st.rd(c)
        room, res = ('ghost', 'room', q), ('ghost', 'res', q)
        full = compare('eq', N, C)
        if m == 'RingDeque':
            st.wr(n, K(0))
            st.wr(f, K(0))
            st.wr(c, args[1] if len(args) > 1 else K(1))
            st.wr(room, K(1))
            return [('ret', st, None)]
        if m.startswith('~'):
            return [('ret', st, None)]
        if m == 'size':
            return [('ret', st, N)]
        if m == 'capacity':
            return [('ret', st, C)]
        if m == 'empty':
            return [('ret', st, compare('eq', N, K(0)))]
        if m == 'full':
            return [('ret', st, full)]
        if m == 'operator[]' and len(args) > 1:
            return [('ret', st, ('slot', q, add(F, args[1])))]
        if m == 'clear':
            if self.acc == q:
                st.wr(('ghost', 'sum'), K(0))
                st.wr(('ghost', 'cleared'), K(1))
            st.wr(n, K(0))
            st.wr(room, K(1))
            return [('ret', st, None)]
        if m == 'set_capacity':
            v = args[1]
            eqs = equalities(st)
            for ref in (N, C):
                d = reduce_by(sub(v, ref), eqs)
                cc, t = parts(d)
                if (cc or t) and cc >= 0 and all(x > 0 for x in t.values()):
                    st.wr(res, d)
                    st.wr(room, K(1))
                    st.wr(c, v)
                    return [('ret', st, None)]
            st.wr(c, ('newcap', v, C))
            return [('ret', st, None)]
        if m in ('front', 'back', 'pop_front', 'pop_back'):
            self.checked += 1
            if not positive(st, N) and cval(st.rd(('ghost', 'has', q))) in (None, 0):
                self.fail.append((fr, ins, '%s() of a queue that may be empty' % m, eng.trace(fr, ins)))
            pos = F if m.endswith('front') else add(add(F, N), K(-1))
            if m in ('front', 'back'):
                return [('ret', st, ('slot', q, pos))]
            if self.acc == q:
                ln = st.rd(('fld', ('slot', q, pos), 'Pothos::BufferChunk::length'))
                if not is_zero(st, ln):
                    st.wr(('ghost', 'sum'), sub(st.rd(('ghost', 'sum')), ln))
            st.wr(n, add(N, K(-1)))
            if m == 'pop_front':
                st.wr(f, add(F, K(1)))
            r = st.rd(room)
            st.wr(room, add(r, K(1)) if cval(r) is not None else K(1))
            return [('ret', st, None)]
        if m in ('push_back', 'push_front', 'emplace_back', 'emplace_front'):
            self.checked += 1
            r = cval(st.rd(room))
            ok = (r is not None and r > 0) or st.decide(full) is False or st.decide(compare('ult', N, C)) is True
            ok = ok or is_zero(st, N)
            ok = ok or (positive(st, st.rd(room)) if st.rd(room)[0] != 'ini' else False)
            if not ok and st.rd(res)[0] != 'ini':
                ok = True     # room for all of a batch was reserved
            if not ok:
                for v, t in st.facts.items():
                    # not (capacity < size + batch): room for the batch
                    if v[0] == 'cmp' and v[1] == 'ult' and t is False and v[2] == ('ini', c) and sub(v[3], ('ini', n))[0] == 'r':
                        ok = True
            if not ok and not self.exempt:
                self.fail.append((fr, ins, '%s() on a queue that may be full' % m, eng.trace(fr, ins)))
            pos = add(F, N) if m.endswith('back') else add(F, K(-1))
            slot = ('slot', q, pos)
            if len(args) > 1:
                st.memcpy(slot, args[1])
            if self.acc == q:
                ln = st.rd(('fld', slot, 'Pothos::BufferChunk::length'))
                st.wr(('ghost', 'sum'), add(st.rd(('ghost', 'sum')), ln))
            st.wr(n, add(N, K(1)))
            if m.endswith('front'):
                st.wr(f, add(F, K(-1)))
            if r is not None:
                st.wr(room, K(max(r - 1, 0)))
            st.wr(('ghost', 'has', q), K(1))
            return [('ret', st, slot)]
        if m == 'operator=':
            for x in ('numElements', 'capacity', 'frontIndex'):
                st.wr(self.g(q, x), ('op', 'assigned', args[1], ('s', x)))
            return [('ret', st, q)]
        return None


def base_slot(a):
    while isinstance(a, tuple) and a[0] in ('fld', 'idx', 'elem'):
        a = a[1]
    return a if isinstance(a, tuple) and a[0] == 'slot' else None


def ring_touching(prog):
    """repository functions that use a ring queue, directly or through helpers that take one"""
    direct = {}
    for f in prog.repo_fns():
        if f.name.startswith(RING) or f.name.startswith(OQ):
            continue
        ms = [last(prog.call_info(c)[0]) for c in f.calls() if prog.call_info(c)[0].startswith(RING + '::')]
        if any(m in ('push_back', 'push_front', 'emplace_back', 'emplace_front', 'front', 'back', 'pop_front', 'pop_back', 'set_capacity', 'full', 'empty', 'clear') for m in ms):
            direct[f.n] = f
    return direct


def check_uses(prog, rep):
    direct = ring_touching(prog)
    n = 0
    bad = []

    def run(f, touching=()):
        rule = UseRule(prog, set(touching))
        eng = Affine(prog, rule, 60000)
        try:
            eng.run(f)
        except AnalysisError:
            if not touching:
                raise
            return run(f)
        rep.engine(eng)
        return rule
    for name, f in sorted(direct.items()):
        if f.name.startswith('Pothos::BufferAccumulator::') or f.tu.startswith('+') or f.name.startswith('useRings'):
            continue
        rule = run(f)
        if rule.fail:
            rule = run(f, direct)      # a helper may have made room
        n += rule.checked
        fails = rule.fail
        # a helper may rely on what its callers established: decide it from there
        lvl = 0
        level = [f]
        while fails and lvl < 2:
            ups = [prog.fns[g] for g in sorted(set(x.fn.n for h in level for x in prog.callers.get(h.n, []) if x.fn.in_repo and not x.fn.tu.startswith('+')))]
            if not ups or any(h.n in prog.addr_taken for h in level):
                break
            locs = set(x[1].loc for x in fails)
            nf = []
            for u in ups:
                r2 = UseRule(prog, set(direct) | set(h.n for h in level) | {f.n})
                eng = Affine(prog, r2, 60000)
                try:
                    eng.run(u)
                except AnalysisError:
                    nf += fails
                    continue
                nf += [x for x in r2.fail if x[1].loc in locs]
            if not nf:
                fails = []
                break
            level = ups
            lvl += 1
        for fr, ins, msg, tr in fails:
            rep.violation('room', ins.loc, fr.fn.name, msg, trace=tr)
    rep.count('queue_operations', n)
    rep.need(n >= 8, 'uses of ring queues')


# ---------------------------------------------------------------- R4

ACC = 'Pothos::BufferAccumulator'


class AccRule(UseRule):
    def __init__(self, prog, touching, q, exempt):
        UseRule.__init__(self, prog, touching, exempt, q)
        self.merges = 0
        self.tails = []

    def keep(self, atom):
        return True

    def inline(self, eng, fn, name):
        if name.startswith(ACC + '::') or name.startswith('Pothos::BufferChunk::'):
            return last(name) not in ('~BufferChunk', 'operator=') and not last(name).startswith('_')
        return UseRule.inline(self, eng, fn, name)

    def on_store(self, eng, fr, ins, addr, val, st):
        s = base_slot(addr)
        if s is None or addr[0] != 'fld' or s[1] != self.acc:
            return
        f = fname(addr)
        if f == 'length' and addr[1] == s:
            old = st.rd(addr)
            st.wr(('ghost', 'sum'), add(st.rd(('ghost', 'sum')), sub(val, old)))
            a = st.rd(('fld', s, 'Pothos::BufferChunk::address'))
            st.mem.setdefault(('ghost', 'start', s), a)
            self.moved(eng, fr, ins, s, st, add(a, old), add(a, val), sub(val, old))
        elif f == 'address' and addr[1] == s:
            l = st.rd(('fld', s, 'Pothos::BufferChunk::length'))
            st.mem.setdefault(('ghost', 'start', s), st.rd(addr))
            st.mem[('ghost', 'adv', sub(val, st.rd(addr)))] = s
            self.newaddr = val
            self.moved(eng, fr, ins, s, st, add(st.rd(addr), l), add(val, l), None)

    def moved(self, eng, fr, ins, s, st, oldend, newend, grow):
        # the end of a chunk moves: in two steps (address and length), or by the length of another chunk that starts exactly there
        pend = st.mem.get(('ghost', 'end', s), oldend)
        st.mem[('ghost', 'end', s)] = pend
        if newend == pend:
            st.mem.pop(('ghost', 'end', s), None)
            st.mem.pop(('ghost', 'why', s), None)
            a = st.rd(('fld', s, 'Pothos::BufferChunk::address')) if grow is not None else self.newaddr
            self.started(eng, fr, ins, s, st, st.mem.pop(('ghost', 'start', s), a), a)
            return
        if grow is not None and parts(grow)[0] >= 0 and any(q > 0 for q in parts(grow)[1].values()):
            for v, tr in st.facts.items():
                if tr and v[0] == 'cmp' and v[1] == 'eq' and (v[2] == pend or v[3] == pend):
                    self.merges += 1
                    st.mem.pop(('ghost', 'end', s), None)
                    return
            st.mem[('ghost', 'why', s)] = ('s', ins.loc, fr.fn.name)
        elif grow is not None:
            st.mem.pop(('ghost', 'end', s), None)     # shortened
            st.mem.pop(('ghost', 'start', s), None)

    def started(self, eng, fr, ins, s, st, old, new):
        # the end of a chunk stays and its start moves: backwards only over bytes that are known to be the ones in front of it
        back = sub(old, new)
        cc, t = parts(back)
        if cc <= 0 and all(q < 0 for q in t.values()):
            return
        L = back
        if is_zero(st, L):
            return
        for v, tr in st.facts.items():
            if tr and v[0] == 'cmp' and v[1] == 'eq' and old in (v[2], v[3]):
                return
        this = self.acc[1]
        flags = set(w[1] for w, tr in st.facts.items() for w in known(w, tr) if w[1][0] == 'fld' and w[1][1] == this)
        for v, tr in st.facts.items():
            if v[0] == 'cmp' and v[1] == 'ult' and tr is False and v[3] == L and v[2][0] == 'ini' and v[2][1][0] == 'fld' and v[2][1][1] == this:
                self.tails.append((v[2][1], flags))
                return
        self.fail.append((fr, ins, 'a chunk is extended backwards over memory that is not known to hold the bytes that come before it', eng.trace(fr, ins)))


def known(v, tr):
    """the members ('ini', field) a fact shows to be non-zero"""
    if v[0] == 'cmp' and v[1] == 'eq' and not tr and v[3] == K(0) and v[2][0] == 'ini':
        return [v[2]]
    if v[0] == 'ini' and tr:
        return [v]
    return [w for w in terms(v) if isinstance(w, tuple) and w[0] == 'ini'] if tr else []


def drained(s, q, front):
    """the front chunk was empty from the beginning: only the place holder is"""
    return is_zero(s, ('ini', ('fld', ('slot', q, ('ini', front)), 'Pothos::BufferChunk::length')))


def check_acc(prog, rep):
    ms = {}
    for f in prog.repo_fns():
        if f.name.startswith(ACC + '::') and not f.tu.startswith('+'):
            ms.setdefault(f.n, f)
    n = 0
    this = ('arg', 0, 'this')
    q = ('fld', this, ACC + '::_queue')
    cnt = ('fld', this, ACC + '::_bytesAvailable')
    num = ('fld', q, RING + '::_numElements')
    touching = set(ms) | set(ring_touching(prog))
    front = ('fld', q, RING + '::_frontIndex')
    tails, ends = [], []
    for name, f in sorted(ms.items()):
        if not f.file.endswith('.cpp'):
            continue
        m = last(f.name)
        if m.startswith('~') or not f.nargs or m in ('operator=',):
            continue
        # require() pushes after it drained at least the front chunk: its length is below what is asked for
        rule = AccRule(prog, touching, q, m == 'require')
        eng = Affine(prog, rule)
        st = State()
        st.mem[('ghost', 'sum')] = K(0)
        st.mem[('ghost', 'room', q)] = K(0)
        ctor = m == 'BufferAccumulator'
        if not ctor:
            st.assume(compare('eq', ('ini', num), K(0)), False)
        else:
            st.mem[('ghost', 'cleared')] = K(1)
        args = tuple(this if i == 0 else ('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs))
        if f.sret:
            args = (('arg', 0, 'result'), this) + tuple(('arg', i, 'a%d' % i) for i in range(2, f.nargs))
        if ctor and 'BufferAccumulator(' in prog.dem(f.n) and 'const&' in prog.dem(f.n):
            continue
        bad = lambda msg, ins=None: rep.violation('bytes', ins.loc if ins else f.loc, f.name, msg)
        for kind, s, rv in eng.run(f, args, st):
            if kind != 'ret':
                continue
            n += 1
            N = s.rd(num)
            ends.append((f, s, ctor))
            for a in s.mem:
                if a[:2] == ('ghost', 'why') and ('ghost', 'end', a[2]) in s.mem:
                    at = s.mem[a] if s.mem[a][0] == 's' else ('s', f.loc, f.name)
                    rep.violation('bytes', at[1], at[2], 'a chunk is extended over memory that is not known to follow it')
            if not positive(s, N) and cval(s.rd(('ghost', 'has', q))) in (None, 0):
                bad('the queue of chunks may be left empty')
            elif cval(N) == 0:
                bad('the queue of chunks may be left empty')
            b1, b0 = s.rd(cnt), ('ini', cnt)
            if ('ghost', 'cleared') in s.mem and s.mem[('ghost', 'cleared')] == K(1):
                b0 = K(0)
            d = sub(sub(b1, b0), s.rd(('ghost', 'sum')))
            if m == 'require':
                d = sub(b1, b0)
            if not is_zero(s, d):
                bad('the number of available bytes differs from what the chunks hold')
        for fr, ins, msg, tr in rule.fail:
            rep.violation('room', ins.loc, fr.fn.name, msg, trace=tr)
        rep.count('merges', rule.merges)
        tails += rule.tails
        rep.engine(eng)
    # a count of bytes the front chunk shares with the memory before the second one
    for M, flags in sorted(set((m, tuple(sorted(fl))) for m, fl in tails), key=str):
        for f, s, ctor in ends:
            v = s.rd(M)
            if is_zero(s, v):
                continue
            if v == ('ini', M):
                gone = any(cval(s.rd(y)) == 0 or is_zero(s, s.rd(y)) or s.facts.get(s.rd(y)) is False for y in flags)
                if ctor:
                    if not gone:
                        rep.violation('bytes', f.loc, f.name, '%s is left without a value' % fname(M))
                elif not is_zero(s, sub(s.rd(front), ('ini', front))) and not gone and not drained(s, q, front):
                    rep.violation('bytes', f.loc, f.name, 'the front chunk is replaced and %s still describes the previous one' % fname(M))
                continue
            slot = s.mem.get(('ghost', 'adv', v))
            if slot is None or not is_zero(s, sub(slot[2], add(s.rd(front), K(1)))):
                rep.violation('bytes', f.loc, f.name, '%s is not the number of bytes taken off the second chunk' % fname(M))
    rep.count('shared_tails', len(tails))
    rep.count('accumulator_paths', n)
    rep.need(n >= 5, 'accumulator members')


def check(prog, rep):
    rep.rule('R1 RingDeque members: affine effect on front, count, mask, capacity and touched slot equals the contract, modulo the storage size')
    rep.rule('R2 OrderedQueue: ready exactly when next in order; index advances by one and wraps; stored flag set and cleared with the element')
    rep.rule('R3 every push on a ring queue where it is known not to be full, every front/back/pop where it is known not to be empty')
    rep.rule('R4 BufferAccumulator: byte count = sum of chunk lengths, chunks merged only when contiguous, never left without a chunk')
    check_ring(prog, rep)
    check_oq(prog, rep)
    check_uses(prog, rep)
    check_acc(prog, rep)
