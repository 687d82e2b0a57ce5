"""C09: what a block consumes and produces is accounted exactly.

R1 (ports)   every port operation changes the counters, queues and label positions by exactly what its contract names.
R2 (consume) after work: consumed bytes leave the input once, labels of consumed elements are propagated once and removed, others move by as much.
R3 (produce) after work: produced bytes form one posted buffer taken once from the manager; every posted buffer and label goes once to every subscriber.
R4 (prepare) before work: pending counts are reset, the element counts are those of the buffers shown, in-place use only of buffers nobody else holds.
"""
from common import *
from affine import *
from aloops import *
import affine as A

SOURCES = FRAMEWORK
EXPLANATION = ('Abstract interpretation with affine equalities over all paths of the port operations and of the tasks around work(); every loop iteration is '
               'summarised over the widened state, and the summary (counter changes, calls, label positions) is compared with the accounting rule.')
IP, OP, BC, LB = 'Pothos::InputPort', 'Pothos::OutputPort', 'Pothos::BufferChunk', 'Pothos::Label'
RING = 'Pothos::Util::RingDeque'
ACC = 'Pothos::BufferAccumulator'
CTORISH = re.compile(r'::(operator=|~?\w*)$')


class PortRule(ARule):
    """port operations named in opaque are events, everything else of the ports and the actor is looked into"""
    epochs = True
    prune = True
    max_depth = 6
    MUT = re.compile(r'::(push_back|push_front|emplace_back|emplace_front|pop_front|pop_back|pop|push|clear|erase|insert|resize|set_capacity|operator=|operator\+\+)$')

    def __init__(self, prog, opaque=(), top=None):
        self.prog = prog
        self.opaque = set(opaque)
        self.iters = []
        self.top = top

    def inline(self, eng, fn, name):
        if not fn.in_repo or name in self.opaque:
            return False
        m = last(name)
        if name.startswith(('Pothos::WorkerActor::', IP + '::', OP + '::')):
            return not m.startswith('~') and m not in ('InputPort', 'OutputPort')
        if name.startswith(BC + '::'):
            return m in ('elements', 'getAlias', 'getEnd', 'as', 'setElements') or m.startswith('operator ') and m != 'operator bool'
        if name.startswith(LB + '::'):
            return m in ('adjust',)
        if name.startswith('Pothos::LabelIteratorRange::'):
            return True
        if name.startswith('Pothos::ActorInterface::'):
            return False
        return fn.file.startswith('lib/Framework/') and not name.startswith(('Pothos::', 'std::', 'Poco::')) and 'operator<<' not in name

    def pure(self, name):
        if name == 'Pothos::BufferPool::get':
            return False
        return bool(self.pure_re.search(name)) or last(name) in ('back', 'front', 'full', 'unique', 'useCount', 'elements', 'operator*', 'operator->', 'operator[]', 'at', 'operator!=', 'operator==', 'operator<', 'operator!')

    def event(self, name):
        return not self.pure(name) and not name.startswith(('std::lock_guard', 'std::unique_lock', 'std::basic_string', 'std::__new_allocator', 'std::allocator', 'Poco::', 'std::chrono'))

    def clobbers(self, eng, name, args):
        if self.MUT.search(name) and args and not name.startswith('Pothos::DType'):
            return [args[0]]
        return []

    def model(self, eng, fr, ins, name, args, st):
        if name == BC + '::clear' and args:
            st.ev = st.ev + (('call', name, args, None, ins.loc),)
            st.kill(args[0], ('cleared', ins.loc))
            st.wr(('fld', args[0], BC + '::length'), K(0))
            return [('ret', st, None)]
        if last(name) in ('back', 'front') and len(args) == 1 and name.startswith('std::'):
            return [('ret', st, ('r', name, args))]
        if last(name) == '__normal_iterator' and len(args) == 2:
            st.memcpy(args[0], args[1])
            return [('ret', st, None)]
        if name == 'Pothos::Block::propagateLabels' and len(args) == 2:
            lim = tuple(st.rd(F(F(args[1], IP + '::_labelIter'), 'Pothos::LabelIteratorRange::' + x)) for x in ('_begin', '_end'))
            st.ev = st.ev + (('call', name, args + lim + (st.rd(('ghost', 'sent')),), None, ins.loc),)
            return [('ret', st, None)]
        if name == IP + '::bufferLabelPush' and name in self.opaque:
            st.mem[('ghost', 'sent')] = K(1)
        if name in (OP + '::postBuffer',) and name in self.opaque:
            st.ev = st.ev + (('call', name, args + (st.rd(F(args[1], BC + '::length')),), None, ins.loc),)
            return [('ret', st, None)]
        if last(name) == 'BufferChunk' and len(args) == 2:
            st.ev = st.ev + (('call', name, args, None, ins.loc),)
            st.memcpy(args[0], args[1])
            return [('ret', st, None)]
        if last(name) in ('Label', 'operator=') and len(args) == 2 and name.startswith(LB + '::'):
            st.ev = st.ev + (('call', name, args, None, ins.loc),)
            st.memcpy(args[0], args[1])
            return [('ret', st, None)]
        return None

    def keep(self, atom):
        return not any(t[0] == 'r' and (t[1].startswith('Poco::') or t[1].startswith('std::basic_string')) for t in terms(atom))

    def on_enter(self, eng, fr, header, st, phis):
        st.mem[('ghost', 'loop', fr.fn.n, header)] = K(1)

    def on_backedge(self, eng, fr, header, it, st, phis):
        ent, hst, hph = it
        self.iters.append((fr, header, ent, hst, hph, st, phis, len(ent.wid)))


def evs(st, since=None, *names):
    out = []
    for e in st.ev[len(since.ev) if since is not None else 0:]:
        if e[0] == 'call' and (not names or last(e[1]) in names):
            out.append(e)
    return out


def F(b, f):
    return ('fld', b, f)


class Check(object):
    def __init__(self, prog, rep, f, cls):
        self.prog, self.rep, self.f, self.cls = prog, rep, f, cls
        self.cache = None
        self.this = ('arg', 1 if f.sret else 0, 'this')
        self.args = tuple(('arg', 0, 'result') if f.sret and i == 0 else self.this if i == (1 if f.sret else 0) else ('arg', i, 'a%d' % i) for i in range(f.nargs))

    def fl(self, name):
        return F(self.this, self.cls + '::' + name)

    def run(self, opaque=(), st=None):
        self.rule = PortRule(self.prog, opaque)
        eng = Affine(self.prog, self.rule, 200000)
        out = [(s, rv) for k, s, rv in eng.run(self.f, self.args, st) if k == 'ret']
        self.rep.engine(eng)
        self.rep.count('paths', len(out))
        self.eng = eng
        return out

    def bad(self, msg, loc=None, rule='ports'):
        self.rep.violation(rule, loc or self.f.loc, self.f.name, msg)

    def delta(self, st, name):
        return sub(st.rd(self.fl(name)), ('ini', self.fl(name)))

    def loops(self, strict=True):
        """(visit, iteration) of every loop iteration"""
        if self.cache is None:
            self.cache = [(visits(self.eng, fr, ent, hst, hph, st, phis, strict), fr, h, ent, hst, hph, st, phis)
                          for fr, h, ent, hst, hph, st, phis, nw in self.rule.iters if len(ent.wid) == nw]
        return self.cache

    def passed(self, st, ok):
        return any(a[:2] == ('ghost', 'loop') and a[2:] in ok and v == K(1) for a, v in st.mem.items())


def dsize(port):
    """size of the data type of a port"""
    return ('r', 'Pothos::DType::size', (F(port, (IP if True else OP) + '::_dtype'),))


def is_size(v, *locs):
    return v[0] == 'r' and last(v[1]) == 'size' and v[1].startswith('Pothos::DType') and (not locs or v[2][0] in locs)


def product(v, x, sizeof):
    """is v == x * size of one of the data type locations?"""
    return v[0] == 'op' and v[1] == 'mul' and ((v[2] == x and is_size(v[3], *sizeof)) or (v[3] == x and is_size(v[2], *sizeof)))


def quotient(v, x, sizeof):
    return v[0] == 'op' and v[1] == 'udiv' and v[2] == x and is_size(v[3], *sizeof)


def typed(st, loc, src):
    """was the data type at loc set from src?"""
    t = st.mem.get(('alias', loc))
    if t is not None and t[0] == src:
        return True
    return any(last(e[1]) == 'operator=' and e[1].startswith('Pothos::DType') and e[2][:2] == (loc, src) for e in evs(st))


def members(prog, cls):
    out = {}
    for f in prog.repo_fns():
        if f.name.startswith(cls + '::') and f.name.count('::') == cls.count('::') + 1 and not f.tu.startswith('+'):
            out.setdefault(last(f.name), {}).setdefault(f.n, f)
    return {k: list(v.values()) for k, v in out.items()}


# ---------------------------------------------------------------- R1

def loop_keys(c, pred):
    """keys of loops all of whose iterations satisfy pred(visit, ...)"""
    good, badl = {}, {}
    for v, fr, h, ent, hst, hph, st, phis in c.loops():
        k = (fr.fn.n, h)
        r = pred(v, fr, h, ent, hst, hph, st, phis)
        (good if r else badl).setdefault(k, True)
    return set(k for k in good if k not in badl)


def check_ports(prog, rep):
    im, om = members(prog, IP), members(prog, OP)
    n = 0
    for cls, ms, name in ((IP, im, 'consume'), (OP, om, 'produce')):
        for f in ms.get(name, []):
            c = Check(prog, rep, f, cls)
            n += 1
            for st, rv in c.run():
                if c.delta(st, '_pendingElements') != c.args[1]:
                    c.bad('%s(n) does not add exactly n to the pending elements' % name)
    for f in im.get('popMessage', []):
        c = Check(prog, rep, f, IP)
        n += 1
        for st, rv in c.run([IP + '::asyncMessagesPop']):
            if len(evs(st, None, 'asyncMessagesPop')) != 1 or c.delta(st, '_totalMessages') != K(1):
                c.bad('popMessage() does not take and count exactly one message')
    for f in im.get('asyncMessagesPop', []) + im.get('slotCallsPop', []):
        c = Check(prog, rep, f, IP)
        n += 1
        for st, rv in c.run():
            pops = evs(st, None, 'pop_front')
            empty = any(last(v[1]) == 'empty' and t for v, t in st.facts.items() if v[0] == 'r')
            if len(pops) != (0 if empty else 1):
                c.bad('takes %d entries from a queue that %s' % (len(pops), 'is empty' if empty else 'has one'))
    for f in im.get('asyncMessagesPush', []) + im.get('slotCallsPush', []) + im.get('inlineMessagesPush', []):
        c = Check(prog, rep, f, IP)
        n += 1
        for st, rv in c.run():
            pu = evs(st, None, 'emplace_back', 'push_back')
            # the entry may be put together in a local first
            made = [e[2][1:] for e in evs(st) if pu and e[1] == 'std::pair::pair' and e[2][0] in pu[0][2][1:2]]
            if len(pu) != 1 or pu[0][2][1:] != c.args[1:] and made[-1:] != [c.args[1:]]:
                c.bad('does not enqueue exactly what it was given, once')
    for name in ('bufferAccumulatorPush',):
        for f in im.get(name, []):
            c = Check(prog, rep, f, IP)
            n += 1
            for st, rv in c.run([IP + '::bufferAccumulatorPushNoLock']):
                pu = evs(st, None, 'bufferAccumulatorPushNoLock')
                if len(pu) != 1:
                    c.bad('a pushed buffer is not passed on exactly once')
    for f in im.get('bufferAccumulatorPushNoLock', []):
        c = Check(prog, rep, f, IP)
        n += 1
        some = False
        for st, rv in c.run():
            pu = [e for e in evs(st, None, 'push') if e[1].startswith(ACC)]
            size_eq = any(v[0] == 'cmp' and v[1] == 'eq' and t and is_size(v[2]) and is_size(v[3]) for v, t in st.facts.items())
            unspec = [v for v, t in st.facts.items() if v[0] == 'r' and v[1].startswith('Pothos::DType') and ((last(v[1]) == 'operator bool' and not t) or (last(v[1]) == 'operator!' and t))]
            fits = size_eq or unspec
            if fits:
                some = True
                if len(pu) != 1 or pu[0][2][0] != c.fl('_bufferAccumulator') or pu[0][2][1] != c.args[1]:
                    c.bad('a fitting buffer is not put into the accumulator exactly once')
                elif c.delta(st, '_totalBuffers') != K(1):
                    c.bad('an accepted buffer is not counted once')
                elif any(v[2][0] == F(c.args[1], BC + '::dtype') for v in unspec):
                    if not typed(st, F(c.args[1], BC + '::dtype'), c.fl('_dtype')):
                        c.bad('an untyped buffer does not get the type of the port')
            elif pu:
                c.bad('a buffer of another element size is accepted')
        if not some:
            c.bad('never accepts a buffer')
    for f in im.get('bufferAccumulatorFront', []):
        c = Check(prog, rep, f, IP)
        n += 1
        rets = c.run()
        src, dst = c.fl('_inputInlineMessages'), c.fl('_inlineMessages')

        def moves(v, fr, h, ent, hst, hph, st, phis):
            if v is None or v.container != src:
                return False
            pu = [e for e in evs(st, hst, 'push_back', 'emplace_back') if e[2][0] == dst]
            if len(pu) != 1 or not any(t == src for t in terms(pu[0][2][1])) and pu[0][2][1][0] != 'alloca':
                c.bad('a queued label is not handed over exactly once')
                return True
            if v.kind == 'drain' and not (pu[0][2][1][0] == 'r' and last(pu[0][2][1][1]) == 'front' or pu[0][2][1][0] == 'alloca'):
                c.bad('labels are not handed over from the front')
            ix = [(a, val) for a, val in st.mem.items() if a[0] == 'fld' and a[2] == LB + '::index' and hst.mem.get(a) != val]
            ix = [(a, val) for a, val in ix if a[1] == pu[0][2][1] or (a[1][0] == 'r' and last(a[1][1]) == 'back' and a[1][2][0] == dst) or a[1][0] == 'alloca' or a[1] == pu[0][3]]
            if not any(quotient(val, ('ini', a), (c.fl('_dtype'),)) or val[0] == 'op' and val[1] == 'udiv' and is_size(val[3], c.fl('_dtype')) for a, val in ix):
                c.bad('the position of a label is not converted from bytes to elements')
            return True
        good = loop_keys(c, moves)
        for st, rv in rets:
            if not c.passed(st, good):
                c.bad('queued labels are not handed over before the buffer is shown')
            asg = [e for e in evs(st, None, 'operator=') if e[2][0] == c.args[1]]
            if len(asg) != 1 or not (asg[0][2][1][0] == 'r' and last(asg[0][2][1][1]) == 'front' and asg[0][2][1][2][0] == c.fl('_bufferAccumulator')):
                c.bad('the buffer shown is not the front of the accumulator')
    for f in im.get('bufferAccumulatorPop', []):
        c = Check(prog, rep, f, IP)
        n += 1
        rets = c.run()
        q, nb = c.fl('_inputInlineMessages'), c.args[1]

        def shifts(v, fr, h, ent, hst, hph, st, phis):
            if v is None or v.container != q:
                return False
            ix = [(a, val, hst.rd(a)) for a, val in st.mem.items() if a[0] == 'fld' and a[2] == LB + '::index' and hst.mem.get(a) != val]
            if len(ix) != 1 or sub(ix[0][1], ix[0][2]) != scale(nb, -1) or not v.mentions(ix[0][0]):
                c.bad('the position of a queued label does not move by the bytes popped')
            return True
        good = loop_keys(c, shifts)
        some = False
        for st, rv in rets:
            pops = [e for e in evs(st, None, 'pop') if e[1].startswith(ACC)]
            over = st.decide(compare('ult', ('r', ACC + '::getTotalBytesAvailable', (c.fl('_bufferAccumulator'),)), nb))
            if not pops:
                if over is not True:
                    c.bad('bytes that are available are not popped')
                if c.passed(st, good):
                    c.bad('labels move although nothing was popped')
                continue
            some = True
            if over is not False:
                c.bad('pops more than the accumulator holds')
            if len(pops) != 1 or pops[0][2] != (c.fl('_bufferAccumulator'), nb):
                c.bad('does not pop exactly the bytes it was asked for')
            if not c.passed(st, good):
                c.bad('queued labels keep their position although bytes were popped')
        if not some:
            c.bad('never pops')
    for f in im.get('bufferLabelPush', []):
        n += 1
        check_label_push(prog, rep, f)
    for f in im.get('removeLabel', []):
        c = Check(prog, rep, f, IP)
        n += 1
        for st, rv in c.run():
            er = [e for e in evs(st, None, 'erase') if e[2][0] == c.fl('_inlineMessages')]
            if len(er) > 1 or c.delta(st, '_totalLabels') != K(len(er)):
                c.bad('a removed label is not counted exactly once')
            if er and not (last(er[0][1]) == 'erase' and len(er[0][2]) == 2):
                c.bad('removes more than the one label')
    for f in om.get('popElements', []):
        c = Check(prog, rep, f, OP)
        n += 1
        for st, rv in c.run([OP + '::bufferManagerPop']):
            p = evs(st, None, 'bufferManagerPop')
            if len(p) != 1 or not product(p[0][2][1], c.args[1], (c.fl('_dtype'),)):
                c.bad('popElements(n) does not take n elements from the buffer manager')
    for f in om.get('bufferManagerPop', []):
        c = Check(prog, rep, f, OP)
        n += 1
        for st, rv in c.run():
            p = evs(st, None, 'pop')
            if len(p) != 1 or p[0][2][1] != c.args[1]:
                c.bad('does not pop exactly what it was asked for')
    for f in om.get('postBuffer', []):
        c = Check(prog, rep, f, OP)
        n += 1
        for st, rv in c.run():
            pu = [e for e in evs(st, None, 'emplace_back', 'push_back') if e[2][0] == c.fl('_postedBuffers')]
            if len(pu) != 1 or pu[0][2][1] != c.args[1]:
                c.bad('a posted buffer is not enqueued exactly once')
                continue
            r = pu[0][3]
            te = c.delta(st, '_totalElements')
            rs = [r] + [a[1] for a in (t[1] for t in terms(te) if t[0] == 'ini') if a[0] == 'fld' and a[2] == BC + '::length']
            if not any(quotient(te, st.rd(F(x, BC + '::length')), (F(x, BC + '::dtype'),)) or quotient(te, ('ini', F(x, BC + '::length')), (F(x, BC + '::dtype'),)) for x in rs) \
                    and not (te[0] == 'r' and last(te[1]) == 'elements'):
                c.bad('the elements of a posted buffer are not added to the total')
            if c.delta(st, '_totalBuffers') != K(1):
                c.bad('a posted buffer is not counted once')
            for v, t in st.facts.items():
                if v[0] == 'r' and v[1].startswith('Pothos::DType') and ((last(v[1]) == 'operator bool' and not t) or (last(v[1]) == 'operator!' and t)):
                    if not typed(st, v[2][0], c.fl('_dtype')):
                        c.bad('an untyped posted buffer does not get the type of the port')
    for f in om.get('postLabel', []):
        c = Check(prog, rep, f, OP)
        n += 1
        for st, rv in c.run():
            pu = [e for e in evs(st, None, 'emplace_back', 'push_back') if e[2][0] == c.fl('_postedLabels')]
            if len(pu) != 1:
                c.bad('a posted label is not enqueued exactly once')
            ix = [(a, val) for a, val in st.mem.items() if a[0] == 'fld' and a[2] in (LB + '::index', LB + '::width')]
            for which in ('index', 'width'):
                if not any(a[2] == LB + '::' + which and val[0] == 'op' and val[1] == 'mul' and any(is_size(x, c.fl('_dtype')) for x in val[2:4]) for a, val in ix):
                    c.bad('the %s of a posted label is not converted from elements to bytes' % which)
            if c.delta(st, '_totalLabels') != K(1):
                c.bad('a posted label is not counted once')
    for f in om.get('_postMessage', []):
        c = Check(prog, rep, f, OP)
        n += 1
        rets = c.run([OP + '::tokenManagerPop', IP + '::slotCallsPush', IP + '::asyncMessagesPush'])

        def sends(v, fr, h, ent, hst, hph, st, phis):
            if v is None or v.container != c.fl('_subscribers'):
                return False
            p = evs(st, hst, 'slotCallsPush', 'asyncMessagesPush')
            if len(p) != 1 or p[0][2][1] != c.args[1]:
                c.bad('a message is not delivered exactly once to every subscriber')
                return True
            if last(p[0][1]) == 'slotCallsPush' and not any(a[0] == 'ini' and a[1][0] == 'fld' and a[1][2] == IP + '::_isSlot' and t for a, t in st.facts.items()) \
                    and not any(a[0] == 'r' and last(a[1]) == 'isSlot' and t for a, t in st.facts.items()):
                c.bad('a slot call is delivered to a port that is not a slot')
            tok = evs(st, None, 'tokenManagerPop')
            if len(tok) != 1 or p[0][2][2] != tok[0][2][0]:
                c.bad('a message is delivered without the token of this message')
            return True
        good = loop_keys(c, sends)
        for st, rv in rets:
            if not c.passed(st, good):
                c.bad('a message is not delivered to the subscribers')
            if c.delta(st, '_totalMessages') != K(1):
                c.bad('a posted message is not counted once')
    for f in om.get('getBuffer', []):
        if f.nargs < 4:
            continue
        c = Check(prog, rep, f, OP)
        n += 1
        res, dt, ne = c.args[0], c.args[2], c.args[3]
        buf = c.fl('_buffer')
        for st, rv in c.run():
            ln = st.rd(F(res, BC + '::length'))
            if not product(ln, ne, (dt,)):
                c.bad('the buffer does not have the length that was asked for')
            gets = [e for e in evs(st, None, 'get') if e[1].startswith('Pothos::BufferPool')]
            pops = [e for e in evs(st, None, 'pop')]
            if not typed(st, F(res, BC + '::dtype'), dt):
                c.bad('the buffer does not have the type that was asked for')
            if gets:
                if not product(gets[0][2][1], ne, (dt,)):
                    c.bad('the pool is asked for another size')
                if pops:
                    c.bad('a buffer of the pool is also taken from the manager')
                continue
            room = [v for v, t in st.facts.items() if v[0] == 'cmp' and v[1] == 'ult' and not t and v[2] == ('ini', F(buf, BC + '::length')) and product(v[3], ne, (dt,))]
            if not room:
                c.bad('a front buffer that may be too short is handed out')
            man = st.decide(compare('ne', ('ini', c.fl('_bufferFromManager')), K(0)))
            if man is None:
                man = st.facts.get(('ini', c.fl('_bufferFromManager')))
            if len(pops) != (1 if man else 0) or (pops and not product(pops[0][2][1], ne, (dt,))):
                c.bad('the front buffer handed out is not taken from the manager by its length')
    rep.count('port_members', n)
    rep.need(n >= 20, 'port members')


def check_label_push(prog, rep, f):
    c = Check(prog, rep, f, IP)
    rets = c.run([IP + '::bufferAccumulatorPushNoLock'])
    mv, labels, bufs = c.args[1], c.args[2], c.args[3]
    held = ('r', ACC + '::getTotalBytesAvailable', (c.fl('_bufferAccumulator'),))

    def moving(st):
        return st.decide(mv) is True or st.decide(compare('ne', mv, K(0))) is True

    def lab(v, fr, h, ent, hst, hph, st, phis):
        if v is None or v.container != labels:
            return False
        pu = [e for e in evs(st, hst, 'push_back', 'emplace_back') if e[2][0] == c.fl('_inputInlineMessages')]
        if len(pu) != 1:
            c.bad('a posted label is not enqueued exactly once')
            return True
        x = pu[0][2][1]
        ix = F(x, LB + '::index')
        d = sub(st.rd(ix), hst.rd(ix))
        if x[0] == 'alloca':
            cp = [e for e in evs(st, hst, 'Label', 'operator=') if e[2][0] == x]
            if not cp or not v.mentions(cp[-1][2][1]):
                c.bad('another label is enqueued than the one posted')
                return True
            d = sub(st.rd(ix), hst.rd(F(cp[-1][2][1], LB + '::index')))
        elif not v.mentions(x):
            c.bad('another label is enqueued than the one posted')
            return True
        elif not moving(st):
            c.bad('the posted labels are changed although other subscribers still need them')
        if d != held:
            c.bad('the position of a label is not moved by exactly the bytes enqueued before it')
        return True

    def buf(v, fr, h, ent, hst, hph, st, phis):
        if v is None or v.container != bufs:
            return False
        pu = evs(st, hst, 'bufferAccumulatorPushNoLock')
        if len(pu) != 1:
            c.bad('a posted buffer is not pushed exactly once')
            return True
        x = pu[0][2][1]
        if x[0] == 'alloca':
            cp = [e for e in evs(st, hst, 'BufferChunk', 'operator=') if e[2][0] == x]
            if not cp or not v.mentions(cp[-1][2][1]):
                c.bad('another buffer is pushed than the one posted')
        elif not v.mentions(x):
            c.bad('another buffer is pushed than the one posted')
        elif not moving(st):
            c.bad('a posted buffer is moved away although other subscribers still need it')
        if v.kind == 'drain' and not moving(st):
            c.bad('posted buffers are removed although other subscribers still need them')
        return True
    gl, gb = loop_keys(c, lab), loop_keys(c, buf)
    for st, rv in rets:
        def isempty(q):
            return any(v[0] == 'r' and last(v[1]) == 'empty' and v[2][0] == q and t for v, t in st.facts.items())
        if not c.passed(st, gl) and not isempty(labels):
            c.bad('the posted labels are not delivered on every path')
        if not c.passed(st, gb) and not isempty(bufs):
            c.bad('the posted buffers are not delivered on every path')
        if not moving(st):
            for e in evs(st, None, 'clear', 'pop_front', 'erase'):
                if e[2][0] in (labels, bufs):
                    c.bad('posted labels or buffers are removed although other subscribers still need them')


# ---------------------------------------------------------------- R2, R3

def port_of(v, cls, hst, st):
    """the port an iteration works on: an object with fields of cls that depends on the loop variable"""
    found = {}
    pool = [e[2] for e in evs(st, hst)] + [f for f in st.facts if f not in hst.facts] + [a for a in st.mem if a[0] not in ('alias', 'ep', 'ghost')]
    for x in pool:
        for t in terms(x):
            if t[0] == 'fld' and t[2].startswith(cls + '::') and v.mentions(t[1]):
                found[t[1]] = found.get(t[1], 0) + 1
    return max(found, key=found.get) if found else None


def key_of(fr, h):
    return (fr.fn.n, h)


def truth(st, loc, hst=None):
    v = (hst or st).rd(loc)
    r = st.decide(v)
    return st.decide(compare('ne', v, K(0))) if r is None else r


def counters(c, port, pend_of):
    """loops over the labels of the port: checks each iteration, returns the terms that count the labels below the consumed position"""
    per = {}
    labels = F(port, IP + '::_inlineMessages')
    for v, fr, h, ent, hst, hph, st, phis in c.loops():
        if v is None or v.container != labels:
            continue
        pend = pend_of(hst)
        per.setdefault((fr.key, h, fr), []).append((v, hst, hph, st, phis, pend))
    out = set()
    for (key, h, fr), its in per.items():
        cand = None
        relevant = False
        for v, hst, hph, st, phis, pend in its:
            below = None
            for f, t in st.facts.items():
                if f[0] == 'cmp' and f[1] == 'ult' and f not in hst.facts:
                    for x, y, tt in ((f[2], f[3], t), (f[3], f[2], None)):
                        if y == pend and any(a[0] == 'fld' and a[2] == LB + '::index' and v.mentions(a) for a in terms(x)):
                            below = tt
            st_ix = [(a, val) for a, val in st.mem.items() if a[0] == 'fld' and a[2] == LB + '::index' and hst.rd(a) != val and val[0] != 'lost']
            if below is None and not st_ix:
                continue
            relevant = True
            if below is None:
                c.bad('a label is moved without knowing on which side of the consumed elements it is', rule='consume')
                continue
            if below and st_ix:
                c.bad('a label of a consumed element is moved', rule='consume')
            if not below:
                if len(st_ix) != 1 or sub(st_ix[0][1], hst.rd(st_ix[0][0])) != scale(pend, -1):
                    c.bad('a label behind the consumed elements does not move by the number consumed', rule='consume')
            inc = set(p for p in phis if p in hph and phis[p] == add(hph[p], K(1 if below else 0)))
            cand = inc if cand is None else cand & inc
        if relevant:
            for p in cand or ():
                out.add(('w', key, h, p))
                out.add(p)
            c.label_loops.add((fr.fn.n, h))
    return out


def check_post(prog, rep, f):
    opaque = [IP + '::bufferAccumulatorPop', OP + '::bufferManagerPop', OP + '::bufferManagerFront', OP + '::postBuffer', IP + '::bufferLabelPush',
              'Pothos::WorkerActor::handleSlotCalls']
    c = Check(prog, rep, f, 'Pothos::WorkerActor')
    c.label_loops = set()
    c.sent = {}
    rets = c.run(opaque)
    ins_l, outs_l = set(), set()
    done = {}
    n = 0
    for v, fr, h, ent, hst, hph, st, phis in c.loops():
        if v is None or v.container[0] != 'fld':
            continue
        side = v.container[2].rsplit('::', 1)[-1].lower()
        if 'inputs' in side:
            ins_l.add(key_of(fr, h))
            P = port_of(v, IP, hst, st)
            if P is None:
                continue
            n += 1
            pf = lambda x: F(P, IP + '::' + x)
            bad = lambda m: c.bad(m, rule='consume')
            pend = hst.rd(pf('_pendingElements'))
            if P not in done:
                done[P] = counters(c, P, lambda s: s.rd(pf('_pendingElements')))
            cnt = done[P]
            if sub(st.rd(pf('_totalElements')), hst.rd(pf('_totalElements'))) != pend:
                bad('the consumed elements are not added to the total exactly once')
            pops = evs(st, hst, 'bufferAccumulatorPop')
            if pops:
                if len(pops) != 1 or pops[0][2][0] != P or not product(pops[0][2][1], pend, (pf('_dtype'),)):
                    bad('the consumed bytes are not popped from the accumulator exactly once')
            elif st.decide(compare('eq', pend, K(0))) is not True and not any(t and x[0] == 'cmp' and x[1] == 'eq' and K(0) in x[2:] and any(product(y, pend, (pf('_dtype'),)) for y in x[2:])
                                                                              for x, t in st.facts.items()):
                bad('consumed elements are not popped from the accumulator')
            labels = pf('_inlineMessages')
            er = [e for e in evs(st, hst, 'erase') if e[2][0] == labels]
            pr = evs(st, hst, 'propagateLabels')
            zero = any(st.decide(compare('eq', w, K(0))) is True for w in cnt if isinstance(w, tuple))
            ran = c.passed(st, c.label_loops)
            if not ran and not any(x[0] == 'r' and last(x[1]) == 'empty' and x[2][0] == labels and t for x, t in st.facts.items()):
                bad('the labels of the consumed elements are not looked at')
            if er:
                b, e = (er[0][2] + (None, None))[1:3]
                num = [x for x in cnt if isinstance(x, tuple) and e is not None and x in terms(e)]
                if len(er) != 1 or e is None or not num or not any(t[0] == 'r' and BEGIN.search(t[1]) and t[2][0] == labels for t in terms(resolve(st, b))):
                    bad('not exactly the labels of consumed elements are removed')
                else:
                    if e[0] == 'r' and last(e[1]) == 'operator+' and e[2][1] not in num:
                        bad('not exactly the labels of consumed elements are removed')
                    if sub(st.rd(pf('_totalLabels')), hst.rd(pf('_totalLabels'))) not in num:
                        bad('the removed labels are not counted')
                if len(pr) != 1 or st.ev.index(pr[0]) > st.ev.index(er[0]):
                    bad('labels are removed without being propagated first')
            elif ran and not zero:
                bad('the labels of consumed elements are not removed')
            for e in pr:
                if e[2][1] != P:
                    bad('labels of another port are propagated')
                lo, hi = e[2][2:4]
                if not (lo[0] == 'r' and last(lo[1]) == 'data' and lo[2][0] == labels) or not (hi[0] == 'idx' and hi[1][:3] == lo[:3] and hi[2] in cnt):
                    bad('not exactly the labels of consumed elements are shown to propagateLabels()')
                if e[2][4] not in (K(0), ('ini', ('ghost', 'sent'))):
                    bad('labels are propagated after the outputs were sent')
                if len(pr) > 1:
                    bad('labels are propagated twice')
        elif 'outputs' in side:
            outs_l.add(key_of(fr, h))
            P = port_of(v, OP, hst, st)
            if P is None:
                continue
            n += 1
            check_output(c, v, P, hst, st)
    for st, rv in rets:
        if not c.passed(st, ins_l):
            c.bad('the inputs are not handled on every path', rule='consume')
        if not c.passed(st, outs_l):
            c.bad('the outputs are not handled on every path', rule='produce')
    rep.count('post_work_iterations', n)
    rep.need(ins_l and outs_l, 'loops over inputs and outputs after work')


def resolve(st, v):
    return v


def check_output(c, v, P, hst, st):
    bad = lambda m: c.bad(m, rule='produce')
    pf = lambda x: F(P, OP + '::' + x)
    buf = pf('_buffer')
    dts = (F(buf, BC + '::dtype'), pf('_dtype'))
    pend = hst.rd(pf('_pendingElements'))
    posts = evs(st, hst, 'postBuffer')
    pops = evs(st, hst, 'bufferManagerPop')
    man = truth(st, pf('_bufferFromManager'), hst)
    iszero = st.decide(compare('eq', pend, K(0))) is True or any(t and x[0] == 'cmp' and x[1] == 'eq' and K(0) in x[2:] and any(product(y, pend, dts) for y in x[2:]) for x, t in st.facts.items())
    nonzero = st.decide(compare('eq', pend, K(0))) is False or any(not t and x[0] == 'cmp' and x[1] == 'eq' and K(0) in x[2:] and any(product(y, pend, dts) for y in x[2:]) for x, t in st.facts.items())
    flen = None
    if posts:
        e = posts[0]
        if len(posts) != 1 or e[2][0] != P or e[2][1] != buf:
            bad('the produced buffer is not posted exactly once')
        if not product(e[2][2], pend, dts):
            bad('the posted buffer does not have the length that was produced')
        if not nonzero:
            bad('a buffer is posted although nothing may have been produced')
        avail = [x for x in terms(tuple(st.facts)) if x[0] == 'r' and last(x[1]) == 'getLength']
        over = any(t and x[0] == 'cmp' and x[1] == 'ult' and x[2] in avail and product(x[3], pend, dts) for x, t in st.facts.items())
        if man is True and not over:
            if len(pops) != 1 or pops[0][2][0] != P:
                bad('the produced buffer is not taken from the manager exactly once')
            elif pops[0][0] and not product(pops[0][2][1], pend, dts):
                a = pops[0][2][1]
                small = any(t and x[0] == 'cmp' and x[1] == 'ult' and sub(x[2], sub(hst.rd(pf('_elements')), pend)) == K(0) and x[3] == hst.rd(pf('_reserveElements')) for x, t in st.facts.items())
                if not (a[0] == 'r' and last(a[1]) == 'getLength') or not small:
                    bad('another length is taken from the manager than was produced')
        elif pops:
            bad('a buffer is taken from the manager that did not provide it')
    else:
        if not iszero:
            bad('produced elements are not posted')
        for e in pops:
            a = e[2][1]
            ok = a[0] == 'ini' and any(t and x[0] == 'cmp' and x[1] == 'ult' and x[2] == a and product(x[3], hst.rd(pf('_reserveElements')), dts) for x, t in st.facts.items())
            if not ok or len(pops) > 1 or e[2][0] != P:
                bad('a buffer is dropped from the manager although nothing was produced and it meets the reserve')
    clr = [e for e in evs(st, hst, 'clear') if e[2][0] == buf]
    if not clr or (posts and st.ev.index(clr[-1]) < st.ev.index(posts[0])):
        bad('the reference to the output buffer is kept after work')
    # delivery
    pl, pb = pf('_postedLabels'), pf('_postedBuffers')
    if P in c.sent:
        sent = c.sent[P]
    else:
        sent = c.sent[P] = set()
        for w, fr, h, ent, hs, hp, s2, ph in c.loops():
            if w is None or w.container != pf('_subscribers'):
                continue
            e = evs(s2, hs, 'bufferLabelPush')
            ok = len(e) == 1 and w.mentions(e[0][2][0]) and e[0][2][2:4] == (pl, pb)
            if not ok:
                bad('posted buffers and labels are not delivered exactly once to every subscriber')
            elif not last_only(e[0][2][1], w, pf('_subscribers'), s2):
                bad('posted buffers may be moved to a subscriber before the others got them')
            sent.add((fr.fn.n, h))
    def empty(q):
        return any(x[0] == 'r' and last(x[1]) == 'empty' and x[2][0] == q and t for x, t in st.facts.items())
    if not c.passed(st, sent) and not (empty(pl) and empty(pb)) and not empty(pf('_subscribers')):
        bad('posted buffers or labels are not delivered')
    if posts and empty(pb) and not c.passed(st, sent) and False:
        bad('posted buffers or labels are not delivered')
    for q in (pl, pb):
        if not [e for e in evs(st, hst, 'clear') if e[2][0] == q] and not empty(q):
            bad('posted buffers or labels stay queued after delivery')
    so = [e for e in evs(st, hst, 'sort', 'stable_sort')]
    if not empty(pl) and c.passed(st, sent) and not so:
        bad('posted labels are delivered unsorted')


def last_only(x, w, subs, st):
    """is the flag true only for the last subscriber?"""
    if cval(x) == 0 or st.decide(x) is False:
        return True
    if x[0] == 'r' and EQ.search(x[1]) and len(x[2]) == 2:
        side = [[t for v in cells(st, y) + [y] for t in terms(v)] for y in x[2]]
        for a, b in (side, side[::-1]):
            if any(t[0] == 'r' and END.search(t[1]) and t[2][0] == subs for t in a) and \
                    any(t[0] == 'r' and ((last(t[1]) == 'operator+' and t[2][1:] == (K(1),)) or last(t[1]) == 'next') and w.mentions(t) for t in b):
                return True
        return False
    if x[0] != 'cmp' or x[1] != 'eq':
        return False
    ts = terms(x)
    if w.kind == 'index':
        d = parts(sub(x[2], x[3]))
        sz = [k for k in d[1] if k[0] == 'r' and last(k[1]) == 'size' and k[2][0] == subs]
        if sz and d[1].get(w.var) and len(d[1]) == 2 and abs(d[0]) == 1:
            return True
    return w.mentions(x) and any(t[0] == 'r' and last(t[1]) in ('back', 'end', 'prev', 'rbegin', 'cend') and any(y == subs for y in terms(t)) for t in ts)


# ---------------------------------------------------------------- R4

def is_min(st, v, a, b):
    if v == a:
        return st.decide(compare('ult', b, a)) is False or a == b
    return v == b and (st.decide(compare('ult', b, a)) is True or st.decide(compare('ult', a, b)) is False)


class PreRule(PortRule):
    def pure(self, name):
        return name in (IP + '::asyncMessagesEmpty', OP + '::tokenManagerEmpty', OP + '::bufferManagerEmpty') or PortRule.pure(self, name)


def check_pre(prog, rep, f):
    opaque = [IP + '::bufferAccumulatorFront', IP + '::bufferAccumulatorRequire', OP + '::bufferManagerFront', IP + '::asyncMessagesEmpty', OP + '::tokenManagerEmpty',
              OP + '::bufferManagerEmpty', 'Pothos::WorkerActor::handleSlotCalls']
    c = Check(prog, rep, f, 'Pothos::WorkerActor')
    c.rule = PreRule(prog, opaque)
    c.eng = Affine(prog, c.rule, 200000)
    rets = [(s, rv) for k, s, rv in c.eng.run(f, c.args) if k == 'ret']
    rep.engine(c.eng)
    bad = lambda m: c.bad(m, rule='prepare')
    n = 0
    roles = {}
    ins_l, outs_l = set(), set()
    wi = None
    for v, fr, h, ent, hst, hph, st, phis in c.loops(False):
        if v is None or v.container[0] != 'fld':
            continue
        side = v.container[2].rsplit('::', 1)[-1].lower()
        if 'outputs' in side:
            P = port_of(v, OP, hst, st)
            if P is None:
                continue
            n += 1
            outs_l.add(key_of(fr, h))
            pf = lambda x: F(P, OP + '::' + x)
            buf = pf('_buffer')
            tok = [t for x, t in st.facts.items() if x[0] == 'r' and x[1] == OP + '::tokenManagerEmpty' and x[2][0] == P]
            if tok != [False]:
                bad('work can go on without a free message token')
            if st.rd(pf('_workEvents')) != K(0):
                bad('the work events of an output are not reset')
            if truth(st, pf('_isSignal'), hst) is True:
                continue
            if st.rd(pf('_pendingElements')) != K(0):
                bad('the produced elements of an output are not reset')
            el = st.rd(pf('_elements'))
            ln = st.rd(F(buf, BC + '::length'))
            if not quotient(el, ln, (F(buf, BC + '::dtype'), pf('_dtype'))):
                bad('the element count shown is not that of the output buffer')
            elif st.decide(compare('eq', el, K(0))) is not False:
                bad('work can go on without output space')
            if not typed(st, F(buf, BC + '::dtype'), pf('_dtype')):
                bad('the output buffer does not have the type of the port')
            man = st.rd(pf('_bufferFromManager'))
            fill = [e for e in evs(st, hst) if (last(e[1]) in ('bufferManagerFront', 'bufferAccumulatorFront') and e[2][1] == buf) or (last(e[1]) == 'clear' and e[2][0] == buf)]
            src = last(fill[-1][1]) if fill else None
            if man != K(1 if src == 'bufferManagerFront' else 0):
                bad('the port does not remember whether its buffer came from the manager')
            if src == 'bufferManagerFront':
                if fill[-1][2][0] != P:
                    bad('the buffer of another port is used')
                if not any(not t and x[0] == 'r' and x[1] == OP + '::bufferManagerEmpty' and x[2][0] == P for x, t in st.facts.items()):
                    bad('a buffer is taken from a manager that may be empty')
            elif src == 'bufferAccumulatorFront':
                uc = any(t and x[0] == 'cmp' and x[1] == 'eq' and K(2) in x[2:] and any(y[0] == 'r' and last(y[1]) == 'useCount' for y in x[2:]) for x, t in st.facts.items()) \
                    or any(t and x[0] == 'r' and last(x[1]) == 'unique' for x, t in st.facts.items())
                am = any(x[0] == 'cmp' and x[1] == 'ult' and not t and any(y[0] == 'r' and last(y[1]) == 'getEnd' and not y[1].startswith(BC) for y in terms(x[2])) for x, t in st.facts.items())
                sz = any(t and x[0] == 'cmp' and x[1] == 'eq' and is_size(x[2]) and is_size(x[3]) for x, t in st.facts.items())
                if not uc:
                    bad('an input buffer is written in place although others may hold it')
                if not am:
                    bad('an input buffer is written in place although it may span several buffers')
                if not sz:
                    bad('an input buffer is written in place although the element sizes may differ')
            check_mins(bad, st, hst, P, OP, ('minOutElements', 'minAllOutElements'), el, 'outputPointers')
        elif 'inputs' in side:
            P = port_of(v, IP, hst, st)
            if P is None:
                continue
            n += 1
            ins_l.add(key_of(fr, h))
            pf = lambda x: F(P, IP + '::' + x)
            buf = pf('_buffer')
            if st.rd(pf('_workEvents')) != K(0):
                bad('the work events of an input are not reset')
            if truth(st, pf('_isSlot'), hst) is True:
                e = evs(st, hst, 'handleSlotCalls')
                if len(e) != 1 or e[0][2][1] != P:
                    bad('the calls queued at a slot are not made')
                continue
            if st.rd(pf('_pendingElements')) != K(0):
                bad('the consumed elements of an input are not reset')
            el = st.rd(pf('_elements'))
            if not quotient(el, st.rd(F(buf, BC + '::length')), (pf('_dtype'), F(buf, BC + '::dtype'))):
                bad('the element count shown is not that of the input buffer')
            fr_ = [e for e in evs(st, hst, 'bufferAccumulatorFront') if e[2] == (P, buf)]
            if len(fr_) != 1:
                bad('the input buffer shown is not the front of the accumulator')
            res = hst.rd(pf('_reserveElements'))
            rq = [e for e in evs(st, hst, 'bufferAccumulatorRequire') if e[2][0] == P]
            if not rq or (fr_ and st.ev.index(rq[0]) > st.ev.index(fr_[0])):
                bad('the reserve is not made contiguous before the buffer is shown')
            else:
                a = rq[0][2][1]
                if not (product(a, res, (pf('_dtype'),)) or (is_size(a, pf('_dtype')) and (st.decide(compare('ult', K(1), res)) is False or st.decide(compare('eq', res, K(0))) is True))):
                    bad('another amount than the reserve is made contiguous')
            lo = st.rd(F(pf('_labelIter'), 'Pothos::LabelIteratorRange::_begin'))
            hi = st.rd(F(pf('_labelIter'), 'Pothos::LabelIteratorRange::_end'))
            if not (lo[0] == 'r' and last(lo[1]) == 'data' and lo[2][0] == pf('_inlineMessages')) or not (hi[0] == 'idx' and hi[2][0] == 'r' and last(hi[2][1]) == 'size' and hi[2][2][0] == pf('_inlineMessages')):
                bad('the labels shown are not those of the input')
            check_mins(bad, st, hst, P, IP, ('minInElements', 'minAllInElements'), el, 'inputPointers')
            # the reasons to call work()
            met = st.decide(compare('ult', el, res)) is False
            msg = any(not t and x[0] == 'r' and x[1] == IP + '::asyncMessagesEmpty' and x[2][0] == P for x, t in st.facts.items())
            for p in phis:
                old = hph.get(p)
                x = phis[p]
                if x[0] == 'not' and x[1][0] == 'cmp' and x[1][1] == 'eq' and K(0) in x[1][2:]:
                    x = x[1][3] if x[1][2] == K(0) else x[1][2]
                isor = x[0] == 'op' and x[1] == 'or' and old in x[2:]
                if old is not None and ent.phis.get(p) == K(0) and (isor or (x != old and (x[0] in ('not', 'cmp') or x[0] == 'r'))):
                    y = x if not isor else x[3] if x[2] == old else x[2]
                    r = {'buffered'}
                    if y == compare('uge', el, res):
                        r.add('reserve')
                    if y[0] == 'not' and y[1][0] == 'r' and y[1][1] == IP + '::asyncMessagesEmpty' and y[1][2][0] == P:
                        r.add('message')
                    roles[(fr.key, h, p)] = roles.get((fr.key, h, p), r) & r
                elif phis[p] == K(1) and ent.phis.get(p) == K(0):
                    if old is not None and (st.decide(old) is True or st.decide(compare('ne', old, K(0))) is True):
                        continue
                    r = {'buffered'} | ({'reserve'} if met else set()) | ({'message'} if msg else set())
                    roles[(fr.key, h, p)] = roles.get((fr.key, h, p), r) & r
                    rev = ('skip', fr.key, h, p)
                elif (met or msg) and p in hph and phis[p] == hph[p] and hph[p] not in (K(1),):
                    roles.setdefault(('not', fr.key, h, p), set()).update((['met'] if met else []) + (['msg'] if msg else []))
    for st, rv in rets:
        w = lambda x: st.rd(x)
        b = [a[1] for a in st.mem if a[0] == 'fld' and a[2] == 'Pothos::WorkInfo::minElements']
        yes = st.decide(rv) if rv is not None else None
        if yes is False and not c.passed(st, ins_l):
            continue
        for m, (x, y) in (('minElements', ('minInElements', 'minOutElements')), ('minAllElements', ('minAllInElements', 'minAllOutElements'))):
            ok = False
            for base_ in b:
                g = lambda q: st.rd(F(base_, 'Pothos::WorkInfo::' + q))
                ok = ok or is_min(st, g(m), g(x), g(y)) or is_min(st, g(m), g(y), g(x))
            if not ok:
                bad('%s is not the smaller of both sides' % m)
        if rv is None or not c.passed(st, ins_l):
            continue
        for s2, y2 in ([(st, yes)] if yes is not None else [(st, True), (st, False)]):
            if yes is None:
                s2 = st.copy()
                s2.assume(rv, y2)
            why = {}
            for (k, h, p), r in [(k, r) for k, r in roles.items() if k[0] != 'not']:
                role = 'reserve' if 'reserve' in r else 'message' if 'message' in r else 'buffered'
                t = ('w', k, h, p)
                d = s2.decide(t)
                d = s2.decide(compare('ne', t, K(0))) if d is None else d
                if d is not None:
                    why[role] = d
            if y2 is True and why and not (why.get('reserve') or why.get('message') or why.get('buffered') is False):
                bad('work() is called although no reserve is met and no message is there')
            if y2 is False and (why.get('reserve') or why.get('message')):
                bad('work() is not called although a reserve is met or a message is there')
    allroles = set()
    for k, r in roles.items():
        if k[0] != 'not':
            allroles.add('reserve' if 'reserve' in r else 'message' if 'message' in r else 'buffered')
    if roles and 'reserve' not in allroles:
        bad('work() does not depend on the reserve')
    if roles and 'message' not in allroles:
        bad('work() is not called for a waiting message')
    rep.count('pre_work_iterations', n)
    rep.need(ins_l and outs_l, 'loops over inputs and outputs before work')


def check_mins(bad, st, hst, P, cls, names, el, ptrs):
    b = [a[1] for a in st.mem if a[0] == 'fld' and a[2].startswith('Pothos::WorkInfo::min')]
    b = sorted(set(b), key=repr)
    if not b:
        return
    indexed = st.decide(compare('eq', hst.rd(F(P, cls + '::_index')), K(-1)))
    for i, nm in enumerate(names):
        ok = False
        for x in b:
            loc = F(x, 'Pothos::WorkInfo::' + nm)
            ok = ok or is_min(st, st.rd(loc), hst.rd(loc), el) or (i == 0 and indexed is True and st.rd(loc) == hst.rd(loc))
        if not ok:
            bad('%s is not the smallest number of elements of the ports' % nm)
    if indexed is False:
        st_ptr = [(a, val) for a, val in st.mem.items() if a[0] == 'elem' and a[1][0] == 'fld' and a[1][2].endswith(ptrs)]
        adr = st.rd(F(F(P, cls + '::_buffer'), BC + '::address'))
        if not any(val == adr and len(a) > 2 and a[2] == hst.rd(F(P, cls + '::_index')) for a, val in st_ptr):
            bad('the pointer of an indexed port is not that of its buffer')


def check(prog, rep):
    rep.rule('R1 port operations: counters, queues and label positions change by exactly what the contract names')
    rep.rule('R2 after work, inputs: pop = consumed bytes once; labels below propagated, counted, removed; others shifted; totals')
    rep.rule('R3 after work, outputs: one posted buffer of the produced length, taken once from its manager; delivery to every subscriber; queues cleared')
    rep.rule('R4 before work: counts reset, element counts and pointers are those of the buffers, in-place only for sole owners, minima, reasons to work')
    check_ports(prog, rep)
    for f in prog.named('Pothos::WorkerActor::postWorkTasks'):
        check_post(prog, rep, f)
    for f in prog.named('Pothos::WorkerActor::preWorkTasks'):
        check_pre(prog, rep, f)
