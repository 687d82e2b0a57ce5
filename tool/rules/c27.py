"""C27 life cycle: the callbacks of a block that is not active"""
from common import *
from exc import Exc

SOURCES = FRAMEWORK
EXPLANATION = ('Typestate of the active state of a block: it is followed through every path of the worker pass, of activation and of deactivation (exceptions of the callbacks included); '
               'every callback of user code is an obligation on that state.')

WORKING = ('Pothos::Block::work', 'Pothos::Block::prepare', 'Pothos::Block::propagateLabels', 'Pothos::Block::opaqueCallHandler')


class Life(Rule):
    """state: (active, written, ex, did): active = known value of the flag or None; written = last value stored on this path or None;
    did = callbacks entered / completed on this path"""

    def __init__(self, prog, flag):
        self.prog = prog
        self.flag = flag
        self.sites = set()

    def is_flag(self, p):
        return isinstance(p, tuple) and p[0] == 'fld' and p[2] == self.flag

    def inline(self, eng, fr, fn, name):
        return fn.in_repo and '/Framework/' in fn.file and not name.startswith((
            'Pothos::Util::', 'Pothos::BufferAccumulator', 'Pothos::BufferChunk', 'Pothos::Exception', 'Pothos::Label', 'Pothos::BufferManager', 'Pothos::ManagedBuffer', 'Pothos::SharedBuffer', 'Pothos::DType'))

    def may_throw(self, eng, fr, ins, name):
        return False

    def on_store(self, eng, fr, ins, ptr, val, st):
        if self.is_flag(ptr):
            v = bool(val[1]) if isinstance(val, tuple) and val[0] == 'const' else None
            return (v, v if v is not None else 'unknown') + st[2:]
        return st

    def on_branch(self, eng, fr, ins, atom, truth, st):
        act, wr, ex, did = st
        e = Exc.on_branch(self.prog, atom, truth, ex)
        if e is False:
            return None
        if isinstance(atom, tuple) and atom[0] == 'load' and self.is_flag(atom[1]):
            s = self.source(fr, ins.a[0])
            if s is not None and ('seen', fr.fn.n, s) in did:
                # read before this path wrote the flag: the branch tells what the flag was then
                if ('was', not truth) in did:
                    return None
                did = did | {('was', truth)}
                if wr is None:
                    act = truth
            elif wr is None or act is not None:
                if act is not None and act != truth:
                    return None
                act = truth
                if wr is None:
                    if ('was', not truth) in did:
                        return None
                    did = did | {('was', truth)}
        return (act, wr, e, did)

    def on_call(self, eng, fr, ins, name, args, st):
        act, wr, ex, did = st
        r = Exc.on_call(self.prog, name, args, ex)
        if r is not None:
            return [(k, (act, wr, e, did), None) for k, e in r]
        if name in WORKING or name in ('Pothos::Block::activate', 'Pothos::Block::deactivate'):
            if self.prog.call_info(ins)[2] != 'virtual':
                return None
            k = last(name)
            self.sites.add((ins.loc, k))
            if name in WORKING:
                if act is not True:
                    eng.report(fr, ins, 'inactive', '%s is called although the block is not known to be active' % k)
            elif k == 'deactivate':
                if not ('was', True) in did and act is not True:
                    eng.report(fr, ins, 'inactive', 'deactivate is called although the block is not known to be active')
            d2 = did | {k}
            return [('ret', (act, wr, ex, d2 | {(k, 'ok')}), None), ('throw', (act, wr, Exc.thrown(ex, 'any', 'user'), d2), None)]
        return None

    def on_load(self, eng, fr, ins, ptr, st):
        # a value of the flag that is read before the flag is written stays what it was
        if self.is_flag(ptr):
            k = ('seen', fr.fn.n, ins.v)
            return st[:3] + ((st[3] | {k}) if st[1] is None else (st[3] - {k}),)
        return st

    def source(self, fr, o):
        """the load that a branch condition comes from"""
        for _ in range(8):
            d = fr.fn.defs.get(o)
            if d is None:
                return None
            if d.op == 'load':
                return d.v
            ops = [a for a in d.a if a.startswith('%')]
            if d.op == 'phi' or len(ops) != 1:
                return None
            o = ops[0]


def check(prog, rep):
    rep.rule('R1 work, label propagation, preparation and slot calls of a worker pass happen only where the block was seen to be active in this pass')
    rep.rule('R2 after activation the block is active exactly when activate() succeeded')
    rep.rule('R3 deactivate() is called only on a block that is active, and afterwards the block is not active, whatever deactivate() does')
    rep.rule('R4 a new block is not active')
    fs = [n for n, t in cls_fields(prog, 'Pothos::WorkerActor') if t == 'bool' and 'active' in n.lower()]
    rep.need(fs, 'active state of the worker')
    flag = 'Pothos::WorkerActor::' + fs[0]
    callers = {}
    for f in prog.repo_fns():
        for c in f.calls():
            nm, tg, kind = prog.call_info(c)
            if kind == 'virtual' and nm in USER_CALLBACKS:
                callers.setdefault(nm, set()).add(f.n)
    roots = {}
    for nm in WORKING + ('Pothos::Block::activate', 'Pothos::Block::deactivate'):
        for n in callers.get(nm, ()):
            f = prog.fns[n]
            if not f.name.startswith('Pothos::WorkerActor::') and 'Worker' not in f.tu:
                continue
            # up to the boundary of the worker: the worker pass and the entries that are called by name
            for t in topmost(prog, f, lambda g: g.in_repo and (g.name.startswith(('Pothos::WorkerActor::', 'Pothos::ActorInterface')) or 'WorkerActor' in g.tu)):
                roots[t.n] = t
    rep.need(len(roots) >= 3, 'the worker pass, activation and deactivation')
    sites = set()
    kinds = set()
    for t in sorted(roots.values(), key=lambda f: f.n):
        r = Life(prog, flag)
        eng = Engine(prog, r)
        exits = eng.run(t, (None, None, Exc.none, frozenset()))
        rep.engine(eng)
        sites |= r.sites
        for kind, (act, wr, ex, did), rv in exits:
            if 'activate' in did:
                kinds.add('activate')
                if kind == 'ret' and ('activate', 'ok') in did and act is not True:
                    rep.violation('state', t.loc, t.name, 'the block is not marked active although activate() succeeded')
                if ('activate', 'ok') not in did and (act is True or wr is not None and wr is not False):
                    rep.violation('state', t.loc, t.name, 'the block stays marked active although activate() failed')
            if 'deactivate' in did:
                kinds.add('deactivate')
                if act is not False:
                    rep.violation('state', t.loc, t.name, 'the block is still marked active after deactivate()%s' % (' failed' if kind == 'throw' else ''))
            if 'activate' not in did and 'deactivate' not in did and wr is True:
                rep.violation('state', t.loc, t.name, 'the block is marked active without activate()')
        rep.analysed.append('%s (%s): %d exits' % (t.name, t.loc, len(exits)))
    rep.need(kinds == {'activate', 'deactivate'}, 'activation and deactivation of the block')
    # other writes of the flag
    n = 0
    for f in prog.repo_fns():
        if not f.name.startswith('Pothos::WorkerActor::WorkerActor'):
            continue
        r = Life(prog, flag)
        eng = Engine(prog, r)
        for kind, (act, wr, ex, did), rv in eng.run(f, (None, None, Exc.none, frozenset())):
            if kind == 'ret':
                n += 1
                if wr is not False:
                    rep.violation('state', f.loc, f.name, 'a new block does not start out inactive')
        rep.engine(eng)
    rep.need(n, 'constructor of the worker')
    rep.count('callback_sites', len(sites))
    rep.count('roots', len(roots))
    rep.need(len(sites) >= 5, 'callbacks of the block')
