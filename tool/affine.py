"""Abstract interpretation with affine equalities (value numbering) over the IR.

Every integer is an affine form over opaque terms (initial memory contents, results of calls, widened loop values); memory is a map
from symbolic locations to such forms.  All paths are explored, loops are widened: whatever changes in the body becomes a fresh term,
and what it was on entry and at the end of an iteration is recorded.  Branches only contribute the facts they compare; nothing is solved.
Assumption (stated in DESIGN.md): different base pointers name different objects; rules that care run a second time with equal bases.
"""
import re
from ir import last, AnalysisError, TRANSPARENT, DEREF, ELEM
from common import loops as natural_loops
from explore import ATOMIC, AKIND, NORETURN

PURE = re.compile(r'::(size|empty|length|c_str|data|begin|end|cbegin|cend|capacity|count|operator bool|get\w*|is\w*|has\w*)$')


# ---------------------------------------------------------------- values

def mk(c, terms):
    t = tuple(sorted(((k, v) for k, v in terms.items() if v), key=lambda x: hash(x[0])))
    if c == 0 and len(t) == 1 and t[0][1] == 1:
        return t[0][0]
    return ('L', c, t)


def K(n):
    return ('L', n, ())


def parts(v):
    if isinstance(v, tuple) and v and v[0] == 'L':
        return v[1], dict(v[2])
    return 0, {v: 1}


def add(a, b, s=1):
    ca, ta = parts(a)
    cb, tb = parts(b)
    for k, v in tb.items():
        ta[k] = ta.get(k, 0) + s * v
    return mk(ca + s * cb, ta)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, t = parts(a)
    return mk(c * n, {k: v * n for k, v in t.items()})


def isconst(v):
    return isinstance(v, tuple) and v[0] == 'L' and not v[2]


def cval(v):
    return v[1] if isconst(v) else None


def terms(v):
    """all sub-terms of a value"""
    out = []
    work = [v]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            out.append(x)
            if x and x[0] == 'L':
                work += [k for k, _ in x[2]]
            elif x and isinstance(x[0], tuple):
                out.pop()
                work += list(x)
            else:
                work += [y for y in x[1:] if isinstance(y, tuple)]
    return out


COMM = ('and', 'or', 'xor', 'mul', 'fadd', 'fmul')


def binop(k, a, b):
    if k == 'add':
        return add(a, b)
    if k == 'sub':
        return sub(a, b)
    ca, cb = cval(a), cval(b)
    if k == 'mul':
        if cb is not None:
            return scale(a, cb)
        if ca is not None:
            return scale(b, ca)
    if k in ('udiv', 'sdiv') and cb == 1:
        return a
    if k == 'shl' and cb is not None and 0 <= cb < 63:
        return scale(a, 1 << cb)
    if ca is not None and cb is not None:
        try:
            r = {'and': lambda: ca & cb, 'or': lambda: ca | cb, 'xor': lambda: ca ^ cb, 'udiv': lambda: ca // cb, 'urem': lambda: ca % cb,
                 'sdiv': lambda: int(ca / cb), 'lshr': lambda: ca >> cb, 'ashr': lambda: ca >> cb}[k]()
            return K(r)
        except (KeyError, ZeroDivisionError, ValueError):
            pass
    if k == 'xor' and cb in (1, -1) and isbool(a):
        return neg(a)
    if k == 'xor' and ca in (1, -1) and isbool(b):
        return neg(b)
    if k in COMM and hash(b) < hash(a):
        a, b = b, a
    return ('op', k, a, b)


def isbool(v):
    return isinstance(v, tuple) and v[0] in ('cmp', 'not', 'r', 'bop')


def neg(v):
    if isinstance(v, tuple) and v[0] == 'not':
        return v[1]
    c = cval(v)
    if c is not None:
        return K(0 if c else 1)
    return ('not', v)


def compare(k, a, b):
    pos = True
    if k in ('ne', 'uge', 'sge', 'ule', 'sle'):
        k = {'ne': 'eq', 'uge': 'ult', 'sge': 'slt', 'ule': 'ugt', 'sle': 'sgt'}[k]
        pos = False
    if k in ('ugt', 'sgt'):
        k, a, b = k[0] + 'lt', b, a
    ca, cb = cval(a), cval(b)
    r = None
    if k == 'eq':
        d = sub(a, b)
        cd = cval(d)
        if cd is not None:
            r = K(1 if cd == 0 else 0)
        elif cb == 0 and isbool(a):
            r = neg(a)
        elif ca == 0 and isbool(b):
            r = neg(b)
        elif hash(b) < hash(a):
            a, b = b, a
    elif a == b:
        r = K(0)
    elif ca is not None and cb is not None:
        r = K(1 if ca < cb else 0)
    if r is None:
        if k == 'ult' and ca == 0:
            return compare('ne' if pos else 'eq', b, K(0))
        if k == 'ult' and cb == 1:
            return compare('eq' if pos else 'ne', a, K(0))
        r = ('cmp', k, a, b)
    return r if pos else neg(r)


# ---------------------------------------------------------------- addresses

def fld(b, name):
    return ('fld', b, name)


def idx(b, x):
    if cval(x) == 0 and not (isinstance(b, tuple) and b[0] == 'idx'):
        return b
    if isinstance(b, tuple) and b[0] == 'idx':
        return idx(b[1], add(b[2], x))
    return ('idx', b, x)


def base(a):
    while isinstance(a, tuple) and a[0] in ('fld', 'idx', 'elem'):
        a = a[1]
    return a


def prefixes(a):
    out = [a]
    while isinstance(a, tuple) and a[0] in ('fld', 'idx', 'elem'):
        a = a[1]
        out.append(a)
    return out


def rebase(a, old, new):
    if a == old:
        return new
    if isinstance(a, tuple) and a[0] in ('fld', 'idx', 'elem'):
        return (a[0], rebase(a[1], old, new)) + a[2:]
    return a


def shape(a):
    """address with its positions left out, and the positions"""
    pos = []

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x[0] == 'fld':
            return ('fld', go(x[1]), x[2])
        if x[0] in ('idx', 'elem', 'slot'):
            b = go(x[1])
            pos.extend(x[2:3])
            return (x[0], b)
        return x
    return go(a), tuple(pos)


def fname(a):
    """unqualified name of the last field of an address"""
    while isinstance(a, tuple) and a[0] in ('idx', 'elem'):
        a = a[1]
    if isinstance(a, tuple) and a[0] == 'fld':
        return a[2].rsplit('::', 1)[-1]
    return None


class State(object):
    __slots__ = ('mem', 'ev', 'facts')

    def __init__(self, mem=None, ev=(), facts=None):
        self.mem = mem or {}
        self.ev = ev
        self.facts = facts or {}

    def copy(self):
        return State(dict(self.mem), self.ev, dict(self.facts))

    def key(self):
        return (frozenset(self.mem.items()), self.ev, frozenset(self.facts.items()))

    # -------------------------------------------------------- memory
    def rd(self, a):
        v = self.mem.get(a)
        if v is not None:
            return v
        for p in prefixes(a):
            t = self.mem.get(('alias', p))
            if t is not None:
                return ('ini', rebase(a, p, t[0])) if t[1] is None else ('ini', rebase(a, p, t[0]), t[1])
            e = self.mem.get(('ep', p))
            if e is not None:
                return ('ini', a, e)
        return ('ini', a)

    def wr(self, a, v):
        sa, ia = shape(a)
        if ia:
            for o in list(self.mem):
                if o != a and o[0] in ('fld', 'idx', 'elem', 'slot'):
                    so, io = shape(o)
                    if so == sa and len(io) == len(ia) and not any(cval(sub(x, y)) not in (None, 0) for x, y in zip(io, ia)):
                        self.mem[o] = ('lost', o, a, v)
        self.mem[a] = v

    def kill(self, p, tag):
        for o in list(self.mem):
            q = o[1] if o[0] in ('alias', 'ep') else o
            if p in prefixes(q):
                del self.mem[o]
        self.mem[('ep', p)] = tag

    def memcpy(self, dst, src):
        ents = [(o, v) for o, v in self.mem.items() if o[0] not in ('alias', 'ep') and src in prefixes(o)]
        nested = [(o, v) for o, v in self.mem.items() if o[0] in ('alias', 'ep') and o[1] != src and src in prefixes(o[1])]
        tgt = (src, None)
        for p in prefixes(src):
            t = self.mem.get(('alias', p))
            if t is not None:
                tgt = (rebase(src, p, t[0]), t[1])
                break
            e = self.mem.get(('ep', p))
            if e is not None:
                tgt = (src, e)
                break
        for o in list(self.mem):
            q = o[1] if o[0] in ('alias', 'ep') else o
            if dst in prefixes(q):
                del self.mem[o]
        for o, v in ents:
            self.mem[rebase(o, src, dst)] = v
        self.mem[('alias', dst)] = tgt
        for o, v in nested:
            self.mem[(o[0], rebase(o[1], src, dst))] = v

    # -------------------------------------------------------- facts
    def decide(self, v):
        c = cval(v)
        if c is not None:
            return bool(c)
        if v[0] == 'not':
            r = self.decide(v[1])
            return None if r is None else not r
        r = self.facts.get(v)
        if r is not None:
            return r
        if v[0] == 'cmp' and v[1] == 'ult' and self.facts.get(('cmp', 'ult', v[3], v[2])):
            return False
        if v[0] == 'cmp' and v[1] == 'eq' and (self.facts.get(('cmp', 'ult', v[3], v[2])) or self.facts.get(('cmp', 'ult', v[2], v[3]))):
            return False
        if v[0] == 'op' and v[1] == 'xor' and K(1) in v[2:]:      # used as a condition, so a boolean
            r = self.decide(v[3] if v[2] == K(1) else v[2])
            return None if r is None else not r
        if v[0] == 'op' and v[1] in ('and', 'or'):
            a, b = self.decide(v[2]), self.decide(v[3])
            if v[1] == 'and':
                if a is False or b is False:
                    return False
                if a and b:
                    return True
            else:
                if a or b:
                    return True
                if a is False and b is False:
                    return False
        return None

    def assume(self, v, t):
        while v[0] == 'not':
            v, t = v[1], not t
        if isconst(v):
            return
        if v[0] == 'op' and v[1] == 'xor' and K(1) in v[2:]:
            return self.assume(v[3] if v[2] == K(1) else v[2], not t)
        if v[0] == 'op' and v[1] in ('and', 'or') and t == (v[1] == 'and') and isbool(v[2]) and isbool(v[3]):
            self.assume(v[2], t)
            self.assume(v[3], t)
            return
        self.facts[v] = t


class ARule(object):
    max_depth = 10
    pure_re = PURE

    def inline(self, eng, fn, name):
        return False

    def model(self, eng, fr, ins, name, args, st):
        """None or a list of (kind, state, value)"""
        return None

    def pure(self, name):
        return bool(self.pure_re.search(name))

    def event(self, name):
        return False

    def on_unwind(self, eng, fr, ins, st):
        pass

    def resumes(self, eng, fr, ins, st):
        return True

    def throws(self, eng, ins, name):
        return False

    def clobbers(self, eng, name, args):
        return [a for a in args if isinstance(a, tuple) and base(a)[0] == 'alloca']

    def keep(self, atom):
        return True

    def on_store(self, eng, fr, ins, addr, val, st):
        pass

    def on_load(self, eng, fr, ins, addr, st):
        pass

    def on_rmw(self, eng, fr, ins, kind, addr, val, st):
        """value that an atomic read-modify-write yields, or None for what the location holds"""
        return None

    epochs = False
    prune = False        # drop work on loop iterations that a wider one replaces

    def on_enter(self, eng, fr, header, st, phis):
        """a loop is entered (st may be extended with ghost locations)"""

    def on_backedge(self, eng, fr, header, it, st, phis):
        """it: (loop entry, state and phi values at the start of this iteration)"""


class AFrame(object):
    __slots__ = ('fn', 'key', 'args', 'loops')

    def __init__(self, fn, key, args):
        self.fn = fn
        self.key = key
        self.args = args
        self.loops = natural_loops(fn)


class Entry(object):
    __slots__ = ('st', 'phis', 'wid', 'regs', 'b', 'back')

    def __init__(self, b, st, phis, regs):
        self.b = b
        self.st = st
        self.phis = phis
        self.regs = regs
        self.wid = set()
        self.back = []


class Affine(object):
    def __init__(self, prog, rule, max_steps=400000):
        self.prog = prog
        self.rule = rule
        self.steps = 0
        self.max_steps = max_steps
        self.stack = []
        self.violations = []
        self.seen = set()
        self.functions = set()
        self.entries = []
        self.paths = 0
        self._loops = {}

    def trace(self, fr, ins):
        out = ['%s at %s' % (f.fn.name, c.loc) for f, c in self.stack]
        out.append('%s at %s' % (fr.fn.name, ins.loc if ins is not None else fr.fn.loc))
        return out

    def report(self, fr, ins, rule, msg, key=None):
        loc = ins.loc if ins is not None else fr.fn.loc
        k = (rule, loc, msg)
        if k in self.seen:
            return
        self.seen.add(k)
        self.violations.append(dict(rule=rule, where=loc, function=fr.fn.name, message=msg, key=key or '%s|%s|%s' % (rule, fr.fn.name, msg),
                                    trace=self.trace(fr, ins), blocks=[]))

    # compatible with rep.engine()
    cur_path = None

    def run(self, fn, args=None, st=None):
        if args is None:
            args = tuple(('arg', i, fn.varname('%%%d' % i) or 'arg%d' % i) for i in range(fn.nargs))
        out = self._run(fn, args, st or State(), ('top',))
        self.paths += len(out)
        return out

    def _run(self, fn, args, st, key):
        fr = AFrame(fn, key, args)
        self.functions.add(fn.n)
        exits = []
        seen = set()
        prune = self.rule.prune
        live = fn.live
        regs0 = {'%%%d' % i: a for i, a in enumerate(args)}
        work = [(0, 0, -1, st.copy(), regs0, {})]
        while work:
            b, i, pred, st, regs, ctx = work.pop()
            if prune and any(len(e[0].wid) != e[3] for e in ctx.values()):
                continue
            blk = fn.blocks[b]
            if i == 0:
                new = {}
                for x in blk:
                    if x.op != 'phi':
                        break
                    for o, p in zip(x.a, x.d['fr']):
                        if p == pred:
                            new[x.v] = self.val(fr, regs, o, st)
                            break
                body = fr.loops.get(b)
                if body is not None and pred >= 0:
                    if pred in body and b in ctx:
                        ent, hst, hphis, nw = ctx[b]
                        self.rule.on_backedge(self, fr, b, (ent, hst, hphis), st, new)
                        ch = set()
                        for a in set(st.mem) | set(ent.st.mem):
                            if a[0] in ('alias', 'ep'):
                                if st.mem.get(a) != ent.st.mem.get(a):
                                    ch.add(a)
                            elif st.rd(a) != ent.st.rd(a) and a not in ent.wid:
                                ch.add(a)
                        for v, val in new.items():
                            if val != ent.phis.get(v) and v not in ent.wid:
                                ch.add(v)
                        ent.back.append((st, new))
                        if ch <= ent.wid:
                            continue
                        ent.wid |= ch
                        st = ent.st.copy()
                        for a in ent.wid:
                            if isinstance(a, tuple):
                                if a[0] in ('alias', 'ep'):
                                    st.kill(a[1], ('w', fr.key, b, a))
                                else:
                                    st.mem[a] = ('w', fr.key, b, a)
                        new = dict(ent.phis)
                        for a in ent.wid:
                            if not isinstance(a, tuple):
                                new[a] = ('w', fr.key, b, a)
                        regs = dict(ent.regs)
                    else:
                        self.rule.on_enter(self, fr, b, st, new)
                        ent = Entry(b, st.copy(), dict(new), dict(regs))
                        self.entries.append((fr, ent))
                    ctx = dict(ctx)
                    ctx[b] = (ent, st.copy(), dict(new), len(ent.wid))
                if new:
                    regs = dict(regs)
                    regs.update(new)
                lv = live[b]
                k = (b, st.key(), frozenset((v, regs[v]) for v in lv if v in regs), frozenset(new.items()), frozenset((h, id(e[0]), e[3] if prune else 0) for h, e in ctx.items()))
                if k in seen:
                    continue
                seen.add(k)
                regs = dict(regs)
            self.steps += 1
            if self.steps > self.max_steps:
                raise AnalysisError('affine: state budget exceeded in %s' % fn.name)
            n = len(blk)
            while i < n:
                x = blk[i]
                op = x.op
                if op == 'phi':
                    i += 1
                    continue
                if op in ('call', 'invoke'):
                    outs = self.call(fr, x, regs, st)
                    for kind, s2, rv in outs:
                        if kind == 'ret':
                            r2 = dict(regs) if len(outs) > 1 else regs
                            if x.v:
                                r2[x.v] = rv if rv is not None else ('unk', x.v)
                            if op == 'invoke':
                                work.append((x.s[0], 0, b, s2, r2, ctx))
                            else:
                                work.append((b, i + 1, pred, s2, r2, ctx))
                        elif op == 'invoke':
                            self.rule.on_unwind(self, fr, x, s2)
                            work.append((x.s[1], 0, b, s2, dict(regs), ctx))
                        else:
                            exits.append(('throw', self.purge(fr, s2), None))
                    break
                if op == 'br':
                    if len(x.s) == 1:
                        work.append((x.s[0], 0, b, st, regs, ctx))
                    else:
                        v = self.val(fr, regs, x.a[0], st)
                        d = st.decide(v)
                        for kk, t in ((1, False), (0, True)):
                            if d is not None and d != t:
                                continue
                            s2 = st.copy()
                            if d is None and self.rule.keep(v):
                                s2.assume(v, t)
                            work.append((x.s[kk], 0, b, s2, dict(regs), ctx))
                    break
                if op == 'switch':
                    v = self.val(fr, regs, x.a[0], st)
                    c = cval(v)
                    cvs = [int(q[1:]) for q in x.d['cv']]
                    for cc, s in zip([None] + cvs, x.s):
                        if c is not None and (cc != c and not (cc is None and c not in cvs)):
                            continue
                        s2 = st.copy()
                        if cc is not None:
                            s2.assume(compare('eq', v, K(cc)), True)
                        work.append((s, 0, b, s2, dict(regs), ctx))
                    break
                if op == 'ret':
                    rv = self.val(fr, regs, x.a[0], st) if x.a else None
                    exits.append(('ret', self.purge(fr, st), rv))
                    break
                if op == 'resume':
                    if self.rule.resumes(self, fr, x, st):
                        exits.append(('throw', self.purge(fr, st), None))
                    break
                if op == 'unreachable':
                    break
                if op == 'select':
                    c = self.val(fr, regs, x.a[0], st)
                    d = st.decide(c)
                    if d is None:
                        s2, r2 = st.copy(), dict(regs)
                        s2.assume(c, False)
                        r2[x.v] = self.val(fr, regs, x.a[2], st)
                        work.append((b, i + 1, pred, s2, r2, ctx))
                        st.assume(c, True)
                        d = True
                    regs[x.v] = self.val(fr, regs, x.a[1] if d else x.a[2], st)
                    i += 1
                    continue
                self.step(fr, x, regs, st)
                i += 1
        return exits

    def purge(self, fr, st):
        st = st.copy()
        for o in list(st.mem):
            q = o[1] if o[0] in ('alias', 'ep') else o
            bb = base(q)
            if bb[0] == 'alloca' and bb[1] == fr.key and fr.key != ('top',):
                del st.mem[o]
        return st

    # ------------------------------------------------------------ instructions
    def val(self, fr, regs, o, st):
        if not isinstance(o, str):
            return ('unk', str(o))
        c = o[0]
        if c == '%':
            return regs.get(o, ('unk', fr.key, o))
        if c == '#':
            return K(int(o[1:]))
        if o in ('null', 'false'):
            return K(0)
        if o == 'true':
            return K(1)
        if c == '"':
            return ('str', o[1:])
        if c == '@':
            return ('glob', o[1:])
        return ('unk', o)

    def step(self, fr, x, regs, st):
        op = x.op
        V = lambda o: self.val(fr, regs, o, st)
        if op == 'alloca':
            a = ('alloca', fr.key, x.v)
            regs[x.v] = a
        elif op == 'gep':
            e = V(x.a[0])
            for p in x.d['p']:
                if p.startswith('['):
                    e = idx(e, V(p[1:-1]) if p[1:-1] else ('unk', x.v))
                elif not p.endswith('::<base>'):
                    e = fld(e, p)
            regs[x.v] = e
        elif op == 'cast':
            k = x.d['k']
            v = V(x.a[0])
            if k in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                regs[x.v] = v
            else:
                regs[x.v] = ('op', k, v)
        elif op == 'load':
            a = V(x.a[0])
            self.rule.on_load(self, fr, x, a, st)
            regs[x.v] = st.rd(a)
        elif op == 'store':
            a, v = V(x.a[1]), V(x.a[0])
            self.rule.on_store(self, fr, x, a, v, st)
            st.wr(a, v)
        elif op == 'bin':
            regs[x.v] = binop(x.d['k'], V(x.a[0]), V(x.a[1]))
        elif op == 'cmp':
            regs[x.v] = compare(x.d['k'], V(x.a[0]), V(x.a[1]))
        elif op == 'atomicrmw':
            a = V(x.a[0])
            o = st.rd(a)
            regs[x.v] = o
            k = x.d.get('k')
            w = V(x.a[1])
            r = self.rule.on_rmw(self, fr, x, k, a, w, st)
            if r is not None:
                regs[x.v] = r
            st.wr(a, w if k == 'xchg' else binop(k, o, w) if k in ('add', 'sub', 'and', 'or', 'xor') else ('op', k, o, w))
        elif op == 'extractvalue':
            v = V(x.a[0])
            regs[x.v] = ('ev', v, ('i', x.d['ix']))
            if isinstance(v, tuple) and v[0] == 'iv':
                while isinstance(v, tuple) and v[0] == 'iv':
                    if v[3] == ('i', x.d['ix']):
                        regs[x.v] = v[2]
                        break
                    v = v[1]
        elif op == 'insertvalue':
            regs[x.v] = ('iv', V(x.a[0]), V(x.a[1]), ('i', x.d['ix']))
        elif x.v:
            regs[x.v] = ('ins', fr.key, x.v)

    def stdfn(self, name, args, st, x):
        a, b = args
        if name == 'std::swap':
            tmp = ('alloca', ('swap',), '')
            st.memcpy(tmp, a)
            st.memcpy(a, b)
            st.memcpy(b, tmp)
            for o in [o for o in st.mem if base(o[1] if o[0] in ('alias', 'ep') else o) == tmp]:
                del st.mem[o]
            return [('ret', st, None)]
        if name == 'std::exchange':
            o = st.rd(a)
            st.wr(a, st.rd(b))
            return [('ret', st, o)]
        va, vb = st.rd(a), st.rd(b)
        c = compare('ult', vb, va) if name == 'std::min' else compare('ult', va, vb)
        d = st.decide(c)
        if d is not None:
            return [('ret', st, b if d else a)]
        s2 = st.copy()
        st.assume(c, True)
        s2.assume(c, False)
        return [('ret', st, b), ('ret', s2, a)]

    # ------------------------------------------------------------ calls
    def call(self, fr, x, regs, st):
        prog = self.prog
        name, targets, kind = prog.call_info(x)
        args = tuple(self.val(fr, regs, a, st) for a in x.a)
        self.stack.append((fr, x))
        try:
            r = self.rule.model(self, fr, x, name, args, st)
            if r is not None:
                return r
            if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
                st.memcpy(args[0], args[1])
                return [('ret', st, None)]
            if name.startswith('llvm.memset'):
                st.kill(args[0], ('zero', fr.key, x.i)) if args[1] != K(0) else st.kill(args[0], ('zero',))
                return [('ret', st, None)]
            if name.startswith('llvm.'):
                return [('ret', st, ('unk', fr.key, x.v or ''))]
            if name in NORETURN:
                return []
            if name in ('__cxa_throw', '__cxa_rethrow') or name.startswith('std::__throw_'):
                return [('throw', st, None)]
            m = ATOMIC.match(name)
            if m and args:
                k = AKIND.get(m.group(2)) or (m.group(2) if not m.group(2).startswith('operator ') else 'load')
                a = args[0]
                o = st.rd(a)
                if k == 'load':
                    return [('ret', st, o)]
                if k == 'store':
                    st.wr(a, args[1])
                    return [('ret', st, args[1])]
                if k == 'xchg':
                    st.wr(a, args[1])
                    return [('ret', st, o)]
                if k in ('add', 'sub'):
                    d = args[1] if m.group(2).startswith('fetch') or m.group(2) in ('operator+=', 'operator-=') else K(1)
                    nv = binop(k, o, d)
                    st.wr(a, nv)
                    old = m.group(2).startswith('fetch') or (m.group(2) in ('operator++', 'operator--') and len(args) > 1)
                    return [('ret', st, o if old else nv)]
            if TRANSPARENT.match(name) and args:
                return [('ret', st, args[0])]
            if DEREF.match(name) and args:
                return [('ret', st, ('deref', args[0]))]
            if name in ('std::swap', 'std::min', 'std::max', 'std::exchange') and len(args) == 2 and kind == 'direct' and targets[0] not in prog.fns:
                return self.stdfn(name, args, st, x)
            f = None
            if kind == 'direct':
                f = prog.fns.get(targets[0])
                if f is None and x.f[1:].find('D1') > 0:
                    f = prog.fns.get(x.f[1:].replace('D1', 'D2'))
            if f is not None and len(self.stack) <= self.rule.max_depth and self.rule.inline(self, f, name) and all(s[0].fn is not f for s in self.stack):
                return self._run(f, args, st, fr.key + ((x.b, x.i),))
            if ELEM.match(name) and args:
                return [('ret', st, ('elem',) + args[:2])]
            if x.d.get('nr'):
                return []
            a2 = args[1:] if x.d.get('sret') else args
            if self.rule.pure(name):
                rv = ('r', name, a2)
                if self.rule.epochs:
                    ep = tuple(st.mem[('ep', p)] for a in a2 if isinstance(a, tuple) for p in prefixes(a) if ('ep', p) in st.mem)
                    if ep:
                        rv = ('r', name, a2, ('e',) + ep)
            else:
                n = sum(1 for e in st.ev if e[0] == 'n' and e[1] == name)
                rv = ('r', name, a2, ('n', n, fr.key, x.b, x.i))
            if x.d.get('sret'):
                st.kill(args[0], rv)
            if self.rule.event(name):
                st.ev = st.ev + (('call', name, args, rv, x.loc),)
            if not self.rule.pure(name):
                for a in self.rule.clobbers(self, name, args):
                    if not (x.d.get('sret') and a == args[0]):
                        st.kill(a, rv)
            out = [('ret', st, rv)]
            if not x.d.get('nt') and self.rule.throws(self, x, name):
                out.append(('throw', st.copy(), None))
            return out
        finally:
            self.stack.pop()


def vshow(v):
    if not isinstance(v, tuple):
        return str(v)
    t = v[0]
    if t == 'L':
        s = []
        for k, c in v[2]:
            s.append(('%s' % vshow(k)) if c == 1 else '%d*%s' % (c, vshow(k)))
        if v[1] or not s:
            s.append(str(v[1]))
        return '(' + ' + '.join(s) + ')' if len(s) > 1 else s[0]
    if t == 'arg':
        return v[2]
    if t == 'fld':
        return '%s.%s' % (vshow(v[1]), v[2].rsplit('::', 1)[-1])
    if t == 'idx':
        return '%s[%s]' % (vshow(v[1]), vshow(v[2]))
    if t == 'elem':
        return '%s[%s]' % (vshow(v[1]), vshow(v[2]) if len(v) > 2 else '')
    if t == 'ini':
        return '*' + vshow(v[1])
    if t == 'slot':
        return 'q<%s>' % vshow(v[2]).replace('*this._queue._frontIndex', 'F')
    if t == 'deref':
        return '(*%s)' % vshow(v[1])
    if t == 'alloca':
        return 'local' + v[2]
    if t == 'r':
        return '%s(%s)' % (last(v[1]), ', '.join(vshow(a) for a in v[2]))
    if t == 'w':
        return 'loop<%s>' % (vshow(v[3]) if isinstance(v[3], tuple) else v[3])
    if t == 'not':
        return 'not ' + vshow(v[1])
    if t == 'cmp':
        return '%s %s %s' % (vshow(v[2]), {'eq': '==', 'ult': '<', 'slt': '<s'}[v[1]], vshow(v[3]))
    if t == 'op':
        return '%s(%s)' % (v[1], ', '.join(vshow(a) for a in v[2:]))
    return str(v[:3])


# ---------------------------------------------------------------- consequences of the branch facts

def equalities(st):
    return [sub(v[2], v[3]) for v, t in st.facts.items() if t and v[0] == 'cmp' and v[1] == 'eq']


def reduce_by(v, eqs):
    """eliminate terms of v with the given zero forms (gaussian elimination over the rationals, coefficients +-1 only)"""
    rows = []
    for e in eqs:
        for p, r in rows:
            c, t = parts(e)
            if p in t:
                e = sub(e, scale(r, t[p]))
        c, t = parts(e)
        piv = next((k for k, q in t.items() if abs(q) == 1), None)
        if piv is None:
            continue
        rows.append((piv, scale(e, t[piv])))
    for _ in range(3):
        for p, r in rows:
            c, t = parts(v)
            if p in t:
                v = sub(v, scale(r, t[p]))
    return v


def is_zero(st, v):
    if cval(v) == 0:
        return True
    return cval(reduce_by(v, equalities(st))) == 0


def lower(st, term):
    """constant lower bound of an unsigned term from the facts"""
    lb = 0
    differs = []
    for v, t in st.facts.items():
        if v[0] != 'cmp':
            continue
        k, a, b = v[1], v[2], v[3]
        if k in ('ult', 'slt') and t:
            c, tt = parts(sub(b, term))
            if not tt and cval(a) is not None:      # const < term + c
                lb = max(lb, cval(a) + 1 - c)
        elif k in ('ult', 'slt') and not t:
            c, tt = parts(sub(a, term))
            if not tt and cval(b) is not None:      # term + c >= const
                lb = max(lb, cval(b) - c)
        elif k == 'eq':
            for x, y in ((a, b), (b, a)):
                c, tt = parts(sub(x, term))
                if not tt and cval(y) is not None:
                    if t:
                        lb = max(lb, cval(y) - c)
                    else:
                        differs.append(cval(y) - c)
    for d in sorted(differs):
        if d == lb:
            lb += 1
    return lb


def positive(st, v):
    """is the unsigned value known to be non-zero?"""
    c = cval(v)
    if c is not None:
        return c > 0
    c, t = parts(v)
    if any(q < 0 for q in t.values()):
        return False
    return c + sum(q * lower(st, k) for k, q in t.items()) > 0
