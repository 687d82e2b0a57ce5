"""values of class type as terms: what was copied, moved, returned and searched for, on top of the affine engine

A location that holds an object has a term: the term of the object it was copied, moved or returned from.  Membership tests by std::find or count/find
of a container become facts ('in', container, element); changes of containers and calls through proxies become events in order of execution."""
from affine import *
from aloops import visits
from common import *
import functools

SMART = re.compile(r'^std::(__shared_ptr_access|__shared_ptr|shared_ptr|unique_ptr|__uniq_ptr_impl)::(operator->|operator\*|get|_M_get|_M_ptr)$')
VALUE = re.compile(r'^std::(basic_string|vector|map|set|unordered_map|shared_ptr|__shared_ptr|pair|future|shared_future|list|deque|function)$')
MUTATE = ('push_back', 'emplace_back', 'insert', 'erase', 'clear', 'emplace', 'pop_back', 'resize', 'assign', 'push_front', 'pop_front', 'append', 'operator+=', 'swap', 'reserve')
SEQ = re.compile(r'^std::(vector|list|deque|set|map|unordered_map|unordered_set|basic_string)::(\w+|operator.*)$')
ITER = re.compile(r'^(__gnu_cxx::__normal_iterator|std::_Rb_tree_(const_)?iterator|std::__detail::_Node_(const_)?iterator|std::_List_(const_)?iterator|__gnu_cxx|std::_?\w*)::(operator\*|operator->|operator==|operator!=|operator\+\+|base)$')
FINDS = re.compile(r'^std::(find|__find_if)$')


def params_of(dem):
    from rules.c14 import params
    try:
        return params(dem)
    except ValueError:
        return []


class TermRule(ARule):
    """subclasses: boundary(name) -> record as event instead of entering; inside(fn, name) -> enter"""
    max_depth = 6
    throw_at = re.compile(r'^$')

    def __init__(self, prog):
        self.prog = prog
        self.cmps = {}          # operands of a comparison of iterators -> what they are known to be
        self.loops = {}         # marker -> list of (visit, facts, events)
        self.visited = {}       # element term -> container

    # ---- terms
    def term(self, st, v):
        suf = []
        x = v
        t = None
        while isinstance(x, tuple):
            t = st.mem.get(('tv', x))
            if t is not None or x[0] not in ('fld', 'deref'):
                break
            suf.append(x[2] if x[0] == 'fld' else None)
            x = x[1]
        if t is None:
            if isinstance(x, tuple) and x[0] == 'ini' and isinstance(x[1], tuple):
                t = ('ini', self.term(st, x[1]))
            else:
                t = x
        for s in reversed(suf):
            t = tfld(t, s) if s is not None else ('deref', t)
        if not suf or True:
            over = {}
            for o, u in st.mem.items():
                if o[0] == 'tv' and o[1] != v and isinstance(v, tuple):
                    path = below(o[1], v)
                    if path:
                        over[path] = u
            if over:
                t = ('obj', t, tuple(sorted(over.items())))
        return t

    def scalar(self, st, x):
        """what is passed by reference: what a temporary of scalar type holds"""
        if isinstance(x, tuple) and x[0] == 'alloca' and ('tv', x) not in st.mem:
            v = st.rd(x)
            if cval(v) is not None or isinstance(v, tuple) and v[0] == 'glob':
                return v
        return x

    def place(self, st, v):
        """the object at v itself, not what it was copied from"""
        path = []
        x = v
        while isinstance(x, tuple) and x[0] == 'fld':
            path.append(x[2])
            x = x[1]
        t = self.term(st, x) if path and x[0] != 'alloca' else x
        while isinstance(t, tuple) and t[0] == 'obj':
            t = t[1]
        for f in reversed(path):
            t = fld(t, f)
        return t

    def own(self, st, v):
        """the container at v that is about to change: no longer the one it was copied from"""
        t = self.term(st, v)
        p = self.place(st, v)
        if t == p or isinstance(t, tuple) and (t[0] == 'mod' or t[0] == 'new' and t[2] == v):
            return t
        t = ('mod', p, t)
        self.put(st, v, t)
        return t

    def put(self, st, dst, t):
        for o in [o for o in st.mem if o[0] == 'tv' and dst in prefixes(o[1])]:
            del st.mem[o]
        st.mem[('tv', dst)] = t

    def emit(self, st, *e):
        st.ev = st.ev + (e,)

    # what is thrown is a Pothos::Exception: a handler for it, or for everything, is not passed by
    def on_unwind(self, eng, fr, ins, st):
        pad = [x for x in fr.fn.blocks[ins.s[1]] if x.op == 'landingpad']
        c = [str(y) for x in pad for y in x.d.get('c', ())]
        must = any('N6Pothos9ExceptionE' in y or y in ('null', '#0', '0') for y in c)
        st.mem[('epo', 'landed')] = must

    def resumes(self, eng, fr, ins, st):
        return not st.mem.get(('epo', 'landed'))

    def inside(self, fn, name):
        return False

    def inline(self, eng, fn, name):
        return fn.in_repo and self.inside(fn, name)

    def special(self, eng, fr, ins, name, a, dst, st):
        return None

    # ---- model
    def model(self, eng, fr, ins, name, args, st):
        dst, a = (args[0], args[1:]) if ins.d.get('sret') else (None, args)
        r = self.special(eng, fr, ins, name, a, dst, st)
        if r is not None:
            return r
        T = lambda v: self.term(st, v)
        n = last(name)
        cls = name[:-len(n) - 2] if name.endswith('::' + n) else ''
        if name in ('std::shared_ptr::reset', 'std::__shared_ptr::reset', 'std::unique_ptr::reset'):
            self.emit(st, 'mut', 'reset', self.place(st, a[0]), tuple(T(x) for x in a[1:]), ins.loc, fr.fn.name)
            self.put(st, a[0], ('new', cls, a[0]) if len(a) == 1 else ('mk', cls) + tuple(T(x) for x in a[1:]))
            return [('ret', st, None)]
        if SMART.match(name):
            return [('ret', st, ('deref', T(a[0])))]
        if name == '__gnu_cxx::__normal_iterator::__normal_iterator' and len(a) == 2:
            st.wr(fld(a[0], '__gnu_cxx::__normal_iterator::_M_current'), self.value(st, a[1]))
            return [('ret', st, None)]
        if n == cls.split('::')[-1] or n == 'operator=' or cls == 'std::basic_string' and n == 'assign' and len(a) == 2:
            # constructor or assignment
            if n == 'operator=' and self.entered(ins, name):
                return None
            if n != 'operator=' and len(a) >= 1 and self.entered(ins, name):
                return None
            if len(a) == 1:
                self.put(st, a[0], ('new', cls, a[0]))
                return [('ret', st, a[0])]
            if len(a) == 2 or cls == 'std::basic_string' and len(a) == 3 and isinstance(a[1], tuple) and a[1][0] == 'str':
                t = T(a[1])
                if n == 'operator=' and base(a[0])[0] != 'alloca':
                    self.emit(st, 'set', self.place(st, a[0]), t, ins.loc, fr.fn.name)
                self.put(st, a[0], t)
                return [('ret', st, a[0])]
            self.put(st, a[0], ('mk', cls) + tuple(T(x) for x in a[1:]))
            return [('ret', st, a[0])]
        if n.startswith('~') and not self.entered(ins, name):
            return [('ret', st, None)]
        if FINDS.match(name) and len(a) >= 3:
            c = self.container(st, a[0])
            if c is not None:
                return [('ret', st, ('find', c, T(a[2])))]
        m = SEQ.match(name)
        if m and a:
            k = m.group(2)
            if k in ('find', 'count') and m.group(1) != 'basic_string' and len(a) == 2:
                c = T(a[0])
                if k == 'count':
                    return [('ret', st, ('in', c, T(a[1]), self.ep(st, a[0])))]
                return [('ret', st, ('find', c, T(a[1])))]
            if k in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend'):
                return [('ret', st, ('r', name, (T(a[0]),)))]
            if k in ('operator[]', 'at') and len(a) == 2:
                if m.group(1) in ('map', 'unordered_map') and k == 'operator[]':
                    self.emit(st, 'mut', 'operator[]', self.own(st, a[0]), (T(a[1]),), ins.loc, fr.fn.name)
                return [('ret', st, ('elem', T(a[0]), T(self.scalar(st, a[1]))))]
            if k in ('front', 'back'):
                return [('ret', st, ('elem', T(a[0]), ('str', k)))]
            if k in MUTATE:
                c = self.own(st, a[0]) if k != 'reserve' else None
                if k != 'reserve':
                    self.emit(st, 'mut', k, c, tuple(T(x) for x in a[1:]), ins.loc, fr.fn.name)
                    st.mem[('epo', c)] = ('e', sum(1 for e in st.ev if e[0] == 'mut'))
                return [('ret', st, ('r', name, a, ('n', len(st.ev))))]
        if n in ('operator==', 'operator!=') and len(a) == 2:
            x, y = self.value(st, a[0]), self.value(st, a[1])
            for p, q in ((x, y), (y, x)):
                if isinstance(p, tuple) and p[0] == 'find' and isinstance(q, tuple) and q[0] == 'r' and last(q[1]) in ('end', 'cend') and q[2] == (p[1],):
                    f = ('in', p[1], p[2], self.ep(st, p[1]))
                    return [('ret', st, f if n == 'operator!=' else neg(f))]
            self.cmps.setdefault(tuple(a), {}).update((i, v) for i, v in enumerate((x, y)) if isinstance(v, tuple) and v[0] == 'r')
            if '__gnu_cxx' in name or re.search('[iI]terator', self.prog.dem(ins.f[1:] if ins.f.startswith('@') else '').split('(')[-1] + name):
                return None
            if not self.entered(ins, name):
                f = ('eq',) + tuple(sorted((T(a[0]), T(a[1])), key=str))
                return [('ret', st, f if n == 'operator==' else neg(f))]
        if n in ('operator*', 'operator->') and ('iterator' in name or 'Iterator' in name) and a:
            x = self.value(st, a[0])
            if isinstance(x, tuple) and x[0] == 'find':
                return [('ret', st, ('elem', x[1], x[2]))]
            return [('ret', st, ('el', a[0]))]
        if dst is not None and not self.entered(ins, name):
            self.put(st, dst, ('call', name) + tuple(T(x) for x in a))
            out = [('ret', st, None)]
            if self.throws(eng, ins, name):
                out.append(('throw', st.copy(), None))
            return out
        return None

    def entered(self, ins, name):
        f = self.prog.fns.get(ins.f[1:]) if ins.f.startswith('@') else None
        return f is not None and self.inline(None, f, name)

    def ep(self, st, c):
        return st.mem.get(('epo', c), ('e', 0))

    def value(self, st, a):
        """what an iterator object holds"""
        if isinstance(a, tuple) and a[0] in ('find', 'r'):
            return a
        for o, v in st.mem.items():
            if o[0] not in ('tv', 'epo', 'ep', 'alias') and a in prefixes(o) and isinstance(v, tuple) and v[0] in ('find', 'r'):
                return v
        t = st.mem.get(('tv', a))
        return t if t is not None else a

    def container(self, st, it):
        v = self.value(st, it)
        if isinstance(v, tuple) and v[0] == 'r' and last(v[1]) in ('begin', 'cbegin'):
            return v[2][0]
        return None

    # ---- loops
    def on_enter(self, eng, fr, header, st, phis):
        mk = ('loop', fr.key, header)
        self.emit(st, *mk)
        self.loops.setdefault(mk, [])

    def on_backedge(self, eng, fr, header, it, st, phis):
        ent, hst, hphis = it
        ev = st.ev[len(hst.ev):]
        v = self.visit(fr, ent, hst, hphis, st)
        facts = dict(st.facts)
        if v is not None:
            c, keys = v
            for k in keys:
                self.visited[k] = c
            def canon(x):
                if x in keys:
                    return X
                if not isinstance(x, tuple):
                    return x
                x = tuple(canon(y) for y in x)
                return x[:1] + tuple(sorted(x[1:], key=str)) if x[0:1] == ('eq',) else x
            facts = dict((canon(f), t) for f, t in facts.items())
            ev = tuple(canon(e) for e in ev)
            v = c
        self.loops[('loop', fr.key, header)].append((v, facts, ev, st))

    def visit(self, fr, ent, hst, hphis, st):
        """(container visited, terms that stand for its element)"""
        for f, t in st.facts.items():
            if isinstance(f, tuple) and f[0] == 'r' and len(f[2]) == 2 and last(f[1]) in ('operator!=', 'operator==') and t == (last(f[1]) == 'operator!='):
                for x, y in (f[2], f[2][::-1]):
                    b, e = self.value(ent.st, x), self.value(ent.st, y)
                    if not (isinstance(e, tuple) and e[0] == 'r'):
                        e = self.value(st, y)
                    if not (isinstance(e, tuple) and e[0] == 'r'):
                        e = self.cmps.get(tuple(f[2]), {}).get(0 if y is f[2][0] else 1, e)
                    if isinstance(b, tuple) and isinstance(e, tuple) and b[0] == e[0] == 'r' and b[2] == e[2] and last(b[1]) in ('begin', 'cbegin') and last(e[1]) in ('end', 'cend') \
                            and f not in hst.facts:
                        return b[2][0], (('el', x),)
        for v, w in hphis.items():
            if ent.phis.get(v) == K(0):
                for f, t in st.facts.items():
                    if f in hst.facts or not isinstance(f, tuple) or f[0] != 'cmp' or not t or f[1] not in ('ult', 'slt'):
                        continue
                    if f[2] == w and isinstance(f[3], tuple) and f[3][0] == 'r' and last(f[3][1]) == 'size':
                        c = self.term(st, f[3][2][0])
                        return c, (('elem', c, w),)
        return None


X = ('X',)


def below(x, v):
    """field names that lead from v to x, or None"""
    path = []
    while isinstance(x, tuple) and x != v:
        if x[0] != 'fld':
            return None
        path.append(x[2])
        x = x[1]
    return tuple(reversed(path)) if x == v else None


def tfld(t, f):
    """field f of the value t"""
    if isinstance(t, tuple) and t[0] == 'obj':
        d = {}
        for path, u in t[2]:
            if path == (f,):
                return u
            if path[0] == f:
                d[path[1:]] = u
        r = tfld(t[1], f)
        return ('obj', r, tuple(sorted(d.items()))) if d else r
    return fld(t, f)


def root(t):
    return t[1] if isinstance(t, tuple) and t[0] == 'mod' else t


def subst(x, a, b):
    if x == a:
        return b
    if isinstance(x, tuple):
        return tuple(subst(y, a, b) for y in x)
    return x


def has(x, t):
    if x == t:
        return True
    return isinstance(x, tuple) and any(has(y, t) for y in x)
