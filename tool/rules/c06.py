"""C06 reference counted handles (Object, ManagedBuffer, BufferChunk): every reference is released exactly once"""
from common import *
import affine as AF

SOURCES = ['+handles.cpp', 'lib/Object/Object.cpp', 'lib/Object/Serialize.cpp', 'lib/Framework/*.cpp', 'lib/Exception.cpp']
EXPLANATION = ('Reference accounting: for every function that writes a handle, the counter increments and decrements on each path are balanced against the handles that hold the '
               'container before and after, for distinct and for aliased arguments; plus release/acquire ordering of the last release and of uniqueness tests.')
NULL = ('null',)


def handle_classes(prog):
    """{handle class: (pointer field, container class)}: a class with one pointer field to a class that has an atomic member named counter"""
    out = {}
    for c, d in prog.cls.items():
        fl = [(f[0], f[1]) for f in d['fields'] if f[0] != '<base>']
        for n, t in fl:
            d2 = prog.cls.get(t[1:]) if t.startswith('*') and t[1:] != c else None
            if d2 and any(re.match(r'std::atomic<(unsigned )?(int|long)>', f[1]) for f in d2['fields']) and len(fl) == 1 and prog.byname.get(c + '::operator='):
                out[c] = (n, t[1:])
    return out


class Count(Rule):
    """state: frozenset of tagged facts
       ('m', handle, value)      current pointer of a handle
       ('v', frame, reg, value)  value of a register
       ('c', value, n)           increments minus decrements so far
       ('z', value)              value known to be null      ('nz', value) known to be non-null
       ('freed', value)          given up by its last owner known here
       ('last', value) ('acq',)  the decrement that reached zero"""

    def __init__(self, prog, classes, root, alias):
        self.prog = prog
        self.fields = {}
        self.cont = set()
        for c, (f, c2) in classes.items():
            self.fields[c + '::' + f] = c
            self.cont.add(c2)
        self.root = root
        self.alias = alias
        self.begin = set()   # handles initialised before the function
        self.dead = None
        self.n = 0

    # ---- values
    def get(self, st, tag, *k):
        n = len(k) + 1
        for f in st:
            if f[0] == tag and f[1:n] == k:
                return f[n]
        return None

    def put(self, st, tag, *k):
        key, v = k[:-1], k[-1]
        n = len(key) + 1
        return frozenset(f for f in st if not (f[0] == tag and f[1:n] == key)) | {(tag,) + key + (v,)}

    def cur(self, st, h):
        v = self.get(st, 'm', h)
        return v if v is not None else ('i', h)

    def handle(self, ptr):
        """the handle whose pointer field this address is"""
        if isinstance(ptr, tuple) and ptr[0] == 'fld' and ptr[2] in self.fields:
            return ptr[1]
        return None

    def val(self, fr, st, o, depth=0):
        if o == 'null':
            return NULL
        if not isinstance(o, str) or not o.startswith('%'):
            return ('unk', str(o))
        v = self.get(st, 'v', fr.key, o)
        if v is not None:
            return v
        d = fr.fn.defs.get(o)
        if d is None:
            return ('raw', fr.ex(o))
        if d.op == 'cast' and depth < 8:
            return self.val(fr, st, d.a[0], depth + 1)
        if d.op == 'gep' and d.d.get('off') == 0 and depth < 8:
            return self.val(fr, st, d.a[0], depth + 1)
        if d.op in ('call', 'invoke'):
            return ('new', d.loc)
        return ('unk', fr.key, o)

    def base(self, fr, st, o):
        """value of the pointer an address is computed from"""
        while True:
            d = fr.fn.defs.get(o)
            if d is not None and d.op in ('gep', 'cast'):
                o = d.a[0]
                continue
            return self.val(fr, st, o)

    def is_counter(self, ptr):
        return isinstance(ptr, tuple) and ptr[0] == 'fld' and cls_of(ptr[2]) in self.cont

    # ---- engine hooks
    def inline(self, eng, fr, fn, name):
        if not fn.in_repo:
            return False
        c = cls_of(fn.name)
        if c in self.fields.values():
            return True
        if c in self.cont:
            return last(fn.name) not in ('cleanup',) and last(fn.name) != last(c) and not last(fn.name).startswith('~')
        return fn.tu == self.root.tu and fn.internal if hasattr(fn, 'internal') else '@' in fn.n

    def may_throw(self, eng, fr, ins, name):
        return False

    def on_load(self, eng, fr, ins, ptr, st):
        h = self.handle(ptr)
        if h is not None:
            self.n += 1
            if any(f[0] == 'freed' for f in st) and h[0] == 'arg' and h != ('arg', 0, 'this') and self.get(st, 'm', h) is None:
                eng.report(fr, ins, 'order', 'the source of an assignment is read after the old reference was released, which may have destroyed it')
            return self.put(st, 'v', fr.key, ins.v, self.cur(st, h))
        if isinstance(ptr, tuple) and ptr[0] == 'fld' and cls_of(ptr[2]) in self.cont:
            v = self.base(fr, st, ins.a[0])
            self.use(eng, fr, ins, st, v)
            if last(ptr[2]) == 'nextBuffer':
                return self.put(st, 'v', fr.key, ins.v, ('next',))
        return st

    def use(self, eng, fr, ins, st, v):
        if ('freed', v) in st:
            eng.report(fr, ins, 'freed', 'a container is used after the reference that keeps it alive was released')

    def on_store(self, eng, fr, ins, ptr, val, st):
        h = self.handle(ptr)
        if h is not None:
            self.n += 1
            v = self.val(fr, st, ins.a[0])
            if v != NULL and any(f[0] == 'freed' for f in st) and h[0] == 'arg' and h != ('arg', 0, 'this'):
                eng.report(fr, ins, 'order', 'the source of an assignment is written after the old reference was released, which may have destroyed it')
            if v[0] == 'new' and self.get(st, 'c', v) is None:
                st = self.put(st, 'c', v, 1)
            return self.put(st, 'm', h, v)
        if isinstance(ptr, tuple) and ptr[0] == 'fld' and cls_of(ptr[2]) in self.cont:
            self.use(eng, fr, ins, st, self.base(fr, st, ins.a[0]))
        return st

    def on_ins(self, eng, fr, ins, st):
        if ins.op == 'fence' and ins.d.get('ford') in ('acquire', 'acq_rel', 'seq_cst'):
            return st | {('acq',)}
        if ins.op == 'select' and ins.v:
            return st
        return st

    def owned(self, st, v):
        """references to v this function knows to be held: by the handles before it started, plus its own"""
        n = self.get(st, 'c', v) or 0
        if v[0] == 'i' and v[1] not in self.fresh:
            n += 1
        return n

    def on_aop(self, eng, fr, ins, kind, ptr, ops, order, st):
        if not self.is_counter(ptr):
            return None
        self.n += 1
        v = self.base(fr, st, ins.a[0])
        if kind == 'load':
            self.use(eng, fr, ins, st, v)
            return None
        d = None
        if kind in ('add', 'sub') and ops and ops[0][0] == 'const':
            d = ops[0][1]
            if d > 1 << 31:
                d -= 1 << 32
            d = d if kind == 'add' else -d
        if d == 1:
            self.use(eng, fr, ins, st, v)
            return [(self.put(st, 'c', v, (self.get(st, 'c', v) or 0) + 1), None)]
        if d == -1:
            self.use(eng, fr, ins, st, v)
            if order not in RELEASE:
                eng.report(fr, ins, 'order', 'a reference is given up without release ordering')
            st = self.put(st, 'c', v, (self.get(st, 'c', v) or 0) - 1)
            if v[0] == 'i' and self.owned(st, v) <= 0:
                st = st | {('freed', v)}
            pre = ins.op in ('call', 'invoke') and last(self.prog.call_info(ins)[0]) == 'operator--' and len(ins.a) == 1
            acq = st | ({('acq',)} if order in ACQUIRE else set())
            return [(acq | {('last', v)}, 0 if pre else 1), (st, 1 if pre else 2)]
        eng.report(fr, ins, 'counter', 'the reference counter is changed by other than one')
        return None

    def on_call(self, eng, fr, ins, name, args, st):
        k = self.prog.call_info(ins)
        tgt = self.prog.fns.get(k[1][0]) if k[2] == 'direct' and k[1] else None
        if name in ('std::swap', 'std::exchange') and len(args) == 2:
            a, b = self.handle(args[0]), self.handle(args[1])
            if name == 'std::swap' and a is not None and b is not None:
                va, vb = self.cur(st, a), self.cur(st, b)
                return [('ret', self.put(self.put(st, 'm', a, vb), 'm', b, va), None)]
            if name == 'std::exchange' and a is not None:
                v = self.cur(st, a)
                nv = NULL if args[1] == NULL or args[1][0] in ('alloca', 'const') else self.val(fr, st, ins.a[1])
                st = self.put(st, 'm', a, nv)
                if ins.v:
                    st = self.put(st, 'v', fr.key, ins.v, v)
                return [('ret', st, None)]
        if tgt is not None and self.inline(eng, fr, tgt, name) and tgt.n not in eng.active:
            key = (tgt.n, fr.depth + 1)
            st = frozenset(f for f in st if not (f[0] == 'v' and f[1] == key) and not (f[0] == 'm' and f[1][0] == 'alloca' and f[1][1] == key))
            for i, o in enumerate(ins.a):
                e = args[i]
                if isinstance(o, str) and (o == 'null' or o.startswith('%')):
                    v = self.val(fr, st, o)
                    if v[0] not in ('unk', 'raw', 'new') or v[0] == 'raw' and o.startswith('%'):
                        st = self.put(st, 'v', key, '%%%d' % i, v)
            self.eng_new = None
            eng.cache.clear()
            return self.inlined(eng, fr, ins, name, tgt, args, st)
        # destruction of the container
        dtor = k[2] == 'virtual' and last(name).startswith('~') or last(name) in ('cleanup', 'operator delete') or last(name).startswith('~') and cls_of(name) in self.cont
        if dtor and ins.a and (cls_of(name) in self.cont or name.startswith('operator delete') or k[2] == 'virtual'):
            v = self.val(fr, st, ins.a[0])
            if ('last', v) in st:
                if ('acq',) not in st:
                    eng.report(fr, ins, 'order', 'the container is destroyed without acquire ordering after the last release')
                return [('ret', frozenset(f for f in st if f != ('last', v)), None)]
            if v[0] == 'i' and cls_of(name) in self.cont:
                eng.report(fr, ins, 'destroy', 'a container is destroyed although other references may exist')
        return None

    def inlined(self, eng, fr, ins, name, tgt, args, st):
        out = []
        for kind, s2, rv in eng.explore(tgt, args, st, fr):
            out.append((kind, s2, rv))
        return out

    def on_frame_exit(self, eng, fr, kind, st, ins):
        for f in st:
            if f[0] == 'last' and kind == 'ret':
                eng.report(fr, ins, 'leak', 'the last reference was released but the container is not destroyed')
        if fr.parent is None:
            return st
        return frozenset(f for f in st if not (f[0] == 'v' and f[1] == fr.key) and f[0] != 'acq')

    def on_branch(self, eng, fr, ins, atom, truth, st):
        v = None
        o = ins.a[0]
        neg = False
        for _ in range(6):
            d = fr.fn.defs.get(o) if isinstance(o, str) else None
            if d is None:
                break
            if d.op == 'cmp' and 'null' in d.a:
                x = d.a[0] if d.a[1] == 'null' else d.a[1]
                v = self.val(fr, st, x)
                break
            if d.op in ('call', 'invoke'):
                if last(self.prog.call_info(d)[0]) == 'operator bool':
                    e = fr.ex(d.a[0])
                    v = self.cur(st, e)
                break
            if d.op == 'cast' or d.op == 'bin' and d.d.get('k') == 'xor':
                o = d.a[0]
                continue
            break
        if v is None:
            return st
        isnull = truth if atom[0] == 'isnull' else not truth if atom[0] == 'call' else None
        if isnull is None:
            return st
        if v == NULL:
            return st if isnull else None
        if v[0] == 'new':
            return None if isnull else st
        if isnull:
            return None if ('nz', v) in st else st | {('z', v)}
        return None if ('z', v) in st else st | {('nz', v)}


def roots(prog, classes, fields):
    out = {}
    for f in prog.repo_fns():
        if 'Test' in f.tu:
            continue
        for x in f.instrs():
            if x.op == 'store':
                d = f.defs.get(x.a[1])
                if d is not None and d.op == 'gep' and d.d.get('p') and d.d['p'][-1] in fields:
                    out[f.n] = f
        c = cls_of(f.name)
        if c in classes and (last(f.name) == last(c) or last(f.name).startswith('~') or last(f.name) in ('operator=', 'reset', 'swap')):
            out[f.n] = f
    return sorted(out.values(), key=lambda f: f.n)


def check_handles(prog, rep):
    classes = handle_classes(prog)
    classes = {c: v for c, v in classes.items() if 'Impl' not in c.rsplit('::', 1)[-1]}
    rep.need(any(c.endswith('Object') for c in classes) and any(c.endswith('ManagedBuffer') for c in classes), 'reference counted handles')
    fields = {c + '::' + f: c for c, (f, c2) in classes.items()}
    n = 0
    for f in roots(prog, classes, fields):
        c = cls_of(f.name)
        member = c in classes
        isctor = member and last(f.name) == last(c)
        isdtor = member and last(f.name).startswith('~')
        d = prog.dem(f.n.split('@')[0])
        args = tuple(('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs))
        scen = [('', args)]
        if member and not isctor and f.nargs == 2 and last(f.name) in ('operator=', 'swap') :
            scen.append((' (assigned to itself)', (args[0], args[0])))
        for label, a in scen:
            rule = Count(prog, classes, f, bool(label))
            rule.fresh = set()
            if isctor:
                rule.fresh.add(a[0])
            eng = Engine(prog, rule)
            for kind, st, rv in eng.run(f, frozenset(), a):
                if kind != 'ret':
                    continue
                vals = set(x[1] for x in st if x[0] == 'c') | set(x[2] for x in st if x[0] == 'm') | set(('i', x[1]) for x in st if x[0] == 'm')
                for v in vals:
                    if v == NULL or ('z', v) in st or v[0] == 'unk':
                        continue
                    before = 1 if v[0] == 'i' and v[1] not in rule.fresh and v[1][0] != 'alloca' else 0
                    after = 0
                    hs = set(x[1] for x in st if x[0] == 'm')
                    if v[0] == 'i':
                        hs.add(v[1])
                    for h in hs:
                        if isdtor and h == a[0] or h[0] == 'alloca':
                            continue
                        if h in rule.fresh and rule.get(st, 'm', h) is None:
                            continue
                        if rule.cur(st, h) == v:
                            after += 1
                    if v[0] == 'i' and (v[1] in rule.fresh or v[1][0] == 'alloca'):
                        continue
                    cnt = rule.get(st, 'c', v) or 0
                    if v[0] == 'raw' and after and not cnt:
                        pass
                    if cnt != after - before:
                        what = 'the container of %s' % show(v[1]) if v[0] in ('i', 'raw') else 'the new container' if v[0] == 'new' else 'a container'
                        rep.violation('balance', f.loc, f.name, '%s%s: %s is counted %+d but the number of its holders changes by %+d' % (
                            last(f.name), label, what, cnt, after - before))
                    for x in st:
                        if x[0] == 'm' and x[2] == v and ('freed', v) in st and not isdtor and x[1][0] != 'alloca':
                            rep.violation('freed', f.loc, f.name, '%s%s keeps a container whose last reference was released' % (last(f.name), label))
            rep.engine(eng)
            n += rule.n
        a = '%s (%s)' % (f.name, f.loc)
        if a not in rep.analysed:
            rep.analysed.append(a)
    rep.count('handle_accesses', n)
    rep.count('handle_functions', len(rep.analysed))
    rep.need(n >= 30, 'handle accesses')
    return classes


def check(prog, rep):
    rep.rule('R1 on every path the counter changes by exactly the change in the number of handles that hold the container (also when assigned to itself)')
    rep.rule('R2 the new reference is taken before the old one is released; nothing is used after its release')
    rep.rule('R3 the container is destroyed exactly when the last reference is released, with release/acquire ordering')
    rep.rule('R4 a test for sole ownership is an acquire operation')
    rep.rule('R5 a chunk releases the references to its next buffers exactly once and before its own buffer is replaced')
    classes = check_handles(prog, rep)
    check_unique(prog, rep, classes)
    check_chunks(prog, rep, classes)


def check_unique(prog, rep, classes):
    conts = set(c2 for f, c2 in classes.values())
    n = 0

    class R(Rule):
        def inline(self, eng, fr, fn, name):
            return False

        def may_throw(self, *a):
            return False

        def on_aop(self, eng, fr, ins, kind, ptr, ops, order, st):
            if kind == 'load' and isinstance(ptr, tuple) and ptr[0] == 'fld' and cls_of(ptr[2]) in conts:
                self.n += 1
                if order not in ACQUIRE:
                    eng.report(fr, ins, 'order', 'the reference counter is observed without acquire ordering')
            return None
    for f in prog.repo_fns():
        if 'Test' in f.tu or cls_of(f.name) not in classes:
            continue
        r = R()
        r.n = 0
        eng = Engine(prog, r)
        eng.run(f, 0)
        rep.engine(eng)
        n += r.n
    rep.count('uniqueness_tests', n)
    rep.need(n >= 2, 'tests for sole ownership')


class Chunk(Rule):
    """typestate of the references a chunk holds on the buffers after its own: ('s', chunk, own|none|moved|uninit), ('gone', chunk)"""

    def __init__(self, prog, cls, cnt, buf, acq, rel, alias):
        self.prog, self.cls, self.cnt, self.buf, self.acq, self.rel, self.alias = prog, cls, cls + '::' + cnt, cls + '::' + buf, acq, rel, alias
        self.init = {}
        self.n = 0

    def inline(self, eng, fr, fn, name):
        return fn.in_repo and cls_of(fn.name) == self.cls and fn.n not in self.acq and fn.n not in self.rel and last(fn.name) != last(self.cls) and not last(fn.name).startswith('~')

    def may_throw(self, eng, fr, ins, name):
        return False

    def get(self, st, c):
        for f in st:
            if f[0] == 's' and f[1] == c:
                return f[2]
        return self.init.get(c, 'own')

    def put(self, st, c, s):
        return frozenset(f for f in st if not (f[0] == 's' and f[1] == c)) | {('s', c, s)}

    def chunk(self, e, fld):
        return e[1] if isinstance(e, tuple) and e[0] == 'fld' and e[2] == fld else None

    def on_call(self, eng, fr, ins, name, args, st):
        k = self.prog.call_info(ins)
        t = k[1][0] if k[2] == 'direct' and k[1] else None
        if t in self.rel and args:
            self.n += 1
            s = self.get(st, args[0])
            if s == 'uninit':
                eng.report(fr, ins, 'chunk', 'releases the references to next buffers before they were counted')
            if s == 'moved':
                eng.report(fr, ins, 'chunk', 'releases references to next buffers that were handed to another chunk')
            if ('gone', args[0]) in st and s == 'own':
                eng.report(fr, ins, 'chunk', 'releases the references to next buffers after its buffer was replaced')
            return [('ret', self.put(st, args[0], 'none') | {('rel', args[0])}, None)]
        if t in self.acq and args:
            self.n += 1
            s = self.get(st, args[0])
            if s == 'own':
                eng.report(fr, ins, 'chunk', 'counts the next buffers again without having released the old references')
            if self.alias and ('rel', args[0]) in st and ('gone', args[0]) in st:
                eng.report(fr, ins, 'chunk', 'assigned to itself, a chunk releases the references to its next buffers before it takes them again')
            return [('ret', self.put(st, args[0], 'own'), None)]
        c = self.chunk(args[0], self.buf) if args else None
        if c is not None and last(name) in ('operator=', 'reset', 'swap'):
            self.n += 1
            if self.get(st, c) == 'own':
                eng.report(fr, ins, 'chunk', 'the buffer of a chunk is replaced while it still holds references to next buffers')
            st = st | {('gone', c)}
        if len(args) > 1:
            c2 = self.chunk(args[1], self.buf)
            if c2 is not None and last(name) in ('operator=', last(self.bufcls)) and '&&' in (self.prog.dem(ins.f[1:]) if ins.f.startswith('@') else ''):
                st = st | {('gone', c2)}
            if c is not None or c2 is not None:
                return [('ret', st, None)]
        return [('ret', st, None)] if c is not None else None

    def on_store(self, eng, fr, ins, ptr, val, st):
        c = self.chunk(ptr, self.cnt)
        if c is None:
            return st
        self.n += 1
        s = self.get(st, c)
        if s == 'own' and ('b', c) not in st:
            eng.report(fr, ins, 'chunk', 'the number of referenced next buffers is overwritten while they are referenced')
        if val == ('const', 0):
            return self.put(st, c, 'none')
        src = None
        for e in sub_exprs(val):
            if isinstance(e, tuple) and e[0] == 'load':
                src = self.chunk(e[1], self.cnt) or src
        if src is not None and src != c:
            return self.put(self.put(st, c, 'own'), src, 'moved' if self.get(st, src) == 'own' else self.get(st, src))
        return st

    def on_branch(self, eng, fr, ins, atom, truth, st):
        if atom[0] == 'cmp' and atom[1] == 'eq' and atom[2] == atom[3] and not truth:
            return None
        return st


class Walk(Rule):
    """counted references versus increments/decrements of the chain: state = difference (capped)"""

    def __init__(self, prog, conts, cnt):
        self.prog, self.conts, self.cnt = prog, conts, cnt

    def inline(self, eng, fr, fn, name):
        return False

    def may_throw(self, eng, fr, ins, name):
        return False

    @staticmethod
    def cap(d):
        return max(-2, min(2, d))

    def on_call(self, eng, fr, ins, name, args, st):
        if cls_of(name) in self.conts and last(name) in ('incr', 'decr'):
            return [('ret', self.cap(st + (1 if last(name) == 'incr' else -1)), None)]
        return None

    def on_aop(self, eng, fr, ins, kind, ptr, ops, order, st):
        if isinstance(ptr, tuple) and ptr[0] == 'fld' and cls_of(ptr[2]) in self.conts and kind in ('add', 'sub'):
            return [(self.cap(st + (1 if kind == 'add' else -1)), None)]
        return None

    def on_store(self, eng, fr, ins, ptr, val, st):
        if isinstance(ptr, tuple) and ptr[0] == 'fld' and ptr[2] == self.cnt and isinstance(val, tuple) and val[0] == 'bin':
            if val[1] == 'add' and ('const', 1) in val[2:]:
                return self.cap(st - 1)
            if val[1] == 'sub' or ('const', -1) in val[2:] or val[3][0] == 'const' and val[3][1] > 1 << 31:
                return self.cap(st + 1)
        return st


def check_chunks(prog, rep, classes):
    conts = set(c2 for f, c2 in classes.values())
    handles = set(classes)
    n = 0
    for cls, d in prog.cls.items():
        fl = [(f[0], f[1]) for f in d['fields'] if f[0] != '<base>']
        bufs = [f for f in fl if f[1] in handles]
        if len(bufs) != 1 or not prog.byname.get(cls + '::operator='):
            continue
        acq, rel = set(), set()
        meths = [f for f in prog.repo_fns() if cls_of(f.name) == cls]
        for f in meths:
            for c in f.calls():
                nm = prog.call_info(c)[0]
                if cls_of(nm) in conts and last(nm) == 'incr':
                    acq.add(f.n)
                if cls_of(nm) in conts and last(nm) == 'decr':
                    rel.add(f.n)
        if not acq or not rel:
            continue
        buf = bufs[0][0]
        cnts = set()
        for f in meths:
            if f.n in acq:
                for x in f.instrs():
                    if x.op == 'store':
                        g = f.defs.get(x.a[1])
                        if g is not None and g.op == 'gep' and g.d.get('p') and cls_of(g.d['p'][-1]) == cls:
                            cnts.add(last(g.d['p'][-1]))
        if len(cnts) != 1:
            continue
        cnt = cnts.pop()
        for f in meths:
            if f.n in acq or f.n in rel:
                eng = Engine(prog, Walk(prog, conts, cls + '::' + cnt))
                for kind, st, rv in eng.run(f, 0):
                    if kind == 'ret' and st != 0:
                        rep.violation('chain', f.loc, f.name, 'the number of references recorded for next buffers differs from the number taken or released')
                rep.engine(eng)
                use_after_release(prog, rep, f, conts)
                if f.n in acq and f.n not in rel:
                    covered(prog, rep, f, cls, conts)
                n += 1
                continue
            touches = any(x.op == 'store' and f.defs.get(x.a[1]) is not None and f.defs[x.a[1]].op == 'gep' and f.defs[x.a[1]].d.get('p', [''])[-1:] == [cls + '::' + cnt] for x in f.instrs()) \
                or any(prog.call_info(c)[1] and prog.call_info(c)[1][0] in acq | rel for c in f.calls()) \
                or any(cls_of(prog.call_info(c)[0]) in handles and last(prog.call_info(c)[0]) in ('operator=', 'reset') for c in f.calls())
            isctor, isdtor = last(f.name) == last(cls), last(f.name).startswith('~')
            if not touches and not isdtor and not isctor:
                continue
            args = tuple(('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs))
            scen = [('', args)]
            if last(f.name) == 'operator=' and f.nargs == 2 and '&&' not in prog.dem(f.n):
                scen.append((' (assigned to itself)', (args[0], args[0])))
            for label, a in scen:
                rule = Chunk(prog, cls, cnt, buf, acq, rel, bool(label))
                rule.bufcls = bufs[0][1]
                if isctor:
                    rule.init[a[0]] = 'uninit'
                eng = Engine(prog, rule)
                for kind, st, rv in eng.run(f, frozenset(), a):
                    if kind != 'ret':
                        continue
                    for c in set(x[1] for x in st if x[0] == 's') | {a[0]}:
                        s = rule.get(st, c)
                        if s == 'moved':
                            rep.violation('chunk', f.loc, f.name, '%s%s: references to next buffers end up in two chunks' % (last(f.name), label))
                        if s == 'uninit':
                            rep.violation('chunk', f.loc, f.name, '%s: the number of referenced next buffers is not initialised' % last(f.name))
                        if isdtor and c == a[0] and s != 'none':
                            rep.violation('chunk', f.loc, f.name, 'a destroyed chunk keeps references to next buffers')
                    for x in st:
                        if x[0] == 'gone' and x[1] != a[0] and rule.get(st, x[1]) == 'own' and x[1][0] == 'arg':
                            rep.violation('chunk', f.loc, f.name, '%s: the buffer of a chunk was moved away while it still counts next buffers' % last(f.name))
                rep.engine(eng)
                n += 1
    rep.count('chunk_functions', n)
    rep.need(n >= 5, 'chunk operations')


class Cover(AF.ARule):
    """next buffers are referenced as long as the chunk reaches beyond what is held so far"""

    def __init__(self, prog, cls, conts):
        self.prog, self.cls, self.conts = prog, cls, conts
        self.first = []
        self.step = []

    def inline(self, eng, fn, name):
        return fn.in_repo and last(name) not in ('incr', 'decr')

    def model(self, eng, fr, ins, name, args, st):
        if cls_of(name) in self.conts and last(name) == 'incr':
            self.first.append((fr, ins, dict(st.facts), ('ghost', 'inc') in st.mem))
            st.mem[('ghost', 'inc')] = args[0]
            return [('ret', st, None)]
        return None

    def on_backedge(self, eng, fr, header, it, st, phis):
        ent, hst, hphis = it
        p = st.mem.get(('ghost', 'inc'))
        if p is not None:
            self.step.append((fr, ent, hst, hphis, st, phis, p))


def positive_of(facts):
    """the quantities a path knows to be positive"""
    for v, t in facts.items():
        if v[0] == 'cmp' and v[1] in ('slt', 'ult'):
            yield AF.sub(v[3], v[2]) if t else AF.add(AF.sub(v[2], v[3]), AF.K(1))


def covered(prog, rep, f, cls, conts):
    rule = Cover(prog, cls, conts)
    eng = AF.Affine(prog, rule)
    eng.run(f)
    rep.engine(eng)
    this = ('arg', 0, 'this')

    def own(q, w):
        """(coefficient of the length of the chunk, and of its address)"""
        t = AF.parts(q)[1]
        return [t.get(('ini', ('fld', this, cls + '::' + x)), 0) for x in w]
    for fr, ins, facts, later in rule.first:
        if later:
            continue
        qs = [q for q in positive_of(facts) if own(q, ['length']) != [0]]
        if not qs:
            continue
        rep.count('reach_conditions', 1)
        ok = False
        for q in qs:
            c, t = AF.parts(q)
            rest = dict((k, v) for k, v in t.items() if k not in (('ini', ('fld', this, cls + '::length')), ('ini', ('fld', this, cls + '::address'))))
            # length + address - (address and length of the buffer, or its end)
            ends = sorted((last(k[1][2]) if k[0] == 'ini' and k[1][0] == 'fld' else str(k[:2])) for k, v in rest.items() if v == -1)
            if own(q, ['length', 'address']) == [1, 1] and c == 0 and len(ends) == len(rest) and (len(ends) == 1 or ends == ['_address', '_length']):
                ok = True
        if not ok:
            rep.violation('chain', ins.loc, fr.fn.name, 'a next buffer is referenced by another condition than that the chunk reaches beyond the buffers held so far')
    for fr, ent, hst, hphis, st, phis, p in rule.step:
        back = dict((hphis[x], phis[x]) for x in hphis if x in phis and hphis[x][0] == 'w')
        for a, v in hst.mem.items():
            if isinstance(v, tuple) and v[0] == 'w':
                back[v] = st.rd(a)
        for q in positive_of(st.facts):
            c, t = AF.parts(q)
            if not any(k in back for k in t):
                continue
            nq = AF.K(c)
            for k, v in t.items():
                nq = AF.add(nq, AF.scale(back.get(k, k), v))
            d = AF.sub(q, nq)
            dc, dt = AF.parts(d)
            good = dc == 0 and len(dt) == 1
            for k, v in dt.items():
                good = good and v == 1 and k[0] == 'ini' and last(k[1][2]) == '_length' if k[0] == 'ini' and k[1][0] == 'fld' else good and v == 1
                if good and p not in list(AF.terms(k)):
                    good = False
            if not good:
                rep.violation('chain', fr.fn.loc, fr.fn.name, 'the reach of the chunk is not reduced by the length of the buffer just referenced')


def use_after_release(prog, rep, f, conts):
    """a container is not read after decr() on the same register"""
    for x in f.calls():
        nm = prog.call_info(x)[0]
        if not (cls_of(nm) in conts and last(nm) == 'decr') or not x.a:
            continue
        r = x.a[0]
        dd = f.defs.get(r)
        seen = set()
        work = [(x.b, x.i + 1)]
        while work:
            b, i = work.pop()
            blk = f.blocks[b]
            stop = False
            for y in blk[i:]:
                if y is dd:
                    stop = True
                    break
                if y.op == 'gep' and y.a[0] == r or y.op in ('call', 'invoke') and r in y.a:
                    rep.violation('freed', y.loc, f.name, 'a buffer is used after the reference to it was released')
            if stop:
                continue
            for s in (blk[-1].s or []):
                if s not in seen:
                    seen.add(s)
                    work.append((s, 0))
