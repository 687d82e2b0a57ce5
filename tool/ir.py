"""Program model over the irdump output: functions, resolved names, SSA expressions, virtual calls."""
import json, re, os, sys
from functools import lru_cache
import extract as X
from extract import AnalysisError

sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- names


def strip_templates(s):
    """drop <...> groups, keep operator<, operator<<, operator->, operator()"""
    out = []
    i = 0
    n = len(s)
    depth = 0
    while i < n:
        if depth == 0 and s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            j = i + 8
            m = re.match(r'(<=>|<<=|>>=|->\*|<<|>>|<=|>=|->|<|>|\(\)|\[\])', s[j:])
            if m:
                out.append(s[i:j + m.end()])
                i = j + m.end()
                continue
            out.append('operator')
            i = j
            continue
        c = s[i]
        if c == '<':
            depth += 1
        elif c == '>':
            # '->' inside template args is rare; treat '>' after '-' as arrow
            if not (i and s[i - 1] == '-'):
                depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


@lru_cache(None)
def norm(dem):
    """demangled name -> qualified name without return type, parameters, template arguments"""
    s = dem
    s = s.replace('(anonymous namespace)', '{anon}').replace('std::__cxx11::', 'std::').replace('std::_V2::', 'std::')
    s = re.sub(r"\{lambda\([^{}]*\)#(\d+)\}", r'{lambda#\1}', s)
    for _ in range(3):
        s = re.sub(r"\{lambda\([^{}]*(\{[^{}]*\}[^{}]*)*\)#(\d+)\}", r'{lambda#\2}', s)
    if s.startswith(('vtable for ', 'typeinfo for ', 'typeinfo name for ', 'guard variable for ', 'non-virtual thunk to ',
                     'virtual thunk to ', 'VTT for ')):
        s = s.split(' to ' if 'thunk to' in s[:25] else ' for ', 1)[1]
        if '(' not in s:
            return strip_templates(s)
    s = strip_templates(s)
    # cut the parameter list: the last top-level '(' group that is not operator()
    # nested: a::b(int)::{lambda#1}::operator()(x) const
    res = []
    i = 0
    n = len(s)
    while i < n:
        if s.startswith('operator()', i):
            res.append('operator()')
            i += 10
            continue
        if s[i] == '(':
            d = 0
            while i < n:
                if s[i] == '(':
                    d += 1
                elif s[i] == ')':
                    d -= 1
                    if d == 0:
                        i += 1
                        break
                i += 1
            continue
        res.append(s[i])
        i += 1
    s = ''.join(res).strip()
    s = re.sub(r'(\s*\[abi:\w+\])+', '', s)
    s = re.sub(r'( const| volatile| &&| &)+(?=$|::)', '', s)
    # cut the return type: last space that is not part of 'operator xxx'
    k = s.find('operator ')
    if k >= 0 and (k == 0 or s[k - 1] in ': '):
        head = s[:k]
        sp = head.rfind(' ')
        return (head[sp + 1:] if sp >= 0 else head) + s[k:]
    sp = s.rfind(' ')
    if sp >= 0:
        s = s[sp + 1:]
    return s.lstrip('*&')


def last(q):
    """last component of a qualified name"""
    return q.rsplit('::', 1)[-1]


def cls_of(q):
    return q.rsplit('::', 1)[0] if '::' in q else ''


class Ins(object):
    __slots__ = ('fn', 'b', 'i', 'op', 'v', 'l', 'lf', 'a', 'f', 's', 'd', 'cname')

    def __init__(self, fn, b, i, d):
        self.fn = fn
        self.b = b
        self.i = i
        self.d = d
        self.op = d['op']
        self.v = d.get('v')
        self.l = d.get('l', 0)
        self.lf = d.get('lf')
        self.a = d.get('a', [])
        self.f = d.get('f')
        self.s = d.get('s')
        self.cname = None

    @property
    def loc(self):
        f = self.lf or self.fn.file
        return '%s:%d' % (relp(f), self.l)


def relp(f):
    f = f or '?'
    if f.startswith(X.REPO + '/'):
        return f[len(X.REPO) + 1:]
    return f


class Fn(object):
    def __init__(self, prog, d, tu):
        self.prog = prog
        self.d = d
        self.n = d['n']
        self.tu = tu
        self.file = d.get('file') or ''
        self.line = d.get('line', 0)
        self.di = d.get('di', '')
        self.nt = bool(d.get('nt'))
        self.nargs = len(d['args'])
        self.sret = bool(self.nargs and d['args'][0].get('sret'))
        self._blocks = None
        self._defs = None
        self._uses = None
        self._live = None

    @property
    def in_repo(self):
        return self.file.startswith(X.REPO + '/') or self.file.startswith(X.HERE) or (self.file and not self.file.startswith('/'))

    @property
    def name(self):
        return self.prog.nname(self.n)

    @property
    def loc(self):
        return '%s:%d' % (relp(self.file), self.line)

    @property
    def blocks(self):
        if self._blocks is None:
            self._blocks = [[Ins(self, b, i, x) for i, x in enumerate(blk)] for b, blk in enumerate(self.d['b'])]
            self._defs = {}
            for blk in self._blocks:
                for x in blk:
                    if x.v:
                        self._defs[x.v] = x
        return self._blocks

    @property
    def defs(self):
        self.blocks
        return self._defs

    @property
    def uses(self):
        if self._uses is None:
            self._uses = {}
            for blk in self.blocks:
                for x in blk:
                    for o in x.a:
                        if isinstance(o, str) and o.startswith('%'):
                            self._uses.setdefault(o, []).append(x)
                    if x.op == 'gep':
                        for p in x.d['p']:
                            if p.startswith('[%'):
                                self._uses.setdefault(p[1:-1], []).append(x)
                    if x.f and x.f.startswith('%'):
                        self._uses.setdefault(x.f, []).append(x)
        return self._uses

    @property
    def live(self):
        """live-in SSA values per block (phi operands are live at the end of their predecessor)"""
        if self._live is None:
            n = len(self.blocks)
            gen = [set() for _ in range(n)]
            kill = [set() for _ in range(n)]
            outphi = [set() for _ in range(n)]
            succ = [[] for _ in range(n)]
            for b, blk in enumerate(self.blocks):
                for x in blk:
                    if x.op == 'phi':
                        for o, p in zip(x.a, x.d['fr']):
                            if o.startswith('%'):
                                outphi[p].add(o)
                        gen[b].discard(x.v)
                        kill[b].add(x.v)
                        continue
                    ops = [o for o in x.a if isinstance(o, str) and o.startswith('%')]
                    if x.op == 'gep':
                        ops += [p[1:-1] for p in x.d['p'] if p.startswith('[%')]
                    if x.f and x.f.startswith('%'):
                        ops.append(x.f)
                    for o in ops:
                        if o not in kill[b]:
                            gen[b].add(o)
                    if x.v:
                        kill[b].add(x.v)
                    if x.s:
                        succ[b] += x.s
            live = [set(g) for g in gen]
            ch = True
            while ch:
                ch = False
                for b in range(n - 1, -1, -1):
                    o = set(outphi[b])
                    for s2 in succ[b]:
                        o |= live[s2]
                    o -= kill[b]
                    if not o <= live[b]:
                        live[b] |= o
                        ch = True
            self._live = live
        return self._live

    def instrs(self):
        for blk in self.blocks:
            for x in blk:
                yield x

    def calls(self):
        for blk in self.blocks:
            for x in blk:
                if x.op in ('call', 'invoke'):
                    yield x

    def varname(self, v):
        return self.d.get('vars', {}).get(v)

    def __repr__(self):
        return '<Fn %s>' % self.name


# symbols with internal linkage by their mangled name: variables of one translation unit
INTERNAL = re.compile(r'^@(_ZL|_ZZL|_ZGVZL|_ZN12_GLOBAL__N_1|_ZZN12_GLOBAL__N_1|_ZGVZN12_GLOBAL__N_1)')


class Program(object):
    def __init__(self, srcs):
        self.srcs = srcs
        self.fns = {}
        self.names = {}
        self.vt = {}
        self.ti = {}
        self.cls = {}
        self.ctors = []
        paths = X.extract(srcs)
        for src, p in zip(srcs, paths):
            self._load(src, p)
        self._nn = {}
        self._byname = None
        self._callers = None
        self._accessors = {}
        self._classname2vt = None
        self._subs = None

    def _load(self, src, path):
        with open(path, encoding='utf-8', errors='replace') as fp:
            lines = fp.read().split('\n')
        ds = []
        meta = None
        for ln in lines:
            if not ln:
                continue
            d = json.loads(ln)
            if 'meta' in d:
                meta = d
            else:
                ds.append(d)
        internal = set(d['n'] for d in ds if d.get('int'))
        if True:
            tag = '@' + src

            def fix(o):
                if isinstance(o, str) and o.startswith('@') and (o[1:] in internal or INTERNAL.match(o)):
                    return o + tag
                return o
            for d in ds:
                if d['n'] in internal:
                    meta['names'][d['n'] + tag] = meta['names'].get(d['n'], d['n'])
                    d['n'] += tag
                for blk in d['b']:
                    for x in blk:
                        if 'f' in x:
                            x['f'] = fix(x['f'])
                        if 'a' in x:
                            x['a'] = [fix(o) for o in x['a']]
            for k in meta['vt']:
                meta['vt'][k] = [[fix(o) for o in g] for g in meta['vt'][k]]
            meta['ctors'] = [fix(o) for o in meta['ctors']]
        for d in ds:
            if d['n'] not in self.fns:
                self.fns[d['n']] = Fn(self, d, src)
        self.names.update(meta['names'])
        for k, v in meta['vt'].items():
            self.vt.setdefault(k, v)
        for k, v in meta['ti'].items():
            self.ti.setdefault(k, v)
        for k, v in meta['cls'].items():
            self.cls.setdefault(k, v)
        self.ctors += meta['ctors']

    def dem(self, n):
        return self.names.get(n, n)

    def nname(self, n):
        r = self._nn.get(n)
        if r is None:
            r = norm(self.names.get(n, n.split('@')[0]))
            self._nn[n] = r
        return r

    @property
    def byname(self):
        if self._byname is None:
            self._byname = {}
            for f in self.fns.values():
                self._byname.setdefault(f.name, []).append(f)
        return self._byname

    def named(self, q, required=True):
        """functions with that normalised qualified name; C1/C2 variants: the base-object one is dropped when both exist"""
        r = list(self.byname.get(q, []))
        # drop constructor/destructor variants (C2/D2 kept once)
        seen = {}
        for f in r:
            key = re.sub(r'([CD])[0-9](?=[A-Z]|E)', r'\1x', f.n)
            if key in seen:
                # prefer the one with the larger body (C2 has the body, C1 may forward)
                if len(f.d['b']) > len(seen[key].d['b']) or (len(f.d['b']) == len(seen[key].d['b']) and len(f.d['b'][0]) > len(seen[key].d['b'][0])):
                    seen[key] = f
            else:
                seen[key] = f
        r = list(seen.values())
        if required and not r:
            raise AnalysisError('anchor not found: no function named %s' % q)
        return r

    def one(self, q):
        r = self.named(q)
        return r[0]

    def repo_fns(self):
        return [f for f in self.fns.values() if f.in_repo]

    # ------------------------------------------------ classes / vtables
    def classvt(self):
        if self._classname2vt is None:
            self._classname2vt = {}
            for k in self.vt:
                self._classname2vt['_ZTS' + k[4:]] = k
        return self._classname2vt

    def subclasses(self, zts):
        if self._subs is None:
            self._subs = {}
            for k, bases in self.ti.items():
                for b in bases:
                    self._subs.setdefault('_ZTS' + b[5:], set()).add('_ZTS' + k[4:])
        out = set()
        work = [zts]
        while work:
            c = work.pop()
            if c in out:
                continue
            out.add(c)
            work += list(self._subs.get(c, ()))
        return out

    def vslot(self, zts, slot):
        """virtual call through static class zts, slot -> (static method name, [target mangled])"""
        targets = []
        cv = self.classvt()
        stat = None
        for c in sorted(self.subclasses(zts)):
            k = cv.get(c)
            if not k:
                continue
            g = self.vt[k][0] if self.vt[k] else []
            if 2 + slot < len(g):
                t = g[2 + slot]
                if t.startswith('@') and t != '@__cxa_pure_virtual':
                    if t[1:] not in targets:
                        targets.append(t[1:])
                    if c == zts:
                        stat = self.nname(t[1:])
        if stat is None and targets:
            stat = norm(self.dem(zts)) if False else None
            base = zts[4:]
            cname = self.clsname(zts)
            stat = cname + '::' + last(self.nname(targets[0]))
        return stat, targets

    def clsname(self, zts):
        import subprocess
        # typeinfo names: _ZTS + mangled type; use the demangled vtable/typeinfo symbol when present
        for pre in ('_ZTV', '_ZTI', '_ZTS'):
            n = pre + zts[4:]
            if n in self.names:
                return norm(self.names[n])
        # simple nested-name demangle
        m = zts[4:]
        if m.startswith('N'):
            m = m[1:]
        parts = []
        while m and m[0].isdigit():
            k = re.match(r'\d+', m).group()
            ln = int(k)
            parts.append(m[len(k):len(k) + ln])
            m = m[len(k) + ln:]
        return '::'.join(parts) or zts

    # ------------------------------------------------ call graph
    def call_info(self, ins):
        """(name, [target Fn names], kind) kind in direct/virtual/indirect"""
        if ins.cname is not None:
            return ins.cname
        f = ins.f
        if f.startswith('@'):
            r = (self.nname(f[1:]), [f[1:]], 'direct')
        elif f.startswith('%'):
            r = self._indirect(ins)
        else:
            r = (f, [], 'indirect')
        ins.cname = r
        return r

    def _indirect(self, ins):
        fn = ins.fn
        d = fn.defs.get(ins.f)
        if d is not None and d.op == 'load':
            g = fn.defs.get(d.a[0])
            slot = None
            vt = None
            if g is not None and g.op == 'gep':
                p = g.d['p']
                if not p:
                    slot = 0
                    vt = g.a[0]
                elif len(p) == 1 and re.match(r'\[#-?\d+\]$', p[0]):
                    slot = int(p[0][2:-1])
                    vt = g.a[0]
            elif g is not None and g.op == 'load':
                slot = 0
                vt = d.a[0]
            if vt is not None:
                for u in fn.uses.get(vt, []):
                    if u.op in ('call',) and u.f in ('@llvm.public.type.test', '@llvm.type.test'):
                        z = u.a[1]
                        if isinstance(z, str) and z.startswith('!'):
                            st, tg = self.vslot(z[1:], slot)
                            return (st or (self.clsname(z[1:]) + '::#%d' % slot), tg, 'virtual')
        return ('<indirect>', [], 'indirect')

    @property
    def callers(self):
        """mangled -> list of call Ins (direct and resolved virtual)"""
        if self._callers is None:
            self._callers = {}
            self._addr = {}
            for f in self.fns.values():
                for x in f.instrs():
                    if x.op in ('call', 'invoke'):
                        nm, tg, k = self.call_info(x)
                        for t in tg:
                            self._callers.setdefault(t, []).append(x)
                    for o in x.a:
                        if isinstance(o, str):
                            if o.startswith('@'):
                                self._addr.setdefault(o[1:], []).append(x)
                            elif o.startswith('{@'):
                                self._addr.setdefault(o[2:].split(',')[0], []).append(x)
        return self._callers

    def accessor(self, n):
        """global returned by a parameterless accessor function (T &getX() {static T x; return x;}), else None"""
        r = self._accessors.get(n, 0)
        if r == 0:
            r = None
            f = self.fns.get(n)
            if f is not None and f.in_repo and f.nargs == 0:
                rets = set(x.a[0] for x in f.instrs() if x.op == 'ret' and x.a)
                if len(rets) == 1:
                    o = rets.pop()
                    if o.startswith('@'):
                        r = o[1:]
            self._accessors[n] = r
        return r

    @property
    def addr_taken(self):
        self.callers
        return self._addr


# ---------------------------------------------------------------- expressions

TRANSPARENT = re.compile(
    r'^(std::(move|forward|addressof|__addressof|as_const|ref|cref|launder|move_if_noexcept|reference_wrapper::(get|operator .*)))$')
DEREF = re.compile(
    r'^std::(__shared_ptr_access|__shared_ptr|shared_ptr|unique_ptr|__uniq_ptr_impl|weak_ptr|__weak_ptr)::(operator->|operator\*|get|_M_get|_M_ptr)$'
    r'|^Poco::(SharedPtr|AutoPtr)::(operator->|operator\*|get)$')
ELEM = re.compile(
    r'^(std::(vector|map|unordered_map|deque|array|list|__cxx1998::vector|_Map_base)::(operator\[\]|at|front|back)'
    r'|std::__detail::_Map_base::(operator\[\]|at))$')
ITDEREF = re.compile(
    r'^(__gnu_cxx::__normal_iterator|std::_Rb_tree_iterator|std::_Rb_tree_const_iterator|std::_List_iterator|std::_List_const_iterator'
    r'|std::__detail::_Node_iterator|std::__detail::_Node_const_iterator|std::__detail::_Node_iterator_base|std::_Deque_iterator|std::move_iterator'
    r'|std::reverse_iterator)::(operator\*|operator->)$')
BEGIN = re.compile(
    r'^std::(\w+::)*(begin|end|cbegin|cend|rbegin|rend|find|find_if|lower_bound|upper_bound|erase|insert|emplace|next|prev)$')


def show(e):
    """short rendering of an expression"""
    if not isinstance(e, tuple):
        return str(e)
    k = e[0]
    if k == 'arg':
        return 'arg%d' % e[1] if len(e) == 2 else '%s' % e[2]
    if k == 'const':
        return str(e[1])
    if k == 'null':
        return 'null'
    if k == 'str':
        return '"%s"' % e[1]
    if k == 'glob':
        return e[1]
    if k == 'alloca':
        return e[3] if len(e) > 3 and e[3] else 'local'
    if k == 'fld':
        return show(e[1]) + '.' + last(e[2])
    if k == 'load':
        return '*' + show(e[1]) if e[1][0] not in ('fld', 'alloca', 'glob', 'elem') else show(e[1])
    if k == 'deref':
        return show(e[1])
    if k == 'elem':
        return show(e[1]) + '[]'
    if k == 'idx':
        return show(e[1]) + '[' + show(e[2]) + ']'
    if k == 'call':
        return '%s(%s)' % (last(e[1]), ', '.join(show(x) for x in e[2]))
    if k in ('bin', 'cmp'):
        return '(%s %s %s)' % (show(e[2]), e[1], show(e[3]))
    if k == 'phi':
        return 'phi' + e[2]
    return '/'.join(str(show(x)) if isinstance(x, tuple) else str(x) for x in e)


def root(e):
    while isinstance(e, tuple) and e[0] in ('fld', 'load', 'deref', 'elem', 'idx', 'base'):
        e = e[1]
    return e


def fields(e):
    """field names along an access path, outermost last"""
    out = []
    while isinstance(e, tuple) and e[0] in ('fld', 'load', 'deref', 'elem', 'idx', 'base'):
        if e[0] == 'fld':
            out.append(e[2])
        e = e[1]
    out.reverse()
    return out


def sub_exprs(e):
    yield e
    if isinstance(e, tuple):
        for x in e[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], tuple):
                    for y in x:
                        yield from sub_exprs(y)
                else:
                    yield from sub_exprs(x)


class Frame(object):
    """a function activation: resolves SSA operands to expressions in terms of the root's arguments"""
    __slots__ = ('fn', 'args', 'key', 'memo', 'eng', 'stores', 'depth', 'parent')

    def __init__(self, eng, fn, args, parent=None):
        self.eng = eng
        self.fn = fn
        self.args = args
        self.memo = {}
        self.stores = None
        self.parent = parent
        self.depth = parent.depth + 1 if parent else 0
        self.key = (fn.n, self.depth)
        eng.frames[self.key] = self

    def _collect_stores(self):
        """alloca -> {path tuple: [value operands]}"""
        st = {}
        fn = self.fn
        for x in fn.instrs():
            if x.op == 'store':
                b, p = self._alloca_path(x.a[1])
                if b is not None:
                    st.setdefault((b, p), []).append(x.a[0])
        self.stores = st

    def _alloca_path(self, o):
        path = []
        fn = self.fn
        while True:
            d = fn.defs.get(o)
            if d is None:
                return None, None
            if d.op == 'alloca':
                return o, tuple(path)
            if d.op == 'gep':
                off = d.d.get('off')
                fl = [p for p in d.d['p'] if not p.endswith('<base>')]
                path = fl + path
                o = d.a[0]
                continue
            if d.op == 'cast':
                o = d.a[0]
                continue
            return None, None

    def ex(self, o):
        """operand -> expression"""
        if not isinstance(o, str):
            return ('unk',)
        r = self.memo.get(o)
        if r is not None:
            return r
        c = o[0]
        if c == '%':
            i = int(o[1:])
            if i < self.fn.nargs:
                r = self.args[i] if i < len(self.args) else ('unk',)
            else:
                self.memo[o] = ('rec', self.fn.n, o)
                r = self._ins(self.fn.defs[o])
        elif c == '#':
            r = ('const', int(o[1:]))
        elif o == 'null':
            r = ('null',)
        elif c == '"':
            r = ('str', o[1:])
        elif c == '@':
            r = ('glob', o[1:])
        elif c == '!':
            r = ('md', o[1:])
        elif c == 'f' and o != 'false':
            r = ('fconst', o[1:])
        else:
            r = ('unk', o)
        self.memo[o] = r
        return r

    def _ins(self, d):
        op = d.op
        if op == 'alloca':
            return ('alloca', self.key, d.v, self.fn.varname(d.v) or '')
        if op == 'gep':
            e = self.ex(d.a[0])
            for p in d.d['p']:
                if p.startswith('['):
                    ix = self.ex(p[1:-1]) if p[1:-1] else ('unk',)
                    e = ('idx', e, ix)
                elif p.endswith('::<base>'):
                    pass
                else:
                    e = ('fld', e, p)
            return e
        if op == 'cast':
            return self.ex(d.a[0])
        if op == 'load':
            return self.load(self.ex(d.a[0]))
        if op in ('call', 'invoke'):
            return self.callexpr(d)
        if op == 'cmp':
            return ('cmp', d.d['k'], self.ex(d.a[0]), self.ex(d.a[1]))
        if op == 'bin':
            return ('bin', d.d['k'], self.ex(d.a[0]), self.ex(d.a[1]))
        if op == 'phi':
            vals = set(self.ex(a) for a in d.a if a != d.v)
            vals.discard(('rec', self.fn.n, d.v))
            if len(vals) == 1:
                return vals.pop()
            return ('phi', self.fn.n, d.v)
        if op == 'select':
            return ('select', self.ex(d.a[0]), self.ex(d.a[1]), self.ex(d.a[2]))
        if op == 'extractvalue':
            return ('ev', self.ex(d.a[0]), d.d['ix'])
        if op == 'insertvalue':
            return ('iv', self.ex(d.a[0]), self.ex(d.a[1]), d.d['ix'])
        return ('ins', self.fn.n, d.v or '', op)

    def load(self, p):
        # resolve loads of locals with a single store
        b = p
        path = []
        while isinstance(b, tuple) and b[0] == 'fld':
            path.append(b[2])
            b = b[1]
        if isinstance(b, tuple) and b[0] == 'alloca':
            fr = self.eng.frames.get(b[1])
            if fr is not None:
                if fr.stores is None:
                    fr._collect_stores()
                vs = fr.stores.get((b[2], tuple(reversed(path))))
                if vs and len(vs) == 1:
                    return fr.ex(vs[0])
            mv = getattr(self.eng, 'mem', {}).get(p)
            if mv is not None and mv != ('top',):
                return mv
        return ('load', p)

    def callexpr(self, d):
        prog = self.fn.prog
        name, tg, kind = prog.call_info(d)
        args = tuple(self.ex(a) for a in d.a)
        if d.d.get('sret'):
            return ('call', name, args[1:])
        if not args and kind == 'direct':
            g = prog.accessor(tg[0])
            if g is not None:
                return ('glob', g)
        return simp_call(self, name, args)

    def itercont(self, e, depth=0):
        """iterator lvalue expression -> the container it was taken from, or None"""
        if isinstance(e, tuple) and e[0] == 'alloca' and depth < 12:
            fr = self.eng.frames.get(e[1])
            if fr is None:
                return None
            if fr.stores is None:
                fr._collect_stores()
            for (b, p), vs in fr.stores.items():
                if b == e[2]:
                    for v in vs:
                        x = fr.ex(v)
                        c = cont_of(x)
                        if c is not None:
                            return c
            # sret-initialised or copy-constructed iterators
            for u in fr.fn.uses.get(e[2], []):
                if u.op in ('call', 'invoke') and u.a and u.a[0] == e[2]:
                    nm = fr.fn.prog.call_info(u)[0]
                    if u.d.get('sret') and BEGIN.match(nm) and len(u.a) > 1:
                        return fr.ex(u.a[1])
                    if len(u.a) > 1 and last(nm) in ('_Rb_tree_const_iterator', '__normal_iterator', '_Node_const_iterator', '_Node_iterator', '_Deque_iterator'):
                        c = fr.itercont(fr.ex(u.a[1]), depth + 1)
                        if c is not None:
                            return c
                if u.op in ('call',) and u.f.startswith('@llvm.memcpy') and u.a[0] == e[2]:
                    c = fr.itercont(fr.ex(u.a[1]), depth + 1)
                    if c is not None:
                        return c
        return cont_of(e)


def cont_of(x):
    if isinstance(x, tuple):
        if x[0] == 'call' and BEGIN.match(x[1]) and x[2]:
            return x[2][0]
        if x[0] in ('load', 'ev') and isinstance(x[1], tuple):
            return cont_of(x[1])
    return None


def simp_call(fr, name, args):
    if TRANSPARENT.match(name) and args:
        return args[0]
    if DEREF.match(name) and args:
        return ('deref', args[0])
    if ELEM.match(name) and args:
        return ('elem', args[0]) if len(args) == 1 else ('elem', args[0], args[1])
    if ITDEREF.match(name) and args:
        c = fr.itercont(args[0])
        if c is not None:
            return ('elem', c)
        return ('deref', args[0])
    return ('call', name, args)


# conditions -------------------------------------------------------------

_NEG = {'ne': 'eq', 'uge': 'ult', 'sge': 'slt', 'ule': 'ugt', 'sle': 'sgt'}


def cond(e):
    """condition expression -> (atom, polarity)"""
    pol = True
    while isinstance(e, tuple):
        if e[0] == 'bin' and e[1] == 'xor' and e[3] in (('const', 1), ('const', -1)):
            e = e[2]
            pol = not pol
            continue
        if e[0] == 'cmp':
            k, a, b = e[1], e[2], e[3]
            if k in _NEG:
                k = _NEG[k]
                pol = not pol
            if k == 'eq' and b == ('const', 0) and isinstance(a, tuple) and a[0] in ('cmp', 'call', 'bin', 'phi') and (
                    a[0] == 'cmp' or (a[0] == 'bin' and a[1] == 'xor')):
                e = a
                pol = not pol
                continue
            if k == 'eq' and b == ('null',):
                return ('isnull', a), pol
            if k == 'eq' and a == ('null',):
                return ('isnull', b), pol
            if k in ('ugt', 'sgt'):
                return ('cmp', k[0] + 'lt', b, a), pol
            if k == 'eq' and b == ('const', 0):
                # x == 0: truth atom of x, negated
                return a, (not pol)
            return ('cmp', k, a, b), pol
        break
    return e, pol
