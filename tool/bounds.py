"""elements of sequences are used only where they exist: operator[] below size(), front/back/top/pop only when not empty

Optimistic where nothing is known about the index (it is stored elsewhere, or comes from another function): only indices that are
constants, loop variables, parameters of the function or sums of those are judged, and only containers named by a path from a parameter or local."""
from affine import *
from common import *

SEQ = r'(std::(vector|deque|basic_string|list|queue|stack|array)|Pothos::Util::RingDeque)'
INDEX = re.compile(r'^std::(vector|deque|basic_string)::operator\[\]$')
TAKE = re.compile(r'^' + SEQ + r'::(front|back|top|pop|pop_front|pop_back)$')
MUT = re.compile(r'^' + SEQ + r'::(\w+|operator=|operator\+=)$')
CONST = re.compile(r'::(size|empty|length|c_str|data|begin|end|cbegin|cend|rbegin|rend|capacity|front|back|top|at|operator\[\]|full|find|rfind|find_first_of|find_last_of|substr|compare|max_size)$')
MAPIDX = re.compile(r'^std::(map|unordered_map)::operator\[\]$')
GROW = ('push_back', 'emplace_back', 'push', 'emplace', 'push_front', 'emplace_front')


class BRule(ARule):
    epochs = True
    prune = True
    max_depth = 1

    def __init__(self, prog, rep, fn, inl=()):
        self.prog, self.rep, self.fn = prog, rep, fn
        self.inl = inl
        self.bad = {}
        self.seen = {}
        self.ind = set()
        self.maps = set()

    def inline(self, eng, fn, name):
        return fn.name in self.inl or self.getter(fn)

    def getter(self, fn):
        r = self.prog.__dict__.setdefault('_getters', {})
        if fn.n not in r:
            r[fn.n] = fn.in_repo and not CLASSES.match(fn.name) and fn.nargs == 1 and len(fn.blocks) == 1 and not any(x.op in ('call', 'invoke', 'ret') and (x.op != 'ret' or not x.a) for x in fn.instrs())
        return r[fn.n]

    def clobbers(self, eng, name, args):
        if MUT.match(name) and not CONST.search(name) and args:
            return [args[0]]
        return []

    def pure(self, name):
        return bool(self.pure_re.search(name)) or bool(CONST.search(name)) and bool(MUT.match(name)) or last(name) in ('operator!=', 'operator==')

    # ---- sizes

    def query(self, st, what, v):
        out = []
        ep = tuple(st.mem[('ep', p)] for p in prefixes(v) if ('ep', p) in st.mem)
        for ns in ('std::vector', 'std::basic_string', 'std::deque', 'std::list', 'std::queue', 'std::stack', 'Pothos::Util::RingDeque', 'std::array'):
            n = '%s::%s' % (ns, what)
            out.append(('r', n, (v,), ('e',) + ep) if ep else ('r', n, (v,)))
        return out

    def sizes(self, st, v):
        out = self.query(st, 'size', v) + self.query(st, 'length', v)
        g = st.mem.get(('sz', v))
        if g is not None:
            out.append(g)
        return out

    def nonempty(self, st, v):
        if st.mem.get(('ne', v)) == K(1):
            return True
        if any(st.facts.get(e) is False for e in self.query(st, 'empty', v)):
            return True
        if any(lt(st, K(0), s, self.ind) for s in self.sizes(st, v)):
            return True
        # inside a loop over the container, or after a search in it that succeeded
        for f, t in st.facts.items():
            if isinstance(f, tuple) and f[0] == 'r' and last(f[1]) in ('operator!=', 'operator==') and t == (last(f[1]) == 'operator!=') and mentions(st, f, v):
                return True
        return False

    # ---- calls

    def model(self, eng, fr, ins, name, args, st):
        if not args:
            return None
        v = args[0]
        if not name.startswith('std::'):
            for a in args[1:]:
                st.wr(('touch', v, a), K(1))
        if INDEX.match(name) and len(args) > 1:
            self.judge(fr, ins, st, v, strip(args[1]), name)
        elif name == 'std::basic_string::front':
            pass            # the terminator
        elif TAKE.match(name) and len(args) <= 2:
            k = (ins.loc, last(name), show_loc(v))
            if nameable(v):
                self.seen[k] = True
                if not self.nonempty(st, v):
                    self.bad.setdefault(k, '%s is used although %s may be empty' % (last(name) + '()', show_loc(v)))
        if MAPIDX.match(name):
            rv = ('r', name, args)
            self.maps.add(rv)
            return [('ret', st, rv)]
        if v in self.maps:
            if DEREF.match(name):
                self.mapped(ins.loc, v, st)
            elif not self.pure(name) and last(name) not in ('get', 'operator bool'):
                st.wr(('ne', v), K(1))      # assigned
        if isinstance(v, tuple) and v[0] == 'ini' and v[1] in self.maps and not name.startswith(('std::', 'operator delete', 'llvm')):
            self.mapped(ins.loc, v[1], st)
        if MUT.match(name) and not CONST.search(name):
            n = last(name)
            old = st.mem.get(('sz', v))
            cls = re.match(r'^.*::(\w+)::(\w+)$', name)
            if n in GROW:
                if old is None:
                    for s in self.sizes(st, v):
                        if any(s in str_terms(f) for f in st.facts):
                            old = s
                            break
                st.wr(('sz', v), add(old, K(1)) if old is not None else ('unk',))
                st.wr(('ne', v), K(1))
            elif n == 'resize' or n == 'assign' and len(args) == 3:
                st.wr(('sz', v), strip(args[1]))
                st.wr(('ne', v), K(0))
            elif cls and cls.group(1) == cls.group(2):
                if len(args) >= 2 and nameable_int(args[1]):
                    st.wr(('sz', v), strip(args[1]))
                elif len(args) == 1:
                    st.wr(('sz', v), K(0))
                else:
                    st.wr(('sz', v), ('unk', ins.loc))
                st.wr(('ne', v), K(1 if lt(st, K(0), st.mem[('sz', v)]) else 0))
            elif n == 'clear':
                st.wr(('sz', v), K(0))
                st.wr(('ne', v), K(0))
            elif n.startswith('pop') or n == 'erase':
                st.wr(('sz', v), sub(old, K(1)) if old is not None and n.startswith('pop') else ('unk', ins.loc))
                st.wr(('ne', v), K(0))
            elif n in ('insert', 'operator='):
                st.wr(('sz', v), ('unk', ins.loc))
                st.wr(('ne', v), K(1 if n == 'insert' else 0))
        return None

    def on_load(self, eng, fr, ins, addr, st):
        for p in prefixes(addr):
            if isinstance(p, tuple) and p[0] == 'ini' and p[1] in self.maps:
                self.mapped(ins.loc, p[1], st)

    def mapped(self, loc, rv, st):
        """an element that operator[] may just have created is used as a pointer"""
        m = rv[2][0]
        if not nameable(m) or base(m)[0] == 'alloca':
            return
        k = (loc, 'mapped', show_loc(m))
        self.seen[k] = True
        if ('ne', rv) in st.mem or any(rv in prefixes(a) for a in st.mem if isinstance(a, tuple) and a[0] not in ('sz', 'ne', 'ep', 'alias')):
            return
        if any(m in str_terms(f) for f in st.facts):
            return
        if m[0] == 'fld' and len(rv[2]) > 1 and any(a[:1] == ('touch',) and a[2] == rv[2][1] and a[1] in prefixes(m) for a in st.mem):
            return      # the owner was called for this key before
        self.bad.setdefault(k, 'the element of %s is used as a pointer although there may be none for this key' % show_loc(m))

    def judge(self, fr, ins, st, v, i, name):
        k = (ins.loc, 'index', show_loc(v))
        if not nameable(v):
            return
        if not all((simple(t) or t[0] == 'ini' and any(f[0] == 'cmp' and t in str_terms(f) and v in str_terms(f) for f in st.facts if isinstance(f, tuple))) and k == 1 for t, k in parts(i)[1].items()):
            self.rep.count('indices_not_judged')
            return
        self.seen[k] = True
        if 'basic_string' in name and any(i == s for s in self.sizes(st, v)):
            return
        ok = any(lt(st, i, s, self.ind) for s in self.sizes(st, v))
        if not ok and cval(i) == 0:
            ok = self.nonempty(st, v)
        if not ok:
            self.bad.setdefault(k, 'element %s of %s is used although the size of it was not compared with that' % (vshow(i), show_loc(v)))

    def on_enter(self, eng, fr, header, st, phis):
        for p, w in phis.items():
            if isinstance(w, tuple) and w[0] == 'w':
                self.ind.add(w)


def str_terms(x):
    out = [x]
    if isinstance(x, tuple):
        for y in x:
            if isinstance(y, tuple):
                out += str_terms(y)
    return out


def mentions(st, f, v):
    """an iterator comparison about the container v"""
    for t in str_terms(f):
        if t[:1] == ('alloca',):
            for a, x in st.mem.items():
                if (a == t or t in prefixes(a)) and isinstance(x, tuple) and v in str_terms(x):
                    return True
        if t == v:
            return True
    return False


def strip(v):
    while isinstance(v, tuple) and v[0] in ('zext', 'sext', 'trunc', 'cast') and len(v) > 1:
        v = v[-1] if isinstance(v[-1], tuple) else v[1]
    return v


def nameable(v):
    while isinstance(v, tuple) and v[0] in ('fld', 'deref', 'elem', 'idx', 'ini', 'base'):
        v = v[1]
    return isinstance(v, tuple) and v[0] in ('arg', 'alloca', 'global', 'g')


def nameable_int(v):
    return isinstance(v, tuple) and v[0] not in ('alloca',) and (v[0] in ('L', 'r', 'w', 'op') or v[0] in ('arg', 'ini'))


def simple(t):
    return isinstance(t, tuple) and (t[0] in ('w', 'arg') or t[0] == 'ini' and isinstance(t[1], tuple) and t[1][0] == 'arg' or t[0] == 'r' and last(t[1]) in ('size', 'length'))


def show_loc(v):
    if isinstance(v, tuple):
        if v[0] == 'fld':
            return '%s.%s' % (show_loc(v[1]), v[2].split('::')[-1])
        if v[0] == 'arg':
            return str(v[2])
        if v[0] == 'alloca':
            return 'a local'
        if v[0] in ('deref', 'ini', 'elem', 'idx', 'base'):
            return show_loc(v[1])
    return 'it'


def node(v):
    """(what it depends on, offset)"""
    v = strip(v)
    c, t = parts(v)
    return frozenset(t.items()), c


ZERO = frozenset()


def edges(st):
    """x + w <= y for the comparisons of the path (difference bounds)"""
    out = []
    late = []

    def le(x, y, d):
        (X, cx), (Y, cy) = node(x), node(y)
        (late if cy < 0 and Y else out).append((X, Y, cx + d - cy))
    for f, t in st.facts.items():
        if not isinstance(f, tuple):
            continue
        if f[0] == 'cmp':
            k, x, y = f[1], f[2], f[3]
            if k in ('ult', 'slt'):
                le(x, y, 1) if t else le(y, x, 0)
            elif k in ('ule', 'sle'):
                le(x, y, 0) if t else le(y, x, 1)
            elif k in ('ugt', 'sgt'):
                le(y, x, 1) if t else le(x, y, 0)
            elif k in ('uge', 'sge'):
                le(y, x, 0) if t else le(x, y, 1)
            elif k == 'eq' and t:
                le(x, y, 0)
                le(y, x, 0)
            elif k == 'eq':
                # different: a loop variable counted up to here, or something that is not zero
                for p, q in ((x, y), (y, x)):
                    p, q = strip(p), strip(q)
                    if p[0] == 'w' or cval(p) == 0:
                        le(p, q, 1)
        elif f[0] in ('r', 'w', 'arg', 'ini') and t is True and last(str(f[1])) not in ('empty',):
            le(K(0), f, 1)
    for a, g in st.mem.items():
        if a[0] == 'sz' and g[0] != 'unk':
            for x in [x for f in st.facts for x in str_terms(f)]:
                if x[:1] == ('r',) and len(x) > 2 and last(x[1]) in ('size', 'length') and x[2] == (a[1],):
                    le(x, g, 0)
                    le(g, x, 0)
    for X, Y, w in late:        # x + d <= y - c tells something only when y - c did not wrap around
        if any(y == Y and n >= 1 for x, y, n in out if x == ZERO):
            out.append((X, Y, w))
    return out


def lt(st, a, b, ind=()):
    """a < b from the facts of the path"""
    (A, ca), (B, cb) = node(a), node(b)
    want = ca + 1 - cb
    if A == B:
        return want <= 0
    es = edges(st)
    nodes = set([A, B, ZERO])
    for x, y, w in es:
        nodes.add(x)
        nodes.add(y)
    for n in nodes:
        if n and all(k > 0 for t, k in n):
            es.append((ZERO, n, 0))
    dist = {A: 0}
    for _ in range(min(len(nodes), 8)):
        ch = False
        for x, y, w in es:
            if x in dist and dist[x] + w > dist.get(y, -10 ** 9):
                dist[y] = dist[x] + w
                ch = True
        if not ch:
            break
    return B in dist and dist[B] >= want


# functions whose accesses rest on an invariant that is kept elsewhere
ACCEPT = {
    'Pothos::InputPort::slotCallsPop': 'called only when slotCallsEmpty() said no',
    'Pothos::WorkerActor::autoAllocatePort': 'every indexed name in ports is in indexedPorts (allocatePort)',
    'Pothos::Topology::Impl::squashFlows': 'both vectors get one future per flow',
    'mupValueToObject': 'a map array has an odd number of elements, the marker included',
    'handlePluginEvent': 'a plugin below /proxy/converters has at least three path nodes',
}
CLASSES = re.compile(r'^(Pothos::Util::RingDeque|Pothos::Util::OrderedQueue|Pothos::BufferAccumulator)(::|$)')      # contract of the class, see C07


def check_bounds(prog, rep, fns):
    n = 0
    for f in fns:
        if CLASSES.match(f.name) or f.name in ACCEPT:
            rep.count('functions_by_contract')
            continue
        if not any(MAPIDX.match(prog.call_info(c)[0]) or INDEX.match(prog.call_info(c)[0]) or TAKE.match(prog.call_info(c)[0]) for c in f.calls()):
            continue
        bad, seen = analyse(prog, rep, f, (), 0)
        n += len(seen)
        for (loc, what, c), msg in sorted(bad.items()):
            rep.violation('bounds', loc, f.name, msg, key='bounds|%s|%s|%s' % (f.name, what, c))
    return n


def analyse(prog, rep, f, inl, depth):
    """sites of f (with the helpers inl) that are not shown to be in bounds; a helper's obligation may be met by all of its callers"""
    args = tuple(('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs))
    rule = BRule(prog, rep, f, inl)
    eng = Affine(prog, rule, max_steps=60000)
    try:
        eng.run(f, args)
    except AnalysisError:
        rep.count('functions_given_up')
        rep.notes.append('bounds: gave up on %s' % f.name)
        return {}, {}
    rep.engine(eng)
    bad = rule.bad
    if bad and depth < 3:
        cs = dict((c.fn.n, c.fn) for c in prog.callers.get(f.n, []))
        cs = [g for g in cs.values() if g.in_repo and g.name != f.name and g.name not in inl]
        if cs and f.n not in prog.addr_taken:
            left, again = {}, set()
            for g in cs:
                b, s = analyse(prog, rep, g, inl + (f.name,), depth + 1)
                again |= set(k[:2] for k in s)
                left.update((k, m) for k, m in b.items() if k[:2] in set(x[:2] for x in bad))
            rep.count('helpers_checked_at_their_callers')
            left.update((k, m) for k, m in bad.items() if k[:2] not in again)
            bad = left
    return bad, rule.seen

