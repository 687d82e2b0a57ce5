"""C19 operating system resources: released exactly once, mapped where they are used, failures with their reason"""
from terms import *

SOURCES = ['lib/*', 'lib/*/*', 'lib/*/Builtin/*']
EXPLANATION = ('Every function that opens, maps or allocates a system resource, and every destructor of a class that keeps one, is interpreted on all paths (exceptional ones included); each resource is followed '
               'from the call that obtained it to the call that releases it or the member that keeps it.')

# call -> (kind, value when it fails)
ACQ = {'open': 'fd', 'open64': 'fd', 'openat': 'fd', 'creat': 'fd', 'socket': 'fd', 'dup': 'fd', 'shm_open': 'fd', 'mkstemp': 'fd', 'memfd_create': 'fd', 'mmap': 'map', 'mmap64': 'map',
       'numa_alloc_onnode': 'numa', 'numa_alloc_local': 'numa', 'numa_alloc': 'numa', 'numa_allocate_nodemask': 'mask', 'numa_allocate_cpumask': 'mask', 'numa_bitmask_alloc': 'mask',
       '__sched_cpualloc': 'cpus', 'fopen': 'file', 'fopen64': 'file', 'malloc': 'heap', 'calloc': 'heap', 'operator new[]': 'array', 'operator new': 'new'}
REL = {'close': 'fd', 'munmap': 'map', 'numa_free': 'numa', 'numa_free_nodemask': 'mask', 'numa_free_cpumask': 'mask', 'numa_bitmask_free': 'mask', '__sched_cpufree': 'cpus', 'fclose': 'file', 'free': 'heap', 'operator delete[]': 'array', 'operator delete': 'new'}
NAMES = {'fd': 'file descriptor', 'map': 'mapping', 'numa': 'NUMA block', 'mask': 'node mask', 'cpus': 'CPU set', 'file': 'file', 'heap': 'memory block', 'array': 'array', 'new': 'object'}
SYSC = re.compile(r'^(open|open64|openat|creat|close|mmap|mmap64|munmap|ftruncate|ftruncate64|flock|fsync|read|write|lseek|stat|fstat|unlink|sched_\w+|pthread_set\w+|mprotect|msync|madvise|shm_open|shm_unlink|socket|ioctl|fcntl)$')
SENT = {'fd': -1, 'map': -1, 'numa': 0, 'mask': 0, 'cpus': 0, 'file': 0, 'heap': 0}
OSKINDS = set(SENT)
OPAQUE = re.compile(r'^(Poco::File::|Poco::Process|Pothos::)')


def plain(n):
    """the name of a C function that has internal linkage in C++"""
    m = re.match(r'^_ZL(\d+)', n or '')
    return n[m.end():m.end() + int(m.group(1))] if m else n


class ResRule(TermRule):
    def __init__(self, prog, tu, opaque):
        TermRule.__init__(self, prog)
        self.tu = tu
        self.opaque = opaque

    def inside(self, fn, name):
        return fn.tu == self.tu and fn.n not in self.opaque and not fn.name.startswith('Pothos::Exception')

    def throws(self, eng, ins, name):
        return ins.op == 'invoke' and OPAQUE.match(name) is not None and last(name) != 'path' and last(name) != name.split('::')[-2] and 'Exception' not in name and 'Error::' not in name and not last(name).startswith('~')

    def term(self, st, v):
        if isinstance(v, tuple) and v[0] == 'alloca' and ('tv', v) not in st.mem:
            w = st.rd(v)
            if isinstance(w, tuple) and w[0] in ('res', 'errno', 'rv', 'ini', 'arg'):
                return w
        return TermRule.term(self, st, v)

    def sys(self, st, name, a, loc):
        n = ('n', len(st.ev))
        kind = ACQ.get(name)
        r = ('res', kind, n) if kind else ('rv', name, n)
        self.emit(st, 'sys', name, tuple(a), r, loc)
        st.mem[('errnoloc',)] = ('errno', n)
        return r

    def special(self, eng, fr, ins, name, a, dst, st):
        name = plain(name)
        if name in ('__errno_location', '__error', '_errno'):
            return [('ret', st, ('errnoloc',))]
        if name in ('operator new', 'operator new[]'):
            r = ('res', ACQ[name], ('n', len(st.ev)))
            self.emit(st, 'acq', name, tuple(a), r, ins.loc)
            return [('ret', st, r)]
        if name in REL:
            v = self.term(st, a[0]) if isinstance(a[0], tuple) and a[0][0] == 'alloca' else a[0]
            self.emit(st, 'rel', REL[name], v, tuple(a[1:]), ins.loc)
            if SYSC.match(name):
                return [('ret', st, self.sys(st, name, a, ins.loc))]
            return [('ret', st, None)]
        if name in ACQ or SYSC.match(name):
            return [('ret', st, self.sys(st, name, a, ins.loc))]
        if name in ('strerror', 'strerror_r', '__xpg_strerror_r') and a:
            self.emit(st, 'reason', a[0], ins.loc)
            return [('ret', st, ('unk', 'reason', ('n', len(st.ev))))]
        if last(name) == 'ErrnoException' and not '~' in name:
            self.emit(st, 'reason', self.term(st, a[1]) if len(a) > 1 else st.mem.get(('errnoloc',), ('unk', 'errno')), ins.loc)
            return [('ret', st, None)]
        if last(name) == 'category' or name == 'std::error_code::error_code' and len(a) > 1:
            return None
        return None


def funcs(prog):
    """functions that obtain resources, with the functions of the same file that get them from there"""
    direct, callers = {}, {}
    for f in prog.repo_fns():
        if '/Test' in f.tu or not f.blocks:
            continue
        for x in f.calls():
            k = prog.call_info(x)
            n = plain(k[0])
            if n in ACQ and ACQ[n] != 'new' or n in ('flock', 'strerror', 'strerror_r') or last(n) == 'ErrnoException':
                direct[f.n] = f
            if k[2] == 'direct' and k[1]:
                callers.setdefault(k[1][0] if isinstance(k[1][0], str) else k[1][0].n, set()).add(f.n)
    return direct, callers


def is_ctor(f):
    p = f.name.split('::')
    return len(p) >= 2 and p[-1] == p[-2] and re.search(r'C[12]E', f.n) is not None


def cls_of(f):
    return '::'.join(f.name.split('::')[:-1])


def eqfact(st, r, vals):
    """is r equal to one of these constants on this path"""
    known = None
    for ft, t in st.facts.items():
        if ft[0] == 'cmp' and ft[1] in ('eq', 'ne') and r in ft[2:]:
            o = ft[3] if ft[2] == r else ft[2]
            if cval(o) in vals or o in vals:
                t = t if ft[1] == 'eq' else not t
                if t:
                    return True
                known = False
    return known


def failed(st, r, kind):
    """did the call that gave r fail on this path: True, False, or None when the path does not know"""
    if kind in ('array', 'new'):
        return eqfact(st, r, (0,)) is True
    if kind == 'map':
        if eqfact(st, r, (0,)):
            return True
        return eqfact(st, r, (-1, (1 << 64) - 1))
    if kind == 'fd':
        for x, y in ((r, K(0)), (r, K(-1))):
            d = st.decide(compare('slt', x, y))
            if d is not None:
                return d
        d = st.decide(compare('sgt', r, K(-1)))
        if d is not None:
            return not d
    return eqfact(st, r, (SENT[kind],))


def infeasible(st, ev):
    """do the facts of this path contradict each other: open() and its like return -1 when they fail and nothing else below 0"""
    for e in ev:
        if e[0] == 'sys' and e[3][:2] == ('res', 'fd'):
            n, m = st.decide(compare('slt', e[3], K(0))), eqfact(st, e[3], (-1,))
            if n is not None and m is not None and n != m:
                return True
    return False


def broke(st, r):
    """did the system call with result r fail on this path"""
    if r[0] == 'res':
        return failed(st, r, r[1])
    d = eqfact(st, r, (0,))
    if d:
        return False
    e = eqfact(st, r, (-1,))
    s = st.decide(compare('slt', r, K(0)))
    if e or s:
        return True
    if e is False or s is False:
        return False
    return None if d is None else not d


class Ctx:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.direct, self.callers = funcs(prog)
        self.n = 0
        self.keep = {}      # class -> {field: (kind, length term's field or None, where)}

    def bad(self, rule, f, msg, loc=None):
        self.rep.violation(rule, loc or f.loc, f.name, msg)

    def run(self, f):
        ctors = set(g.n for g in self.direct.values() if is_ctor(g) and g.n != f.n)
        r = ResRule(self.prog, f.tu, ctors)
        e = Affine(self.prog, r, max_steps=200000)
        out = e.run(f)
        self.rep.engine(e)
        return r, out

    def roots(self):
        work, seen = list(self.direct), set(self.direct)
        while work:
            n = work.pop()
            f = self.prog.fns[n]
            if is_ctor(f):
                continue
            for c in self.callers.get(n, ()):
                g = self.prog.fns[c]
                if c not in seen and g.tu == f.tu:
                    seen.add(c)
                    work.append(c)
        return [self.prog.fns[n] for n in sorted(seen)]


def holders(st, r):
    """the fields that hold r"""
    out = []
    for o, v in st.mem.items():
        if v == r and isinstance(o, tuple) and o[0] == 'fld' and base(o)[0] != 'alloca':
            out.append(o)
        elif o[0] == 'tv' and v == r and isinstance(o[1], tuple) and o[1][0] == 'fld' and base(o[1])[0] != 'alloca':
            out.append(o[1])
    return out


def check_fn(c, f):
    r, out = c.run(f)
    ctor = is_ctor(f)
    dtor = '::~' in f.name
    cls = cls_of(f)
    cases = [(k, st, rv, st.ev) for k, st, rv in out]
    for mk, l in r.loops.items():
        cases += [('again', st, None, ev) for v, facts, ev, st in l]
    modes = set(cval(e[2][1]) for _, _, _, ev in cases for e in ev if e[0] == 'sys' and e[1] == 'flock')
    for kind, st, rv, ev in cases:
        if infeasible(st, ev):
            continue
        c.n += 1
        check_reasons(c, f, st, ev, kind)
        if kind == 'again':
            check_loop_case(c, f, st, ev)
            continue
        rels = {}
        for i, e in enumerate(ev):
            if e[0] == 'rel':
                rels.setdefault(e[2], []).append(i)
        for i, e in enumerate(ev):
            if e[0] not in ('sys', 'acq') or e[3][0] != 'res':
                continue
            res, k = e[3], e[3][1]
            bad = failed(st, res, k)
            rel = rels.get(res, [])
            if bad:
                continue
            if len(rel) > 1 and not (k == 'map' and any(ev[x][3] != ev[rel[0]][3] for x in rel)):
                c.bad('R1', f, 'the %s is released twice on one path' % NAMES[k], ev[rel[1]][-1])
            if rel and any(ev[x][1] != k for x in rel):
                c.bad('R1', f, 'the %s is released by the wrong function' % NAMES[k], ev[rel[0]][-1])
            if k == 'map' and rel and e[2][0] is not None and ev[rel[0]][3] and ev[rel[0]][3][0] != e[2][1]:
                c.bad('R1', f, 'a mapping is not unmapped with the length that it was mapped with', ev[rel[0]][-1])
            if rel:
                continue
            h = holders(st, res)
            if k == 'new' and not (h and any(o[1] == ('arg', 0, 'this') for o in h)):
                continue        # handed over to whatever it was passed to
            out_ = rv == res or isinstance(rv, tuple) and has(rv, res)
            if bad is None and k in ('fd', 'map') and kind == 'ret' and not out_:
                c.bad('R7', f, 'a %s is used without a look at whether the system could provide it' % NAMES[k], e[-1])
            if kind == 'throw':
                if ctor or not h:
                    c.bad('R1', f, 'the %s is not released when the function fails afterwards' % NAMES[k], e[-1])
            elif not h and not out_:
                c.bad('R1', f, 'the %s is not released and not kept either' % NAMES[k], e[-1])
            elif h and ctor:
                for o in h:
                    ln = None
                    if k == 'map':
                        ln = [x[2] for x, v in st.mem.items() if x[0] == 'fld' and v == e[2][1] and x[1] == o[1]]
                    c.keep.setdefault(cls, {})[o[2]] = (k, ln, e[-1])
        check_maps(c, f, kind, st, ev, rv)
        check_flock(c, f, kind, st, ev, modes)


def check_loop_case(c, f, st, ev):
    """a resource that is obtained in an iteration is released in it"""
    for e in ev:
        if e[0] == 'sys' and e[3][0] == 'res' and not failed(st, e[3], e[3][1]):
            rel = [x for x in ev if x[0] == 'rel' and x[2] == e[3]]
            if len(rel) != 1 and not holders(st, e[3]):
                c.bad('R1', f, 'the %s that every iteration obtains is not released (exactly once)' % NAMES[e[3][1]], e[-1])


def check_reasons(c, f, st, ev, kind):
    sysc = dict((('n', j), e) for e in ev if e[0] == 'sys' for j in [e[3][2][1]])
    for i, e in enumerate(ev):
        if e[0] != 'reason':
            continue
        v = e[1]
        if isinstance(v, tuple) and v[0] == 'arg':
            continue
        if isinstance(v, tuple) and v[0] == 'rv' and v[1].startswith('pthread'):
            continue
        if not (isinstance(v, tuple) and v[0] == 'errno'):
            if cval(v) is not None or any(isinstance(x, tuple) and x[:1] in (('rv',), ('res',)) and len(x) == 3 for x in walk(v)):
                c.bad('R5', f, 'the reason that is reported is not the error code of the system', e[-1])
            continue
        s = sysc.get(v[1])
        if s is None:
            continue
        if s[1].startswith('pthread'):
            c.bad('R5', f, 'the reason that is reported is not the result of %s, which does not set errno' % s[1], e[-1])
        if not broke(st, s[3]) and any(broke(st, x[3]) for x in ev if x[0] == 'sys' and x is not s):
            c.bad('R5', f, 'the reason that is reported is that of another system call (%s), made after the one that failed' % s[1], e[-1])


def check_maps(c, f, kind, st, ev, rv):
    if kind != 'ret':
        return
    maps = [e for e in ev if e[0] == 'sys' and e[1] in ('mmap', 'mmap64') and not failed(st, e[3], 'map')]
    live = [e for e in maps if not [x for x in ev if x[0] == 'rel' and x[2] == e[3]]]
    for e in live:
        if rv == e[3]:
            continue        # the caller is looked at as well
        hint, ln, prot, flags, fd, off = e[2][:6]
        fl = cval(flags)
        if hint not in (K(0), None) and cval(hint) != 0 and not (fl is not None and fl & 0x10):
            if st.decide(compare('eq', e[3], hint)) is not True and not anyeq(st, e[3], hint):
                c.bad('R3', f, 'a mapping is used at the address that was asked for, but the system may have put it elsewhere', e[-1])
    files = [e for e in live if cval(e[2][4]) != -1]
    if len(files) >= 2:
        a, b = files[0], files[1]
        if len(files) > 2 or a[2][4] != b[2][4] or a[2][5] != b[2][5] or a[2][1] != b[2][1] or a[2][2] != b[2][2]:
            c.bad('R4', f, 'the two halves are not mappings of the same part of the file', b[-1])
        if any(cval(e[2][3]) is None or not cval(e[2][3]) & 1 for e in files):
            c.bad('R4', f, 'a half of the circular buffer is a private copy', b[-1])
        if norm(st, b[2][0]) not in (norm(st, binop('add', a[3], a[2][1])), norm(st, binop('add', a[2][0], a[2][1]))):
            c.bad('R4', f, 'the second half does not start where the first one ends', b[-1])
        tr = [e for e in ev if e[0] == 'sys' and e[1].startswith('ftruncate') and e[2][0] == a[2][4]]
        if not tr or not any(covers(e[2][1], a[2][1]) for e in tr):
            c.bad('R4', f, 'the file is not as long as what is mapped of it', a[-1])
        res = [e for e in maps if e not in live and norm(st, e[3]) == norm(st, a[2][0])]
        if res and not covers(res[0][2][1], binop('add', a[2][1], b[2][1])):
            c.bad('R4', f, 'the address range that was looked for is shorter than both halves', res[0][-1])


def norm(st, x):
    """an address as a sum, mappings that are known to be at the same place being one"""
    if not isinstance(x, tuple):
        return x
    if x[0] == 'idx':
        return binop('add', norm(st, x[1]), norm(st, x[2]))
    if x[0] == 'res':
        same = [x]
        for y in same:
            for ft, t in st.facts.items():
                if t and ft[0] == 'cmp' and ft[1] == 'eq' and y in ft[2:]:
                    o = ft[3] if ft[2] == y else ft[2]
                    if o[:1] == ('res',) and o not in same:
                        same.append(o)
        return min(same)
    if x[0] == 'L':
        r = K(x[1])
        for v, k in x[2]:
            w = norm(st, v)
            for _ in range(abs(k)):
                r = binop('add' if k > 0 else 'sub', r, w)
        return r
    return x


def anyeq(st, r, hint):
    h = norm(st, hint)
    for ft, t in st.facts.items():
        if ft[0] == 'cmp' and ft[1] == 'eq' and t and r in ft[2:] and norm(st, ft[3] if ft[2] == r else ft[2]) == h:
            return True
    return False


def covers(x, y):
    """x >= y for sizes"""
    if x == y:
        return True
    d = binop('sub', x, y)
    if cval(d) is not None:
        return cval(d) >= 0
    return isinstance(d, tuple) and d[0] == 'L' and d[1] >= 0 and all(k >= 0 for _, k in d[2]) or d == y or isinstance(d, tuple) and d[0] != 'L'


def check_flock(c, f, kind, st, ev, modes):
    fl = [e for e in ev if e[0] == 'sys' and e[1] == 'flock']
    if len(modes) != 1 or None in modes:
        return          # a helper that is told what to do, or a function that does both
    want = not list(modes)[0] & 8
    for e in fl:
        if want and not cval(e[2][1]) & 2:
            c.bad('R6', f, 'the file lock is not exclusive', e[-1])
        if want and cval(e[2][1]) & 4:
            c.bad('R6', f, 'taking the file lock does not wait for it to be free', e[-1])
    end = None
    for o, v in st.mem.items():
        if o[0] == 'fld' and o[2] in c.lockflag and cval(v) is not None:
            end = bool(cval(v) & 1)
    ini = None
    for ft, t in st.facts.items():
        for x in walk(ft):
            if isinstance(x, tuple) and len(x) > 1 and x[0] == 'ini' and isinstance(x[1], tuple) and x[1][0] == 'fld' and x[1][2] in c.lockflag:
                ini = st.decide(x) if ft == x else ini
                d = st.decide(compare('eq', x, K(0)))
                ini = (not d) if d is not None else ini
                if ft == x:
                    ini = t
    ok = [e for e in fl if broke(st, e[3]) is False]
    if kind == 'ret':
        if fl and not ok:
            c.bad('R6', f, 'the file lock could not be %s, but that is not reported' % ('taken' if want else 'given up'), fl[0][-1])
        if ok and end is not want:
            c.bad('R6', f, 'the state of the file lock is not remembered', fl[0][-1])
        if not fl and (ini is not want or end not in (None, want)):
            c.bad('R6', f, 'the file lock is not %s although it is %s' % (('taken', 'free') if want else ('given up', 'held')))
    elif kind == 'throw' and not ok and end is want and fl:
        c.bad('R6', f, 'the file lock could not be %s but is remembered as such' % ('taken' if want else 'given up'), fl[0][-1])


def walk(x):
    yield x
    if isinstance(x, tuple):
        for y in x:
            if isinstance(y, tuple):
                yield from walk(y)


def check_dtor(c, cls, fields):
    d = [g for g in c.prog.repo_fns() if g.name == cls + '::~' + cls.split('::')[-1] and g.blocks and re.search(r'D2Ev', g.n)] or \
        [g for g in c.prog.repo_fns() if g.name == cls + '::~' + cls.split('::')[-1] and g.blocks]
    if not d:
        for fl, (k, ln, loc) in fields.items():
            c.rep.violation('R2', loc, cls, 'the %s in %s is never released: the class has no destructor' % (NAMES[k], fl.split('::')[-1]))
        return
    f = d[0]
    r, out = c.run(f)
    for kind, st, rv in out:
        c.n += 1
        if kind != 'ret':
            continue
        for fl, (k, ln, loc) in fields.items():
            rel = [e for e in st.ev if e[0] == 'rel' and isf(e[2], fl)]
            none = None
            for e in walk(tuple(st.facts)):
                if isf(e, fl) and e[0] == 'ini':
                    none = none or failed(st, e, k)
            if none:
                continue
            if not rel:
                c.bad('R2', f, 'the %s in %s is not released' % (NAMES[k], fl.split('::')[-1]), f.loc)
            elif len(rel) > 1:
                c.bad('R2', f, 'the %s in %s is released twice' % (NAMES[k], fl.split('::')[-1]), rel[1][-1])
            elif rel[0][1] != k:
                c.bad('R2', f, 'the %s in %s is released by the wrong function' % (NAMES[k], fl.split('::')[-1]), rel[0][-1])
            elif k == 'map' and ln is not None and not any(isf(rel[0][3][0], x) for x in ln):
                c.bad('R2', f, 'the mapping in %s is not unmapped with the length that it was mapped with' % fl.split('::')[-1], rel[0][-1])


def isf(v, fl):
    return isinstance(v, tuple) and len(v) > 1 and (v[0] == 'ini' and isf(v[1], fl) or v[0] == 'fld' and len(v) == 3 and v[2] == fl)


def check(prog, rep):
    rep.rule('R1 on every path a resource is released exactly once, kept in a member, or returned; a constructor that fails keeps nothing')
    rep.rule('R2 the destructor releases what the constructor left in a member exactly once, mappings with their length')
    rep.rule('R3 a mapping asked for at an address is used only when it was put there')
    rep.rule('R4 the halves of a circular buffer are shared mappings of the same part of one file, side by side')
    rep.rule('R5 the reason in an error is the error code of the call that failed')
    rep.rule('R7 no file descriptor or mapping is used before its validity was examined')
    rep.rule('R6 a file lock is remembered as held exactly when it is')
    c = Ctx(prog, rep)
    c.lockflag = set(x for x in lockflags(prog))
    roots = c.roots()
    for f in roots:
        if '::~' in f.name:
            continue
        check_fn(c, f)
    for cls, fields in sorted(c.keep.items()):
        check_dtor(c, cls, fields)
    rep.count('functions', len(roots))
    rep.count('classes', len(c.keep))
    rep.count('paths', c.n)
    rep.need(len(roots) >= 6 and len(c.keep) >= 4, 'functions that obtain system resources')
    rep.analysed += ['%s keeps %s' % (k, ', '.join('%s (%s)' % (x.split('::')[-1], v[x][0]) for x in v)) for k, v in sorted(c.keep.items())]


def lockflags(prog):
    for cl in ('Pothos::Util::FileLock::Impl',):
        try:
            for n, t in cls_fields(prog, cl):
                if t.replace(' ', '') == 'bool':
                    yield cl + '::' + n
        except AnalysisError:
            pass
