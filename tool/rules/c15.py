"""C15 truncated or corrupt archives end in an error"""
from affine import *
from common import *
from rules.c14 import params, roles, norm, AR, SUB, str_terms, SRule, INTS

SOURCES = ['lib/*', 'lib/*/*', 'lib/*/Builtin/*', '+archive.cpp']
EXPLANATION = ('All functions that read from streams, and all reading instantiations of the serialization code, are interpreted abstractly on all paths (exceptional ones included): what a read delivered is used '
               'only after the read was checked, markers are compared, loops driven by the data are bounded, and objects created while reading are owned.')

READ = re.compile(r'^std::(basic_istream|istream)::(read)$')
STATE = re.compile(r'^std::(basic_ios|ios|basic_istream|istream|ios_base)::(eof|fail|bad|good|operator!|operator bool|gcount|rdstate)$')
GOOD = {'eof': False, 'fail': False, 'good': True, 'operator!': False, 'operator bool': True}


class RRule(ARule):
    max_depth = 4

    def inline(self, eng, fn, name):
        return fn.in_repo and (fn.n in self.readers or any('istream' in p for p in params(eng.prog.dem(fn.n))) and self.small(fn))

    def small(self, fn):
        return len(list(fn.instrs())) < 200 and any(STATE.match(self.prog.nname(x.f[1:])) for x in fn.calls() if x.f.startswith('@'))

    def pure(self, name):
        return bool(self.pure_re.search(name))

    def event(self, name):
        return last(name) in ('deserialize',)

    def reads(self, st):
        return sum(1 for e in st.ev if e[0] == 'read')

    def model(self, eng, fr, ins, name, args, st):
        if READ.match(name):
            n = self.reads(st)
            st.ev = st.ev + (('read', args[1], args[2], ins.loc, fr.fn.name, frozenset(st.facts.items())),)
            st.kill(args[1], ('read', n))
            return [('ret', st, args[0])]
        if STATE.match(name):
            return [('ret', st, ('st', last(name), self.reads(st)))]
        return None


def evidence(st, j, ln):
    for v, t in st.facts.items():
        ts = str_terms(v) if isinstance(v, tuple) else []
        for x in ts:
            if isinstance(x, tuple) and x[:1] == ('st',) and (x[2] == j or x[2] > j and x[1] != 'gcount'):
                if x[1] in GOOD:
                    want = GOOD[x[1]]
                    if v == x:
                        if t == want:
                            return True
                    elif v[0] == 'cmp' and v[1] == 'eq' and K(0) in v[2:]:
                        if (not t) == want:
                            return True
                elif x[1] == 'gcount' and v[0] == 'cmp':
                    o = [y for y in v[2:] if x not in (str_terms(y) if isinstance(y, tuple) else [])]
                    if v[1] == 'eq' and t and o:
                        return True
                    if v[1] in ('ult', 'slt') and not t:
                        return True
                    if v[1] in ('ule', 'sle') and t and o and x in str_terms(v[3]):
                        return True
                elif x[1] == 'rdstate' and v[0] == 'cmp' and v[1] == 'eq' and K(0) in v[2:] and t:
                    return True
    return False


def check(prog, rep):
    rep.rule('R1 bytes read from a stream are used, or the next are read, only on paths where the read succeeded (count or state of the stream)')
    rep.rule('R2 the marker words of a datagram are compared before it is deserialized')
    rep.rule('R3 a loop that reads until the data says stop has a bound of its own that ends in an exception')
    rep.rule('R4 an object created while reading is owned at every call that can throw; a destroyed one is not left in place')
    rep.rule('R5 Object::deserialize reports every failure as an ObjectSerializeError')
    r1(prog, rep)
    r3(prog, rep)
    r4(prog, rep)
    r5(prog, rep)


def r1(prog, rep):
    direct = set()
    for f in prog.fns.values():
        if f.in_repo and f.blocks and '/Test' not in f.tu:
            for x in f.calls():
                if x.f.startswith('@') and READ.match(prog.nname(x.f[1:])):
                    direct.add(f.n)
    rep.need(direct, 'functions reading from a stream')
    done = {}
    for n in sorted(direct):
        f = prog.fns[n]
        # a reader whose caller checks is judged in the caller
        rule = RRule()
        rule.prog = prog
        rule.readers = set()
        open_ = judge(prog, rep, f, rule)
        cs = []
        if open_ or not any(last(prog.nname(x.f[1:])) == 'deserialize' for x in f.calls() if x.f.startswith('@')):
            cs = [prog.fns[c] for c in callers_of(prog, n) if prog.fns[c].in_repo and '/Test' not in prog.fns[c].tu]
            ok = bool(cs)
            for c in cs:
                if last(c.name) in ('operator>>', 'load', 'serialize', 'operator&') and not open_:
                    continue
                r2 = RRule()
                r2.prog = prog
                r2.readers = {n}
                if judge(prog, rep, c, r2):
                    ok = False
            if open_ and not ok:
                e = open_[0]
                rep.violation('read', e[3], f.name, 'what was read from the stream is used without a check that all of it was there', key='read|%s' % f.name)
    return


def callers_of(prog, n):
    out = set()
    for f in prog.fns.values():
        if f.blocks:
            for x in f.calls():
                if x.f == '@' + n:
                    out.add(f.n)
    return out


def base_of(b):
    while isinstance(b, tuple) and b[0] in ('fld', 'idx'):
        b = b[1]
    return b


def judge(prog, rep, f, rule):
    args = tuple(('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs))
    eng = Affine(prog, rule)
    outs = eng.run(f, args)
    rep.engine(eng)
    bad = []
    for kind, st, rv in outs:
        if kind != 'ret':
            continue
        reads = [e for e in st.ev if e[0] == 'read']
        for j, e in enumerate(reads):
            rep.count('reads')
            if not evidence(st, j + 1, e[2]):
                bad.append(e)
                continue
            nxt = reads[j + 1] if j + 1 < len(reads) else None
            b = base_of(e[1])
            if nxt is not None and (b in str_terms(nxt[1]) or b in str_terms(nxt[2]) or any(b in str_terms(v) for v, t in nxt[5])):
                s2 = State.__new__(State)
                s2.facts = dict(nxt[5])
                if not evidence(s2, j + 1, e[2]):
                    bad.append(e)
        if any(e[0] == 'call' and last(e[1]) == 'deserialize' for e in st.ev):
            for j, e in enumerate(reads):
                b = base_of(e[1])
                if not (isinstance(b, tuple) and b[0] == 'alloca'):
                    continue
                rep.count('markers')
                if not any(t and v[0] == 'cmp' and v[1] == 'eq' and b in str_terms(v) for v, t in st.facts.items()):
                    rep.violation('marker', e[3], f.name, 'the datagram is deserialized although the words read here were not compared with the expected ones', key='marker|%s|%d' % (f.name, j))
    return bad


class LRule(SRule):
    """loops of reading code that no archived count drives"""

    def __init__(self, prog, ar, obj):
        SRule.__init__(self, prog, ar, obj, False)
        self.bounded = {}

    def on_backedge(self, eng, fr, header, it, st, phis):
        ent, hst, hphis = it
        if not ent.wid or not any(e[0] == 'tok' for e in st.ev[len(hst.ev):]):
            return
        ok = False
        cells = [(hphis[v], phis.get(v)) for v in hphis] + [(hst.mem[a], st.mem.get(a)) for a in hst.mem if isinstance(hst.mem[a], tuple) and hst.mem[a][0] == 'w']
        for w, now in cells:
            if not (isinstance(w, tuple) and w[0] == 'w') or now is None:
                continue
            d = cval(sub(now, w))
            if d is None or d == 0:
                continue
            for f, t in st.facts.items():
                if f[0] != 'cmp':
                    continue
                for x in f[2:]:
                    if w in terms(x) or x == w or w in str_terms(x):
                        if f[1] in ('ult', 'slt', 'ule', 'sle') or f[1] == 'eq':
                            ok = True
        self.bounded.setdefault((fr.fn.n, header), []).append(ok)


def r3(prog, rep):
    n = 0
    for f in list(prog.fns.values()):
        if not f.blocks or not f.in_repo or '/Test' in f.tu or last(f.name) not in ('load', 'serialize'):
            continue
        r = roles(prog, f)
        if r is None or r[3]:
            continue
        args = tuple(('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs))
        rule = LRule(prog, args[r[0]], args[r[1]] if r[1] is not None else None)
        eng = Affine(prog, rule)
        eng.run(f, args)
        for k, oks in rule.bounded.items():
            n += 1
            if not all(oks):
                rep.violation('unbounded', f.loc, f.name, 'the loop goes on as long as the data says so (%s)' % (r[2] or ''), key='unbounded|%s|%s' % (f.name, r[2]))
    rep.count('reading_loops', n)
    rep.need(n >= 8, 'loops in reading code')


class ORule(ARule):
    max_depth = 3

    def inline(self, eng, fn, name):
        return False

    def pure(self, name):
        return bool(self.pure_re.search(name)) or last(name) in ('get', 'operator*', 'operator->')

    def event(self, name):
        return True

    def throws(self, eng, ins, name):
        return not last(name).startswith('~') and not name.startswith(('operator delete', '__cxa'))


NEW = re.compile(r'^operator new(\[\])?$')
FREE = re.compile(r'^operator delete|::~|::(reset)$')


def r4(prog, rep):
    nn = 0
    for f in list(prog.fns.values()):
        if not f.blocks or not f.in_repo or '/Test' in f.tu or last(f.name) != 'load':
            continue
        r = roles(prog, f)
        if r is None or r[3]:
            continue
        args = tuple(('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs))
        poly = r[2] is not None and r[2].endswith('*')
        has_new = any(x.f.startswith('@') and NEW.match(prog.nname(x.f[1:])) for x in f.calls())
        if not poly and not has_new:
            continue
        nn += 1
        rule = ORule()
        eng = Affine(prog, rule)
        for kind, st, rv in eng.run(f, args):
            evs = [e for e in st.ev if e[0] == 'call']
            rep.count('ownership_paths')
            if kind == 'throw':
                for i, e in enumerate(evs):
                    if NEW.match(e[1]) and i + 1 < len(evs):
                        rest = evs[i + 1:]
                        if not any(FREE.search(x[1]) for x in rest):
                            rep.violation('leak', f.loc, f.name, 'when reading fails, the object created before is lost', key='leak|%s' % f.name)
            if poly and kind == 'throw' and r[1] is not None:
                cell = args[r[1]]
                gone = [i for i, e in enumerate(evs) if last(e[1]).startswith('~') and any(a == ('ini', cell) for a in e[2][:1]) or e[1].startswith('operator delete') and ('ini', cell) in e[2]]
                if gone and gone[0] < len(evs) - 1 and st.rd(cell) == ('ini', cell):
                    rep.violation('dangling', f.loc, f.name, 'when reading fails after the previous object was destroyed, the pointer to it stays in place', key='dangling|%s' % f.name)
    rep.count('loads_creating_objects', nn)
    rep.need(nn >= 2, 'loads that create objects')


def r5(prog, rep):
    for q in ('Pothos::Object::deserialize', 'Pothos::Object::serialize'):
        for f in prog.named(q):
            if not f.blocks or not any('stream' in p for p in params(prog.dem(f.n))):
                continue
            n = 0
            for x in f.calls():
                nm = prog.nname(x.f[1:]) if x.f.startswith('@') else ''
                if 'StreamArchiver' not in nm or last(nm).startswith('~'):
                    continue
                n += 1
                cl = None
                if x.op == 'invoke':
                    lp = [y for y in f.blocks[x.s[1]] if y.op == 'landingpad']
                    cl = lp[0].d.get('c') if lp else None
                rep.count('archive_calls')
                need = 'ArchiveException' if q.endswith('::serialize') else 'std::exception'
                if not cl or not catches(prog, cl, need):
                    rep.violation('escape', x.loc, f.name, 'a failure of the archive leaves as something else than ObjectSerializeError', key='escape|%s' % f.name)
            rep.need(n, 'archive calls of %s' % q)
            rule = HRule()
            args = tuple(('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs))
            for kind, st, rv in Affine(prog, rule).run(f, args):
                if kind == 'ret' and any(e[0] == 'call' and e[1] == '__cxa_begin_catch' for e in st.ev):
                    rep.violation('swallowed', f.loc, f.name, 'a failure of the archive is swallowed', key='swallowed|%s' % f.name)


class HRule(ARule):
    def inline(self, eng, fn, name):
        return False

    def event(self, name):
        return name == '__cxa_begin_catch'

    def throws(self, eng, ins, name):
        return 'StreamArchiver' in name


def catches(prog, cl, need):
    want = {'std::exception': ('_ZTISt9exception',), 'ArchiveException': ('_ZTISt9exception', '_ZTIN6Pothos16ArchiveExceptionE', '_ZTIN6Pothos9ExceptionE', '_ZTIN4Poco9ExceptionE')}[need]
    return any(c == 'null' or c.lstrip('@') in want for c in cl)
