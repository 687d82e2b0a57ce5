"""C14 archive round trip: what save writes is what load reads"""
from affine import *
from aloops import visits
from common import *

SOURCES = ['lib/*', 'lib/*/*', 'lib/*/Builtin/*', '+archive.cpp']
EXPLANATION = ('For every type with serialization code, the writing and the reading instantiation are interpreted abstractly; the sequences of archived items on all their paths (item types, the '
               'members they come from and go to, the conditions that depend on archived flags, the loops and how often they run, the byte counts of raw data) are compared.')

AR = re.compile(r'^Pothos::Archive::(O|I)StreamArchiver::(operator<<|operator>>|operator&|writeBytes|readBytes)$')
SUB = re.compile(r'^Pothos::serialization::(invokeSerialize|invokeSplit|save|load|serialize)$|^Pothos::Archive::ArchiveEntry(T)?::(save|load)$')
BO = 'Pothos::serialization::BinaryObject::BinaryObject'
INTS = re.compile(r'^(int|long|long long|unsigned int|unsigned long|unsigned long long)$')


def params(dem):
    """parameter types of a demangled function"""
    d = dem[:dem.rindex(')')]
    n, i = 0, len(d) - 1
    while i >= 0:
        if d[i] in ')>':
            n += 1
        elif d[i] in '(<':
            if n == 0:
                break
            n -= 1
        i -= 1
    out, n, cur = [], 0, ''
    for ch in d[i + 1:]:
        if ch in '(<':
            n += 1
        elif ch in ')>':
            n -= 1
        if ch == ',' and n == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def norm(t):
    t = re.sub(r'\b(O|I)StreamArchiver\b', 'Archiver', t)
    t = re.sub(r'\bconst\b', '', t).replace('&', '')
    return re.sub(r'\s+', ' ', t).replace(' >', '>').replace(' *', '*').replace(' ,', ',').strip()


class SRule(ARule):
    max_depth = 4

    def __init__(self, prog, ar, obj, saving):
        self.prog = prog
        self.ar, self.obj, self.saving = ar, obj, saving
        self.loops = {}
        self.visit = {}
        self.empty = {}
        self.n = 0

    def inline(self, eng, fn, name):
        if not fn.in_repo or AR.match(name) or SUB.match(name) or name == BO:
            return False
        return any('StreamArchiver' in p for p in params(self.prog.dem(fn.n)))

    def pure(self, name):
        return bool(self.pure_re.search(name)) or last(name) in ('size', 'length', 'data', 'operator bool', 'operator!', 'as', 'operator*', 'operator->', 'empty', 'getHash', 'operator[]', 'operator!=', 'operator==')

    def event(self, name):
        return last(name) in ('resize', 'reserve', 'assign', 'vector', 'basic_string', 'BufferChunk', 'operator=', 'operator++', 'clear', 'insert', 'emplace', 'emplace_hint', 'emplace_back', 'push_back', 'real', 'imag', 'complex')

    def where(self, a):
        """members of the archived object an address is"""
        out = []
        while isinstance(a, tuple) and a:
            if a[0] == 'fld':
                out.append(a[2].split('::')[-1])
                a = a[1]
            elif a[0] in ('idx', 'elem', 'base'):
                a = a[1]
            else:
                break
        return '.'.join(reversed(out)) if a == self.obj and out else None

    def model(self, eng, fr, ins, name, args, st):
        if name == BO and len(args) > 2:
            st.wr(('bo', args[0]), (args[1], args[2]))
            return [('ret', st, None)]
        if last(name) == 'operator[]' and args and not self.saving:
            rv = ('r', name, args)
            st.ev = st.ev + (('call', name, args, rv, ins.loc),)
            return [('ret', st, rv)]
        if (AR.match(name) or SUB.match(name)) and self.ar in args:
            vals = [a for a in args if a != self.ar]
            if SUB.match(name) and name.endswith(('invokeSerialize', 'invokeSplit', 'save', 'load', 'serialize')) and name.startswith('Pothos::serialization'):
                ty = norm([p for p in params(self.callee(ins)) if 'StreamArchiver' not in p][0])
            elif SUB.match(name):
                ty = 'polymorphic'
            elif name.endswith('Bytes'):
                ty = 'bytes'
            else:
                ty = norm(params(self.callee(ins))[0])
            v = vals[0] if vals else None
            raw = None
            if ty == 'bytes':
                raw = tuple(vals[:2])
            elif ty == 'Pothos::serialization::BinaryObject':
                raw = st.mem.get(('bo', v))
            self.n += 1
            if self.saving:
                val = st.rd(v) if v is not None else None
            else:
                val = ('tok', ins.loc, ty)
                if v is not None and v != self.obj:
                    st.kill(v, ('read', ins.loc))
                    st.wr(v, val)
            st.ev = st.ev + (('tok', ty, self.where(v) if v is not None else None, val, raw, ins.loc, v),)
            rv = None
            if ins.v:
                rv = ('r', name, args)
            return [('ret', st, rv)]
        return None

    def callee(self, ins):
        f = ins.f
        if f.startswith('@'):
            return self.prog.dem(f[1:])
        return ''

    def on_enter(self, eng, fr, header, st, phis):
        st.ev = st.ev + (('loop', fr.fn.n, header),)

    def on_backedge(self, eng, fr, header, it, st, phis):
        ent, hst, hphis = it
        new = st.ev[len(hst.ev):]
        k = (fr.fn.n, header)
        if not any(e[0] in ('tok', 'loop') for e in new):
            self.empty.setdefault(k, []).append((new, st))
            return
        self.loops.setdefault(k, []).append((new, st))
        if not ent.wid:
            return
        got = None
        if self.saving:
            v = visits(eng, fr, ent, hst, hphis, st, phis)
            if v is not None:
                got = ('visit', v.container)
        if got is None:
            facts = {v: t for v, t in st.facts.items() if v not in hst.facts}
            for v, w in hphis.items():
                if not (isinstance(w, tuple) and w[0] == 'w') :
                    continue
                up = ent.phis.get(v) == K(0) and phis.get(v) == add(w, K(1))
                down = phis.get(v) == sub(w, K(1))
                for f, t in facts.items():
                    if f[0] != 'cmp':
                        continue
                    if up and (f[1] in ('ult', 'slt') and f[2] == w and t or f[1] == 'eq' and not t and w in (f[2], f[3])):
                        got = ('count', f[3] if f[2] == w else f[2])
                    if down and f[1] == 'eq' and not t and w in (f[2], f[3]) and K(0) in (f[2], f[3]):
                        got = ('count', ent.phis.get(v))
        self.visit.setdefault(k, set()).add(got)


def strip(v):
    """a value without conversions"""
    while isinstance(v, tuple) and v[0] in ('zext', 'sext', 'trunc', 'cast') and len(v) > 1:
        v = v[-1] if isinstance(v[-1], tuple) else v[1]
    return v


def truth(rule, st, val, ty):
    if ty != 'bool' or val is None:
        return None
    c = cval(val)
    if c is not None:
        return bool(c & 1)
    d = st.decide(val)
    if d is None:
        d = st.decide(compare('ne', val, K(0)))
    return d


def sig(rule, ev, st, depth=0):
    out = []
    for e in ev:
        if e[0] == 'tok':
            out.append((e[1], truth(rule, st, e[3], e[1])))
        elif e[0] == 'loop':
            k = (e[1], e[2])
            body = frozenset(sig(rule, n, s2, depth + 1) for n, s2 in rule.loops.get(k, ()) if depth < 3)
            if body and k in rule.empty:
                body |= {()}
            if body:
                out.append(('*', body))
    return tuple(out)


def plain(s):
    """a signature without the flags"""
    return tuple(('*', frozenset(plain(b) for b in x[1])) if x[0] == '*' else x[0] for x in s)


def flagged(s):
    return any((any(flagged(b) for b in x[1]) if x[0] == '*' else x[1] is not None) for x in s)


def text(s):
    return ' '.join(('(%s)*' % ' | '.join(sorted(text(b) for b in x[1]))) if isinstance(x, tuple) and x[0] == '*' else
                    (x[0] + ('=' + str(x[1]).lower() if x[1] is not None else '')) if isinstance(x, tuple) else x for x in s) or 'nothing'


def roles(prog, f):
    ps = params(prog.dem(f.n))
    ia = [i for i, p in enumerate(ps) if 'StreamArchiver' in p]
    if not ia:
        return None
    off = f.nargs - len(ps)
    if f.sret if hasattr(f, 'sret') else False:
        off = max(off, 1)
    ai = ia[0] + off
    if off:
        oi, ot = 0, None
    else:
        oi = [i for i in range(len(ps)) if i != ia[0]]
        oi = oi[0] if oi else None
        ot = norm(ps[oi]) if oi is not None else None
    return ai, oi, ot, 'IStreamArchiver' not in ps[ia[0]]


def key_of(prog, f, ot):
    """what both sides have in common"""
    d = prog.dem(f.n)
    if f.name.startswith('Pothos::Archive::ArchiveEntryT'):
        return re.sub(r'::(save|load)\(.*', '', d)
    if f.name.startswith('Pothos::serialization::') and ot is not None and last(f.name) != 'serialize':
        return 'save/load ' + ot
    d = re.sub(r'^.*?(?=Pothos::serialization::|[\w:]+::(serialize|save|load)<)', '', norm(d))
    return re.sub(r'::(save|load)(?=[<(])', '::S', d, count=1)


def check(prog, rep):
    rep.rule('R1 on all paths load reads the items save writes: same types, same order, under the same archived flags')
    rep.rule('R2 an item goes back to the member it came from; conditions depend only on what was archived before; every member of the class is archived')
    rep.rule('R3 loops write one item group per element after its count, and read as many as the count read')
    rep.rule('R4 raw data is written and read with the same byte count: a constant, or the archived count')
    rep.rule('R5 integers: same group width, payload, continuation and sign bits on both sides, shifts at the full width of the type')
    pairs = {}
    for f in prog.fns.values():
        if not f.blocks or not f.in_repo or '/Test' in f.tu:
            continue
        if not (re.match(r'^Pothos::serialization::(save|load|serialize)$', f.name) or f.name.startswith('Pothos::Archive::ArchiveEntryT::') and last(f.name) in ('save', 'load')
                or last(f.name) in ('serialize', 'save', 'load') and 'StreamArchiver' in prog.dem(f.n)):
            continue
        r = roles(prog, f)
        if r is None:
            continue
        key = key_of(prog, f, r[2])
        pairs.setdefault(key, {}).setdefault(r[3], (f, r))
    n = nt = nint = 0
    for key, d in sorted(pairs.items()):
        if True not in d or False not in d:
            f = list(d.values())[0][0]
            rep.notes.append('one side only: %s' % key)
            continue
        n += 1
        res = {}
        for side in (True, False):
            f, (ai, oi, ot, sv) = d[side]
            args = tuple(('arg', i, f.varname('%%%d' % i) or 'arg%d' % i) for i in range(f.nargs))
            rule = SRule(prog, args[ai], args[oi] if oi is not None else None, side)
            eng = Affine(prog, rule)
            outs = [(st, rv) for k, st, rv in eng.run(f, args) if k == 'ret']
            rep.engine(eng) if hasattr(eng, 'functions') else None
            sigs = frozenset(sig(rule, st.ev, st) for st, rv in outs)
            nt += rule.n
            res[side] = (f, rule, outs, sigs, args)
        compare_sides(prog, rep, key, res)
        m = re.match(r'save/load (.*)', key)
        if m and INTS.match(m.group(1)):
            ints(prog, rep, m.group(1), res[True][0], res[False][0])
            last_group(rep, m.group(1), res)
            nint += 1
        if m and m.group(1) == 'bool':
            boolean(rep, res)
        if m and m.group(1) in ('short', 'unsigned short'):
            fixed(prog, rep, res[True][0], res[False][0])
            nint += 1
    rep.count('type_pairs', n)
    rep.count('items', nt)
    rep.count('integer_types', nint)
    rep.need(n >= 60 and nt >= 150, 'serialization functions')


def compare_sides(prog, rep, key, res):
    (fs, rs, outs_s, ss, args_s), (fl, rl, outs_l, sl, args_l) = res[True], res[False]
    ps, pl = frozenset(map(plain, ss)), frozenset(map(plain, sl))
    short = key[:110]
    if ps != pl:
        a, b = sorted(map(str, ps - pl)), sorted(map(str, pl - ps))
        sa = [text(s) for s in ss if plain(s) in ps - pl] or [text(s) for s in ss]
        sb = [text(s) for s in sl if plain(s) in pl - ps] or [text(s) for s in sl]
        rep.violation('items', fl.loc, fl.name, 'save writes %s but load reads %s' % (sorted(sa)[0], sorted(sb)[0]), key='items|' + short)
        return
    if any(map(flagged, ss)) and any(map(flagged, sl)) and ss != sl:
        rep.violation('flags', fl.loc, fl.name, 'save writes %s but load reads %s' % (' or '.join(sorted(map(text, ss))), ' or '.join(sorted(map(text, sl)))), key='flags|' + short)
    # members
    order = {}
    for side, outs in ((True, outs_s), (False, outs_l)):
        for st, rv in outs:
            toks = [e for e in st.ev if e[0] == 'tok']
            order.setdefault(side, {}).setdefault(tuple(e[1] for e in toks), set()).add(tuple(e[2] for e in toks))
    for k, a in order[True].items():
        for la in a:
            for lb in order[False].get(k, ()):
                for x, y, ty in zip(la, lb, k):
                    if x is not None and y is not None and x != y:
                        rep.violation('member', fl.loc, fl.name, 'the %s item written from %s is read into %s' % (ty, x, y), key='member|' + short)
    # loops
    for rule, f, outs, saving in ((rs, fs, outs_s, True), (rl, fl, outs_l, False)):
        for k, gots in rule.visit.items():
            for g in gots:
                ok = False
                if g is not None:
                    for st, rv in outs:
                        toks = [e for e in st.ev if e[0] == 'tok' and INTS.match(e[1])]
                        for e in toks:
                            v = strip(e[3])
                            if saving and g[0] == 'visit' and v is not None and v[0] == 'r' and last(v[1]) in ('size', 'length') and v[2] and v[2][0] == g[1]:
                                ok = True
                            if g[0] == 'count' and strip(g[1]) == v:
                                ok = True
                if not ok and not INTS.match(re.sub('^save/load ', '', key)):
                    rep.violation('loop', f.loc, f.name, 'the loop does not run once per %s' % ('archived element' if saving else 'element counted in the archive'), key='loop|' + short)
    if rl.visit and not INTS.match(re.sub('^save/load ', '', key)):
        filled(rep, fl, rl, outs_l, short)
    used(prog, rep, fl, short)
    if 'std::complex<' in key:
        parts_of_complex(rep, fs, outs_s, fl, outs_l, short)
    # raw bytes
    for rule, f, outs, saving in ((rs, fs, outs_s, True), (rl, fl, outs_l, False)):
        for st, rv in outs:
            cnt = None
            for e in st.ev:
                if e[0] == 'tok' and INTS.match(e[1]):
                    cnt = e[3]
                if e[0] == 'tok' and e[4] is not None:
                    rule.raw = getattr(rule, 'raw', [])
                    rule.raw.append(raw_size(st, e, cnt))
    a, b = set(getattr(rs, 'raw', ())), set(getattr(rl, 'raw', ()))
    if a != b:
        rep.violation('bytes', fl.loc, fl.name, 'raw data is written with %s but read with %s' % (desc(a), desc(b)), key='bytes|' + short)
    # completeness
    complete(prog, rep, res, short)


FILL = ('insert', 'emplace', 'emplace_hint', 'emplace_back', 'push_back', 'operator[]', 'operator=')
FRESH = ('clear', 'resize', 'assign', 'operator=')


def filled(rep, f, rule, outs, short):
    """every element read in a loop ends up in the container, which holds nothing else"""
    for k, its in rule.loops.items():
        for new, st in its:
            toks = [i for i, e in enumerate(new) if e[0] == 'tok']
            if not toks:
                continue
            into = any(e[2] is not None or isinstance(e[3], tuple) and rooted(e, rule.obj) for e in new if e[0] == 'tok')
            put = any(e[0] == 'call' and last(e[1]) in FILL and i > toks[-1] and e[2] for i, e in enumerate(new))
            if not into and not put:
                rep.violation('lost', f.loc, f.name, 'an element read from the archive is not put into the container', key='lost|' + short)
    for st, rv in outs:
        if not any(e[0] == 'call' and last(e[1]) in FRESH and e[2] and e[2][0] == rule.obj for e in st.ev):
            rep.violation('stale', f.loc, f.name, 'what the container held before is kept', key='stale|' + short)


def rooted(e, obj):
    return any(isinstance(x, tuple) and x and x[0] in ('idx', 'elem', 'r') and obj in str_terms(x) for x in (e[6],)) if len(e) > 6 else False


def str_terms(x):
    out = [x]
    for y in x:
        if isinstance(y, tuple):
            out += str_terms(y)
    return out


def used(prog, rep, f, short):
    """what was read into a local is looked at afterwards"""
    for x in f.instrs():
        if x.op not in ('call', 'invoke') or not isinstance(x.f, str) or not x.f.startswith('@'):
            continue
        name = prog.nname(x.f[1:])
        if not AR.match(name) or 'OStream' in name:
            continue
        for a in x.a:
            d = f.defs.get(a)
            if d is None or d.op != 'alloca':
                continue
            uses = [y for y in f.instrs() if y is not x and a in y.a and not (y.op in ('call', 'invoke') and isinstance(y.f, str) and re.search(r'::~|llvm\.(lifetime|dbg)|::(basic_string|vector|BinaryObject|pair|Proxy|Object)\(\)', prog.dem(y.f[1:]) if y.f.startswith('@_') else y.f))
                    and not (y.op == 'store' and y.a[1] == a)]
            if not uses and 'BinaryObject' not in prog.dem(x.f[1:]):
                rep.violation('unused', x.loc, f.name, 'an item is read from the archive and dropped', key='unused|' + short)


def parts_of_complex(rep, fs, outs_s, fl, outs_l, short):
    """real and imaginary part keep their places"""
    def order(outs, saving):
        got = set()
        for st, rv in outs:
            toks = [e for e in st.ev if e[0] == 'tok']
            for e in st.ev:
                if e[0] != 'call':
                    continue
                n = last(e[1])
                if n in ('real', 'imag'):
                    if saving:
                        for i, t in enumerate(toks):
                            if t[3] == e[3] and e[3] is not None:
                                got.add((n, i))
                    elif len(e[2]) > 1:
                        for i, t in enumerate(toks):
                            if t[3] in (e[2][1], st.mem.get(e[2][1])):
                                got.add((n, i))
                elif n == 'complex' and not saving and len(e[2]) > 2:
                    for n2, a in zip(('real', 'imag'), e[2][1:3]):
                        for i, t in enumerate(toks):
                            if t[3] in (a, st.mem.get(a)):
                                got.add((n2, i))
        return got
    a, b = order(outs_s, True), order(outs_l, False)
    if len(a) == 2 and len(b) == 2 and a != b:
        rep.violation('complex', fl.loc, fl.name, 'the real and imaginary parts change places', key='complex|' + short)
    rep.count('complex_parts', len(a & b))


def desc(s):
    return ' or '.join('%s bytes' % (x if isinstance(x, int) else '%s per archived count' % x[1] if x[0] == 'count' else x[1]) for x in sorted(s, key=str)) or 'nothing'


def raw_size(st, e, cnt):
    """byte count of raw data: a number, ('count', bytes per archived count) or ('other', text)"""
    ln = strip(e[4][1])
    c = cval(ln)
    if c is not None:
        return c
    k = 1
    c0, ts = parts(ln)
    if c0 == 0 and len(ts) == 1:
        (t, k), = ts.items() if isinstance(ts, dict) else ts
        ln = strip(t)
    want = strip(cnt) if cnt is not None else None
    if want is not None:
        if ln == want:
            return ('count', k)
        # the size of something that was given the archived count
        if ln[0] == 'r' and last(ln[1]) not in ('size', 'length'):
            return ('other', 'an unrelated number of')
        for ev in st.ev:
            if ev[0] == 'call' and any(strip(x) == want for x in ev[2][1:] if isinstance(x, tuple)):
                return ('count', k)
    return ('other', 'an unrelated number of')


def complete(prog, rep, res, short):
    f, rule, outs, sigs, args = res[True]
    if last(f.name) != 'serialize' or not outs:
        return
    fields = set()
    for st, rv in outs:
        toks = [e for e in st.ev if e[0] == 'tok']
        if not toks or any(e[2] is None or '.' in e[2] for e in toks):
            return
        fields |= set(e[2] for e in toks)
    cname = None
    for x in f.instrs():
        if x.op == 'gep' and x.d.get('p'):
            cname = x.d['p'][0].rsplit('::', 1)[0]
            break
    if cname == 'std::pair':
        rep.count('pairs')
        if len(fields) != 2:
            rep.violation('complete', f.loc, f.name, 'not both elements of a pair are archived', key='complete|pair')
        return
    c = prog.cls.get(cname)
    if c is None or not c['fields']:
        return
    want = [n for n, t in c['fields'] if n != '<base>' and not n.startswith('_vptr')]
    if not cname.startswith(('Pothos::', 'std::pair')):
        return
    rep.count('classes_with_members')
    for w in want:
        if w not in fields:
            rep.violation('complete', f.loc, f.name, 'the member %s::%s is not archived' % (cname, w), key='complete|%s|%s' % (cname, w))
        elif not all(any(e[2] == w for e in st.ev if e[0] == 'tok') for st, rv in outs):
            # left out on some paths: only the archive version or members archived before may decide that
            before = None
            for st, rv in outs:
                names = [e[2] for e in st.ev if e[0] == 'tok']
                if w in names:
                    b = set(names[:names.index(w)])
                    before = b if before is None else before & b
            for st, rv in outs:
                if any(e[2] == w for e in st.ev if e[0] == 'tok'):
                    continue
                for v in st.facts:
                    for t in terms(v):
                        wh = None
                        if isinstance(t, tuple):
                            for q in ([t] + [z for z in t if isinstance(z, tuple)]):
                                wh = wh or rule.where(q)
                        if wh is not None and wh.split('.')[0] not in before:
                            rep.violation('condition', f.loc, f.name, 'whether %s::%s is archived depends on %s, which is not archived before' % (cname, w, wh), key='condition|%s|%s' % (cname, w))


def consts(f, op):
    out = set()
    for x in f.instrs():
        if x.op == 'bin' and x.d.get('k') == op:
            for o in x.a:
                if isinstance(o, str) and o.startswith('#'):
                    out.add(int(o[1:]))
    return out


def width(ty):
    m = re.match(r'^i(\d+)$', ty or '')
    return int(m.group(1)) if m else None


def ints(prog, rep, ty, fs, fl):
    bits = 32 if ty in ('int', 'unsigned int') else 64
    signed = not ty.startswith('unsigned')
    bad = lambda f, m: rep.violation('integer', f.loc, f.name, m + ' (%s)' % ty, key='integer|%s|%s' % (ty, m))
    shr = {}
    for x in fs.instrs():
        if x.op == 'bin' and x.d['k'] in ('lshr', 'ashr') and isinstance(x.a[1], str) and x.a[1].startswith('#'):
            shr[int(x.a[1][1:])] = x.d['k']
    step = set()
    shifts = []
    for x in fl.instrs():
        if x.op == 'bin' and x.d['k'] == 'shl':
            shifts.append(x)
            w = width(x.d.get('ty'))
            for y in fl.instrs():
                if y.op == 'cast' and y.d['k'] in ('sext', 'zext') and y.a[0] == x.v and w is not None:
                    bad(fl, 'a value is shifted at %d bits and extended to %d bits afterwards' % (w, width(y.d.get('ty')) or 0))
                if y.op == 'bin' and y.a[0] == '#0' and y.a[1] == x.v and y.d['k'] == 'sub':
                    for z in fl.instrs():
                        if z.op == 'cast' and z.d['k'] in ('sext', 'zext') and z.a[0] == y.v:
                            bad(fl, 'a value is shifted at %d bits and extended to %d bits afterwards' % (w, width(z.d.get('ty')) or 0))
            if isinstance(x.a[1], str):
                for s in sources(fl, x.a[1]):
                    if s.op == 'bin' and s.d['k'] == 'add':
                        step |= {int(o[1:]) for o in s.a if o.startswith('#')}
    if len(shr) == 1 and len(step) == 1:
        k, kind = list(shr.items())[0]
        if step != {k}:
            bad(fl, 'groups of %d bits are written, but read at a distance of %d bits' % (k, list(step)[0]))
        if signed and kind != 'ashr':
            bad(fs, 'a signed value is shifted without its sign')
        if not signed and kind == 'ashr':
            bad(fs, 'an unsigned value is shifted as signed')
        ms, ml = consts(fs, 'and'), consts(fl, 'and')
        if ms and ml:
            pay = (1 << k) - 1
            for f, m in ((fs, ms), (fl, ml)):
                if pay not in m:
                    bad(f, 'the payload mask does not select the %d bits of a group' % k)
                if 1 << k not in m | consts(f, 'or'):
                    bad(f, 'the continuation bit is not bit %d' % k)
                if signed and 1 << (k - 1) not in m:
                    bad(f, 'the sign bit is not bit %d' % (k - 1))
                extra = m - {pay, 1 << k, 1 << (k - 1), 255}
                if extra:
                    bad(f, 'unexpected mask %s' % sorted(extra))
    # comparisons of the shift count with the width of the type
    for x in fl.instrs():
        if x.op == 'cmp' and isinstance(x.a[1], str) and x.a[1].startswith('#'):
            d = fl.defs.get(x.a[0])
            while d is not None and d.op == 'cast':
                d = fl.defs.get(d.a[0])
            if d is None or not any(s.a[1] == d.v or d in sources(fl, s.a[1]) for s in shifts):
                continue
            c = int(x.a[1][1:])
            lim = {'ult': c, 'uge': c, 'ugt': c + 1, 'ule': c + 1, 'slt': c, 'sge': c}.get(x.d['k'])
            if lim is not None and lim != bits and lim > 8:
                bad(fl, 'the shift count is compared with %d instead of %d bits' % (lim, bits))


def boolean(rep, res):
    """the byte written for true is read as true"""
    f, rule, outs, sigs, args = res[True]
    wrote = {}
    for st, rv in outs:
        c = [cval(strip(e[3])) for e in st.ev if e[0] == 'tok' and e[3] is not None]
        t = st.decide(compare('ne', st.rd(rule.obj), K(0)))
        if t is None:
            t = st.decide(st.rd(rule.obj))
        if len(c) == 1 and c[0] is not None and t is not None:
            wrote[t] = c[0]
    f, rule, outs, sigs, args = res[False]
    for st, rv in outs:
        tok = [e[3] for e in st.ev if e[0] == 'tok']
        val = cval(st.mem.get(rule.obj, ('?',)))
        if len(tok) != 1 or val is None:
            rep.count('boolean_paths_unknown')
            continue
        for t, c in wrote.items():
            rep.count('boolean_paths')
            d = st.decide(compare('eq', tok[0], K(c)))
            if d is None and c != 0 and st.decide(compare('eq', tok[0], K(0))) is False:
                d = True
            if d is None and c != 0 and st.decide(compare('eq', tok[0], K(0))) is True:
                d = False
            if d and bool(val & 1) != t:
                rep.violation('boolean', f.loc, f.name, 'the byte written for %s is read as %s' % (str(t).lower(), str(bool(val & 1)).lower()), key='boolean')


def has_op(v, k, c):
    """(op k) with the constant c somewhere inside v"""
    if not isinstance(v, tuple):
        return False
    if v[:2] == ('op', k) and K(c) in v[2:]:
        return True
    return any(has_op(x, k, c) for x in v)


def last_group(rep, ty, res):
    """the group without a continuation bit is the last one needed; the sign of it is the sign of the value"""
    signed = not ty.startswith('unsigned')
    f, rule, outs, sigs, args = res[True]
    for st, rv in outs:
        toks = [e for e in st.ev if e[0] == 'tok']
        if not toks or not isinstance(toks[-1][3], tuple):
            continue
        b = toks[-1][3]
        if has_op(b, 'or', 128):
            continue        # contradictory path: the continuation bit is set and the loop ends
        z = m = s = None
        known = True
        for v, t in st.facts.items():
            if v[0] != 'cmp' or v[1] != 'eq':
                known = False
                continue
            a = [x for x in v[2:] if not isconst(x)]
            c = [cval(x) for x in v[2:] if isconst(x)]
            if len(a) != 1 or len(c) != 1:
                known = False
            elif a[0][:2] == ('op', 'and') and K(64) in a[0][2:] and c[0] == 0:
                s = not t
            elif a[0][:2] in (('op', 'ashr'), ('op', 'lshr')) and c[0] == 0:
                z = t
            elif a[0][:2] in (('op', 'ashr'), ('op', 'lshr')) and c[0] == -1:
                m = t
            elif a[0][:2] == ('op', 'and') and K(128) in a[0][2:] and c[0] == 0:
                pass
            else:
                known = False
        if not known:
            rep.count('integer_paths_unknown')
            continue
        rep.count('integer_paths')
        if not (z and not signed or z and s is False or m and s):
            rep.violation('integer', f.loc, f.name, 'the last group is written while bits of the value, or its sign, are missing (%s)' % ty, key='integer|last|' + ty)
    f, rule, outs, sigs, args = res[False]
    if not signed:
        return
    for st, rv in outs:
        s = room = None
        for v, t in st.facts.items():
            if v[0] == 'cmp' and v[1] == 'eq' and K(0) in v[2:] and any(isinstance(x, tuple) and x[:2] == ('op', 'and') and K(64) in x[2:] for x in v[2:]):
                s = not t
            if v[0] == 'cmp' and v[1] in ('ult', 'slt') and isinstance(v[2], tuple) and v[2][0] == 'L' and v[2][1] == 7:
                room = t
        val = st.mem.get(rule.obj)
        if s is None or val is None:
            rep.count('integer_paths_unknown')
            continue
        ext = has_op(val, 'shl', -1) or has_neg(val)
        rep.count('integer_paths')
        if ext and not s:
            rep.violation('integer', f.loc, f.name, 'a value whose sign bit is clear becomes negative (%s)' % ty, key='integer|sign|' + ty)
        if not ext and s and room is not False:
            rep.violation('integer', f.loc, f.name, 'a value whose sign bit is set is not extended (%s)' % ty, key='integer|sign|' + ty)


def has_neg(v):
    if not isinstance(v, tuple):
        return False
    c = cval(v)
    if c is not None:
        return c < 0
    return any(has_neg(x) for x in v)


def sources(f, v, seen=None):
    """instructions a value comes from through phis and conversions"""
    seen = set() if seen is None else seen
    if v in seen:
        return []
    seen.add(v)
    d = f.defs.get(v)
    if d is None:
        return []
    out = [d]
    if d.op in ('phi', 'cast'):
        for o in d.a:
            out += sources(f, o, seen)
    return out


def fixed(prog, rep, fs, fl):
    """byte position -> shift on both sides"""
    def pos(f, o):
        d = f.defs.get(o)
        if d is None:
            return None
        if d.op == 'alloca':
            return 0
        if d.op == 'gep':
            m = [re.match(r'^\[#(\d+)\]$', p) for p in d.d.get('p', [])]
            m = [int(x.group(1)) for x in m if x]
            return m[-1] if m else d.d.get('off')
        return None

    def shift(f, o, kinds):
        d = f.defs.get(o)
        while d is not None and d.op == 'cast':
            d = f.defs.get(d.a[0])
        if d is not None and d.op == 'bin' and d.d['k'] in kinds and d.a[1].startswith('#'):
            return int(d.a[1][1:]), f.defs.get(d.a[0])
        return 0, d
    s, l = {}, {}
    for x in fs.instrs():
        if x.op == 'store' and x.d.get('ty') == 'i8':
            p = pos(fs, x.a[1])
            if p is not None:
                s[p] = shift(fs, x.a[0], ('lshr', 'ashr'))[0]
    for x in fl.instrs():
        if x.op == 'bin' and x.d['k'] in ('or', 'add'):
            for o in x.a:
                k, d = shift(fl, o, ('shl',))
                while d is not None and d.op == 'cast':
                    d = fl.defs.get(d.a[0])
                if d is not None and d.op == 'load':
                    p = pos(fl, d.a[0])
                    if p is not None:
                        l[p] = k
    if len(s) == 2 and len(l) == 2 and s != l:
        rep.violation('integer', fl.loc, fl.name, 'byte %d carries bits from %d but is read as bits from %d' % next((p, s[p], l.get(p, -1)) for p in sorted(s) if s[p] != l.get(p)), key='fixed')
    if len(s) == 2 and sorted(s.values()) != [0, 8]:
        rep.violation('integer', fs.loc, fs.name, 'the bytes do not cover the value', key='fixed')
