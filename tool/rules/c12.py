"""C12 plugin-driven lookup tables mirror the plugin registry"""
from common import *
from tables import *

SOURCES = ['lib/Object/*.cpp', 'lib/Managed/*.cpp', 'lib/Proxy/*.cpp', 'lib/Plugin/*.cpp', 'lib/Framework/BlockRegistry.cpp', 'lib/ConfLoader/ConfLoader.cpp', 'lib/Exception.cpp']
EXPLANATION = ('For every plugin event handler that maintains a lookup table, the table operations on all paths of the "add" and of the "remove" event are collected with '
               'their symbolic keys and compared; lookups are checked for dereferencing an entry that was not found.')

ITCONV = re.compile(r'::(__normal_iterator|_Rb_tree_const_iterator|_Node_const_iterator)$')
ADD = {'insert', 'emplace', 'insert_or_assign', 'try_emplace', 'push_back', 'emplace_hint'}


def canon(fr, e, depth=0):
    """value of a key argument passed by reference"""
    if isinstance(e, tuple) and e[0] == 'alloca':
        v = fr.load(e)
        if v != ('load', e):
            return canon(fr, v, depth + 1) if depth < 4 else v
    if isinstance(e, tuple):
        return tuple(canon(fr, x, depth + 1) if isinstance(x, tuple) and depth < 12 else x for x in e)
    return e


class Events(Rule):
    """state: (event truth per literal, ops, facts): facts = ('found', map, key) / ('isempty', where) established on this path"""

    def __init__(self, prog, tables, tu, param):
        self.prog = prog
        self.tables = tables
        self.tu = tu

    def base(self, e):
        b = base_of(e)
        return b[1] if isinstance(b, tuple) and b[0] == 'glob' and b[1] in self.tables else None

    def inline(self, eng, fr, fn, name):
        return fn.in_repo and fn.tu == self.tu and not fn.name.startswith(('Pothos::Exception', 'Pothos::Object', 'Pothos::Plugin', 'Pothos::Callable'))

    def may_throw(self, eng, fr, ins, name):
        return False

    def on_call(self, eng, fr, ins, name, args, st):
        ev, ops, facts = st
        if not args:
            return None
        k = self.prog.call_info(ins)
        if k[2] == 'direct' and k[1][0] in self.prog.fns and self.inline(eng, fr, self.prog.fns[k[1][0]], name):
            return None
        a0 = args[1] if ins.d.get('sret') and len(args) > 1 else args[0]
        t = self.base(a0)
        if t is None:
            return None
        op = last(name)
        where = self.where(canon(fr, a0), facts)
        rest = tuple(canon(fr, a) for a in (args[2:] if ins.d.get('sret') else args[1:]))
        rec = None
        if op == 'operator=' and where[0] == 'elem':
            nul = rest and not self.stored(eng, fr, rest[0])
            rec = ('add' if not nul else 'null', t, where[1], where[2] if len(where) > 2 else None)
        elif op in ADD and STDOBJ.match(name):
            rec = ('add', t, where, rest[-1] if rest else None)
        elif op in ('erase', 'clear', 'remove') and STDOBJ.match(name):
            key = rest[-1] if rest else None
            fk = found_key(itval(fr, args[-1]))

            if fk is not None:
                key = fk
            rec = ('remove', t, where, key)
            if ('isempty', ('elem', where, key)) in facts:
                return [('ret', (ev, ops, facts), None)]    # tidies up an inner table that became empty
        if rec:
            return [('ret', (ev, ops | {rec}, facts), None)]
        return None

    @staticmethod
    def where(w, facts):
        """the value of the entry a find() returned is the entry of the key that was looked for"""
        if isinstance(w, tuple) and w[0] == 'fld' and last(w[2]) == 'second' and isinstance(w[1], tuple) and w[1][0] == 'elem' and len(w[1]) == 2:
            ks = set(f[2] for f in facts if f[0] == 'found' and f[1] == w[1][1])
            if len(ks) == 1:
                return ('elem', w[1][1], next(iter(ks)))
        return w

    def absent(self, fr, e, truth):
        """a branch that establishes that a key is not in a table counts as its removal"""
        if not isinstance(e, tuple):
            return None
        if e[0] == 'call' and last(e[1]) in ('operator==', 'operator!=') and len(e[2]) >= 2:
            eq = truth if last(e[1]) == 'operator==' else not truth
            a = [itval(fr, x) for x in e[2][:2]]
            f = next((x for x in a if self.has(x, 'find')), None)
            if f is not None and any(self.has(x, 'end') for x in a):
                c = self.has(f, 'find')
                t = self.base(c[2][-2]) if len(c[2]) >= 2 else None
                if t:
                    return ('absent' if eq else 'found', t, canon(fr, c[2][-2]), canon(fr, c[2][-1]))
        if e[0] == 'call' and last(e[1]) in ('count', 'contains'):
            e = ('cmp', 'ne', e, ('const', 0))
        if e[0] == 'cmp' and e[1] in ('eq', 'ne') and e[3] == ('const', 0):
            c = self.has(e[2], 'count')
            if c and len(c[2]) >= 2 and self.base(c[2][-2]):
                return ('absent' if truth == (e[1] == 'eq') else 'found', self.base(c[2][-2]), canon(fr, c[2][-2]), canon(fr, c[2][-1]))
        return None

    def has(self, e, nm):
        if isinstance(e, tuple):
            if e[0] == 'call' and isinstance(e[1], str) and last(e[1]) == nm:
                return e
            for x in e[1:]:
                if isinstance(x, tuple):
                    r = self.has(x, nm)
                    if r:
                        return r
        return None

    def stored(self, eng, fr, e):
        """is the stored value the plugin parameter (rather than a default constructed one)?"""
        r = e
        for s in sub_exprs(e):
            if isinstance(s, tuple) and s[0] == 'arg':
                return True
        return False

    def on_branch(self, eng, fr, ins, atom, truth, st):
        ev, ops, facts = st
        e = atom
        ab = self.absent(fr, e, truth)
        if ab:
            if ab[0] == 'found':
                return (ev, ops, facts | {('found',) + ab[2:]})
            return (ev, ops | {ab}, facts)
        if e[0] == 'call' and last(e[1]) == 'empty' and truth and e[2]:
            return (ev, ops, facts | {('isempty', self.where(canon(fr, e[2][0]), facts))})
        if e[0] == 'call' and last(e[1]) in ('operator==', 'operator!=', 'compare') and len(e[2]) >= 2:
            lit = next((a[1] for a in e[2] if isinstance(a, tuple) and a[0] == 'str'), None)
            if lit in ('add', 'remove'):
                eq = truth if last(e[1]) == 'operator==' else not truth
                for l, v in ev:
                    if l == lit and v != eq:
                        return None
                    if l != lit and v and eq:
                        return None
                return (ev | {(lit, eq)}, ops, facts)
        return st


def itval(fr, e):
    """value of an iterator variable (iterators are stored as the coerced result of a call)"""
    e = canon(fr, e)
    while isinstance(e, tuple) and e[0] in ('load', 'fld'):
        e = canon(fr, e[1])
    if isinstance(e, tuple) and e[0] == 'alloca':
        f2 = fr.eng.frames.get(e[1])
        if f2 is not None:
            if f2.stores is None:
                f2._collect_stores()
            vs = [canon(f2, f2.ex(v)) for (b, p), l in f2.stores.items() if b == e[2] for v in l]
            vs = [v for v in vs if isinstance(v, tuple) and v[0] == 'call']
            if len(vs) == 1:
                return vs[0]
            if not vs:
                # constructed from another iterator
                for u in f2.fn.uses.get(e[2], []):
                    if u.op in ('call', 'invoke') and u.a and u.a[0] == e[2] and len(u.a) > 1 and (ITCONV.search(f2.fn.prog.call_info(u)[0]) or 'memcpy' in f2.fn.prog.call_info(u)[0]):
                        return itval(f2, f2.ex(u.a[1]))
    return e


def found_key(e):
    """the key of an iterator that a find() returned"""
    if isinstance(e, tuple):
        if e[0] == 'call' and last(e[1]) == 'find' and len(e[2]) >= 2:
            return e[2][-1]
        for x in e[1:]:
            if isinstance(x, tuple):
                r = found_key(x)
                if r is not None:
                    return r
    return None


def handlers(prog):
    """functions (Plugin const&, std::string const&) whose address is taken"""
    out = []
    for n in prog.addr_taken:
        f = prog.fns.get(n)
        if f is not None and f.in_repo:
            ps = params(prog.dem(n.split('@')[0]) if n not in prog.names else prog.dem(n))
            if ps and len(ps) == 2 and ps[0] == 'Pothos::Plugin const&' and 'basic_string' in ps[1]:
                out.append(f)
    return sorted(set(out), key=lambda f: f.n)


def opname(rec):
    return '%s[%s]' % (rec[1].split('@')[0].split('E')[0].lstrip('_ZL0123456789'), show(rec[3]) if rec[3] else '?')


def check(prog, rep):
    rep.rule('R1 a plugin event handler that enters keys into a table on "add" removes exactly the same keys on "remove" (and leaves no empty entries behind)')
    rep.rule('R2 "add" enters all keys or none; any other event changes nothing')
    rep.rule('R3 an entry that was looked up is only used on paths where it was found')
    n = 0
    owned = {}
    for f in handlers(prog):
        uses = globals_of(prog, lambda t: t == f.tu)
        tables = set(g for g in uses if '@' in g and 'utex' not in g)
        rule = Events(prog, tables, f.tu, None)
        eng = Engine(prog, rule)
        exits = eng.run(f, (frozenset(), frozenset(), frozenset()))
        rep.engine(eng)
        outs = {'add': set(), 'remove': set(), '': set()}
        kept = set()
        for k, (ev, ops, facts), rv in exits:
            d = dict(ev)
            e = 'add' if d.get('add') else 'remove' if d.get('remove') else ''
            outs[e].add(ops)
            # an entry that is seen to be there although the event is "remove" has to go
            for fct in facts:
                if not d.get('add') and d.get('remove') is not False and fct[0] == 'found' and k == 'ret' and not any(r[0] == 'remove' and (r[2:] == fct[1:] or r[2] == ('elem', fct[1], fct[2])) for r in ops):
                    kept.add(fct[1:])
        # a key that is not in an outer table has no entries in the inner one
        inner = set(r for ops in outs['add'] for r in ops if r[0] == 'add' and isinstance(r[2], tuple) and r[2][0] == 'elem' and len(r[2]) > 2)

        def expand(ops):
            o = set()
            for r in ops:
                hit = [a for a in inner if r[0] == 'absent' and a[2] == ('elem', r[2], r[3])]
                o.update(('remove',) + a[1:] for a in hit)
                if not hit:
                    o.add(('remove',) + r[1:] if r[0] == 'absent' else r)
            return frozenset(o)
        outs['remove'] = set(expand(o) for o in outs['remove'])
        for e in ('add', ''):
            outs[e] = set(frozenset(r for r in o if r[0] != 'absent') for o in outs[e])
        touched = set(r[1] for o in outs.values() for ops in o for r in ops)
        if not touched:
            continue
        n += 1
        owned.setdefault(f.tu, set()).update(touched)
        for m, k in sorted(kept, key=str):
            rep.violation('stale', f.loc, f.name, 'the "remove" event can leave the entry of %s in place although it was seen to be there' % show(k))
        rep.analysed.append('%s (%s): add %s' % (f.name, f.loc, '; '.join(sorted(', '.join(sorted(opname(r) for r in ops)) for ops in outs['add'] if ops))))
        for ops in outs['']:
            for r in ops:
                rep.violation('event', f.loc, f.name, '%s is changed although the event is neither "add" nor "remove"' % opname(r))
        adds = set(o for o in outs['add'] if o)
        rems = set(o for o in outs['remove'] if o)
        keys = lambda ops, kind: set(r[1:] for r in ops if r[0] == kind)
        for o in adds:
            for r in o:
                if r[0] != 'add':
                    rep.violation('event', f.loc, f.name, 'the "add" event %s entry %s' % ('removes' if r[0] == 'remove' else 'empties', opname(r)))
        for o in rems:
            for r in o:
                if r[0] == 'null':
                    rep.violation('stale', f.loc, f.name, 'the "remove" event leaves an empty entry %s behind' % opname(r))
                elif r[0] != 'remove':
                    rep.violation('event', f.loc, f.name, 'the "remove" event adds entry %s' % opname(r))
        if frozenset() in outs['remove'] and frozenset() not in outs['add']:
            rep.violation('pairing', f.loc, f.name, 'there is a path on which the "remove" event leaves all entries in place although every "add" enters them')
        # per alternative (a handler may serve several kinds of plugins): the add key sets and remove key sets correspond
        A = set(frozenset(keys(o, 'add')) for o in adds)
        R = set(frozenset(keys(o, 'remove')) for o in rems)
        for a in A:
            if a and a not in R:
                missing = [r for r in a if not any(r in x for x in R)]
                m = ', '.join(sorted(opname(('add',) + r) for r in (missing or a)))
                rep.violation('pairing', f.loc, f.name, 'keys entered on "add" are not all removed on "remove": %s' % m)
        for r_ in R:
            if r_ and r_ not in A and not any(r_ < a for a in A):
                rep.violation('pairing', f.loc, f.name, '"remove" removes keys that "add" does not enter: %s' % ', '.join(sorted(opname(('r',) + r) for r in r_)))
        if len(set(frozenset(r[1] for r in o) for o in A)) < len(A) and len(A) > 1:
            rep.violation('partial', f.loc, f.name, 'the "add" event enters different sets of keys on different paths')
    rep.count('handlers', n)
    rep.need(n >= 6, 'plugin event handlers with lookup tables')
    lookups(prog, rep)
    rep.rule('R4 only the event handlers enter keys: a lookup leaves the table as it is')
    writers(prog, rep, owned)


class Writer(Rule):
    def __init__(self, prog, tu, tables):
        self.prog = prog
        self.tu = tu
        self.tables = tables
        self.n = 0

    def inline(self, eng, fr, fn, name):
        return fn.in_repo and fn.tu == self.tu and not fn.name.startswith('Pothos::')

    def may_throw(self, eng, fr, ins, name):
        return True

    def on_call(self, eng, fr, ins, name, args, st):
        for a in args[:2]:
            b = base_of(a) if isinstance(a, tuple) else None
            if isinstance(b, tuple) and b[0] == 'glob' and b[1] in self.tables and STDOBJ.match(name):
                self.n += 1
                if last(name) in ADD or last(name) == 'operator[]' and not name.startswith('std::vector::'):
                    eng.report(fr, ins, 'writer', 'a function that is no plugin event handler enters a key into the table')
                break
        return None


def writers(prog, rep, owned):
    hs = set(f.n for f in handlers(prog))
    n = 0
    for tu, tables in sorted(owned.items()):
        fs = [f for f in prog.repo_fns() if f.tu == tu and f.blocks]
        called = set()
        for f in fs:
            for c in f.calls():
                k = prog.call_info(c)
                if k[2] == 'direct':
                    called.update(x for x in k[1] if x != f.n)
        for f in fs:
            if f.n in hs or f.n in called and not f.name.startswith('Pothos::'):
                continue
            r = Writer(prog, tu, tables)
            eng = Engine(prog, r)
            eng.run(f, ())
            n += r.n
            if r.n:
                rep.engine(eng)
    rep.count('other_table_operations', n)


class Found(Rule):
    """state: frozenset of iterator variables known to be valid"""

    def __init__(self, prog, fn):
        self.prog = prog
        self.fn = fn
        self.n = 0

    def inline(self, eng, fr, fn, name):
        return False

    def may_throw(self, eng, fr, ins, name):
        return True

    def on_call(self, eng, fr, ins, name, args, st):
        return None


def lookups(prog, rep):
    from lookup import check_lookups
    tus = set()
    for f in handlers(prog):
        tus.add(f.tu)
    n = check_lookups(prog, rep, [f for f in prog.repo_fns() if f.tu in tus])
    rep.count('lookups', n)
    rep.need(n >= 8, 'table lookups')
