"""results of a lookup (find) are dereferenced only on paths where they were compared unequal to end()"""
from common import *

FIND = re.compile(r'^(std::(map|set|unordered_map|unordered_set|multimap|_Rb_tree)|Poco::HashMap|Poco::LinearHashTable|Poco::HashTable)::(find)$|^std::(find|find_if|find_if_not)$')
END = re.compile(r'::(end|cend)$')
USE = re.compile(r'::(operator->|operator\*)$')
COUNT = re.compile(r'::(count|contains)$')
CONV = re.compile(r'::(__normal_iterator|_Rb_tree_const_iterator|_List_const_iterator|_Deque_iterator|_Node_const_iterator)$')
EQ = re.compile(r'^(std::|__gnu_cxx::)?(\w+::)*(operator==|operator!=)$|::operator(==|!=)$')


class LookupRule(Rule):
    """state: frozenset of (iterator alloca, 'f' found-unchecked | 'v' valid)"""

    def __init__(self, prog):
        self.prog = prog
        self.sites = set()
        self.eqs = {}

    def inline(self, eng, fr, fn, name):
        return False

    def key(self, fr, o):
        """the iterator variable (alloca) behind an operand"""
        e = fr.ex(o) if isinstance(o, str) else o
        return e if isinstance(e, tuple) and e[0] == 'alloca' else None

    def on_call(self, eng, fr, ins, name, args, st):
        if ins.d.get('sret') and FIND.match(name) and len(args) > 2 and isinstance(args[0], tuple) and args[0][0] == 'alloca':
            # an iterator of several words is returned through memory
            self.sites.add(ins.loc)
            v = 'v' if ('c',) + tuple(args[1:3]) in st else 'f'
            return [('ret', frozenset(x for x in st if x[0] != args[0]) | {(args[0], v)}, None)]
        if USE.search(name) and args:
            a = args[0]
            for it, s in [x for x in st if len(x) == 2]:
                if it == a and s == 'f':
                    eng.report(fr, ins, 'unchecked', 'the result of a lookup is used although it may not have been found')
        if last(name) == 'erase' and len(args) > 1:
            for it, s in [x for x in st if len(x) == 2]:
                if s == 'f' and any(self.same(fr, a, it) for a in args[1:]):
                    eng.report(fr, ins, 'unchecked', 'the result of a lookup is erased although it may not have been found')
        if CONV.search(name) and len(args) >= 2:
            for it, s in [x for x in st if len(x) == 2]:
                if it == args[1]:
                    st = frozenset(x for x in st if x[0] != args[0]) | {(args[0], s)}
                    return [('ret', st, None)]
        if EQ.search(name) and len(args) == 2:
            return [('ret', st, None)]
        return None

    def same(self, fr, a, it):
        while isinstance(a, tuple) and a != it and a[0] in ('fld', 'field', 'load', 'deref', 'idx') and len(a) > 1:
            a = a[1]
        return a == it

    def on_store(self, eng, fr, ins, ptr, val, st):
        l, b = loc_fields(ptr)
        if isinstance(b, tuple) and b[0] == 'alloca':
            v = val
            if isinstance(v, tuple) and v[0] == 'call' and FIND.match(v[1]):
                self.sites.add(ins.loc)
                k = ('c',) + tuple(v[2][:2])
                if k in st:
                    return frozenset(x for x in st if x[0] != b) | {(b, 'v')}
                return frozenset(x for x in st if x[0] != b) | {(b, 'f')}
            if isinstance(v, tuple) and v[0] == 'call' and any(x[0] == b for x in st):
                return frozenset(x for x in st if x[0] != b)
        return st

    def on_branch(self, eng, fr, ins, atom, truth, st):
        if atom[0] == 'call' and EQ.search(atom[1]) and len(atom[2]) == 2:
            ne = 'operator!=' in atom[1]
            found = truth == ne
            for i in (0, 1):
                a, b = atom[2][i], atom[2][1 - i]
                for it, s in [x for x in st if len(x) == 2]:
                    if it == a and s == 'f' and self.is_end(fr, b):
                        if found:
                            st = frozenset(x for x in st if x[0] != it) | {(it, 'v')}
                        else:
                            st = frozenset(x for x in st if x[0] != it) | {(it, 'f')}
        a, pos = None, False
        if atom[0] == 'call' and COUNT.search(atom[1]):
            a, pos = atom, truth
        elif atom[0] == 'cmp' and atom[1] == 'eq' and atom[2][0] == 'call' and COUNT.search(atom[2][1]) and atom[3][0] == 'const':
            a, pos = atom[2], truth and atom[3][1] > 0
        elif atom[0] == 'cmp' and atom[1] in ('ult', 'slt') and atom[3][0] == 'call' and COUNT.search(atom[3][1]):
            a, pos = atom[3], truth
        if a is not None and pos and len(a[2]) >= 2:
            st = st | {('c',) + tuple(a[2][:2])}
        return st

    def is_end(self, fr, e):
        if isinstance(e, tuple) and e[0] == 'alloca':
            f2 = fr.eng.frames.get(e[1])
            if f2 is not None:
                if f2.stores is None:
                    f2._collect_stores()
                vs = [f2.ex(v) for (b, p), l in f2.stores.items() if b == e[2] for v in l]
                return any(isinstance(v, tuple) and v[0] == 'call' and END.search(v[1]) for v in vs) or self.sret_end(f2, e)
        return isinstance(e, tuple) and e[0] == 'call' and bool(END.search(e[1]))

    def sret_end(self, f2, e):
        for u in f2.fn.uses.get(e[2], []):
            if u.op in ('call', 'invoke') and u.d.get('sret') and u.a[0] == e[2] and END.search(f2.fn.prog.call_info(u)[0]):
                return True
        return False


def check_lookups(prog, rep, fns):
    n = 0
    for f in fns:
        if not any(FIND.match(prog.call_info(c)[0]) for c in f.calls()):
            continue
        rule = LookupRule(prog)
        eng = Engine(prog, rule)
        eng.run(f, frozenset())
        rep.engine(eng)
        n += len(rule.sites)
    return n
