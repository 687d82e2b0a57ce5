"""process-wide tables (globals and function-local statics) and the locks held at every access to them"""
from common import *

ALIAS = re.compile(r'^(Pothos::Plugin::(getObject|getPath)|Pothos::Object::(extract|ref|unsafe)|Pothos::Object::operator const .*)$')
LOCKTYPE = re.compile(r'mutex|SpinLock|FileLock|once_flag|condition_variable', re.I)
STDOBJ = re.compile(r'^(std::|__gnu_cxx::|Poco::)')
PURE = {'begin', 'end', 'find', 'lower_bound', 'upper_bound', 'at', 'equal_range', 'count', 'size', 'empty', 'cbegin', 'cend', 'rbegin', 'rend', 'front', 'back', 'data',
        'find_if', 'distance', 'operator*', 'operator->', '_M_ptr', 'operator!=', 'operator=='}


def params(dem):
    """top-level parameter types of a demangled function name"""
    d = dem.rstrip()
    while d.endswith((' const', '&', '&&')):
        d = d[:-6] if d.endswith(' const') else d[:-1]
    if not d.endswith(')'):
        return None
    n = 0
    for i in range(len(d) - 1, -1, -1):
        if d[i] == ')':
            n += 1
        elif d[i] == '(':
            n -= 1
            if n == 0:
                break
    out, cur, n = [], '', 0
    for c in d[i + 1:-1]:
        if c in '<([{':
            n += 1
        elif c in '>)]}':
            n -= 1
        if c == ',' and n == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def base_of(e):
    """the location base, looking through getters that return a reference into their object"""
    while True:
        fl, b = loc_fields(e)
        if isinstance(b, tuple) and b[0] == 'call' and ALIAS.match(b[1]) and b[2]:
            e = b[2][0]
            continue
        return b


class TableRule(Rule):
    """state: Locks set; records (table, where, function, mutating, lockset)"""

    def __init__(self, prog, tables, classes, tus):
        self.prog = prog
        self.tables = tables
        self.classes = classes
        self.tus = tus
        self.acc = set()
        self.usercalls = set()

    def table(self, e, depth=0):
        b = base_of(e)
        if isinstance(b, tuple) and b[0] in ('phi', 'select') and depth < 4:
            # a pointer that may point into a table does so here as well
            alts = b[2:] if b[0] == 'select' else ()
            if b[0] == 'phi' and getattr(self, 'eng', None) is not None:
                for fr in list(self.eng.frames.values()):
                    d = fr.fn.defs.get(b[2]) if fr.fn.n == b[1] else None
                    if d is not None and d.d.get('ty') == 'ptr':
                        alts = [fr.ex(a) for a in d.a if a != d.v]
                        break
            for x in alts:
                if x != b and isinstance(x, tuple) and x[0] in ('fld', 'elem', 'idx', 'deref', 'phi', 'select', 'glob'):
                    t = self.table(x, depth + 1)
                    if t is not None:
                        return t
        if isinstance(b, tuple) and b[0] == 'glob' and b[1] in self.tables:
            return b[1]
        x = e
        while isinstance(x, tuple) and x[0] in ('fld', 'elem', 'idx', 'base', 'load', 'call', 'deref'):
            if x[0] == 'fld':
                c = cls_of(x[2])
                if c in self.classes:
                    # objects under construction on the stack are private
                    if isinstance(b, tuple) and b[0] == 'alloca':
                        return None
                    return self.classes[c]
            if x[0] == 'call':
                if not (ALIAS.match(x[1]) and x[2]):
                    break
                x = x[2][0]
            else:
                x = x[1]
        return None

    def touch(self, eng, fr, ins, t, mut, st):
        w = tuple(sorted('%s at %s' % (f.fn.name, c.loc) for f, c in eng.stack[:1]))
        self.acc.add((t, ins.loc, fr.fn.name, mut, frozenset(Locks.held(st)), w))

    def inline(self, eng, fr, fn, name):
        return fn.in_repo and (fn.tu in self.tus and not fn.name.startswith('Pothos::Exception') or 'SharedLock' in fn.name)

    def may_throw(self, eng, fr, ins, name):
        return False

    def on_call(self, eng, fr, ins, name, args, st):
        self.eng = eng
        le = Locks.event(eng, fr, ins, name, args, st)
        if le is not None:
            return [(k, s, rv) for k, s, rv, a, r in le]
        kind = self.prog.call_info(ins)
        if kind[2] == 'direct' and not args and self.prog.accessor(kind[1][0]):
            return [('ret', st, None)]
        inl = kind[2] == 'direct' and kind[1][0] in self.prog.fns and self.inline(eng, fr, self.prog.fns[kind[1][0]], name)
        if not inl and not name.startswith(('llvm.dbg', 'llvm.lifetime', '__cxa_', 'std::forward', 'std::move', 'std::addressof')):
            for i, a in enumerate(args):
                t = self.table(a)
                if t is None:
                    continue
                dem = self.prog.dem(ins.f[1:]) if ins.f.startswith('@') else ''
                sret = ins.d.get('sret')
                obj = 1 if sret else 0
                mut = i == obj and bool(dem) and kind[2] == 'direct' and not dem.rstrip().endswith('const') and last(name) not in PURE and not last(name).startswith('operator ')
                ps = params(dem) if dem else None
                if mut and ps is not None and len(ps) == len(args) - obj and (ps[i - obj].endswith((' const&', ' const*')) or not ps[i - obj].endswith(('&', '*'))):
                    mut = False
                if mut and last(name) == last(cls_of(name)) and a[0] == 'glob':
                    continue  # construction of the table itself
                if sret and i == 0:
                    mut = True
                if i != obj and ('memcpy' in name and i == 0 or last(name) in ('swap',)):
                    mut = True
                self.touch(eng, fr, ins, t, mut, st)
        r = self.hook(eng, fr, ins, name, args, st)
        return r

    def hook(self, eng, fr, ins, name, args, st):
        return None

    def on_load(self, eng, fr, ins, ptr, st):
        t = self.table(ptr)
        if t is not None:
            self.touch(eng, fr, ins, t, False, st)
        return st

    def on_store(self, eng, fr, ins, ptr, val, st):
        t = self.table(ptr)
        if t is not None:
            self.touch(eng, fr, ins, t, True, st)
        return st


def is_init(f):
    return f.name.startswith(('__cxx_global_var_init', '_GLOBAL__sub_I')) or f.n.startswith(('_GLOBAL__', '__cxx_global'))


def globals_of(prog, tu_pred):
    """{global: set of accessing functions} for variables defined in the repository (accessed by repository functions)"""
    out = {}
    for f in prog.repo_fns():
        if not tu_pred(f.tu):
            continue
        for x in f.instrs():
            for o in list(x.a) + ([x.d['f']] if False else []):
                if isinstance(o, str) and o.startswith('@_Z') and not o.startswith(('@_ZTV', '@_ZTI', '@_ZTS', '@_ZTT', '@_ZGV')) and o[1:] not in prog.fns:
                    out.setdefault(o[1:], set()).add(f.n)
    return out
