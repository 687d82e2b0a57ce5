"""exception tracking for the path exploration: which exception is in flight and where it came from

state part: (exc, caught): exc = None or (type, origin); caught = tuple of exceptions being handled.
type 'any' means any type; origin is chosen by the rule ('user' for exceptions of user code, 'lib' otherwise)."""
from ir import last

STD = '_ZTISt9exception'


def bases(prog, t):
    out = set()
    work = [t]
    while work:
        x = work.pop()
        if x in out:
            continue
        out.add(x)
        for b in prog.ti.get(x, []):
            work.append(b[1:] if b.startswith('@') else b)
    if any(o.startswith('_ZTISt') or o.startswith('_ZTINSt') for o in out):
        out.add(STD)
    return out


def catches(prog, exc, clause):
    """True / False / None (undetermined)"""
    t = exc[0]
    if clause in ('null', None):
        return True
    if t == 'any':
        return None
    return clause in bases(prog, t)


class Exc(object):
    none = (None, ())

    @staticmethod
    def thrown(ex, typ, origin):
        return ((typ, origin), ex[1])

    @staticmethod
    def on_call(prog, name, args, ex):
        """handles the C++ runtime calls; returns None or list of (kind, ex)"""
        e, caught = ex
        if name == '__cxa_begin_catch':
            return [('ret', (None, caught + (e or ('any', 'lib'),)))]
        if name == '__cxa_end_catch':
            return [('ret', (e, caught[:-1]))]
        if name == '__cxa_rethrow':
            top = caught[-1] if caught else ('any', 'lib')
            return [('throw', (top, caught))]
        if name == '__cxa_throw':
            t = args[1][1] if len(args) > 1 and args[1][0] == 'glob' else 'any'
            origin = 'user' if any(c[1] == 'user' for c in caught) else 'lib'
            return [('throw', ((t, origin), caught))]
        if name in ('std::current_exception',):
            return None
        return None

    @staticmethod
    def on_branch(prog, atom, truth, ex):
        """returns the narrowed ex, or False when the branch is impossible"""
        e, caught = ex
        if e is None or not (isinstance(atom, tuple) and atom[0] == 'cmp' and atom[1] == 'eq'):
            return ex
        for s in (atom[2], atom[3]):
            if isinstance(s, tuple) and s[0] == 'call' and s[1].startswith('llvm.eh.typeid.for') and s[2] and s[2][0][0] == 'glob':
                t = s[2][0][1]
                c = catches(prog, e, t)
                if c is None:
                    return ((t, e[1]), caught) if truth else ex
                return ex if c == truth else False
        return ex
