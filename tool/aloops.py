"""what a loop visits, decided from the widened loop entry of the affine engine"""
from affine import *
from common import succs


def exit_edges(fn, body):
    """normal edges that leave the loop, blocks that only end in a throw or abort not counted"""
    out = []
    su = succs(fn)
    for b in body:
        for s in su[b]:
            if s not in body and fn.blocks[s][-1].op not in ('unreachable', 'resume'):
                out.append((b, s))
    return out


BEGIN = re.compile(r'::c?begin$')
END = re.compile(r'::c?end$')
NE = re.compile(r'operator!=$')
EQ = re.compile(r'operator==$')


def cells(st, loc):
    """values stored below a location"""
    out = [v for a, v in st.mem.items() if a[0] in ('fld', 'idx', 'alloca', 'elem') and loc in prefixes(a)]
    return out


def container_at(st, loc, rx):
    for v in cells(st, loc):
        for t in terms(v):
            if t[0] == 'r' and rx.search(t[1]) and t[2]:
                return t[2][0]
    e = st.mem.get(('ep', loc))
    if e is not None and isinstance(e, tuple) and e[0] == 'r' and rx.search(e[1]) and e[2]:
        return e[2][0]
    t = st.mem.get(('alias', loc))
    if t is not None:
        return container_at(st, t[0], rx)
    return None


class Visit(object):
    """container: what is visited; var: the loop variable (terms that contain it depend on the element)"""
    def __init__(self, kind, container, var, end=None):
        self.kind, self.container, self.var, self.end = kind, container, var, end

    def mentions(self, v):
        return any(t == self.var for t in terms(v))


def visits(eng, fr, ent, hst, hphis, st, phis, strict=True):
    """Visit of the iteration that starts in hst and ends in st, or None.  The loop must have a single normal exit."""
    body = fr.loops[ent.b]
    if strict and len(set(b for b, s in exit_edges(fr.fn, body))) != 1:
        return None
    new = {v: t for v, t in st.facts.items() if v not in hst.facts}
    # index counting up from 0
    for v, w in hphis.items():
        if ent.phis.get(v) == K(0) and phis.get(v) == add(w, K(1)):
            for f, t in new.items():
                c = None
                if f[0] == 'cmp' and f[1] in ('ult', 'slt') and f[2] == w and t:
                    c = f[3]
                elif f[0] == 'cmp' and f[1] == 'eq' and not t and w in (f[2], f[3]):
                    c = f[3] if f[2] == w else f[2]
                elif w == K(0) and f[0] == 'r' and f[1].endswith('size') and t:
                    c = f
                if c is not None and c[0] == 'r' and last(c[1]) in ('size', 'length') and c[2]:
                    return Visit('index', c[2][0], w)
        # pointer running up to an end
        if phis.get(v) == idx(w, K(1)) or phis.get(v) == add(w, K(1)):
            for f, t in new.items():
                if f[0] == 'cmp' and f[1] == 'eq' and not t and w in (f[2], f[3]):
                    return Visit('pointer', ent.phis.get(v), w, f[3] if f[2] == w else f[2])
    # iterators
    for f, t in new.items():
        if f[0] == 'r' and ((NE.search(f[1]) and t) or (EQ.search(f[1]) and not t)) and len(f[2]) == 2:
            for a, b in (f[2], f[2][::-1]):
                c = container_at(ent.st, a, BEGIN)
                e = container_at(ent.st, b, END) or container_at(st, b, END)
                if c is not None and c == e:
                    inc = [x for x in st.ev[len(hst.ev):] if x[0] == 'call' and last(x[1]) == 'operator++' and x[2] and x[2][0] == a]
                    if len(inc) == 1:
                        return Visit('iterator', c, a)
    # draining
    for f, t in new.items():
        if f[0] == 'r' and last(f[1]) == 'empty' and not t and f[2]:
            q = f[2][0]
            pops = [x for x in st.ev[len(hst.ev):] if x[0] == 'call' and last(x[1]) in ('pop_front', 'pop') and x[2][0] == q]
            if len(pops) == 1:
                return Visit('drain', q, q)
    return None
