"""helpers shared by the rules"""
import re
from ir import *
from explore import Engine, Rule, Locks, ACQUIRE, RELEASE


def loc_fields(e):
    """fields naming the memory location itself (up to the pointer that was dereferenced) and that base pointer"""
    out = []
    while isinstance(e, tuple):
        if e[0] == 'fld':
            out.append(e[2])
            e = e[1]
        elif e[0] in ('elem', 'idx', 'base'):
            e = e[1]
        else:
            break
    return out, e


def cls_fields(prog, cname):
    """[(field, type)] of a class from debug info (qualified or unqualified name)"""
    for k, v in prog.cls.items():
        if k == cname or k.endswith('::' + cname):
            if v['fields']:
                return [(f[0], f[1]) for f in v['fields'] if f[0] != '<base>']
    raise AnalysisError('anchor lost: class %s' % cname)


def field_of_type(prog, cname, pred):
    return [n for n, t in cls_fields(prog, cname) if pred(t)]


def address_taken_methods(prog, prefix):
    """repository functions with that qualified prefix whose address is stored or passed (managed registrations, binds)"""
    out = []
    for n in prog.addr_taken:
        f = prog.fns.get(n)
        if f is not None and f.in_repo and f.name.startswith(prefix):
            out.append(f)
    return sorted(out, key=lambda f: f.n)


def topmost(prog, fn, stop):
    """walk callers of fn while they satisfy stop(caller); return the set of topmost functions"""
    tops = set()
    seen = set()
    work = [fn]
    while work:
        f = work.pop()
        if f.n in seen:
            continue
        seen.add(f.n)
        ups = [x.fn for x in prog.callers.get(f.n, []) if stop(x.fn)]
        if not ups:
            tops.add(f.n)
        work += ups
    return [prog.fns[n] for n in sorted(tops)]


USER_CALLBACKS = ('Pothos::Block::work', 'Pothos::Block::activate', 'Pothos::Block::deactivate', 'Pothos::Block::prepare',
                  'Pothos::Block::propagateLabels', 'Pothos::Block::opaqueCallHandler', 'Pothos::Block::getInputBufferManager',
                  'Pothos::Block::getOutputBufferManager')


FRAMEWORK = ['lib/Framework/*', 'lib/Exception.cpp']


# ---------------------------------------------------------------- control flow helpers

def succs(fn, unwind=False):
    out = []
    for blk in fn.blocks:
        t = blk[-1]
        s = list(t.s or [])
        if t.op == 'invoke' and not unwind:
            s = s[:1]
        out.append(s)
    return out


def dominators(fn, unwind=False):
    n = len(fn.blocks)
    su = succs(fn, unwind)
    pred = [[] for _ in range(n)]
    for b in range(n):
        for s in su[b]:
            pred[s].append(b)
    # reverse post order
    order = []
    seen = {0}
    st = [(0, iter(su[0]))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(su[s])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True
    return idom


def dominates(idom, a, b):
    while True:
        if a == b:
            return True
        if b not in idom or idom[b] == b:
            return False
        b = idom[b]


def loops(fn):
    """natural loops (normal edges): {header: set of blocks}"""
    su = succs(fn)
    idom = dominators(fn)
    out = {}
    pred = {}
    for b, s in enumerate(su):
        for t in s:
            pred.setdefault(t, []).append(b)
    for b in idom:
        for h in su[b]:
            if h in idom and dominates(idom, h, b):
                body = out.setdefault(h, {h})
                work = [b]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work += [p for p in pred.get(x, []) if p in idom]
    return out


def iteration_can_skip(fn, header, body, blocks):
    """is there an iteration of the loop that completes without passing any of blocks?"""
    su = succs(fn)
    work = [s for s in su[header] if s in body]
    if header in blocks:
        return False
    seen = set()
    while work:
        b = work.pop()
        if b == header:
            return True
        if b in seen or b in blocks or b not in body:
            continue
        seen.add(b)
        work += su[b]
    return False


# ---------------------------------------------------------------- string literals

_STRCTOR = re.compile(r'^(std::(__cxx11::)?basic_string|Pothos::Object)::(basic_string|Object)$')


def strlit(fr, e, depth=0):
    """the literal a string (or Object) expression was built from, or None"""
    if isinstance(e, tuple) and e[0] == 'str':
        return e[1]
    if isinstance(e, tuple) and e[0] == 'glob':
        return None
    if isinstance(e, tuple) and e[0] == 'alloca' and depth < 4:
        f2 = fr.eng.frames.get(e[1])
        if f2 is None:
            return None
        vals = set()
        for u in f2.fn.uses.get(e[2], []):
            if u.op in ('call', 'invoke') and u.a and u.a[0] == e[2]:
                nm = f2.fn.prog.call_info(u)[0]
                if _STRCTOR.match(nm) and len(u.a) > 1:
                    vals.add(strlit(f2, f2.ex(u.a[1]), depth + 1))
                elif last(nm) == 'operator=' and len(u.a) > 1:
                    vals.add(strlit(f2, f2.ex(u.a[1]), depth + 1))
        if len(vals) == 1:
            return vals.pop()
    return None
