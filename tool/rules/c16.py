"""C16 remote calls: protocol conformance of client and server, reply guarantee, demultiplexing of replies"""
from common import *
from exc import Exc

SOURCES = ['lib/Remote/*', 'lib/Exception.cpp']
EXPLANATION = ('The keys a client function writes into a request and reads from the reply, and the keys the server reads and writes for each action, are computed on every path '
               'and compared; the server loop is checked to answer every request exactly once on every path, exceptional ones included; the client demultiplexer is checked for '
               'lock discipline, ownership of the input stream and wake-up of the waiting callers.')

MAPOP = re.compile(r'^std::map::(operator\[\]|at|find|count|contains|emplace|insert|try_emplace|insert_or_assign|erase|clear|map|begin|operator=)$')
END = re.compile(r'::(end|cend)$')


def is_kwargs(prog, ins):
    """std::map operation on a map from names to objects"""
    d = prog.dem(ins.f[1:]) if ins.f.startswith('@') else ''
    return 'Pothos::Object' in d.split('>::')[0]


class Proto(Rule):
    """facts (tuples) in a frozenset:
       ('set', m, key)  ('open', m)  ('act', m, literal)  ('in', m)  ('it', iterator, m, key)  ('abs'|'pres', m, key)
       ('tx', m, action, keys or None)"""

    def __init__(self, prog):
        self.prog = prog
        self.reads = {}      # (action, key, frozenset(absent)) -> loc   keys read of a received map
        self.requests = {}   # action -> [(keys or None, loc)]

    def facts(self, st):
        return st

    def with_(self, st, facts):
        return facts

    def inline(self, eng, fr, fn, name):
        return fn.in_repo and not name.startswith(('Pothos::Object', 'Pothos::Exception', 'sendDatagram', 'recvDatagram')) and 'PRPCDatagram' not in name

    def may_throw(self, eng, fr, ins, name):
        return False

    @staticmethod
    def drop(st, m):
        return frozenset(f for f in st if f[1] != m and not (f[0] == 'it' and f[2] == m))

    def is_in(self, st, m):
        return any(f[0] in ('in', 'tx') and f[1] == m for f in st)

    def mapcall(self, eng, fr, ins, name, args, st):
        """effect of a map operation on the facts, or None when it is none"""
        if not MAPOP.match(name) or not args or not is_kwargs(self.prog, ins):
            return None
        op = last(name)
        m = args[0]
        if op == 'map':
            st = self.drop(st, m)
            if len(args) > 1:
                src = args[1]
                cp = set()
                for f in st:
                    if f[1] == src and f[0] in ('set', 'open', 'act', 'in', 'tx', 'abs', 'pres'):
                        cp.add((f[0], m) + f[2:])
                if not any(f[0] != 'open' for f in cp):
                    cp.add(('open', m))
                st = st | cp
            return st
        if op == 'operator=':
            st = self.drop(st, m)
            return st | set((f[0], m) + f[2:] for f in st if f[1] == args[1] and f[0] != 'it') if len(args) > 1 else st
        key = strlit(fr, args[1]) if len(args) > 1 else None
        if op in ('clear',):
            return self.drop(st, m)
        if op in ('erase', 'begin'):
            return st
        if self.is_in(st, m):
            if op in ('operator[]', 'at'):
                self.read(eng, fr, ins, st, m, key, op)
            elif op in ('find',):
                return st
            return st
        if op in ('operator[]', 'emplace', 'try_emplace', 'insert_or_assign') and key is not None:
            return st | {('set', m, key)}
        if op in ('operator[]', 'insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            return st | {('open', m)}
        return st

    def read(self, eng, fr, ins, st, m, key, op):
        pass

    def assign(self, eng, fr, name, args, st):
        """value entered: req["action"] = Object("literal")"""
        if last(name) == 'operator=' and len(args) == 2 and isinstance(args[0], tuple) and args[0][0] == 'elem' and len(args[0]) > 2:
            m, k = args[0][1], strlit(fr, args[0][2])
            if k == 'action' and not self.is_in(st, m):
                return frozenset(f for f in st if f[:2] != ('act', m)) | {('act', m, strlit(fr, args[1]))}
        return st

    def store_it(self, fr, ptr, val, st):
        l, b = loc_fields(ptr)
        if isinstance(b, tuple) and b[0] == 'alloca' and isinstance(val, tuple) and val[0] == 'call' and val[1] == 'std::map::find' and len(val[2]) > 1:
            st = frozenset(f for f in st if not (f[0] == 'it' and f[1] == b))
            k = strlit(fr, val[2][1])
            if k is not None:
                st = st | {('it', b, val[2][0], k)}
        return st

    def presence(self, fr, atom, truth, st):
        """(m, key, present) decided by a branch, or None"""
        if atom[0] == 'call' and last(atom[1]) in ('operator==', 'operator!=') and len(atom[2]) == 2:
            for i in (0, 1):
                for f in st:
                    if f[0] == 'it' and f[1] == atom[2][i]:
                        return f[2], f[3], truth == (last(atom[1]) == 'operator!=')
        c = None
        pos = truth
        if atom[0] == 'call' and last(atom[1]) in ('count', 'contains'):
            c = atom
        elif atom[0] == 'cmp' and atom[1] == 'eq' and atom[2][0] == 'call' and last(atom[2][1]) == 'count' and atom[3][0] == 'const':
            c = atom[2]
            pos = truth == (atom[3][1] != 0)
        elif atom[0] == 'cmp' and atom[1] in ('ult', 'slt') and atom[3][0] == 'call' and last(atom[3][1]) == 'count' and atom[2] == ('const', 0):
            c = atom[3]
        if c is not None and c[1].startswith('std::map') and len(c[2]) > 1:
            k = strlit(fr, c[2][1])
            if k is not None:
                return c[2][0], k, pos
        return None

    def on_presence(self, st, p):
        m, k, pos = p
        if ('pres' if not pos else 'abs', m, k) in st:
            return None
        return st | {('pres' if pos else 'abs', m, k)}


class Client(Proto):
    def on_call(self, eng, fr, ins, name, args, st):
        if name == 'RemoteProxyEnvironment::transact':
            reply, req = args[0], args[2]
            act = next((f[2] for f in st if f[0] == 'act' and f[1] == req), None)
            keys = None if ('open', req) in st else frozenset(f[2] for f in st if f[0] == 'set' and f[1] == req)
            self.requests.setdefault(act, set()).add((keys, ins.loc, fr.fn.name))
            st = self.drop(st, reply)
            return [('ret', st | {('tx', reply, act)}, None), ('throw', st, None)]
        r = self.mapcall(eng, fr, ins, name, args, st)
        if r is not None:
            return [('ret', r, None)]
        s2 = self.assign(eng, fr, name, args, st)
        if s2 is not st:
            return [('ret', s2, None)]
        return None

    def read(self, eng, fr, ins, st, m, key, op):
        act = next((f[2] for f in st if f[0] == 'tx' and f[1] == m), None)
        ab = frozenset(f[2] for f in st if f[0] == 'abs' and f[1] == m)
        pr = frozenset(f[2] for f in st if f[0] == 'pres' and f[1] == m)
        if key is not None:
            self.reads.setdefault((act, key, ab, pr), (ins.loc, fr.fn.name, eng.trace(fr, ins)))

    def on_store(self, eng, fr, ins, ptr, val, st):
        return self.store_it(fr, ptr, val, st)

    def on_branch(self, eng, fr, ins, atom, truth, st):
        p = self.presence(fr, atom, truth, st)
        return self.on_presence(st, p) if p else st


class Server(Proto):
    """state (facts, exc, sent, failed, action)"""

    def __init__(self, prog):
        Proto.__init__(self, prog)
        self.alts = {}       # action -> {(keys or None): loc}
        self.needs = {}      # action -> {key: loc}
        self.actions = set()
        self.erases = {}

    def on_call(self, eng, fr, ins, name, args, st):
        facts, ex, sent, failed, act = st
        r = Exc.on_call(self.prog, name, args, ex)
        if r is not None:
            return [(k, (facts, e, sent, failed, act), None) for k, e in r]
        if name == 'recvDatagram':
            return [('ret', (self.drop(facts, args[0]) | {('in', args[0])}, ex, sent, failed, act), None)]
        if name == 'sendDatagram':
            m = args[1]
            keys = None if ('open', m) in facts else frozenset(f[2] for f in facts if f[0] == 'set' and f[1] == m)
            self.alts.setdefault(act, {}).setdefault(keys, ins.loc)
            if keys is not None and 'tid' not in keys:
                eng.report(fr, ins, 'tid', 'a reply is sent without the id of the calling thread')
            if ('exc', 'user') in facts and keys is not None and not keys & {'errorMsg', 'message'}:
                eng.report(fr, ins, 'reply', 'a failure while processing the request is answered as a success')
            if failed and keys is not None and not keys <= {'tid', 'errorMsg'}:
                eng.report(fr, ins, 'reply', 'after a reply could not be serialised the same result is sent again')
            out = [('ret', (facts | {('last', 'sent', keys)}, ex, min(sent + 1, 2), failed, act), None)]
            if failed < 2:
                out.append(('throw', (facts, Exc.thrown(ex, 'any', 'send%d' % (failed + 1)), sent, failed + 1, act), None))
            return out
        if last(name) in ('erase', 'clear') and args and any(isinstance(s, tuple) and s[0] == 'glob' for s in sub_exprs(args[0])):
            self.erases.setdefault(act, ins.loc)
        mc = self.mapcall(eng, fr, ins, name, args, facts)
        if mc is not None:
            op = last(name)
            out = [('ret', (mc, ex, sent, failed, act), None)]
            if op == 'at' and strlit(fr, args[1]) != 'tid':
                if self.is_in(facts, args[0]):
                    self.needs.setdefault(act, {}).setdefault(strlit(fr, args[1]), ins.loc)
                out.append(('throw', (mc | {('exc', 'user')}, Exc.thrown(ex, 'any', 'user'), sent, failed, act), None))
            elif op == 'at' and self.is_in(facts, args[0]) and sent == 0 and not failed:
                out.append(('throw', (mc, Exc.thrown(ex, 'any', 'tid'), sent, failed, act), None))
            return out
        if last(name) == 'operator=' and len(args) == 2 and isinstance(args[0], tuple) and args[0][0] == 'elem' and len(args[0]) > 2:
            if strlit(fr, args[0][2]) == 'tid' and not self.is_in(facts, args[0][1]):
                v = args[1]
                if not any(isinstance(s, tuple) and s[0] == 'elem' and self.is_in(facts, s[1]) for s in sub_exprs(v)):
                    eng.report(fr, ins, 'tid', 'the reply does not carry the thread id of the request')
        k = self.prog.call_info(ins)
        tgt = self.prog.fns.get(k[1][0]) if k[2] == 'direct' and k[1] else None
        if ins.d.get('nt') or name.startswith('llvm.') or '~' in name:
            return None
        if tgt is not None and self.inline(eng, fr, tgt, name):
            return None
        if k[2] == 'virtual' or name == '<indirect>' or name.startswith(('Pothos::', 'Poco::')) and not re.match(r'^Pothos::(Object::(Object|operator=)|Exception::)', name) \
                or name in ('std::map::at',):
            if not ex[1]:
                return [('ret', st, None), ('throw', (facts | {('exc', 'user')}, Exc.thrown(ex, 'any', 'user'), sent, failed, act), None)]
        return None

    def on_store(self, eng, fr, ins, ptr, val, st):
        f2 = self.store_it(fr, ptr, val, st[0])
        return st if f2 is st[0] else (f2,) + st[1:]

    def on_branch(self, eng, fr, ins, atom, truth, st):
        facts, ex, sent, failed, act = st
        e = Exc.on_branch(self.prog, atom, truth, ex)
        if e is False:
            return None
        p = self.presence(fr, atom, truth, facts)
        if p:
            facts = self.on_presence(facts, p)
            if facts is None:
                return None
        if atom[0] == 'call' and last(atom[1]) in ('operator==', 'operator!=', 'compare') and len(atom[2]) == 2:
            lit = next((a[1] for a in atom[2] if isinstance(a, tuple) and a[0] == 'str'), None)
            other = next((a for a in atom[2] if not (isinstance(a, tuple) and a[0] == 'str')), None)
            if lit is not None and any(isinstance(s, tuple) and s[0] == 'elem' and len(s) > 2 and strlit(fr, s[2]) == 'action' for s in sub_exprs(other)):
                eq = truth == (last(atom[1]) == 'operator==')
                self.actions.add(lit)
                if eq:
                    if act is not None and act != lit:
                        return None
                    act = lit
                elif act == lit:
                    return None
        return (facts, e, sent, failed, act)


def check_server(prog, rep):
    roots = [f for f in prog.repo_fns() if f.tu.startswith('lib/Remote/') and 'Test' not in f.tu and any(prog.call_info(c)[0] == 'recvDatagram' for c in f.calls())
             and not f.name.startswith('RemoteProxyEnvironment')]
    rep.need(roots, 'the server request handler')
    srv = Server(prog)
    for f in roots:
        for t in topmost(prog, f, lambda g: False):
            eng = Engine(prog, srv)
            exits = eng.run(t, (frozenset(), Exc.none, 0, 0, None))
            rep.engine(eng)
            for kind, (facts, ex, sent, failed, act), rv in exits:
                a = 'action "%s"' % act if act else 'an unknown action'
                if kind == 'throw':
                    o = ex[0][1] if ex[0] else None
                    if o == 'user':
                        rep.violation('escape', t.loc, t.name, 'a failure while processing %s leaves the request handler without a reply' % a)
                    elif o == 'send1':
                        rep.violation('reply', t.loc, t.name, 'a result that cannot be serialised leaves the request of %s without a reply' % a)
                elif sent == 0:
                    rep.violation('reply', t.loc, t.name, '%s can complete without a reply' % a)
                elif sent > 1:
                    rep.violation('reply', t.loc, t.name, '%s can be answered twice' % a)
                if kind == 'ret' and rv is not None and isinstance(rv, (int, bool)):
                    if rv and act != '~RemoteProxyEnvironment':
                        rep.violation('done', t.loc, t.name, '%s ends the session of the client' % a)
                    elif not rv and act == '~RemoteProxyEnvironment' and not any(f[0] == 'last' and f[2] is not None and 'errorMsg' in f[2] for f in facts):
                        rep.violation('done', t.loc, t.name, 'the session does not end when the environment of the client goes away')
    for act, loc in srv.erases.items():
        if act is None or not act.startswith('~'):
            rep.violation('objects', loc, 'server', 'an object of the server is dropped by action "%s", which is no destruction' % act)
    for act in srv.actions:
        if act.startswith('~') and act not in srv.erases:
            rep.violation('objects', roots[0].loc, 'server', 'action "%s" does not drop the object of the server' % act)
    return srv, roots[0]


def check(prog, rep):
    rep.rule('R1 every request is answered exactly once, on every path, with the id of the calling thread; failures are answered with an error')
    rep.rule('R2 every action a client sends is handled by the server, which finds in the request every key it needs')
    rep.rule('R3 a client reads a reply value only where every possible reply contains it, i.e. after errors were ruled out; errors are thrown')
    rep.rule('R4 the session ends exactly when the environment of the client is destroyed; objects are dropped exactly on destruction')
    rep.rule('R5 replies are matched to callers under the lock, one caller at a time reads the stream, and waiting callers are woken on every way out')
    srv, sf = check_server(prog, rep)
    rep.count('server_actions', len(srv.actions))
    rep.need(len(srv.actions) >= 5, 'dispatch on the action of a request')

    cl = Client(prog)
    users = [f for f in prog.repo_fns() if 'Test' not in f.tu and any(prog.call_info(c)[0] == 'RemoteProxyEnvironment::transact' for c in f.calls())]
    rep.need(len(users) >= 5, 'functions of the client that transact')
    tops = {}
    for f in users:
        for t in topmost(prog, f, lambda g: g.name.startswith(('RemoteProxyEnvironment::', 'RemoteProxyHandle::')) or g.tu == f.tu and not g.name.startswith('Pothos::')):
            tops[t.n] = t
        tops[f.n] = f
    for t in sorted(tops.values(), key=lambda f: f.n):
        eng = Engine(prog, cl)
        for kind, st, rv in eng.run(t, frozenset()):
            if kind != 'ret':
                continue
            for f in st:
                if f[0] == 'tx' and f[2] is not None and not f[2].startswith('~') and t in users and f[1][0] == 'alloca':
                    if ('pres', f[1], 'errorMsg') in st:
                        rep.violation('error', t.loc, t.name, 'an error of the server is not reported to the caller (action "%s")' % f[2])
                    elif ('abs', f[1], 'errorMsg') not in st:
                        rep.violation('error', t.loc, t.name, 'the reply of action "%s" is not checked for an error' % f[2])
        rep.engine(eng)
    nreq = 0
    for act, reqs in sorted(cl.requests.items(), key=lambda x: str(x[0])):
        for keys, loc, fnn in sorted(reqs, key=str):
            if act is None:
                continue
            nreq += 1
            if act not in srv.actions:
                rep.violation('action', loc, fnn, 'the server does not know the action "%s"' % act)
                continue
            if keys is not None:
                for k, l in sorted((srv.needs.get(act) or {}).items(), key=str):
                    if k is not None and k not in keys and k != 'tid':
                        rep.violation('request', loc, fnn, 'the server needs "%s" for action "%s" (%s), which the request does not contain' % (k, act, l))
    nread = 0
    for (act, key, ab, pr), (loc, fnn, tr) in sorted(cl.reads.items(), key=str):
        if act is None:
            continue
        nread += 1
        for keys in srv.alts.get(act, {}):
            if keys is None or keys & ab or not pr <= keys:
                continue
            if key not in keys:
                rep.violation('reply', loc, fnn, 'reads "%s" from the reply of action "%s" although the server may have answered {%s}' % (key, act, ', '.join(sorted(keys))), trace=tr)
    rep.count('requests', nreq)
    rep.count('reply_reads', nread)
    for a in sorted(srv.actions):
        rep.analysed.append('action %s: server needs {%s}; answers %s' % (a, ', '.join(sorted(str(k) for k in srv.needs.get(a, {}))),
                            ' or '.join('{%s}' % ', '.join(sorted(k)) for k in srv.alts.get(a, {}) if k is not None)))
    check_transact(prog, rep)
    rep.rule('R6 the destructors of the client tell the server on every way through and let no failure out')
    check_dtors(prog, rep)
    rep.rule('R9 the positional keys of the arguments of a call are counted from the same number by client and server')
    check_positions(prog, rep, users, sf)
    rep.rule('R7 the table of server objects is accessed under one lock and a new object never gets an id that may be in use')
    check_table(prog, rep, sf)
    rep.rule('R8 a session stops after the request that ends it')
    check_session(prog, rep, sf)


class Dtor(Rule):
    """destructors of the client: the request is sent on every way through and no failure escapes. state (exc, asked)"""

    def __init__(self, prog):
        self.prog = prog

    def inline(self, eng, fr, fn, name):
        return fn.in_repo and not name.startswith(('Pothos::', 'sendDatagram', 'recvDatagram', 'PRPC', 'RemoteProxyEnvironment::transact'))

    def may_throw(self, eng, fr, ins, name):
        return False

    def on_call(self, eng, fr, ins, name, args, st):
        ex, asked = st
        r = Exc.on_call(self.prog, name, args, ex)
        if r is not None:
            return [(k, (e, asked), None) for k, e in r]
        if name == 'RemoteProxyEnvironment::transact':
            return [('ret', (ex, True), None), ('throw', (Exc.thrown(ex, '_ZTIN6Pothos9ExceptionE', 'io'), True), None)]
        if name in ('__clang_call_terminate', 'std::terminate') and ex[0] is not None and ex[0][1] == 'io':
            eng.report(fr, ins, 'escape', 'a failure to tell the server about the destruction ends the process')
            return []
        return None

    def on_branch(self, eng, fr, ins, atom, truth, st):
        e = Exc.on_branch(self.prog, atom, truth, st[0])
        return None if e is False else (e, st[1])


def check_dtors(prog, rep):
    n = 0
    for c in ('RemoteProxyEnvironment', 'RemoteProxyHandle'):
        fs = [f for f in prog.named(c + '::~' + c) if f.blocks]
        for f in fs:
            eng = Engine(prog, Dtor(prog))
            for kind, (ex, asked), rv in eng.run(f, (Exc.none, False)):
                if kind == 'throw' and ex[0] is not None and ex[0][1] == 'io':
                    rep.violation('escape', f.loc, f.name, 'a failure to tell the server about the destruction escapes')
                elif kind == 'ret' and not asked:
                    rep.violation('objects', f.loc, f.name, 'the server is not told that the client let go of its object')
            rep.engine(eng)
            n += 1
    rep.count('destructors', n)
    rep.need(n >= 2, 'destructors of the client')


class Table(Rule):
    """the table of server objects: state = locks held"""

    def __init__(self, prog):
        self.prog = prog
        self.common = None
        self.keys = set()
        self.stores = []
        self.sites = []

    def inline(self, eng, fr, fn, name):
        return fn.in_repo and fn.tu == fr.fn.tu and not name.startswith(('Pothos::Object', 'Pothos::Exception'))

    def may_throw(self, eng, fr, ins, name):
        return False

    @staticmethod
    def globs(e):
        return set(s[1] for s in sub_exprs(e) if isinstance(s, tuple) and len(s) > 1 and s[0] == 'glob')

    def on_call(self, eng, fr, ins, name, args, st):
        ev = Locks.event(eng, fr, ins, name, args, st)
        if ev is not None:
            return [(k, l2, rv) for k, l2, rv, acq, rel in ev]
        if name.startswith(('std::map::', 'std::unordered_map::')) and not last(name).startswith(('~', 'map', 'unordered_map')):
            a = args[:2]
            m = next((x for x in a if isinstance(x, tuple) and root(x)[0] == 'glob'), None)
            if m is not None and is_kwargs(self.prog, ins) is not False:
                h = frozenset(l for l, k in Locks.held(st))
                self.sites.append((ins, fr.fn.name, h, name, eng.trace(fr, ins)))
                if last(name) in ('operator[]', 'emplace', 'insert', 'try_emplace', 'insert_or_assign') and len(args) > 1:
                    for k in args[1:]:
                        self.keys |= self.globs(k) | self.globs(eng.mem.get(k, ()) if isinstance(k, tuple) else ())
        return None

    def on_store(self, eng, fr, ins, ptr, val, st):
        if isinstance(ptr, tuple) and ptr[0] == 'glob' and 'Pothos' not in str(ptr[1])[:8]:
            self.stores.append((ptr, val, ins, fr.fn.name))
        return st


def check_table(prog, rep, sf):
    tops = topmost(prog, sf, lambda g: False)
    r = Table(prog)
    for t in tops:
        eng = Engine(prog, r)
        eng.run(t, frozenset())
        rep.engine(eng)
    seen = set()
    for ins, fn, h, name, tr in r.sites:
        if not h and (ins.loc, fn) not in seen:
            seen.add((ins.loc, fn))
            rep.violation('table', ins.loc, fn, 'the table of server objects, which all sessions share, is accessed without its lock', trace=tr)
    hs = [h for i, f, h, n, tr in r.sites if h]
    if hs and not frozenset.intersection(*hs):
        rep.violation('table', r.sites[0][0].loc, r.sites[0][1], 'the accesses to the table of server objects are not guarded by one common lock')
    for ptr, val, ins, fn in r.stores:
        if ptr[1] not in r.keys:
            continue
        inc = isinstance(val, tuple) and val[0] == 'bin' and val[1] == 'add' and ('load', ptr) in val[2:] and any(v[0] == 'const' and 0 < v[1] < (1 << 31) for v in val[2:] if isinstance(v, tuple))
        if not inc:
            rep.violation('table', ins.loc, fn, 'the id of a new server object is not counted up, so an id in use may be given out again')
    rep.count('table_accesses', len(set((i.loc, f) for i, f, h, n, tr in r.sites)))
    rep.need(r.sites, 'accesses to the table of server objects')


def first_number(fn, o, depth=0):
    """the value a counter expression has the first time round its loop, or None"""
    if o.startswith('#'):
        return int(o[1:])
    d = fn.defs.get(o)
    if d is None or depth > 6:
        return None
    if d.op == 'cast':
        return first_number(fn, d.a[0], depth + 1)
    if d.op == 'bin' and d.d['k'] in ('add', 'sub') and d.a[1].startswith('#'):
        v = first_number(fn, d.a[0], depth + 1)
        k = int(d.a[1][1:])
        return None if v is None else v + (k if d.d['k'] == 'add' else -k)
    if d.op == 'phi':
        init = None
        for a in d.a:
            x = fn.defs.get(a)
            if x is not None and x.op == 'bin' and x.d['k'] == 'add' and x.a == [o, '#1']:
                continue
            if a.startswith('#') and init is None:
                init = int(a[1:])
            else:
                return None
        return init
    return None


def check_positions(prog, rep, users, sf):
    sides = {}
    for side, fs in (('client', users), ('server', [f for f in prog.repo_fns() if f.tu == sf.tu])):
        for f in fs:
            for c in f.calls():
                if prog.call_info(c)[0] == 'std::to_string' and c.a:
                    v = first_number(f, c.a[1] if c.d.get('sret') and len(c.a) > 1 else c.a[-1])
                    if v is not None:
                        sides.setdefault(side, {}).setdefault(v, (c.loc, f.name))
    a, b = sides.get('client', {}), sides.get('server', {})
    if len(a) == 1 and len(b) == 1 and set(a) != set(b):
        loc, fn = list(a.values())[0]
        rep.violation('request', loc, fn, 'the client counts the arguments of a call from %d, the server from %d (%s)' % (list(a)[0], list(b)[0], list(b.values())[0][0]))
    rep.count('argument_counters', len(a) + len(b))


class Session(Rule):
    def __init__(self, names):
        self.names = names
        self.n = 0

    def inline(self, eng, fr, fn, name):
        return fn.in_repo and name not in self.names and fn.tu == fr.fn.tu

    def on_call(self, eng, fr, ins, name, args, st):
        if name in self.names:
            self.n += 1
            if st:
                eng.report(fr, ins, 'done', 'the session goes on after the environment of the client was destroyed')
                return []
            return [('ret', True, 1), ('ret', False, 0), ('throw', st, None)]
        return None


def check_session(prog, rep, sf):
    names = set(t.name for t in topmost(prog, sf, lambda g: False))
    n = 0
    for f in prog.repo_fns():
        if f.tu == sf.tu and f.blocks and f.name not in names and any(prog.call_info(c)[0] in names for c in f.calls()):
            r = Session(names)
            eng = Engine(prog, r)
            eng.run(f, False)
            rep.engine(eng)
            n += r.n
    rep.count('session_loops', n)


class Transact(Rule):
    """state (locks, own, cleared): own = this call holds the input stream; tested = isBlocking was seen false in this critical section;
       wake = a change waiting callers must be told of"""

    def __init__(self, prog):
        self.prog = prog
        self.n = 0

    def inline(self, eng, fr, fn, name):
        return fn.in_repo and not name.startswith(('Pothos::', 'sendDatagram', 'recvDatagram', 'PRPC'))

    def may_throw(self, eng, fr, ins, name):
        return False

    def lockname(self, e):
        l, b = loc_fields(e)
        return l[0] if l else None

    def held(self, lk):
        return set(self.lockname(e) for e, m in Locks.held(lk))

    def touch(self, eng, fr, ins, what, lk):
        self.n += 1
        if not any(h and h.endswith('::isMutex') for h in self.held(lk)):
            eng.report(fr, ins, 'lock', '%s is accessed without the lock of the reply table' % what)

    def on_call(self, eng, fr, ins, name, args, st):
        lk, own, tested, wake, ex, ours = st
        r = Exc.on_call(self.prog, name, args, ex)
        if r is not None:
            return [(k, (lk, own, tested, wake, e, ours), None) for k, e in r]
        ev = Locks.event(eng, fr, ins, name, args, lk)
        if ev is not None:
            return [(k, (l2, own, tested and not rel, wake, ex, ours), rv) for k, l2, rv, acq, rel in ev]
        if ours == 'sendfail' and (name == 'recvDatagram' or name.startswith('std::condition_variable::wait')):
            eng.report(fr, ins, 'match', 'waits for the reply to a request that could not be sent')
        if name.startswith('std::condition_variable::'):
            op = last(name)
            if op == 'notify_all':
                return [('ret', (lk, own, tested, False, ex, ours), None)]
            if op == 'notify_one':
                if wake:
                    eng.report(fr, ins, 'wake', 'only one of the waiting callers is woken, which may not be the one whose reply arrived')
                return [('ret', (lk, own, tested, False, ex, ours), None)]
            if op.startswith('wait'):
                if ours == 'got':
                    eng.report(fr, ins, 'lost', 'the reply of another caller is dropped')
                ours = 'none'
                if wake:
                    eng.report(fr, ins, 'wake', 'waits before waking the others after a change')
                if len(args) > 2 and op == 'wait':
                    return [('ret', (lk, own, True, wake, ex, ours), None)]
                if tested is not None and tested != 'busy' and op == 'wait':
                    eng.report(fr, ins, 'wait', 'waits although no other caller is known to read the stream')
                return [('ret', (lk, own, False, wake, ex, ours), None)]
        if name == 'sendDatagram':
            if not any(h and h.endswith('::osMutex') for h in self.held(lk)):
                eng.report(fr, ins, 'lock', 'requests are written to the stream without its lock')
            return [('ret', st, None), ('throw', (lk, own, tested, wake, Exc.thrown(ex, 'any', 'io'), 'sendfail'), None)]
        if name == 'recvDatagram':
            if not own:
                eng.report(fr, ins, 'stream', 'reads the stream without having claimed it')
            if ours == 'got':
                eng.report(fr, ins, 'lost', 'the reply of another caller is dropped')
            return [('ret', (lk, own, tested, wake, ex, 'got'), None), ('throw', (lk, own, tested, wake, Exc.thrown(ex, 'any', 'io'), ours), None)]
        if name == 'std::map::at' and ours == 'got':
            return [('ret', st, None), ('throw', (lk, own, tested, wake, Exc.thrown(ex, 'any', 'io'), ours), None)]
        if args and name.startswith('std::map::'):
            a0 = args[1] if ins.d.get('sret') and len(args) > 1 else args[0]
            if isinstance(a0, tuple) and a0[0] == 'fld' and a0[2].endswith('::tidToReply'):
                self.touch(eng, fr, ins, 'the reply table', lk)
                if last(name) in ('operator[]', 'emplace', 'insert', 'insert_or_assign'):
                    return [('ret', (lk, own, tested, True, ex, 'none'), None)]
                if last(name) in ('erase', 'extract', 'clear') and ours == 'cached':
                    return [('ret', (lk, own, tested, wake, ex, 'match'), None)]
        return None

    def on_load(self, eng, fr, ins, ptr, st):
        if isinstance(ptr, tuple) and ptr[0] == 'fld' and ptr[2].endswith('::isBlocking'):
            self.touch(eng, fr, ins, 'the stream ownership flag', st[0])
        return st

    def on_store(self, eng, fr, ins, ptr, val, st):
        lk, own, tested, wake, ex, ours = st
        if isinstance(ptr, tuple) and ptr[0] == 'fld' and ptr[2].endswith('::isBlocking'):
            self.touch(eng, fr, ins, 'the stream ownership flag', lk)
            if val == ('const', 1):
                if tested != 'free' and tested is not True:
                    eng.report(fr, ins, 'stream', 'claims the stream without having seen in the same critical section that it is free')
                return (lk, True, False, wake, ex, ours)
            if val == ('const', 0):
                return (lk, False, False, True, ex, ours)
        return st

    def on_branch(self, eng, fr, ins, atom, truth, st):
        lk, own, tested, wake, ex, ours = st
        e = Exc.on_branch(self.prog, atom, truth, ex)
        if e is False:
            return None
        for s in sub_exprs(atom):
            if isinstance(s, tuple) and s[0] == 'load' and isinstance(s[1], tuple) and s[1][0] == 'fld' and s[1][2].endswith('::isBlocking'):
                tested = 'busy' if truth else 'free'
        if ours == 'got' and truth and atom[0] == 'cmp' and atom[1] == 'eq' and 'const' not in (atom[2][0], atom[3][0]) and not any(isinstance(s, tuple) and s[0] == 'call' and 'eh.typeid' in s[1] for s in sub_exprs(atom)):
            ours = 'match'
        if ours == 'none' and atom[0] == 'call' and last(atom[1]) in ('operator==', 'operator!=') and len(atom[2]) == 2 and truth == (last(atom[1]) == 'operator!='):
            ours = 'cached'
        return (lk, own, tested, wake, e, ours)


def check_transact(prog, rep):
    n = 0
    for f in prog.named('RemoteProxyEnvironment::transact'):
        rule = Transact(prog)
        eng = Engine(prog, rule)
        for kind, st, rv in eng.run(f, (frozenset(), False, False, False, Exc.none, 'none')):
            lk, own, tested, wake, ex, ours = st
            if own:
                rep.violation('stream', f.loc, f.name, 'the input stream stays claimed when the call %s' % ('fails' if kind == 'throw' else 'returns'))
            if kind == 'ret' and ours == 'cached':
                rep.violation('match', f.loc, f.name, 'a reply taken from the reply table stays there and would answer the next request of the caller')
            elif kind == 'ret' and ours != 'match':
                rep.violation('match', f.loc, f.name, 'returns a reply that is not known to belong to the caller')
            if wake:
                rep.violation('wake', f.loc, f.name, 'the waiting callers are not woken when the call %s' % ('fails' if kind == 'throw' else 'returns'))
            if Locks.held(lk):
                rep.violation('lock', f.loc, f.name, 'a lock is still held when the call %s' % ('fails' if kind == 'throw' else 'returns'))
        rep.engine(eng)
        n += rule.n
    rep.count('shared_accesses', n)
    rep.need(n >= 5, 'reply table of the client')
