"""C13 plugin modules: load, association of plugins, unload"""
from terms import *
import exc as EXC

SOURCES = ['lib/Plugin/Module.cpp', 'lib/Plugin/Registry.cpp', 'lib/Plugin/ModulePaths.cpp', 'lib/Plugin/ModuleSafeLoad.cpp', 'lib/Plugin/Exception.cpp', 'lib/Exception.cpp']
EXPLANATION = 'the paths of loading, registering, removing, unloading and testing modules'
LOCKC = re.compile(r'^std::(lock_guard|unique_lock|scoped_lock)::(lock_guard|unique_lock|scoped_lock)$')
LOCKD = re.compile(r'^std::(lock_guard|unique_lock|scoped_lock)::~')
MOD = 'Pothos::PluginModule'
REGERR = '_ZTIN6Pothos19PluginRegistryErrorE'
LOADERR = '_ZTIN4Poco20LibraryLoadExceptionE'
NOTFOUND = '_ZTIN4Poco17NotFoundExceptionE'
# the hierarchy of the exceptions of Poco, which the library only uses
POCO = {'_ZTIN4Poco20LibraryLoadExceptionE': '_ZTIN4Poco16RuntimeExceptionE', NOTFOUND: '_ZTIN4Poco16RuntimeExceptionE', '_ZTIN4Poco16RuntimeExceptionE': '_ZTIN4Poco9ExceptionE', '_ZTIN4Poco9ExceptionE': '_ZTISt9exception'}
API = re.compile(r"^Pothos::(Plugin|PluginPath|System|Object|Callable|Util)::")


class ModRule(TermRule):
    def __init__(self, prog):
        TermRule.__init__(self, prog)
        self.ends = []
        self.pures = {}
        # functions that call handlers (which may call back) are events of their own
        self.deliver = set()
        fs = [f for f in prog.repo_fns() if f.tu in TUS and f.blocks]
        more = True
        while more:
            more = False
            for f in fs:
                if f.n in self.deliver or f.name.startswith('Pothos::PluginRegistry::'):
                    continue
                for x in f.calls():
                    k = prog.call_info(x)
                    if re.match(r'^Pothos::(Callable|CallInterface)::(call\w*|opaqueCall\w*)$', k[0]) or k[2] == 'direct' and k[1] and k[1][0] in self.deliver:
                        self.deliver.add(f.n)
                        more = True
                        break

    def inside(self, fn, name):
        return fn.tu in TUS and fn.n not in self.deliver and not API.match(name) and not (name == MOD + '::~PluginModule' or re.match(r'_ZN6Pothos12PluginModuleC[12]ERKNSt', fn.n))

    def on_unwind(self, eng, fr, ins, st):
        pass

    def resumes(self, eng, fr, ins, st):
        return True

    def thrown(self, st, t):
        s = st.copy()
        s.mem[('exc',)] = t
        return ('throw', s, None)

    def special(self, eng, fr, ins, name, a, dst, st):
        T = lambda v: self.term(st, v)
        n = last(name)
        if name.startswith('llvm.threadlocal.address'):
            return [('ret', st, a[0])]
        if name.startswith('llvm.eh.typeid.for'):
            t = st.mem.get(('exc',), 'any')
            return [('ret', st, ('tid', a[0][1] if isinstance(a[0], tuple) and a[0][0] == 'glob' else None, t))]
        if name in ('__clang_call_terminate', 'std::terminate', '__cxa_call_unexpected', 'abort'):
            self.ends.append((st.copy(), ins.loc))
            return []
        if name == '__cxa_begin_catch':
            st.mem[('caught',)] = st.mem.pop(('exc',), 'any')
            return [('ret', st, a[0])]
        if name == '__cxa_end_catch':
            return [('ret', st, None)]
        if name == '__cxa_rethrow':
            return [self.thrown(st, st.mem.get(('caught',), 'any'))]
        if name == '__cxa_throw':
            return [self.thrown(st, a[1][1] if isinstance(a[1], tuple) and a[1][0] == 'glob' else 'any')]
        if LOCKC.match(name) and len(a) == 2:
            x = self.place(st, a[1])
            self.emit(st, 'lock', x)
            self.put(st, a[0], ('guard', x))
            return [('ret', st, None)]
        if LOCKD.match(name):
            g = T(a[0])
            if isinstance(g, tuple) and g[0] == 'guard':
                self.emit(st, 'unlock', g[1])
            return [('ret', st, None)]
        if name in ('std::mutex::lock', 'std::mutex::unlock'):
            self.emit(st, n, self.place(st, a[0]))
            return [('ret', st, None)]
        if name == 'Poco::SharedLibrary::load' or name == 'Poco::SharedLibrary::SharedLibrary' and len(a) >= 2:
            self.emit(st, 'load', self.place(st, a[0]), T(a[1]), self.globs(st), ins.loc)
            return [('ret', st, None), self.thrown(st, LOADERR)]
        if name == 'Poco::SharedLibrary::unload':
            self.emit(st, 'unload', self.place(st, a[0]), ins.loc)
            return [('ret', st, None)]
        if name == 'Poco::SharedLibrary::isLoaded':
            return [('ret', st, ('loaded', self.place(st, a[0])))]
        if name in ('Pothos::PluginRegistry::remove', 'Pothos::PluginRegistry::get'):
            self.emit(st, n, T(a[0]), ins.loc)
            t = self.thrown(st, REGERR)
            self.put(st, dst, ('plugin', T(a[0])))
            return [('ret', st, None), t]
        if name in ('Pothos::PluginRegistry::empty', 'Pothos::PluginRegistry::exists'):
            return [('ret', st, (n, T(a[0]), ('n', len(st.ev))))]
        if name == 'Pothos::Plugin::getModule':
            self.put(st, dst, ('moduleof', T(a[0])))
            return [('ret', st, None)]
        if ins.f.startswith('@') and ins.f[1:] in self.deliver:
            self.emit(st, 'deliver', name, tuple(T(x) for x in a), ins.loc)
            return [('ret', st, None)]
        if name.startswith('Poco::Util::') and n == '#2' and len(a) == 3:
            n = 'setString'         # the first virtual function of AbstractConfiguration
        if n in ('setString', 'getString', 'load', 'save') and name.startswith('Poco::Util::'):
            who = T(a[0])
            ar = tuple(T(x) for x in a[1:])
            if n == 'getString':
                v = ('cached', who, ar[0])
                self.put(st, dst, v)
                out = [('ret', st, None)]
                return out if len(ar) > 1 else out + [self.thrown(st, NOTFOUND)]
            self.emit(st, 'cfg' + n, who, ar, ins.loc)
            return [('ret', st, None)] + ([self.thrown(st, 'any')] if n in ('load', 'save') else [])
        if name in ('Poco::HashMap::operator[]', 'Poco::HashMap::find', 'std::map::operator[]', 'std::unordered_map::operator[]', 'std::map::at', 'std::map::find') and base(self.place(st, a[0]))[0] == 'glob':
            self.emit(st, 'slot', self.place(st, a[0]), T(a[1]), ins.loc)
            if n != 'find':
                return [('ret', st, ('slot', self.place(st, a[0]), T(a[1])))]
            return None
        if name == 'Poco::Process::launch':
            self.emit(st, 'launch', T(a[1]) if len(a) > 1 else None, ins.loc)
            return [('ret', st, None)]
        if name == 'Poco::ProcessHandle::wait' or name == 'Poco::Process::wait':
            self.emit(st, 'wait')
            return [('ret', st, ('waited', len(st.ev)))]
        if re.match(r'_ZN6Pothos12PluginModuleC[12]ERKNSt', ins.f[1:] if ins.f.startswith('@') else ''):
            self.emit(st, 'inproc', T(a[1]), ins.loc)
            return [('ret', st, None)]
        if dst is not None and ins.f.startswith('@') and self.pure(ins.f[1:]):
            self.put(st, dst, ('pure', ins.f[1:], tuple(T(x) for x in a)))
            return [('ret', st, None)]
        if name == '__cxa_guard_acquire':
            return [('ret', st, K(0))]
        if n in ('unique', 'use_count') and a and 'shared' in name:
            return [('ret', st, (n, T(a[0])))]
        return None

    def pure(self, n, depth=0):
        """a function that makes its result of its arguments and of the files they name: no state, no configuration, no process"""
        f = self.prog.fns.get(n)
        if f is None or not f.blocks or depth > 4 or f.tu not in TUS or not depth and not f.sret:
            return False
        if n not in self.pures:
            self.pures[n] = False
            ok = True
            for x in f.calls():
                k = self.prog.call_info(x)
                if k[2] != 'direct':
                    ok = False
                    break
                nm = k[0]
                if re.match(r'^(std|__gnu_cxx|Poco::(File|Path|Timestamp|DateTime))::|^(__|llvm\.|isalnum|operator )|^Pothos::System::', nm) or re.match(r'^(is|to)[a-z]+$', nm):
                    continue
                if not self.pure(k[1][0], depth + 1):
                    ok = False
                    break
            self.pures[n] = ok
        return self.pures[n]

    def globs(self, st):
        out = []
        for o, v in st.mem.items():
            p = o[1] if o[0] == 'tv' else o
            if isinstance(p, tuple) and base(p)[0] == 'glob' and not str(p).count('_ZGV'):
                out.append((p, v))
        return tuple(out)



TUS = set()
KEYS = set()
PMERR = '_ZTIN6Pothos17PluginModuleErrorE'


def walk(x):
    yield x
    if isinstance(x, tuple):
        for y in x:
            if isinstance(y, tuple):
                yield from walk(y)


class Ctx(object):
    def __init__(self, prog, rep):
        self.prog, self.rep, self.n = prog, rep, 0

    def bad(self, rule, f, msg, loc=None):
        self.rep.violation(rule, loc or f.loc, f.name, msg)

    def feasible(self, facts):
        for ft, t in facts.items():
            if ft[0] == 'eq' and all(isinstance(x, tuple) and x[:1] == ('str',) for x in ft[1:3]) and (ft[1] == ft[2]) != t:
                return False
            if ft[0] != 'cmp' or ft[1] != 'eq':
                continue
            for x in ft[2:4]:
                if isinstance(x, tuple) and x and x[0] == 'tid' and x[1] and x[2] != 'any' and (x[1] in EXC.bases(self.prog, x[2])) != t:
                    return False
        return True

    def run(self, f):
        r = ModRule(self.prog)
        e = Affine(self.prog, r, max_steps=400000)
        out = [o for o in e.run(f) if self.feasible(o[1].facts)]
        self.rep.engine(e)
        self.n += len(out)
        return r, out

    def isa(self, t, b):
        return t is not None and t != 'any' and b in EXC.bases(self.prog, t)


def fns(prog, name, sig=None, every=False):
    l = [f for f in prog.repo_fns() if f.name == name and f.blocks and f.tu in TUS and (sig is None or re.search(sig, f.n))]
    seen, out = set(), []
    for f in l:
        k = re.sub(r'C[12]E', 'CE', re.sub(r'D[012]E', 'DE', f.n))
        if k not in seen:
            seen.add(k)
            out.append(f)
    return out


def true(facts, x):
    return facts.get(x)


def attached(c, add):
    """the object that PluginRegistry::add attaches to a plugin as its module"""
    out = set()
    for f, r, paths in add:
        for k, st, rv in paths:
            if k != 'ret':
                continue
            for e in st.ev:
                if e[0] == 'set' and isinstance(e[1], tuple) and e[1][0] == 'fld' and is_plugin_entry(c.prog, e[1][2]):
                    m = e[2][4] if isinstance(e[2], tuple) and e[2][:2] == ('mk', 'Pothos::Plugin') and len(e[2]) == 5 else None
                    m = m if isinstance(m, tuple) and base(m)[0] == 'glob' else None
                    out.add(base(m) if m else None)
                    if m is None:
                        c.bad('R4', f, 'the plugin is registered without the module that is being loaded', e[-2])
    return out


def is_plugin_entry(prog, field):
    return field.startswith('RegistryEntry::') and field.endswith('::plugin')


def check_ctor(c, f, actives, versions):
    r, out = c.run(f)
    libs = set()
    fields = set()
    nload = 0
    for k, st, rv in out:
        held = []
        ld = None
        for i, e in enumerate(st.ev):
            if e[0] == 'lock':
                held.append(e[1])
            elif e[0] == 'unlock' and e[1] in held:
                held.remove(e[1])
            elif e[0] == 'load':
                ld = i
                nload += 1
                news = [x for x in walk(e[1]) if x[:2] == ('r', 'operator new')]
                me = news[0] if news else base(e[1])
                refs = [g for g, v in e[3] if any(x == me for x in walk(v))]
                if not any(base(h)[0] == 'glob' for h in held):
                    c.bad('R1', f, 'a module is loaded without the lock that keeps other loads out', e[-1])
                for g in actives:
                    if g is not None and g not in [base(x) for x in refs]:
                        c.bad('R1', f, 'while the module is loaded it is not the module that plugins are registered for', e[-1])
                for g in versions:
                    if g not in [base(x) for x in refs]:
                        c.bad('R4', f, 'while the module is loaded its version is not the one that is set', e[-1])
                if ('arg', 1, 'path') not in list(walk(e[2])) and not any(x[:2] == ('arg', 1) for x in walk(e[2])):
                    c.bad('R2', f, 'the library that is loaded is not the one of the given path', e[-1])
                libs.add(e[1][2] if e[1][0] == 'fld' else None)
            elif e[0] == 'set' and base(e[1])[0] == 'glob' and base(e[1]) in actives and not any(base(h)[0] == 'glob' for h in held):
                c.bad('R1', f, 'the active module is changed without the lock that keeps other loads out', e[-2])
        if ld is None:
            continue
        e = st.ev[ld]
        news = [x for x in walk(e[1]) if x[:2] == ('r', 'operator new')]
        me = news[0] if news else base(e[1])
        left = [g for g, v in r.globs(st) if any(x == me for x in walk(v))]
        if left:
            c.bad('R1', f, 'after the load (%s) the module is still the active one' % ('that failed' if k == 'throw' else 'that succeeded'), e[-1])
        x = st.mem.get(('exc',))
        if k == 'throw' and x is not None and x != 'any' and not c.isa(x, PMERR):
            c.bad('R2', f, 'a load that fails is not reported as PluginModuleError', e[-1])
        if k == 'ret':
            slots = [x for x in st.ev[ld:] if x[0] == 'slot']
            sets = [x for x in st.ev[ld:] if x[0] == 'set' and x[1][0] == 'fld' and any(y == me for y in walk(x[1]))]
            if slots and not sets:
                c.bad('R3', f, 'the plugins that the load registered are not remembered', e[-1])
            if any(x[0] == 'slot' for x in st.ev[:ld]) or not slots:
                c.bad('R3', f, 'the plugins of the module are not looked up after the load', e[-1])
            for x in slots:
                if not keyof(x[2], ('arg', 0, 'this')):
                    c.bad('R3', f, 'the plugins are not looked up by the path of the module', x[-1])
            fields |= set(x[1][2] for x in sets)
    if not nload:
        raise AnalysisError('anchor lost: the load of a module in %s' % f.name)
    return libs, fields


def keyof(key, module):
    """key is the file path of module"""
    if not isinstance(key, tuple):
        return False
    if key[0] == 'pure' and len(key[2]) == 1:
        KEYS.add(key[1])
        m = key[2][0]
        return m == module or isinstance(m, tuple) and m[0] == 'obj' and m[1] == module
    return any(isinstance(x, tuple) and x[:1] == ('fld',) and x[-1] == 'Pothos::PluginModule::Impl::path' for x in walk(key)) or any(x == ('arg', 1, 'path') for x in walk(key))


def check_dtor(c, f, libs, fields):
    r, out = c.run(f)
    impl = ('fld', ('arg', 0, 'this'), 'Pothos::PluginModule::_impl')
    for st, loc in r.ends:
        if c.feasible(st.facts):
            c.bad('R3', f, 'an exception (%s) leaves the destructor of the module: the process ends' % str(st.mem.get(('caught',), st.mem.get(('exc',)))).replace('_ZTI', ''), loc)
    good = set()
    for mk, l in r.loops.items():
        over = set(v for v, facts, ev, st in l)
        if not any(isinstance(v, tuple) and any(isinstance(x, tuple) and x[0] == 'fld' and x[-1] in fields for x in walk(v)) for v in over):
            continue
        ok = True
        for v, facts, ev, st in l:
            if not c.feasible(facts) or not any(isinstance(x, tuple) and x[0] == 'fld' and x[-1] in fields for x in walk(v)):
                continue
            c.n += 1
            other = [t for ft, t in facts.items() if ft[0] == 'eq' and any(x == ('moduleof', ('plugin', ('X',))) for x in walk(ft))]
            gone = [True] if st.mem.get(('caught',)) == REGERR and any(e[0] in ('get', 'remove') for e in ev) else []
            none = [t for ft, t in facts.items() if ft[0] in ('exists', 'empty') and ft[1] == ('X',) and t == (ft[0] == 'empty')]
            rem = [e for e in ev if e[0] == 'remove']
            if rem and not other:
                c.bad('R3', f, 'a plugin is removed although it may belong to another module', rem[0][-1])
            elif rem and rem[0][1] != ('X',):
                c.bad('R3', f, 'the plugin that is removed is not the one that was looked at', rem[0][-1])
            elif rem and False in other:
                c.bad('R3', f, 'a plugin of another module is removed', rem[0][-1])
            elif not rem and not (False in other or True in gone or none):
                c.bad('R3', f, 'a plugin of the module stays registered', (ev[0][-1] if ev else f.loc))
                ok = False
        good.add(mk)
    nun = 0
    for k, st, rv in out:
        if k != 'ret':
            continue
        un = [e for e in st.ev if e[0] == 'unload']
        null = any(ft[0] == 'r' and 'operator bool' in ft[1] and ft[2] == (impl,) and t is False for ft, t in st.facts.items()) or st.facts.get(('cmp', 'eq', ('L', 0, ()), impl)) is True
        uniq = None
        for ft, t in st.facts.items():
            if ft[0] == 'unique' and ft[1] == impl:
                uniq = t
            if ft[0] == 'cmp' and any(isinstance(x, tuple) and x[:2] == ('use_count', impl) for x in walk(ft)) and ft[1] == 'eq' and K(1) in ft[2:]:
                uniq = t
        loaded = [t for ft, t in st.facts.items() if ft[0] == 'loaded']
        if un:
            nun += 1
            if uniq is not True:
                c.bad('R3', f, 'the library is unloaded while copies of the module are in use', un[0][-1])
            if un[0][1][0] == 'fld' and un[0][1][2] not in libs:
                c.bad('R3', f, 'the library that is unloaded is not the one that was loaded', un[0][-1])
            i = st.ev.index(un[0])
            if any(e[0] in ('get', 'remove') and ('X',) != e[1] and any(isinstance(x, tuple) and x[:1] in (('el',), ('elem',)) for x in walk(e[1])) for e in st.ev[:i]):
                c.bad('R3', f, 'plugins that follow the one that is looked at stay registered', un[0][-1])
            if not any(e[0] == 'loop' and e in good for e in st.ev[:i]):
                c.bad('R3', f, 'the library is unloaded before its plugins are removed', un[0][-1])
        elif not (null or uniq is False or False in loaded):
            c.bad('R3', f, 'the last copy of the module does not unload the library')
    if not nun and not r.ends:
        c.bad('R3', f, 'the destructor never unloads the library')


def check_add(c, f, r, paths):
    for k, st, rv in paths:
        has = [(ft, t) for ft, t in st.facts.items() if ft[0] == 'ini' and ft[1][0] == 'fld' and ft[1][2].endswith('::hasPlugin')]
        sets = [e for e in st.ev if e[0] == 'set' and e[1][0] == 'fld' and is_plugin_entry(c.prog, e[1][2])]
        if k == 'throw':
            if sets:
                c.bad('R4', f, 'a plugin that is registered is reported as a failure', sets[0][-2])
            x = st.mem.get(('exc',))
            if any(t for _, t in has) and not c.isa(x, REGERR):
                c.bad('R4', f, 'a conflict of plugins is not reported as PluginRegistryError')
            continue
        if k != 'ret':
            continue
        if not sets:
            c.bad('R4', f, 'the plugin is not stored')
            continue
        ent = sets[-1][1][1]
        if not any(ft[1][1] == ent and t is False for ft, t in has):
            c.bad('R4', f, 'a plugin is stored over one that is there', sets[-1][-2])
        v = st.mem.get(('fld', ent, 'RegistryEntry::hasPlugin'))
        if v is not None and v != K(1) or v is None:
            c.bad('R4', f, 'the entry of the plugin is not marked as used', sets[-1][-2])
        assoc(c, f, st, 'push_back', sets[-1][2])
    return


def assoc(c, f, st, what, plugin):
    slots = [e for e in st.ev if e[0] == 'slot']
    if not slots:
        c.bad('R4', f, 'the list of the plugins of the module is not updated')
        return
    for e in slots:
        if not keyof(e[2], ('moduleof', plugin)):
            c.bad('R4', f, 'the list that is updated is not that of the module of the plugin', e[-1])
            return
    m = [e for e in st.ev if e[0] == 'mut' and isinstance(e[2], tuple) and e[2][:1] == ('slot',)]
    other = 'erase' if what == 'push_back' else 'push_back'
    if any(e[1] in (other, 'insert', 'clear', 'pop_back') for e in m):
        c.bad('R4', f, 'the list of the plugins of the module is changed in the wrong way', m[0][-2])
    n = [e for e in m if e[1] == what or what == 'push_back' and e[1] == 'emplace_back']
    if what == 'erase' and any(ft[0] == 'in' and t is False for ft, t in st.facts.items()):
        return
    if len(n) != 1:
        c.bad('R4', f, 'the path of the plugin is not %s the list of its module' % ('added to' if what == 'push_back' else 'removed from'), slots[0][-1])


def check_remove(c, f):
    r, out = c.run(f)
    for k, st, rv in out:
        has = [(ft, t) for ft, t in st.facts.items() if ft[0] == 'ini' and ft[1][0] == 'fld' and ft[1][2].endswith('::hasPlugin')]
        if k == 'throw':
            continue
        if k != 'ret':
            continue
        used = [ft[1][1] for ft, t in has if t]
        if not used:
            c.bad('R4', f, 'the result is a plugin that may not be registered')
            continue
        ent = used[-1]
        if st.mem.get(('fld', ent, 'RegistryEntry::hasPlugin')) != K(0):
            c.bad('R4', f, 'the plugin that was removed is still registered')
        sets = [e for e in st.ev if e[0] == 'set' and e[1] == ('fld', ent, 'RegistryEntry::plugin')]
        if not sets or not (isinstance(sets[-1][2], tuple) and sets[-1][2][:1] == ('new',)):
            c.bad('R4', f, 'the entry of the plugin that was removed keeps its module in use')
        pl = [e for e in st.ev if e[0] == 'slot']
        old = [x for x in [('fld', ent, 'RegistryEntry::plugin'), ('ini', ('fld', ent, 'RegistryEntry::plugin'))]]
        ok = [p for p in old if pl and any(keyof(e[2], ('moduleof', p)) for e in pl)]
        if pl and not ok:
            c.bad('R4', f, 'the list that is updated is not that of the module of the plugin', pl[0][-1])
        assoc(c, f, st, 'erase', ok[0] if ok else old[0])


def cached_pairs(facts, value):
    """(key, time) pairs compared with what the cache has"""
    out = []
    for ft, t in facts.items():
        if ft[0] == 'eq' and t is value:
            for a, b in ((ft[1], ft[2]), (ft[2], ft[1])):
                if isinstance(a, tuple) and a[:1] == ('cached',):
                    out.append((a[2], b))
    return out


def is_lib(t):
    return any(isinstance(x, tuple) and 'getPothosRuntimeLibraryPath' in str(x[1:2]) for x in walk(t))


def is_mod(t):
    return any(isinstance(x, tuple) and x[:2] == ('arg', 1) or x == ('arg', 0, 'path') for x in walk(t))


def check_safe(c, f):
    r, out = c.run(f)
    n = 0
    for k, st, rv in out:
        inp = [i for i, e in enumerate(st.ev) if e[0] == 'inproc']
        wait = [(ft, t) for ft, t in st.facts.items() if ft[0] == 'cmp' and any(isinstance(x, tuple) and x[:1] == ('waited',) for x in ft[2:])]
        good = [ft for ft, t in wait if ft[1] == 'eq' and t]
        code = [x for ft in good for x in ft[2:] if not (isinstance(x, tuple) and x[:1] == ('waited',))]
        launched = [e for e in st.ev if e[0] == 'launch']
        args = [x for e in st.ev if e[0] == 'mut' and launched and e[2] == launched[0][1] for x in e[3]]
        for i in inp:
            e = st.ev[i]
            n += 1
            if launched:
                if not good:
                    c.bad('R5', f, 'the module is loaded although the test of it in another process did not succeed', e[-1])
                if not any(is_mod(a) for a in args):
                    c.bad('R5', f, 'the module that is tested is not the one that is loaded', launched[0][-1])
                if code and not any(x in list(walk(a)) for x in code for a in args):
                    c.bad('R5', f, 'the code that tells success is not the one that the test was told', launched[0][-1])
                continue
            eq = cached_pairs(st.facts, True)
            if not any(is_mod(t) and is_mod(key) for key, t in eq):
                c.bad('R5', f, 'the module is loaded without a test although the file may not be the one that was tested', e[-1])
            if not any(is_lib(t) and is_lib(key) for key, t in eq):
                c.bad('R5', f, 'the module is loaded without a test although the library may not be the one it was tested with', e[-1])
        marks = [e for e in st.ev if e[0] == 'cfgsetString']
        for e in marks:
            key, t = e[2][0], e[2][1]
            if not (is_mod(key) and is_mod(t) or is_lib(key) and is_lib(t)):
                c.bad('R5', f, 'what is stored in the cache is not the time of the file it is stored for', e[-1])
            if is_mod(key):
                if not good or not launched:
                    c.bad('R5', f, 'a module is marked as tested before the test succeeded', e[-1])
                libset = [x for x in marks if is_lib(x[2][0]) and x[1] == e[1]]
                lib = any(is_lib(kk) and is_lib(tt) for kk, tt in same_cfg(st, e[1]))
                if not libset and not lib:
                    c.bad('R5', f, 'a module is marked as tested without the library that it was tested with', e[-1])
            if is_lib(key) and any(x[0] == 'cfgload' and x[1] == e[1] for x in st.ev) and not any(is_lib(kk) and is_lib(tt) for kk, tt in same_cfg(st, e[1])):
                c.bad('R5', f, 'modules that were tested with another build of the library count as tested', e[-1])
        if k == 'ret' and not inp:
            c.bad('R5', f, 'the module is not loaded')
        if k == 'throw' and wait and not good and not c.isa(st.mem.get(('exc',)), PMERR):
            c.bad('R5', f, 'a test that fails is not reported as PluginModuleError')
    if not n:
        raise AnalysisError('anchor lost: the load of a tested module')
    return n


def same_cfg(st, cfg):
    out = []
    for ft, t in st.facts.items():
        if ft[0] == 'eq' and t is True:
            for a, b in ((ft[1], ft[2]), (ft[2], ft[1])):
                if isinstance(a, tuple) and a[:1] == ('cached',) and a[1] == cfg:
                    out.append((a[2], b))
    return out


def check_null(c, f):
    r, out = c.run(f)
    impl = ('fld', ('arg', 1 if f.sret else 0, 'this'), 'Pothos::PluginModule::_impl')
    for k, st, rv in out:
        uses = [x for v in [rv] + list(st.mem.values()) + list(st.ev) for x in walk(v) if isinstance(x, tuple) and x == ('deref', impl)]
        ok = any(ft[0] == 'r' and 'operator bool' in ft[1] and ft[2][:1] == (impl,) and t for ft, t in st.facts.items()) or st.facts.get(('cmp', 'eq', ('L', 0, ()), impl)) is False
        if uses and not ok:
            c.bad('R6', f, 'a module that was never loaded is looked into')


def check(prog, rep):
    for k, v in POCO.items():
        prog.ti.setdefault(k, [v])
    TUS.update(f.tu for f in prog.repo_fns() if f.tu.startswith('lib/Plugin'))
    rep.rule('R1 a module is the one that plugins are registered for exactly while it is loaded, under a lock, and also when the load fails it is not afterwards')
    rep.rule('R2 a failed load is reported as PluginModuleError')
    rep.rule('R3 the last copy removes the plugins that the load registered, and only those, and then unloads the library; nothing is thrown')
    rep.rule('R4 a plugin that is registered gets the module (and version) of the load; entry and list of the module change together')
    rep.rule('R5 safeLoad loads into this process only what was tested in another one: this file with this library')
    rep.rule('R6 a null module is never looked into')
    c = Ctx(prog, rep)
    add = [(f,) + c.run(f) for f in fns(prog, 'Pothos::PluginRegistry::add', r'addERKNS_6PluginE')]
    ctor = fns(prog, MOD + '::PluginModule', r'PluginModuleC[12]ERKNSt')
    dtor = fns(prog, MOD + '::~PluginModule')
    ver = fns(prog, 'Pothos::ModuleVersion::ModuleVersion')
    rem = fns(prog, 'Pothos::PluginRegistry::remove')
    safe = fns(prog, MOD + '::safeLoad')
    for x, w in ((add, 'PluginRegistry::add'), (ctor, 'the constructor of PluginModule'), (dtor, 'the destructor of PluginModule'), (ver, 'ModuleVersion'), (rem, 'PluginRegistry::remove'), (safe, 'safeLoad')):
        rep.need(len(x) == 1, w)
    actives = attached(c, add)
    vers = set()
    for k, st, rv in c.run(ver[0])[1]:
        for e in st.ev:
            if e[0] == 'set' and any(isinstance(x, tuple) and x[:2] == ('arg', 1) for x in walk(e[2])):
                b = [x for x in walk(e[1]) if isinstance(x, tuple) and x[:1] == ('glob',)]
                vers |= set(b)
    if not vers:
        c.bad('R4', ver[0], 'the version of a module is not handed over to the module that is loaded')
    libs, fields = check_ctor(c, ctor[0], actives, vers)
    check_dtor(c, dtor[0], libs, fields)
    check_add(c, *add[0])
    check_remove(c, rem[0])
    if len(KEYS) > 1:
        c.bad('R3', ctor[0], 'the plugins of a module are looked up by another property of the module than they are listed by')
    n = check_safe(c, safe[0])
    acc = [f for f in prog.repo_fns() if f.blocks and f.tu in TUS and f.name.startswith(MOD + '::get')]
    for f in acc:
        check_null(c, f)
    rep.count('paths', c.n)
    rep.count('loads', n)
    rep.count('functions', 6 + len(acc))
    rep.analysed += ['active module %s' % sorted(str(x) for x in actives), 'module version %s' % sorted(str(x) for x in vers), 'library %s, plugin list %s' % (sorted(str(x) for x in libs), sorted(fields))]
