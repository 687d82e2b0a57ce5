"""C08 exceptions of user code are contained"""
from common import *
from exc import Exc

SOURCES = FRAMEWORK + ['lib/Plugin/*', 'lib/Init.cpp', 'lib/Remote/*']
EXPLANATION = ('Exception-flow analysis: exceptions thrown by user code are followed through every catch clause (matched by type along the class hierarchy), '
               'rethrow and conversion to the exits of the functions that must contain them.')


class Contain(Rule):
    """state: Exc pair"""

    def __init__(self, prog, is_user):
        self.prog = prog
        self.is_user = is_user
        self.calls = set()

    def on_call(self, eng, fr, ins, name, args, st):
        if self.is_user(self.prog, fr, ins, name, args):
            self.calls.add(ins.loc)
            return [('ret', st, None), ('throw', Exc.thrown(st, 'any', 'user'), None)]
        r = Exc.on_call(self.prog, name, args, st)
        if r is not None:
            return [(k, e, None) for k, e in r]
        return None

    def on_branch(self, eng, fr, ins, atom, truth, st):
        e = Exc.on_branch(self.prog, atom, truth, st)
        return None if e is False else e

    def inline(self, eng, fr, fn, name):
        return fn.in_repo and not name.startswith(('Pothos::Util::RingDeque', 'Pothos::Exception::'))

    def may_throw(self, eng, fr, ins, name):
        return False


def user_callback(prog, fr, ins, name, args):
    return name in USER_CALLBACKS and prog.call_info(ins)[2] == 'virtual'


def indirect(prog, fr, ins, name, args):
    return name == '<indirect>' or name == 'std::function::operator()'


def callable_call(prog, fr, ins, name, args):
    return name.startswith('Pothos::CallInterface::call') or name == 'Pothos::Callable::opaqueCall'


def contained(prog, rep, roots, is_user, what, minimum=1):
    n = 0
    for f in roots:
        rule = Contain(prog, is_user)
        eng = Engine(prog, rule)
        for kind, st, rv in eng.run(f, Exc.none):
            if kind == 'throw' and st[0] is not None and st[0][1] == 'user':
                rep.violation('escape', f.loc, f.name, '%s can leave this function (as %s)' % (what, 'any type' if st[0][0] == 'any' else prog.clsname('_ZTS' + st[0][0][4:])), trace=sorted(rule.calls))
        rep.engine(eng)
        n += len(rule.calls)
        rep.analysed.append('%s (%s): user calls at %s' % (f.name, f.loc, ', '.join(sorted(rule.calls))))
    rep.count('user_call_sites', n)
    rep.need(n >= minimum, what)


def check(prog, rep):
    rep.rule('R1 an exception of a user callback never leaves the worker task')
    rep.rule('R2 an exception of a plugin event handler never leaves plugin registration')
    rep.rule('R3 an exception of a static initialisation block is contained')
    P = 'Pothos::WorkerActor::'
    worker = {}
    for f in prog.repo_fns():
        for c in f.calls():
            if prog.call_info(c)[0] == 'Pothos::Block::work' and prog.call_info(c)[2] == 'virtual':
                for t in topmost(prog, f, lambda g: g.name.startswith(P)):
                    worker[t.n] = t
    rep.need(worker, 'the worker task')
    contained(prog, rep, list(worker.values()), user_callback, 'an exception of a user callback', 4)
    contained(prog, rep, [f for f in prog.named('Pothos::PluginRegistry::add') + prog.named('Pothos::PluginRegistry::remove')], callable_call, 'an exception of a plugin event handler', 1)
    contained(prog, rep, prog.named('Pothos::Detail::safeInit'), indirect, 'an exception of a static initialisation block', 1)
