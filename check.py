#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]: decide one property from the current source of /repo.

exit 0: holds on everything analysed; exit 1: VIOLATION line(s); exit 2: no verdict (front end or anchor error).
"""
import importlib, json, os, sys, time, hashlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get('VERIF_OUT', HERE)
sys.path.insert(0, os.path.join(HERE, 'tool'))
sys.dont_write_bytecode = True
import extract as X
import ir


class Report(object):
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.violations = []
        self.counts = {}
        self.rules = []
        self.analysed = []
        self.notes = []

    def add(self, v):
        """v: dict rule, where, function, message, key, trace"""
        for o in self.violations:
            if o['key'] == v['key'] and o['where'] == v['where']:
                return
        self.violations.append(v)

    def violation(self, rule, where, function, message, key=None, trace=None):
        self.add(dict(rule=rule, where=where, function=function, message=message,
                      key=key or '%s|%s|%s' % (rule, function, message), trace=trace or [], blocks=[]))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def engine(self, eng):
        for v in eng.violations:
            self.add(v)
        self.count('functions_explored', len(eng.functions))
        self.count('states_explored', eng.steps)

    def need(self, cond, what):
        if not cond:
            raise X.AnalysisError('anchor lost: ' + what)


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as fp:
        return json.load(fp)['findings']


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        print(X.build_irdump())
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('rules.' + pid.lower())
    rep = Report(pid, tier)
    try:
        srcs = X.expand(mod.SOURCES)
        prog = ir.Program(srcs)
        rep.counts['translation_units'] = len(srcs)
        rep.counts['functions_in_model'] = len(prog.fns)
        mod.check(prog, rep)
    except X.AnalysisError as e:
        # a lost anchor gives no verdict, unless a violation was already established
        known = set(k['key'] for k in known_findings() if k['property'] == pid)
        if not any(v['key'] not in known for v in rep.violations):
            print('ERROR property=%s no verdict: %s' % (pid, e))
            return 2
        rep.notes.append('analysis stopped early: %s' % e)
    known = [k for k in known_findings() if k['property'] == pid and k.get('status') == 'known']
    fresh = []
    hits = []
    for v in rep.violations:
        k = next((k for k in known if k['key'] == v['key']), None)
        if k:
            hits.append((k, v))
        else:
            fresh.append(v)
    for k, v in hits:
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, k['what'], v['where']))
    rdir = os.path.join(OUT, 'replay')
    shown = 0
    for v in fresh:
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha256((v['key'] + v['where']).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.json' % (pid, h))
        with open(path, 'w') as fp:
            json.dump(dict(property=pid, **v), fp, indent=1)
        shown += 1
        if shown > 12:
            continue
        print('%s: %s in %s: [%s] %s' % (pid, v['where'], v['function'], v['rule'], v['message']))
        for t in v.get('trace', []):
            print('    via %s' % t)
        if v.get('blocks'):
            print('    path %s' % ' -> '.join(v['blocks'][-14:]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if shown > 12:
        print('%s: %d further violations are in %s' % (pid, shown - 12, rdir))
    ev = dict(property=pid, tier=tier, seed=seed, level='other',
              coverage=dict(explanation=mod.EXPLANATION, rules=rep.rules, counts=rep.counts,
                            analysed=rep.analysed[:400], notes=rep.notes,
                            violations=len(fresh), known_findings=len(hits)),
              wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
    X.prune_cache()
    if not fresh:
        print('%s: held on everything analysed: %s' % (pid, json.dumps(rep.counts)))
    return 1 if fresh else 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
