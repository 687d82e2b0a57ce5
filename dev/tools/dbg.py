import sys
sys.path.insert(0,'/verif/tool')
from common import *
import extract as X, ir
from rules.c12 import canon
srcs=X.expand(sys.argv[1].split(','))
prog=ir.Program(srcs)
class R(Rule):
    def inline(s,*a): return False
    def on_call(s,eng,fr,ins,name,args,st):
        if (ins.loc,name) not in seen:
            seen.add((ins.loc,name))
            print(ins.loc.split(':')[-1], name, [show(canon(fr,a))[:100] for a in args], 'sret' if ins.d.get('sret') else '')
        return None
    def on_branch(s,eng,fr,ins,atom,truth,st):
        if (ins.loc,'b',atom,truth) not in seen:
            seen.add((ins.loc,'b',atom,truth)); print(ins.loc.split(':')[-1],'  BR',show(atom)[:150],truth)
        return st
seen=set()
for f in prog.named(sys.argv[2]):
    print('==',f.n)
    e=Engine(prog,R()); e.run(f,0)
