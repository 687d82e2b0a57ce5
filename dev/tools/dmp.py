import sys
sys.path.insert(0,'/verif/tool')
from common import *
import extract as X, ir
prog=ir.Program(X.expand(sys.argv[1].split(',')))
for f in prog.named(sys.argv[2]):
    print('==',f.n,f.nargs)
    for b,blk in enumerate(f.blocks):
        print(' B%d'%b)
        for x in blk: print('   ',x.v,x.op,x.f if x.op in('call','invoke') else '',x.a,{k:v for k,v in x.d.items() if k not in('v','op','a','l','f','t','fi','i')})
