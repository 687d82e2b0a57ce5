import sys
sys.path.insert(0,'/verif/tool')
from affine import *
import extract as X, ir
prog=ir.Program(X.expand(sys.argv[1].split(',')))
inl=sys.argv[3] if len(sys.argv)>3 else '^Pothos::'
class R(ARule):
    def inline(self,eng,fn,name): return bool(re.search(inl,name))
    def event(self,name): return True
for f in prog.named(sys.argv[2]):
    print('==',f.n)
    e=Affine(prog,R())
    for kind,st,rv in e.run(f):
        print('  ',kind,vshow(rv) if rv is not None else '')
        for a,v in st.facts.items(): print('      if',vshow(a),v)
        for a in st.ev: print('      ev',a[1],[vshow(x) for x in a[2]],a[-1])
        for a,v in st.mem.items():
            if a[0] not in('alias','ep') and base(a)[0]!='alloca': print('      ',vshow(a),'=',vshow(v))
    for fr,en in e.entries: print('  loop',en.b,{k:vshow(v) for k,v in en.phis.items()},[{k:vshow(v) for k,v in p.items()} for s,p in en.back])
