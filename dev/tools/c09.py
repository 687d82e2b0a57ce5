import sys
sys.path[:0]=['/verif/tool','/verif/tool/rules','/verif']
from rules.c09 import *
import extract as X, ir
prog=ir.Program(X.expand(SOURCES))
for f in prog.named(sys.argv[1]):
    if len(sys.argv)>3 and str(f.nargs)!=sys.argv[3]: continue
    print('==',f.n)
    r=PortRule(prog,[x for x in (sys.argv[2].split(',') if len(sys.argv)>2 else [])])
    e=Affine(prog,r)
    def show(st,hst=None):
        for a in st.ev[len(hst.ev) if hst else 0:]: print('      ev',a[1],[vshow(x) for x in a[2]],a[-1])
        for a,v in st.mem.items():
            if a[0] not in('ep','ghost') and (hst is None or hst.mem.get(a)!=v): print('      ',a[0]+' '+vshow(a[1]) if a[0]=='alias' else vshow(a),'=',vshow(v))
        for a,v in st.facts.items():
            if hst is None or a not in hst.facts: print('      if',vshow(a),v)
    for k,st,rv in e.run(f):
        print(k, vshow(rv) if rv else ''); show(st)
    for fr,h,ent,hst,hph,st,phis in [i[:7] for i in r.iters]:
        v=visits(e,fr,ent,hst,hph,st,phis)
        print('BACK',fr.fn.name,h,{k:vshow(v) for k,v in phis.items()}, 'VISITS', v and (v.kind, vshow(v.container))); show(st,hst)
