import sys; sys.path.insert(0,'/verif/sa')
from prog import Prog
import world, api
import os; p=Prog(os.environ.get('DUMP','/verif')+'/build/dump/binschema.json'); w=world.World(p)
which,name,cls=sys.argv[1:4]
seen={}
def outcome(self,o):
    kind, st, v = o
    if kind in ('imprecise','panic'): return
    def fn(s):
        c=api.Check(self,s,kind,v); api.spec(c)
        return c.viol,c.notes,s,c
    for r in api.explore(self.j,st,fn):
        if r[0]!='ok': continue
        for pr,m in r[1][0]:
            if (pr,m) not in seen:
                seen[(pr,m)]=1
                s=r[1][2]
                print('V',pr,m); print('  ret',v)
                print('  pos',s.ghost.get('pos'),'preds',[k for k in s.preds.items()][:8])
                try:
                    ob=[]
                    for k in range(3):
                        ob.append(self.j.to_bits(s,world.rd_byte(world.I(k)),8))
                        ob[-1]=s.norm_bits(ob[-1])
                    for b in ob: print('  byte',[x if isinstance(x,int) else '?'.join(map(str,x[-1:])) for x in b])
                except Exception as e: print(e)
                print('  facts',str(dict(s.facts))[:800])
api.Run.outcome=outcome
r=api.Run(w,which,name,api.methods(p,which)[name],cls); r.go()
