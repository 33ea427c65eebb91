import sys,time
sys.path.insert(0,'/verif')
from vn.check import Context
from vn import nodes as V
import vn.check as C
t=time.time()
props=[a for a in sys.argv[1:] if not a.startswith('-') and '.' not in a]
anchors=[a for a in sys.argv[1:] if '.' in a]
ctx=Context()
def go(p,an):
    for r in ctx.run(p,an):
        print(r.status.upper(), r.anchor, r.loc, 'steps',r.steps,'rounds',r.rounds)
        if r.status in('violated','undecided'):
            if isinstance(r.detail,tuple):
                w,c,s=r.detail
                print('   ',w); print('    CODE',V.show(c)[:1500]); print('    SPEC',V.show(s)[:1500])
            else: print('   ',r.detail)
            if '-v' in sys.argv:
                for w,c,s in getattr(r,'mismatches',[]):
                    print('    ..',w); print('      C',V.show(c)[:1500]); print('      S',V.show(s)[:1500])
        if '-s' in sys.argv: 
            print('  code',V.show(r.sides[0])); print('  spec',V.show(r.sides[1]))
if anchors: go(None, [x for x in ctx.specs if any(x.endswith(a) or a in x for a in anchors)])
elif props:
    for p in props: go(p,None)
else: go(None,None)
print('time',time.time()-t)
