import sys,prog
from interp import *
P=prog.Prog()
it=Interp(P)
f=sys.argv[1]
for o in it.explore(P.get(f)):
    print(o.kind,show(o.value) if o.value else None)
    print('   ',{show(k):v for k,v in o.facts.items()})
    for e in o.events: print('      ',str(e)[:200])
print(it.steps,it.cuts,it.truncated)
