import sys; sys.path.insert(0,'/verif')
from ka.core import *
F=Facts()
for q in sys.argv[1:]:
    for f in F.find(q):
        print("##",f)
        v=F.view(f)
        for x in cfg(f).nodes:
            if x.kind=="cond": print("   ",x.ast.get("l"), *atoms_norm(v,x.ast)[:2])
            if x.kind=="switch": print("   ",x.ast.get("l"),"switch",v.canon(x.ast["c"]))
