import sys; sys.path.insert(0,'/verif')
from ka.core import *
F=Facts()
# nearest controlling atoms via AST nesting: walk the structured statements
def inv(f):
    v=F.view(f)
    out=[]
    def rec(s,conds):
        if s is None: return
        k=s.get("k")
        if k=="block":
            for x in s["b"]: rec(x,conds)
        elif k=="if":
            rec(s["x"],conds+[v.canon(s["c"])]); rec(s.get("y"),conds+["!"+v.canon(s["c"])])
        elif k in("for","while","do"): rec(s["b"],conds+["loop"])
        elif k=="rfor": rec(s["b"],conds+["each "+v.canon(s["r"])])
        elif k=="switch":
            rec(s["b"],conds+["switch "+v.canon(s["c"])])
        elif k in("case","default"):
            rec(s["b"],conds+["case "+(v.canon(s["v"]) if k=="case" else "default")])
        elif k=="try": rec(s["b"],conds)
        elif k=="expr":
            for n in walk(s["e"]):
                if n.get("k")=="throw": out.append((s["l"],conds,n.get("t","")))
        elif k=="return" or k=="decl":
            for n in walk(s):
                if n.get("k")=="throw": out.append((s["l"],conds,n.get("t","")))
    rec(f.body,[])
    return out
fl=sys.argv[1]
for f in F.all:
    if f.body is None or f.file!=fl: continue
    o=inv(f)
    if o:
        print("##",short(f.q),[short(p["t"])[:28]+" "+p["n"] for p in f.params])
        for l,c,t in o: print("   ",l,short(t).split('<')[0],[x[:110] for x in c])
