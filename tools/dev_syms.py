import sys; sys.path[:0]=["/verif/lv","/verif/specs"]
import build,importlib
sp=importlib.import_module(sys.argv[1])
m=build.compile_ir([(build.VERIF+"/tu/"+t) if not t.startswith("/repo") else build.REPO+t[5:] for t in sp.TU],cdefs=getattr(sp,"DEFS",()))
for n,f in m.funcs.items():
    d=m.demangled.get(n,n)
    if len(sys.argv)<3 or sys.argv[2] in d: print("D" if f.defined else "-",d)
