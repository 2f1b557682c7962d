import z3;import sys,time,importlib; sys.path[:0]=["/verif/lv","/verif/specs"]
import engine,models,build
sp=importlib.import_module(sys.argv[1]); only=sys.argv[2:]
m=build.compile_ir([(build.VERIF+"/tu/"+t) if not t.startswith("/repo") else build.REPO+t[5:] for t in sp.TU],cdefs=getattr(sp,"DEFS",()))
for n,f in sp.UNITS:
    if only and n not in only: continue
    e=engine.Engine(m); models.install_base(e); 
    if hasattr(models,"install_std"): models.install_std(e)
    t=time.time(); err=""
    try: f(e)
    except (engine.Unsupported,engine.Budget,engine.IRError) as x: err=repr(x)
    bad=[o for o in e.obligs if o.status!="proved"]
    print("%-24s %6.1fs obl=%d bad=%d paths=%d q=%d solver=%.1f %s"%(n,time.time()-t,len(e.obligs),len(bad),e.npaths,e.queries,e.solver_time,err))
    for o in bad[:14]:
        print("   ",o.status,o.name,"@",o.loc)
        if len(sys.argv)==3 and o.model is not None: print("       ",[(d.name(),o.model[d]) for d in o.model.decls() if d.arity()==0 and not z3.is_array(d())][:20], z3.simplify(o.goal))
