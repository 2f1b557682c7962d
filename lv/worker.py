"""Run one verification unit in its own process: worker.py <module> <unit> <ll> <out.json> [bounded k]"""
import sys, os, json, time, importlib, resource
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path[:0]=[HERE,os.path.join(os.path.dirname(HERE),"specs")]
sys.setrecursionlimit(20000)
import z3, engine, models, build
from ir import Module
def model_vals(m):
    out={}
    for d in m.decls():
        if d.arity()==0:
            v=m[d]
            if z3.is_bv_value(v): out[d.name()]=v.as_long()
            elif z3.is_true(v) or z3.is_false(v): out[d.name()]=int(z3.is_true(v))
    return out
def run(modname,unit,ll,bounded=0,deadline=None,tier="quick"):
    resource.setrlimit(resource.RLIMIT_AS,(8<<30,8<<30))
    sp=importlib.import_module(modname); m=build.load(ll)
    e=engine.Engine(m,deadline=deadline and time.time()+deadline)
    models.install_base(e)
    if hasattr(models,"install_std"): models.install_std(e)
    if bounded: e.bounded=bounded
    e.tier=tier
    t=time.time(); err=None
    f=dict(sp.UNITS)[unit]
    try: f(e)
    except engine.Budget as x: err="budget: %s"%x
    except engine.Unsupported as x: err="unsupported: %s"%x
    except engine.IRError as x: err="unsupported IR: %s"%x
    except (z3.Z3Exception,MemoryError,RecursionError) as x: err="solver: %r"%x
    except Exception as x:
        import traceback; tb=traceback.extract_tb(x.__traceback__)[-1]
        err="verifier gave up: %r at %s:%d"%(x,os.path.basename(tb.filename),tb.lineno)
        if os.environ.get("LV_TB"): traceback.print_exc()
    obl=[]
    for o in e.obligs:
        d={"name":o.name,"loc":o.loc,"status":o.status,"by":o.by,"t":round(o.t,3)}
        if o.status!="proved":
            d["goal"]=str(o.goal)[:1500]
            if o.model is not None: d["model"]=model_vals(o.model)
            st=getattr(o,"st",None); d["abstracted"]=bool(st is not None and st.ghost.get(("nohavoc","cut")))
            if st is not None:
                d["path"]=[str(c)[:300] for c in st.pc[-25:]]
        obl.append(d)
    return {"module":modname,"unit":unit,"error":err,"obligations":obl,"wall":time.time()-t,"solver_time":e.solver_time,"queries":e.queries,
            "paths":e.npaths,"functions":sorted(e.fn_seen),"contract_calls":e.contract_hits,"assumptions":sorted(e.assumptions),
            "loops_proved":sorted("%s:%s"%(a,b) for a,b,c in e.loops_proved),"loops_unrolled":sorted("%s:%s"%x for x in e.loops_unrolled),
            "bounded":bounded,"unwind_cut":e.unwind_cut}
if __name__=="__main__":
    mod,unit,ll,out=sys.argv[1:5]; b=int(sys.argv[5]) if len(sys.argv)>5 else 0
    dl=float(sys.argv[6]) if len(sys.argv)>6 else None
    r=run(mod,unit,ll,b,dl,os.environ.get("VERIF_TIER","quick"))
    json.dump(r,open(out+".tmp","w")); os.rename(out+".tmp",out)
