#!/usr/bin/env python3-vt
"""verify.py <property>: decide one property against /repo's current source.

1. compile the instantiation TUs (/verif/tu) against /repo to LLVM IR; 2. discharge every contract
obligation of the property's units (lv/worker.py, one process per unit); 3. search for a concrete
failing input with the executable form of the contract (/verif/falsify) on the real code, to
confirm/replay; 4. write evidence, print VIOLATION / KNOWN-FINDING lines, exit 0/1."""
import sys, os, json, time, subprocess, re, shutil
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path[:0]=[HERE+"/lv",HERE+"/specs"]
import build, registry
T0=time.time(); PROP=sys.argv[1]; TIER=os.environ.get("VERIF_TIER","quick"); SEED=int(os.environ.get("VERIF_SEED","1") or 1)
CFG=registry.PROPS[PROP]; LIMIT=float(os.environ.get("LV_LIMIT","0")) or (620 if TIER=="quick" else 3000)
UNIT_DL=CFG.get("deadline",420) if TIER=="quick" else 1500
EVD=os.path.join(HERE,"evidence"); RPD=os.path.join(EVD,"replay"); os.makedirs(RPD,exist_ok=True)
S=build.scratch(); NPROC=int(os.environ.get("LV_PROCS",os.cpu_count() or 4))
def log(*a): print("[%s %5.1fs]"%(PROP,time.time()-T0),*a,flush=True)
# ------------------------------------------------------------ known findings
KNOWN=[]
kf=os.path.join(HERE,"known_findings.json")
if os.path.exists(kf): KNOWN=[k for k in json.load(open(kf))["findings"] if k["property"]==PROP]
def known(o):
    for k in KNOWN:
        if k.get("obligation") and re.fullmatch(k["obligation"],o["name"]) and re.search(k.get("where",""),o["loc"]): return k
    return None
# ------------------------------------------------------------ units
def relevant(o): 
    m=re.match(r"(C\d\d(,C\d\d)*) ",o["name"])
    return not m or PROP in m.group(1).split(",")
class Job:
    def __init__(s,cmd,out,key,limit): s.cmd=cmd;s.out=out;s.key=key;s.limit=limit;s.p=None;s.t=0;s.res=None
def pool(jobs,n=NPROC):
    todo=list(jobs); run=[]
    while todo or run:
        while todo and len(run)<n:
            j=todo.pop(0); j.t=time.time(); j.log=open(j.out+".log","w"); j.p=subprocess.Popen(j.cmd,stdout=j.log,stderr=subprocess.STDOUT,start_new_session=True); run.append(j)
        for j in list(run):
            rc=j.p.poll()
            if rc is None and (time.time()-j.t>j.limit or time.time()-T0>LIMIT+60):
                os.killpg(j.p.pid,9); j.p.wait(); rc=-9
            if rc is not None:
                run.remove(j); j.log.close(); j.rc=rc; j.txt=open(j.out+".log",errors="replace").read()
        time.sleep(0.03)
def run_units(units,bounded=0,dl=None):
    dl=dl or UNIT_DL; jobs=[]
    for mod,unit,ll in units:
        out=os.path.join(S,"%s_%s_%d.json"%(mod,re.sub(r"\W","_",unit),bounded))
        jobs.append(Job([sys.executable,HERE+"/lv/worker.py",mod,unit,ll,out,str(bounded),str(dl)],out,(mod,unit,ll),dl+60))
    pool(jobs); res=[]
    for j in jobs:
        if os.path.exists(j.out): r=json.load(open(j.out))
        else: r={"module":j.key[0],"unit":j.key[1],"error":"verifier process ended (%s): %s"%(j.rc,j.txt[-300:]),"obligations":[],"wall":time.time()-j.t,"solver_time":0,"queries":0,"paths":0,"functions":[],"contract_calls":{},"assumptions":[],"loops_proved":[],"loops_unrolled":[],"bounded":bounded,"unwind_cut":False}
        r["ll"]=j.key[2]; res.append(r)
    return res
# ------------------------------------------------------------ executable contracts
def build_fz(name,src=None):
    exe=os.path.join(S,"fz_"+name); path=os.path.join(HERE,"falsify",name+".cpp"); txt=open(path).read()
    m=re.search(r"//\s*SOURCES:(.*)",txt); srcs=[os.path.join(build.REPO,x) for x in (m.group(1).split() if m else [])]
    m=re.search(r"//\s*FLAGS:(.*)",txt); fl=(m.group(1).split() if m else ["-fsanitize=address,shift,integer-divide-by-zero,null,return,unreachable,float-cast-overflow","-fno-sanitize-recover=all"])
    m=re.search(r"//\s*LIBS:(.*)",txt); libs=m.group(1).split() if m else []
    cmd=[build.CXX]+build.FLAGS+["-g","-O1","-DFZ_PROP_"+PROP]+fl+["-I"+HERE+"/falsify",path]+srcs+["-o",exe,"-lpthread"]+libs
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: return None,r.stderr[-2500:],cmd
    return exe,None,cmd
def fz_env():
    e=dict(os.environ); e["ASAN_OPTIONS"]="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=1"
    e["UBSAN_OPTIONS"]="print_stacktrace=0:halt_on_error=1:exitcode=78"; e["LV_SCRATCH"]=S; return e
def run_fz(exe,name,secs,seeds,hints=()):
    jobs=[]; env=fz_env()
    if hints: env["LV_HINTS"]=",".join(str(h) for h in hints)
    os.environ.update(env)
    for sd in seeds:
        cf=os.path.join(S,"case_%s_%d"%(name,sd)); j=Job([exe,str(sd),str(secs),cf],cf+".out",(name,sd,cf),secs*1.5+45); jobs.append(j)
    pool(jobs); bad=[]; n=0
    for j in jobs:
        m=re.search(r"OK cases=(\d+)",j.txt)
        case=0
        try: case=int.from_bytes(open(j.key[2],"rb").read(8),"little")
        except OSError: pass
        n+=int(m.group(1)) if m else case
        if j.rc!=0: bad.append((name,j.key[1],case,j.rc,j.txt[-4000:]))
    return n,bad
def confirm(exe,seed,case,hints):
    env=fz_env()
    if hints: env["LV_HINTS"]=",".join(str(h) for h in hints)
    try:
        r=subprocess.run([exe,str(seed),"30","case=%d"%case],capture_output=True,text=True,errors="replace",env=env,timeout=60)
        return r.returncode!=0,r.stdout[-3000:]+r.stderr[-3000:]
    except subprocess.TimeoutExpired: return True,"the case does not terminate within 60 s"
# ------------------------------------------------------------ main
def main():
    problems=[]; mods={}
    for mod in CFG["modules"]:
        sp=__import__(mod); mods[mod]=sp
    units=[]; comp=[]; cache={}
    for mod,sp in mods.items():
        tus=[(HERE+"/tu/"+t) if not t.startswith("/repo") else build.REPO+t[5:] for t in sp.TU]; k=tuple(tus)
        try:
            if k not in cache: cache[k]=build.compile_ll(tus,tag=mod,cdefs=getattr(sp,"DEFS",()))
        except build.CompileError as x:
            comp.append((mod,str(x))); continue
        for u,_ in sp.UNITS:
            pre=CFG.get("units",{}).get(mod)
            if pre is None or any(re.match(p,u) for p in pre): units.append((mod,u,cache[k]))
    log("compiled %d module(s), %d units"%(len(cache),len(units)))
    # executable contracts start in the background of the proof
    fzs={}
    for n in CFG.get("fz",[]): fzs[n]=build_fz(n)
    res=run_units(units)
    hard=[];soft=[];seen_known={}
    for r in res:
        ob=[o for o in r["obligations"] if relevant(o)]
        for o in ob:
            if o["status"]=="proved": continue
            k=known(o)
            if k: seen_known[k["id"]]=k; o["status"]="known"; continue
            (hard if (o["status"] in("failed","uncovered") and not o.get("abstracted")) else soft).append((r,o))
        if r["error"]: soft.append((r,None))
    for m,x in comp: soft.append(({"module":m,"unit":"*","ll":None,"error":"compile: "+x},None))
    said=set()
    def once(kind,r,txt):
        if (kind,r["unit"],txt) not in said and len(said)<40: said.add((kind,r["unit"],txt)); log(kind,r["unit"],"|",txt)
    for r,o in hard: once("FAILED",r,o["name"]+" @ "+o["loc"])
    for r,o in soft: once("UNDECIDED",r,(o["name"]+" @ "+o["loc"]) if o else r["error"][:300])
    hints=sorted({v for r,o in hard+soft if o for v in o.get("model",{}).values()})[:60]
    # bounded stand-in for what the verifier could not decide
    bres=[]
    if soft and not hard:
        us=sorted({(r["module"],r["unit"],r["ll"]) for r,o in soft if r.get("ll")})
        left=LIMIT-(time.time()-T0)
        if left>60:
            bres=run_units(us,bounded=4,dl=min(90,left*0.5))
            for r in bres:
                for o in r["obligations"]:
                    if relevant(o) and o["status"]=="failed" and not o.get("abstracted") and not known(o):
                        hard.append((r,o)); log("FAILED (bounded)",r["unit"],"|",o["name"],"@",o["loc"])
    # executable contract on the real code
    cases=0; bad=[]; fzerr=[]
    left=LIMIT-(time.time()-T0); nfz=max(1,len(fzs))
    trouble=bool(hard or soft)
    secs=min(CFG.get("fz_secs",5)*(6 if trouble else 1)*(8 if TIER=="thorough" else 1),max(4,left/nfz-30)); seeds=[SEED*100+i for i in range(NPROC if (trouble or TIER=="thorough") else 2)]
    for n,(exe,err,cmd) in fzs.items():
        if exe is None: fzerr.append((n,err)); log("harness",n,"does not build:",err[-600:]); continue
        c,b=run_fz(exe,n,secs,seeds,hints if trouble else ()); cases+=c; bad+=b
        log("executable contract %s: %d cases, %d failing"%(n,c,len(b)))
    viol=0
    if bad:
        name,sd,case,rc,txt=bad[0]; exe,_,cmd=fzs[name]; h=hints if trouble else ()
        ok,out=confirm(exe,sd,case,h)
        rp=os.path.join(RPD,"%s_%s.sh"%(PROP,name))
        body="#!/bin/bash\n# property %s: contract of %s broken by the code in %s\n"%(PROP,name,build.REPO)
        for l in sorted({"# %s: %s @ %s\n"%(w,o["name"],o["loc"]) for w,q in (("failed obligation",hard),("undischarged obligation",soft)) for r,o in q if o})[:14]: body+=l
        for l in (txt if not ok else out).splitlines()[:60]: body+="#   %s\n"%l
        body+="D=$(mktemp -d); trap 'rm -rf \"$D\"' EXIT\n%s || exit 3\n"%" ".join("'%s'"%x if x!=exe else "$D/fz" for x in cmd)
        ev=fz_env()
        body+="ASAN_OPTIONS='%s' UBSAN_OPTIONS='%s' LV_HINTS='%s' LV_SCRATCH=$D "%(ev["ASAN_OPTIONS"],ev["UBSAN_OPTIONS"],",".join(map(str,h)))
        body+="$D/fz %d %s\n"%(sd,"30 case=%d"%case if ok else "%d"%int(secs))
        open(rp,"w").write(body); os.chmod(rp,0o755)
        log("\n".join(txt.splitlines()[:14])); viol=1
        print("VIOLATION property=%s replay=%s"%(PROP,rp),flush=True)
    elif hard:
        rp=os.path.join(RPD,"%s_obligation.txt"%PROP)
        with open(rp,"w") as f:
            for r,o in hard:
                f.write("failed obligation: %s\n  at: %s\n  unit: %s/%s%s\n  status: %s by %s\n  goal: %s\n  counter-state: %s\n  path: %s\n\n"%(o["name"],o["loc"],r["module"],r["unit"]," (bounded %d)"%r["bounded"] if r["bounded"] else "",o["status"],o["by"],o.get("goal"),o.get("model"),"\n        ".join(o.get("path",[]))))
            f.write("replay search on the real code: %d cases, none failing%s\n"%(cases,"".join("; harness %s: %s"%x for x in fzerr)))
        viol=1
        print("VIOLATION property=%s replay=%s no-failing-input-found"%(PROP,rp),flush=True)
    for k in KNOWN:
        if k["id"] in seen_known: print("KNOWN-FINDING: property=%s %s"%(PROP,k["what"]))
        else: log("known finding %s not observed in this run"%k["id"])
    # evidence
    ob=[o for r in res for o in r["obligations"] if relevant(o)]
    disch=[o for o in ob if o["status"]=="proved"]; by={}
    for o in disch: by[o["by"]]=by.get(o["by"],0)+1
    samples=[{"obligation":o["name"],"at":o["loc"],"by":o["by"]} for o in disch[::max(1,len(disch)//12)]][:12]
    assum=sorted({a for r in res for a in r["assumptions"]})+CFG.get("assume",[])
    lvl=CFG.get("level","proof")
    cov={"obligations":len(ob),"discharged":len(disch),"checker_cmd":"python3-vt /verif/verify.py %s"%PROP,
         "trusted_base":["clang 18 (C++ to LLVM IR at -O0) and opt sroa","/verif/lv (IR semantics, VC generation, BV-to-LIA translation)","z3 5.3"]+(["cvc5"] if any("cvc5" in b for b in by) else []),
         "by_backend":by,"distinct_obligation_names":len({o["name"] for o in ob}),"functions_under_contract":sorted({c for m in mods.values() for c in getattr(m,"CONTRACTS",[])}) or [u for _,u,_ in units],
         "functions_executed":sorted({f for r in res for f in r["functions"]}),"solver_seconds":round(sum(r["solver_time"] for r in res),1),"queries":sum(r["queries"] for r in res),
         "paths":sum(r["paths"] for r in res),"loops_by_invariant":sorted({l for r in res for l in r["loops_proved"]}),"loops_unrolled_exactly":sorted({l for r in res for l in r["loops_unrolled"]}),
         "units":[{"unit":r["unit"],"module":r["module"],"wall":round(r["wall"],1),"obligations":len(r["obligations"]),"error":r["error"]} for r in res],
         "undecided":[(r["unit"],o["name"] if o else r["error"]) for r,o in soft][:40],
         "bounded_stand_ins":[{"unit":r["unit"],"iterations":r["bounded"],"obligations":len(r["obligations"]),"error":r["error"]} for r in bres]+CFG.get("bounded",[]),
         "not_covered":CFG.get("not_covered",[]),
         "evaluations":cases,"distinct_nontrivial":cases,"rule":"executable form of the contract run on the real code under ASan/UBSan, each case a pseudo-random operation sequence derived from (seed, case number); used to confirm and replay, not counted as proof",
         "samples":samples,"explanation":CFG.get("note","")}
    ev={"property":PROP,"tier":TIER,"seed":SEED,"level":lvl,"coverage":cov,"assumptions":assum,"wall_s":round(time.time()-T0,2),"violations":viol}
    p=os.path.join(EVD,PROP+".json"); json.dump(ev,open(p+".tmp","w"),indent=1); os.rename(p+".tmp",p)
    log("%d/%d obligations discharged, %d undecided, exit %d"%(len(disch),len(ob),len(soft),viol))
    return viol
sys.exit(main())
