"""Deductive verifier core: forward symbolic execution of LLVM IR, path by path, with
loops cut at their headers by inductive invariants, callees replaced by contracts where one is
given and expanded otherwise, and every memory access, division, shift, assertion and user
postcondition turned into an obligation for an SMT solver (z3; cvc5 as second back end).

All machine arithmetic is bit-vector arithmetic of the machine width: nothing is mathematical.
"""
import time, re, sys, os
import z3, lia
from ir import Module, IRError, PTR, VOID, IntT, Ty, unq

class Unsupported(Exception):
    """construct or call outside the verifier's reach (never a verdict about the code)"""
class Budget(Exception): pass

BV=z3.BitVecVal
def bv64(n): return z3.BitVecVal(n,64)
ZERO=bv64(0); TRUE=z3.BoolVal(True); FALSE=z3.BoolVal(False)
def S(e): return z3.simplify(e,bv_le2extract=False)
def isc(e): return z3.is_bv_value(e)
def cv(e): return e.as_long()
_fresh=[0]
def fresh(name,w):
    _fresh[0]+=1
    return z3.BitVec("%s!%d"%(name,_fresh[0]),w)
def fresh_arr(name):
    _fresh[0]+=1
    return z3.Array("%s!%d"%(name,_fresh[0]),z3.BitVecSort(64),z3.BitVecSort(8))
def fresh_bool(name):
    _fresh[0]+=1
    return z3.Bool("%s!%d"%(name,_fresh[0]))
def zx(e,w):
    n=e.size()
    return e if n==w else (z3.ZeroExt(w-n,e) if n<w else z3.Extract(w-1,0,e))
def sx(e,w):
    n=e.size()
    return e if n==w else (z3.SignExt(w-n,e) if n<w else z3.Extract(w-1,0,e))
def bswap(e):
    n=e.size()//8
    return e if n==1 else z3.Concat(*[z3.Extract(8*i+7,8*i,e) for i in range(n)])

# ---------------------------------------------------------------- objects and pointers
class Obj:
    n=0
    def __init__(s,name,size,kind="data",const=False):
        Obj.n+=1; s.id=Obj.n; s.name=name; s.size=size if z3.is_expr(size) else bv64(size); s.kind=kind; s.const=const
        s.fn=None; s.guard=None; s.addr=None; s.ghost={}
    def __repr__(s): return "<%s#%d>"%(s.name,s.id)
NULLOBJ=Obj("null",0,"null")
FIXOBJ=Obj("fixed address",0,"null")
class Ptr:
    __slots__=("obj","off")
    def __init__(s,obj,off=ZERO): s.obj=obj; s.off=off
    def __add__(s,n):
        n=bv64(n) if isinstance(n,int) else n
        return Ptr(s.obj,S(s.off+n))
    def __repr__(s): return "&%s+%s"%(s.obj.name,s.off)
NULL=Ptr(NULLOBJ,ZERO)
class FnV:      # function value
    pass
class UndefPtr:
    def __repr__(s): return "undefptr"
UNDEFP=UndefPtr()

# ---------------------------------------------------------------- memory contents
class Node:
    __slots__=("k","p","off","n","v","soff","depth")
    def __init__(s,k,p,off,n,v,soff=None):
        s.k=k;s.p=p;s.off=off;s.n=n;s.v=v;s.soff=soff; s.depth=0 if p is None else p.depth+1
def base_arr(a): return Node("arr",None,None,None,a)
def base_fill(b): return Node("const",None,None,None,b)
def base_bytes(bs): return Node("bytes",None,None,None,bs)
def base_view(f): return Node("view",None,None,None,f)
def base_fn(f): return Node("fn",None,None,None,f)

class Frame:
    __slots__=("fn","blk","idx","regs","prev","ret","loops","allocas")
    def __init__(s,fn): s.fn=fn; s.blk=None; s.idx=0; s.regs={}; s.prev=None; s.ret=None; s.loops={}; s.allocas=[]
    def clone(s):
        f=Frame(s.fn); f.blk=s.blk; f.idx=s.idx; f.regs=dict(s.regs); f.prev=s.prev; f.ret=s.ret; f.loops=dict(s.loops); f.allocas=list(s.allocas); return f

class State:
    def __init__(s):
        s.mem={}; s.dead={}; s.pc=[]; s.abs={}; s.ghost={}; s.frames=[]; s.exc=None; s.caught=[]; s.note=[]; s.objs={}
    def clone(s):
        t=State(); t.mem=dict(s.mem); t.dead=dict(s.dead); t.pc=list(s.pc); t.abs=dict(s.abs); t.ghost=dict(s.ghost)
        t.frames=[f.clone() for f in s.frames]; t.exc=s.exc; t.caught=list(s.caught); t.note=list(s.note); t.objs=dict(s.objs)
        return t
    def assume(s,c):
        c=S(c)
        if not z3.is_true(c): s.pc.append(c)

class Outcome:
    def __init__(s,kind,val,st,extra=None): s.kind=kind; s.val=val; s.st=st; s.extra=extra
    def __repr__(s): return "Outcome(%s,%r)"%(s.kind,s.val)

class Oblig:
    def __init__(s,name,loc,status,by,t,model=None,goal=None): s.name=name;s.loc=loc;s.status=status;s.by=by;s.t=t;s.model=model;s.goal=goal

# ---------------------------------------------------------------- engine
def fp_mag(a): return z3.Extract(a.size()-2,0,a)
def fp_nan(a): n=a.size(); return z3.UGT(fp_mag(a),BV(0x7f800000 if n==32 else 0x7ff0000000000000,n-1))
def fp_eq(a,b): return z3.And(z3.Not(fp_nan(a)),z3.Not(fp_nan(b)),z3.Or(a==b,z3.And(fp_mag(a)==0,fp_mag(b)==0)))
def fp_lt(a,b):
    n=a.size(); sa,sb=z3.Extract(n-1,n-1,a)==1,z3.Extract(n-1,n-1,b)==1; za=z3.And(fp_mag(a)==0,fp_mag(b)==0)
    return z3.And(z3.Not(fp_nan(a)),z3.Not(fp_nan(b)),z3.Not(za),z3.If(sa!=sb,sa,z3.If(sa,z3.ULT(fp_mag(b),fp_mag(a)),z3.ULT(fp_mag(a),fp_mag(b)))))
class Engine:
    def __init__(s,mod,timeout_ms=20000,deadline=None):
        s.m=mod; s.timeout=timeout_ms; s.deadline=deadline
        s.obligs=[]; s.suppress=0; s.models=[]; s.model_cache={}; s.contracts={}; s.contract_hits={}
        s.globobj={}; s.fnobj={}; s.solver_time=0.0; s.queries=0; s.unroll={}; s.unroll_default=None
        s.fn_seen={}; s.assumptions=set(); s.check_ovf=False; s.loop_hooks=[]; s.inline_count=0
        s.cache={}; s._keep=[]; s.track=None; s.volatile_hook=None; s.force_cut=False; s.max_paths=20000; s.npaths=0
        s.call_log=None; s.loopinfo={}; s.houdini_extra=[]; s.bounded=False; s.unwind_cut=False; s.prefix=""
        s.step_limit=4000000; s.steps=0; s.second=None; s.extern_default=None; s.loops_proved=set(); s.loops_unrolled=set()
        s.failed_keys=set(); s._late=[]; s.access_hook=None; s.inst_terms=[]; s.want_models=True; s.nbad=0; s.max_bad=16; s.small_split=True
        s._inc=z3.SolverFor("QF_AUFBV"); s._inc.set("timeout",int(os.environ.get("LV_INC","50"))); s.lia=lia.Solver(); s.by=""; s._stack=[]
    # ------------------------------------------------------------ solving
    def _check(s,cons,timeout=None,model=False):
        """returns 'sat','unsat','unknown' (and model)"""
        if s.deadline and time.time()>s.deadline: raise Budget("time budget")
        cs=[]
        for c in cons:
            if z3.is_false(c): return ("unsat",None)
            if not z3.is_true(c): cs.append(c)
        key=(frozenset(c.get_id() for c in cs))
        if not model and key in s.cache: return (s.cache[key],None)
        t0=time.time(); s.queries+=1
        # incremental quick attempt
        sol=s._inc
        k=0
        while k<len(s._stack) and k<len(cs) and s._stack[k].get_id()==cs[k].get_id(): k+=1
        while len(s._stack)>k: sol.pop(); s._stack.pop()
        for c in cs[k:]: sol.push(); sol.add(c); s._stack.append(c)
        r=str(sol.check()); mdl=None; s.by="z3-bv"
        if r=="sat" and model: mdl=sol.model()
        tmo=timeout or s.timeout; stage=0
        while r=="unknown" and stage<5:
            stage+=1
            if stage==1 or stage==3:
                lr,eqs,exact=s.lia.check(cs,min(tmo,1000) if stage==1 else tmo)
                if lr=="unsat": r="unsat"; s.by="z3-lia"
                elif lr=="sat" and exact and not model: r="sat"; s.by="z3-lia"  # only steers the exploration: taken for feasible / not decided
                elif lr=="sat" and eqs:
                    f=z3.SolverFor("QF_AUFBV"); f.set("timeout",3000); f.add(*cs); f.add(*eqs)
                    if str(f.check())=="sat":
                        r="sat"
                        if model: mdl=f.model()
            else:
                f=z3.Solver() if stage==4 else z3.SolverFor("QF_AUFBV"); f.set("timeout",min(tmo,1500) if stage==2 else tmo); f.add(*cs)
                r=str(f.check()); s.by="z3" if stage==4 else "z3-bv"
                if r=="sat" and model: mdl=f.model()
        dt=time.time()-t0; s.solver_time+=dt
        if dt>2 and os.environ.get("LV_SLOW"): s.slow(dt,r,cs)
        s._keep.append(cs); s.cache[key]=r
        return (r,mdl)
    def slow(s,dt,r,cs):
        print("SLOW %.1f %s %d by %s lia=%s"%(dt,r,len(cs),s.by,s.lia.last),file=sys.stderr)
        d=os.environ.get("LV_DUMP")
        if d:
            x=z3.Solver(); x.add(*cs); s.nd=getattr(s,"nd",0)+1
            open("%s/q%d_%d.smt2"%(d,os.getpid(),s.nd),"w").write(x.to_smt2())
    def sat(s,st,extra=()):
        r,_=s._check(st.pc+list(extra)); return r!="unsat"
    def split(s,st,*conds):
        """feasible refinements of st by the first condition that holds (else-case last)"""
        out=[]; neg=[]
        for c in list(conds)+[None]:
            t=st.clone()
            for n in neg: t.assume(z3.Not(n))
            if c is not None: t.assume(c); neg.append(c)
            if s.sat(t): out.append((c,t))
        return out
    def valid(s,st,c):
        c=S(c)
        if z3.is_true(c): return True
        if z3.is_false(c) : 
            return not s.sat(st)
        r,_=s._check(st.pc+[S(z3.Not(c))]); return r=="unsat"
    def decide(s,st,c):
        """True/False/None"""
        c=S(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if s.valid(st,c): return True
        if s.valid(st,z3.Not(c)): return False
        return None
    # ------------------------------------------------------------ obligations
    def prove(s,st,goal,name,loc=None,assume=True):
        """record an obligation pc |= goal; afterwards continue under the goal"""
        goal=S(goal) if z3.is_expr(goal) else z3.BoolVal(bool(goal))
        if s.suppress:
            if assume: st.assume(goal)
            return None
        loc=loc or s.curloc(st); t0=time.time(); model=None
        if z3.is_true(goal): status,by="proved","simplifier"
        else:
            r,model=s._check(st.pc+[S(z3.Not(goal))],model=True)
            status={"unsat":"proved","sat":"failed","unknown":"unknown"}[r]; by=s.by
        o=Oblig(s.prefix+name,loc,status,by,time.time()-t0,model,goal)
        if status!="proved": o.st=st.clone()
        elif s.second and by!="simplifier": s.second(st.pc+[z3.Not(goal)],o)
        s.obligs.append(o)
        if status!="proved":
            s.nbad+=1
            if s.nbad>=s.max_bad: raise Unsupported("stopped after %d failed obligations"%s.nbad)
        if assume=="lemma" or (assume and status!="proved"): st.assume(goal)
        return o
    def fail(s,st,name,loc=None):
        """obligation that this point is unreachable"""
        return s.prove(st,FALSE,name,loc)
    def cover(s,got,want,name="reachability"):
        for w in want:
            s.obligs.append(Oblig(s.prefix+"cover: outcome '%s' is reachable"%(w,),"contract","proved" if w in got else "uncovered","execution",0.0))
    def curloc(s,st):
        for f in reversed(st.frames):
            if f.blk is not None and f.idx<len(f.fn.blocks[f.blk]):
                i=f.fn.blocks[f.blk][f.idx]
                l=s.m.loc(i.dbg)
                return "%s in %s"%(l,s.m.demangled.get(f.fn.name,f.fn.name)[:90])
        return "contract"
    # ------------------------------------------------------------ objects
    def new_obj(s,st,name,size,node=None,kind="data",const=False):
        o=Obj(name,size,kind,const)
        st.mem[o.id]=node if node is not None else base_arr(fresh_arr(name))
        st.objs[o.id]=o
        return o
    def foff(s,cls,field):
        """offset of a member, by name, from the compiler's record layout"""
        L=s.m.lay.get(cls)
        if L is None: raise Unsupported("class %s not in the record layouts"%cls)
        if field in L: return L[field]
        c=[k for k in L if k.split(".")[-1]==field]
        if len(c)!=1: raise Unsupported("class %s has no member %s"%(cls,field))
        return L[c[0]]
    def csize(s,cls): 
        if cls not in s.m.lay: raise Unsupported("class %s not in the record layouts"%cls)
        return s.m.lay[cls][""]
    def newc(s,st,cls,name=None,**f):
        """object of a class with unconstrained content and the given members (bit-vector or pointer)"""
        o=s.new_obj(st,name or cls.split("::")[-1],s.csize(cls)); p=Ptr(o); s.setf(st,p,cls,**f); return p
    def setf(s,st,p,cls,**f):
        for k,v in f.items(): s.rawstore(st,p+s.foff(cls,k),v,8 if isinstance(v,(Ptr,UndefPtr)) else v.size()//8)
    def getf(s,st,p,cls,k,n):
        v=s._read(st,st.mem[p.obj.id],S(p.off+s.foff(cls,k)),n)
        return S(v) if z3.is_expr(v) else v
    def fobj(s,name):
        if name not in s.fnobj:
            o=Obj(name,1,"func"); o.fn=name; s.fnobj[name]=o
        return s.fnobj[name]
    def gobj(s,st,name):
        if name in s.m.funcs: return s.fobj(name)
        if name not in s.globobj:
            g=s.m.globals.get(name)
            if g is None:
                o=Obj(name,8,"ext")
            else:
                try: sz=s.m.size(g.ty)
                except (IRError,KeyError): sz=8
                o=Obj(name,sz,"global",g.const)
                o.ghost["init"]=g
            s.globobj[name]=o
        o=s.globobj[name]
        if o.id not in st.mem:
            g=o.ghost.get("init"); n=None
            if g is not None and g.init is not None and (g.const or s.never_written(name)):
                n=s.build_const(st,g.ty,g.init,base_fill(BV(0,8)),0)
            st.mem[o.id]=n if n is not None else base_arr(fresh_arr(name))
            st.objs[o.id]=o
        return o
    def never_written(s,name):
        """global that the module only loads from (or indexes and loads)"""
        if not hasattr(s,"_nw"): s._nw={}
        if name in s._nw: return s._nw[name]
        ok=True
        for f in s.m.funcs.values():
            for b in f.blocks.values():
                for i in b:
                    if i.op=="store" and (s._mention(i.a[0],name) or s._mention(i.a[1],name)): ok=False
                    elif i.op=="call":
                        for a in i.a[1]:
                            if s._mention(a[1],name): ok=False
                    elif i.op=="gep" and s._mention(i.a[1],name):
                        # derived pointer: only loads may use it in this function
                        for b2 in f.blocks.values():
                            for j in b2:
                                if j is i: continue
                                if j.op=="load": continue
                                if s._uses(j,i.res): ok=False
        s._nw[name]=ok; return ok
    def _uses(s,j,r):
        def rec(x):
            if isinstance(x,tuple):
                if len(x)==2 and x[0]=="r" and x[1]==r: return True
                return any(rec(y) for y in x)
            if isinstance(x,list): return any(rec(y) for y in x)
            return False
        return rec(tuple(j.a))
    def _mention(s,v,name):
        if isinstance(v,tuple):
            if len(v)==2 and v[0]=="g" and v[1]==name: return True
            return any(s._mention(x,name) for x in v if isinstance(x,(tuple,list)))
        if isinstance(v,list): return any(s._mention(x,name) for x in v)
        return False
    def build_const(s,st,ty,v,node,off):
        ty=s.m.resolve(ty); k=v[0]
        if k=="zero": return Node("fill",node,bv64(off),bv64(s.m.size(ty)),BV(0,8)) if off or node.k!="const" else node
        if k=="undef": return node
        if k=="bytes":
            for i,b in enumerate(v[1]): pass
            return Node("cp",node,bv64(off),bv64(len(v[1])),base_bytes(v[1]),ZERO) if off or node.k!="const" else base_bytes(v[1])
        if k=="agg":
            o=off
            for i,(t,x) in enumerate(v[1]):
                if ty.k=="struct": o=off+s.m.fieldoff(ty,i)
                else: o=off+i*s.m.size(ty.b)
                node=s.build_const(st,t,x,node,o)
            return node
        val=s.const(st,ty,v)
        return Node("st",node,bv64(off),s.m.size(ty),val)
    # ------------------------------------------------------------ memory reads
    def read1(s,st,node,off):
        return s._read(st,node,off,1)
    def _rel(s,st,d):
        pass
    def _read(s,st,node,off,n):
        """value of n bytes at off (BV or Ptr)"""
        off=S(off)
        while True:
            k=node.k
            if k=="arr":
                bs=[z3.Select(node.v,S(off+i) if i else off) for i in range(n)]
                return bs[0] if n==1 else z3.Concat(*reversed(bs))
            if k=="const":
                return node.v if n==1 else z3.Concat(*([node.v]*n))
            if k=="bytes":
                if isc(off):
                    o=cv(off); b=node.v
                    return BV(int.from_bytes(bytes((b[o+i] if o+i<len(b) else 0) for i in range(n)),"little"),8*n)
                if n>1: return s._bytes(st,node,off,n)
                e=BV(0,8)
                for i in range(len(node.v)-1,-1,-1): e=z3.If(off==bv64(i),BV(node.v[i],8),e)
                return e
            if k=="view":
                return node.v(s,st,off,n)
            if k=="fn":
                bs=[node.v(S(off+i)) for i in range(n)]
                return bs[0] if n==1 else z3.Concat(*reversed(bs))
            d=S(off-node.off)
            if k=="st":
                sn=node.n
                if isc(d):
                    dv=cv(d)
                    if dv==0 and sn==n: return node.v
                    if dv>=sn and (2**64-dv)>=n: node=node.p; continue
                    # partial overlap
                    if not z3.is_expr(node.v): raise Unsupported("partial read of a stored pointer")
                    if dv<sn and dv+n<=sn: return S(z3.Extract(8*(dv+n)-1,8*dv,node.v))
                    if n>1: return s._bytes(st,node,off,n)
                    raise AssertionError
                # symbolic
                lt=z3.ULT(d,bv64(sn)) if n==1 else z3.Or(z3.ULT(d,bv64(sn)),z3.ULT(z3.simplify(-d),bv64(n)))
                r=s.decide(st,lt)
                if r is False: node=node.p; continue
                if r is True and n==sn and s.valid(st,d==ZERO): return node.v
                if r is True and not z3.is_expr(node.v): raise Unsupported("overlapping read of a stored pointer")
                if n>1: return s._bytes(st,node,off,n)
                if not z3.is_expr(node.v): raise Unsupported("symbolic read over a stored pointer")
                e=s._read(st,node.p,off,1) if r is None else None
                for i in range(sn-1,-1,-1):
                    b=z3.Extract(8*i+7,8*i,node.v)
                    e=b if e is None else z3.If(d==bv64(i),b,e)
                return e
            if k in("cp","fill"):
                ln=node.n
                if n==1: inside=z3.ULT(d,ln); out=z3.Not(inside)
                else:
                    inside=z3.And(z3.ULE(bv64(n),ln),z3.ULE(d,ln-bv64(n)))
                    out=z3.And(z3.UGE(d,ln),z3.Or(z3.UGE(z3.simplify(-d),bv64(n)),ln==ZERO))
                r=s.decide(st,inside)
                if r is True:
                    if k=="fill": return node.v if n==1 else z3.Concat(*([node.v]*n))
                    off=S(node.soff+d); node=node.v; continue
                if n==1:
                    if r is False: node=node.p; continue
                    a=node.v if k=="fill" else s._read(st,node.v,S(node.soff+d),1)
                    b=s._read(st,node.p,off,1)
                    return z3.If(inside,a,b)
                if s.decide(st,out) is True: node=node.p; continue
                return s._bytes(st,node,off,n)
            raise AssertionError(k)
    def _bytes(s,st,node,off,n):
        bs=[]
        for i in range(n):
            b=s._read(st,node,S(off+i),1)
            if not z3.is_expr(b): raise Unsupported("byte read of a pointer")
            bs.append(b)
        return z3.Concat(*reversed(bs)) if n>1 else bs[0]
    def peek(s,st,ptr,n):
        """spec-level read, no obligations"""
        return s._read(st,st.mem[ptr.obj.id],ptr.off,n)
    # ------------------------------------------------------------ access checks
    def access(s,st,p,n,rw,what="access"):
        if isinstance(p,UndefPtr) or not isinstance(p,Ptr):
            s.fail(st,"memory-safety: %s through an undefined pointer"%what); raise PathEnd()
        o=p.obj
        n=bv64(n) if isinstance(n,int) else n
        if o.kind in("null","func"):
            if isc(n) and cv(n)==0: return False
            s.prove(st,n==ZERO,"memory-safety: %s through a null pointer"%what); 
            if not s.sat(st): raise PathEnd()
            return False
        if o.kind=="ext": raise Unsupported("access to external object %s"%o.name)
        if o.kind=="pool": raise Unsupported("block access to a node of %s"%o.name)
        if o.id in st.dead:
            s.prove(st,n==ZERO,"memory-safety: %s after free of %s"%(what,o.name))
            return True
        if rw=="w" and o.const:
            s.fail(st,"memory-safety: write to constant %s"%o.name); raise PathEnd()
        if isc(p.off) and isc(n) and isc(o.size):
            if cv(n)==0: return True
            if cv(p.off)+cv(n)<=cv(o.size): g=TRUE
            else: g=FALSE
        else: g=z3.Or(n==ZERO,z3.And(z3.ULE(p.off,o.size),z3.ULE(n,o.size-p.off)))
        s.prove(st,g,"memory-safety: %s stays inside %s"%(what,o.name))
        if z3.is_false(S(g)): raise PathEnd()
        if s.access_hook: s.access_hook(s,st,p,n,rw)
        if o.guard: o.guard(s,st,p,n,rw)
        return True
    def load(s,st,p,ty):
        ty=s.m.resolve(ty)
        n=s.m.size(ty) if ty.k!="int" else (ty.a+7)//8
        if isinstance(p,Ptr) and p.obj.kind=="pool":
            v=p.obj.ghost["pool"].load(s,st,p,n,ty)
            return z3.Extract(ty.a-1,0,v) if ty.k=="int" and z3.is_bv(v) and v.size()!=ty.a else v
        s.access(st,p,n,"r","read")
        return s.rawload(st,p,ty)
    def rawload(s,st,p,ty):
        ty=s.m.resolve(ty)
        n=s.m.size(ty) if ty.k!="int" else (ty.a+7)//8
        if ty.k=="struct":
            return [s.rawload(st,p+s.m.fieldoff(ty,i),t) for i,t in enumerate(ty.a)]
        v=s._read(st,st.mem[p.obj.id],p.off,n)
        if ty.k=="ptr":
            if isinstance(v,(Ptr,UndefPtr)): return v
            v=S(v)
            if isc(v) and cv(v)==0: return NULL
            h=s.m_ptr_from_bits(st,v,p)
            if h is not None: return h
            raise Unsupported("pointer load of non-pointer bits from %r"%p)
        if isinstance(v,(Ptr,UndefPtr)):
            if ty.k=="int" and ty.a==64: return s.ptrtoint(st,v)
            raise Unsupported("integer load of pointer")
        if ty.k=="int" and ty.a!=n*8: v=z3.Extract(ty.a-1,0,v)
        return S(v)
    def m_ptr_from_bits(s,st,v,p): return s.inttoptr(st,v,strict=False)
    def store(s,st,p,v,ty):
        ty=s.m.resolve(ty)
        if ty.k=="struct":
            for i,t in enumerate(ty.a): s.store(st,p+s.m.fieldoff(ty,i),v[i],t)
            return
        n=s.m.size(ty) if ty.k!="int" else (ty.a+7)//8
        if isinstance(p,Ptr) and p.obj.kind=="pool": p.obj.ghost["pool"].store(s,st,p,zx(v,8*n) if z3.is_bv(v) else v,n); return
        s.access(st,p,n,"w","write")
        s.rawstore(st,p,v,n)
    def rawstore(s,st,p,v,n):
        if z3.is_expr(v):
            if z3.is_bool(v): v=z3.If(v,BV(1,1),BV(0,1))
            if v.size()!=n*8: v=zx(v,n*8)
        node=st.mem[p.obj.id]
        # overwrite identical newest cell
        if node.k=="st" and node.n==n and isc(node.off) and isc(p.off) and cv(node.off)==cv(p.off): node=node.p
        st.mem[p.obj.id]=Node("st",node,p.off,n,v)
    def conc(s,st,x,lim=16):
        """a value known to be small, made concrete by splitting the path on its possible values"""
        x=S(x)
        if isc(x): return x
        if not s.valid(st,z3.ULE(x,bv64(lim))): return x
        vals=[c for c in range(lim+1) if s.sat(st,[S(x==bv64(c))])]
        if len(vals)==1: return bv64(vals[0])
        if not vals: raise PathEnd()
        raise Fork([x==bv64(c) for c in vals])
    def copy(s,st,dst,src,n,move=False,what="memcpy"):
        n=S(n) if z3.is_expr(n) else bv64(n)
        if s.small_split:
            n=s.conc(st,n)
            if isc(n) and cv(n)==0: return
            if isinstance(dst,Ptr) and isc(dst.obj.size) and cv(dst.obj.size)<=16: dst=Ptr(dst.obj,s.conc(st,dst.off))
            if isinstance(src,Ptr) and isc(src.obj.size) and cv(src.obj.size)<=16: src=Ptr(src.obj,s.conc(st,src.off))
        if isc(n) and cv(n)==0: return
        a=s.access(st,src,n,"r",what+" source"); b=s.access(st,dst,n,"w",what+" target")
        if not a or not b: return
        if dst.obj is src.obj and not move and not s.suppress:
            disjoint=z3.Or(n==ZERO,z3.ULE(dst.off+n,src.off),z3.ULE(src.off+n,dst.off),dst.off==src.off)
            s.prove(st,disjoint,"memcpy regions do not overlap")
        s.rawcopy(st,dst,src,n)
    def rawcopy(s,st,dst,src,n):
        n=S(n) if z3.is_expr(n) else bv64(n)
        sn=st.mem[src.obj.id]
        if isc(n) and cv(n)<=64 and isc(dst.off) and isc(src.off) and cv(n) in (1,2,4,8,16,24,32,40,48,56,64):
            # small aggregates: copy cell by cell so that stored pointers stay pointers
            nn=cv(n); i=0; vals=[]
            while i<nn:
                done=False
                for w in (8,4,2,1):
                    if i+w<=nn and (i%w)==0:
                        try: v=s._read(st,sn,src.off+i,w)
                        except Unsupported: continue
                        vals.append((i,w,v)); i+=w; done=True; break
                if not done: raise Unsupported("aggregate copy")
            for i,w,v in vals: s.rawstore(st,dst+i,v,w)
            return
        st.mem[dst.obj.id]=Node("cp",st.mem[dst.obj.id],dst.off,n,sn,src.off)
    def fill(s,st,dst,byte,n):
        n=S(n) if z3.is_expr(n) else bv64(n)
        if isc(n) and cv(n)==0: return
        if not s.access(st,dst,n,"w","memset"): return
        st.mem[dst.obj.id]=Node("fill",st.mem[dst.obj.id],dst.off,n,byte)
    # ------------------------------------------------------------ pointer/int
    def addr(s,st,o):
        if o.kind=="null": return ZERO
        if o.addr is None:
            _fresh[0]+=1
            o.addr=z3.BitVec("addr_%s!%d"%(o.name,_fresh[0]),64); s.addrmap=getattr(s,"addrmap",{}); s.addrmap[o.addr.get_id()]=o
            s._keep.append(o.addr)
        key=("addr",o.id)
        if key not in st.ghost:
            st.ghost[key]=True
            st.assume(z3.And(z3.UGE(o.addr,bv64(4096)),z3.ULE(o.addr,bv64(1<<62)),z3.ULE(o.size,bv64(1<<62)),
                             o.addr&15==ZERO))
        return o.addr
    def ptrtoint(s,st,p):
        if isinstance(p,UndefPtr): return fresh("undef",64)
        if p.obj.kind=="pool": return p.off
        return S(s.addr(st,p.obj)+p.off)
    def inttoptr(s,st,v,strict=True):
        v=S(v)
        if isc(v) and cv(v)==0: return NULL
        am=getattr(s,"addrmap",{})
        # look for exactly one address symbol occurring linearly
        found=[]
        def rec(e):
            if e.get_id() in am: found.append(am[e.get_id()]); return
            if z3.is_app(e) and e.decl().kind() in(z3.Z3_OP_BADD,):
                for c in e.children(): rec(c)
        rec(v)
        if len(found)==1: return Ptr(found[0],S(v-found[0].addr))
        if isc(v): return Ptr(FIXOBJ,v)
        if strict: raise Unsupported("inttoptr")
        return None
    # ------------------------------------------------------------ constants & operands
    def const(s,st,ty,v):
        k=v[0]
        if k=="r": return st.frames[-1].regs[v[1]]
        if k=="i":
            ty=s.m.resolve(ty); return BV(v[1],ty.a)
        if k=="null": return NULL
        if k=="g": return Ptr(s.gobj(st,v[1]),ZERO)
        if k=="undef" :
            t=s.m.resolve(v[1])
            if t.k=="ptr": return UNDEFP
            if t.k=="int": return fresh("undef",t.a)
            if t.k=="struct": return [s.const(st,x,("undef",x)) for x in t.a]
            if t.k in("float","double"): return fresh("undeff",32 if t.k=="float" else 64)
            raise Unsupported("undef %r"%t)
        if k=="zero":
            t=s.m.resolve(v[1])
            if t.k=="struct": return [s.const(st,x,("zero",x)) for x in t.a]
            if t.k=="int": return BV(0,t.a)
            if t.k=="ptr": return NULL
            if t.k in("float","double"): return BV(0,32 if t.k=="float" else 64)
            if t.k=="arr": return ("zeroarr",t)
            raise Unsupported("zero %r"%t)
        if k=="f":
            t=s.m.resolve(ty); x=v[1]
            import struct as _s
            if x.startswith("0x"):
                if x[2] in "KLMHR": return BV(0,80)
                bits=int(x,16)
                if t.k=="double": return BV(bits,64)
                f=_s.unpack("<d",_s.pack("<Q",bits))[0]
                return BV(_s.unpack("<I",_s.pack("<f",f))[0],32)
            f=float(x)
            return BV(_s.unpack("<Q",_s.pack("<d",f))[0],64) if t.k=="double" else BV(_s.unpack("<I",_s.pack("<f",f))[0],32)
        if k=="cgep":
            b=s.const(st,PTR,v[2]); return s.gep(st,v[1],b,[(t,s.const(st,t,x)) for t,x in v[3]])
        if k=="ccast":
            return s.cast(st,v[1],v[2],s.const(st,v[2],v[3]),v[4])
        if k=="cbin":
            return s.binop(st,v[1],v[2],s.const(st,v[2],v[3]),s.const(st,v[2],v[4]),())
        if k=="agg":
            t=s.m.resolve(ty)
            return [s.const(st,tt,x) for tt,x in v[1]]
        if k=="bytes": return ("bytes",v[1])
        raise Unsupported("operand %r"%(v,))
    def gep(s,st,ty,p,idx):
        if isinstance(p,UndefPtr): return p
        off=p.off; t=ty
        for i,(it,v) in enumerate(idx):
            if not z3.is_expr(v): raise Unsupported("gep index")
            if i==0:
                sz=s.m.size(t); off=off+sx(v,64)*sz if sz!=1 else off+sx(v,64)
            else:
                r=s.m.resolve(t)
                if r.k=="struct":
                    k=cv(S(v)); off=off+s.m.fieldoff(r,k); t=r.a[k]
                elif r.k in("arr","vec"):
                    off=off+sx(v,64)*s.m.size(r.b); t=r.b
                else: raise Unsupported("gep into %r"%r)
        return Ptr(p.obj,S(off))
    # ------------------------------------------------------------ scalar ops
    def binop(s,st,op,ty,a,b,flags):
        ty=s.m.resolve(ty)
        if op in("fadd","fsub","fmul","fdiv","frem"):
            return s.fop(op,a,b)
        if isinstance(a,(Ptr,UndefPtr)) or isinstance(b,(Ptr,UndefPtr)): raise Unsupported("binop on pointer")
        w=a.size()
        if op in("udiv","sdiv","urem","srem"):
            s.prove(st,b!=BV(0,w),"arithmetic: divisor is not zero")
            if op in("sdiv","srem"):
                s.prove(st,z3.Not(z3.And(a==BV(1<<(w-1),w),b==BV(-1,w))),"arithmetic: no signed division overflow")
            if not isc(b) and op in("urem","udiv"):
                # x % n and x / n with x < 2n need no division circuit
                if s.valid(st,z3.ULT(a,b)): return a if op=="urem" else BV(0,w)
                if s.valid(st,z3.And(z3.UGE(a,b),z3.ULT(a-b,b))): return S(a-b) if op=="urem" else BV(1,w)
                if s.valid(st,z3.Or(z3.ULT(a,b),z3.ULT(a-b,b))):
                    return S(z3.If(z3.ULT(a,b),a,a-b)) if op=="urem" else S(z3.If(z3.ULT(a,b),BV(0,w),BV(1,w)))
            if not isc(b) and op in("srem","sdiv") :
                z=BV(0,w)
                if s.valid(st,z3.And(a>=z,b>z)):
                    if s.valid(st,a<b): return a if op=="srem" else z
                    if s.valid(st,z3.And(a>=b,a-b<b)): return S(a-b) if op=="srem" else BV(1,w)
                    if s.valid(st,z3.Or(a<b,a-b<b)):
                        return S(z3.If(a<b,a,a-b)) if op=="srem" else S(z3.If(a<b,z,BV(1,w)))
            f={"udiv":z3.UDiv,"sdiv":lambda x,y:x/y,"urem":z3.URem,"srem":z3.SRem}[op]
            return S(f(a,b))
        if op in("shl","lshr","ashr"):
            s.prove(st,z3.ULT(b,BV(w,w)) if w>=8 or True else TRUE,"arithmetic: shift amount below width")
            if op=="shl": return S(a<<b)
            if op=="lshr": return S(z3.LShR(a,b))
            return S(a>>b)
        if op=="add": r=a+b
        elif op=="sub": r=a-b
        elif op=="mul": r=a*b
        elif op=="and": r=a&b
        elif op=="or": r=a|b
        elif op=="xor": r=a^b
        else: raise Unsupported(op)
        if s.check_ovf and "nsw" in flags and op in("add","sub","mul") and w>=32:
            ext=w*2 if op=="mul" else w+1
            ea,eb=sx(a,ext),sx(b,ext); er={"add":ea+eb,"sub":ea-eb,"mul":ea*eb}[op]
            s.prove(st,er==sx(r,ext),"arithmetic: no signed overflow (%s)"%op)
        return S(r)
    def fop(s,op,a,b):
        w=a.size(); f=z3.Function("%s%d"%(op,w),z3.BitVecSort(w),z3.BitVecSort(w),z3.BitVecSort(w))
        s.assumptions.add("floating-point arithmetic is uninterpreted")
        return f(a,b)
    def cast(s,st,op,ft,v,tt):
        tt=s.m.resolve(tt)
        if op=="ptrtoint": return zx(s.ptrtoint(st,v),tt.a)
        if op=="inttoptr": return s.inttoptr(st,v)
        if op in("bitcast","addrspacecast"): return v
        if op=="trunc": return S(z3.Extract(tt.a-1,0,v))
        if op=="zext": return S(z3.ZeroExt(tt.a-v.size(),v))
        if op=="sext": return S(z3.SignExt(tt.a-v.size(),v))
        s.assumptions.add("floating-point conversions are uninterpreted")
        tw={"float":32,"double":64,"x86_fp80":80}.get(tt.k) or tt.a
        f=z3.Function("%s_%d_%d"%(op,v.size(),tw),z3.BitVecSort(v.size()),z3.BitVecSort(tw)); return f(v)
    def icmp(s,st,pr,a,b):
        if isinstance(a,(Ptr,UndefPtr)) or isinstance(b,(Ptr,UndefPtr)):
            if isinstance(a,UndefPtr) or isinstance(b,UndefPtr): return fresh_bool("undefcmp")
            if not isinstance(a,Ptr) or not isinstance(b,Ptr): raise Unsupported("icmp ptr/int")
            if a.obj is b.obj or a.obj.kind=="pool" and b.obj.kind=="null" or a.obj.kind=="null" and b.obj.kind=="pool":
                x,y=a.off,b.off
            else:
                if a.obj.kind=="pool" and b.obj.kind=="pool": raise Unsupported("comparison of nodes of different kinds")
                if pr=="eq": return FALSE
                if pr=="ne": return TRUE
                x,y=s.ptrtoint(st,a),s.ptrtoint(st,b)
            a,b=x,y
        f={"eq":lambda:a==b,"ne":lambda:a!=b,"ugt":lambda:z3.UGT(a,b),"uge":lambda:z3.UGE(a,b),"ult":lambda:z3.ULT(a,b),
           "ule":lambda:z3.ULE(a,b),"sgt":lambda:a>b,"sge":lambda:a>=b,"slt":lambda:a<b,"sle":lambda:a<=b}[pr]
        return S(f())
    def fcmp(s,pr,a,b):
        """IEEE comparison on the bit patterns"""
        na,nb=fp_nan(a),fp_nan(b); un=z3.Or(na,nb)
        if pr=="ord": return z3.Not(un)
        if pr=="uno": return un
        base={"eq":lambda:fp_eq(a,b),"gt":lambda:fp_lt(b,a),"ge":lambda:z3.Or(fp_eq(a,b),fp_lt(b,a)),"lt":lambda:fp_lt(a,b),"le":lambda:z3.Or(fp_eq(a,b),fp_lt(a,b)),"ne":lambda:z3.And(z3.Not(un),z3.Not(fp_eq(a,b)))}
        if pr in("true","false"): return z3.BoolVal(pr=="true")
        c=base[pr[1:]]()
        return c if pr[0]=="o" else z3.Or(un,c)
    # ------------------------------------------------------------ CFG / loops
    def loops_of(s,fn):
        if fn.name in s.loopinfo: return s.loopinfo[fn.name]
        succ={b:s.succs(fn,b) for b in fn.order}
        # dominators
        order=[];seen=set()
        def dfs(b0):
            stack=[(b0,iter(succ[b0]))]; seen.add(b0)
            while stack:
                b,it=stack[-1]
                for x in it:
                    if x not in seen: seen.add(x); stack.append((x,iter(succ[x]))); break
                else: order.append(b); stack.pop()
        dfs(fn.order[0]); rpo=list(reversed(order)); pred={b:[] for b in rpo}
        for b in rpo:
            for x in succ[b]: pred[x].append(b)
        dom={b:set(rpo) for b in rpo}; dom[rpo[0]]={rpo[0]}; ch=True
        while ch:
            ch=False
            for b in rpo[1:]:
                n=set.intersection(*[dom[p] for p in pred[b]])|{b} if pred[b] else {b}
                if n!=dom[b]: dom[b]=n; ch=True
        L={}
        for b in rpo:
            for x in succ[b]:
                if x in dom[b]:
                    body=L.setdefault(x,{x}); st=[b]
                    while st:
                        y=st.pop()
                        if y in body: continue
                        body.add(y); st+=pred[y]
        s.loopinfo[fn.name]=L; return L
    def succs(s,fn,b):
        t=fn.blocks[b][-1]
        if t.op=="br": return [t.a[0]]
        if t.op=="cbr": return [t.a[1],t.a[2]]
        if t.op=="switch": return [t.a[1]]+[c[1] for c in t.a[2]]
        if t.op=="call" and t.a[2]: return [t.a[2],t.a[3]]
        return []
    # ------------------------------------------------------------ running
    def run(s,st,fname,args):
        """execute function `fname` (mangled or demangled) from st; returns list of Outcome"""
        name=s.resolve(fname)
        outs=[]
        for r in s.do_call(st,name,args,None,top=True):
            if isinstance(r,Outcome): outs.append(r)
            else: outs+=s.explore(r,0)
        return outs
    def resolve(s,fname):
        if fname in s.m.funcs: return fname
        if fname in s.m.byname: return s.m.byname[fname]
        raise Unsupported("function %s not found in the compiled sources"%fname)
    def explore(s,st,base):
        """run st until its frame depth falls to `base`; outcomes for each path"""
        work=[st]; outs=[]
        while work:
            cur=work.pop()
            s.npaths+=1
            if s.npaths>s.max_paths: raise Unsupported("path budget exceeded")
            try: res=s.advance(cur,base,work)
            except PathEnd: res=None
            if res is not None: outs.append(res)
            if s._late: outs+=s._late; s._late=[]
        return outs
    def advance(s,st,base,work):
        while True:
            if len(st.frames)<=base: raise AssertionError
            f=st.frames[-1]
            ins=f.fn.blocks[f.blk][f.idx]
            s.steps+=1
            if s.steps>s.step_limit: raise Unsupported("step budget exceeded")
            if s.deadline and (s.steps&255)==0 and time.time()>s.deadline: raise Budget("time budget")
            try: r=s.step(st,f,ins,base,work)
            except Fork as fk:
                for c in fk.conds[1:]:
                    t=st.clone(); t.assume(c); work.append(t)
                st.assume(fk.conds[0]); continue
            if r is not None:
                if isinstance(r,Outcome): return r
                if r=="stop": return None
    def goto(s,st,f,target,base,work):
        """branch to block; handles phis and loop headers. returns None or 'stop'"""
        src=f.blk
        L=s.loops_of(f.fn)
        stopat=f.loops.get("#stop")
        if stopat is not None:
            hdr,body,collect=stopat
            if target==hdr: 
                collect.append(("back",st,s.phivals(st,f,target,src))); return "stop"
            if target not in body:
                collect.append(("exit",st,None)); return "stop"
        if target in L:
            h=s.at_header(st,f,target,src,L[target],base,work)
            if h is not None: return h
            return None
        s.enter(st,f,target,src,None)
        # leaving a loop resets its unroll counter
        for k in list(f.loops):
            if k!="#stop" and k in L and target not in L[k]: del f.loops[k]
        return None
    def phivals(s,st,f,target,src):
        vals=[]
        for i in f.fn.blocks[target]:
            if i.op!="phi": break
            v=None
            for x,b in i.a[0]:
                if b==src: v=s.const(st,i.ty,x); break
            if v is None: raise Unsupported("phi without incoming edge")
            vals.append((i.res,i.ty,v))
        return vals
    def enter(s,st,f,target,src,vals):
        if vals is None: vals=s.phivals(st,f,target,src)
        for r,t,v in vals: f.regs[r]=v
        f.prev=src; f.blk=target; f.idx=len(vals)
    def at_header(s,st,f,hdr,src,body,base,work):
        key=hdr
        mode=f.loops.get(key)
        vals=s.phivals(st,f,hdr,src)
        back=src in body and mode is not None
        if back:
            if mode[0]=="inv":
                mode[1](st,f,vals); return "stop"
            # unrolling
            n=mode[1]+1
            lim=mode[2]
            if n>lim:
                if s.bounded:
                    s.unwind_cut=True; return "stop"
                if mode[3]=="tent": raise Unsupported("loop in %s does not unroll within %d iterations"%(s.dem(f.fn.name),lim))
                s.fail(st,"loop unwinding bound %d suffices in %s"%(lim,s.dem(f.fn.name))); return "stop"
            f.loops[key]=("unroll",n,lim,mode[3])
            s.enter(st,f,hdr,src,vals); return None
        # entry
        lim=s.unroll_limit(f.fn,hdr)
        if lim is None and not s.force_cut and s.concrete_exit(st,f,hdr,src,vals,body): lim=("tent",260)
        if lim is not None:
            f.loops[key]=("unroll",0,lim[1],lim[0]); s.loops_unrolled.add((s.dem(f.fn.name),hdr))
            s.enter(st,f,hdr,src,vals); return None
        return s.cut_loop(st,f,hdr,src,body,vals,base,work)
    def dem(s,n): return s.m.demangled.get(n,n)
    def unroll_limit(s,fn,hdr):
        if s.bounded: return ("unroll",s.bounded)
        d=s.dem(fn.name)
        for k,v in s.unroll.items():
            if k in d: return ("unroll",v)
        if s.unroll_default: return ("unroll",s.unroll_default)
        return None
    def concrete_exit(s,st,f,hdr,src,vals,body):
        """is the loop's next exit decision made by concrete values?"""
        t=st.clone(); tf=t.frames[-1]
        s.suppress+=1; old=s.npaths
        try:
            s.enter(t,tf,hdr,src,vals); depth=len(t.frames)
            for _ in range(400):
                g=t.frames[-1]; ins=g.fn.blocks[g.blk][g.idx]
                if ins.op=="cbr" and len(t.frames)==depth and (ins.a[1] not in body or ins.a[2] not in body):
                    c=s.const(t,IntT(1),ins.a[0]); c=S(tobool(c))
                    return z3.is_true(c) or z3.is_false(c)
                if ins.op=="switch" and len(t.frames)==depth: return False
                w=[]
                r=s.step(t,g,ins,depth-1,w,peek=True)
                if r is not None or w: return False
            return False
        except (PathEnd,Unsupported): return False
        finally: s.suppress-=1; s.npaths=old
    # ---- loop cutting
    def probe_body(s,st,f,hdr,src,body,vals):
        """one symbolic iteration from st with header phis=vals; returns list of (kind,state,phivals)"""
        t=st.clone(); tf=t.frames[-1]; collect=[]
        tf.loops=dict(tf.loops); tf.loops["#stop"]=(hdr,body,collect)
        s.enter(t,tf,hdr,src,vals)
        depth=len(t.frames)
        work=[t]
        while work:
            cur=work.pop(); s.npaths+=1
            if s.npaths>s.max_paths: raise Unsupported("path budget exceeded")
            try:
                r=s.advance(cur,depth-1,work)
                if r is not None: collect.append(("ret",r,None))
            except PathEnd: pass
            for x in s._late: collect.append(("ret",x,None))
            s._late=[]
        return collect
    def written_cells(s,old,new,out,oid):
        """cells stored between content node old (ancestor) and new"""
        n=new; seen=set(); anc={}; o=old
        while o is not None: anc[id(o)]=o; o=o.p
        while id(n) not in anc:
            if n is None: out.add((oid,"all")); return
            if n.k=="st" and isc(n.off):
                r=range(cv(n.off),cv(n.off)+n.n)
                if not all(b in seen for b in r): out.add((oid,cv(n.off),n.n,"p" if isinstance(n.v,(Ptr,UndefPtr)) else "i"))
                seen.update(r)
            else: out.add((oid,"all"))
            n=n.p
        o=old     # cells of the old content that were replaced in place
        while o is not n:
            if o.k=="st" and isc(o.off): out.add((oid,cv(o.off),o.n,"p" if isinstance(o.v,(Ptr,UndefPtr)) else "i"))
            else: out.add((oid,"all"))
            o=o.p
    def cut_loop(s,st,f,hdr,src,body,vals,base,work):
        fn=f.fn; dname=s.dem(fn.name)
        hook=None
        for h in s.loop_hooks:
            hook=h(s,st,f,dname,hdr,body)
            if hook: break
        # invariants that hold by the hook at entry
        st0=st
        if hook and hook.get("enter"): 
            hook["enter"](st0)
        hav_cells=set(); hav_ghost=set(); hav_abs=set(); ptrbase={}
        ent=dict((r,v) for r,t,v in vals)
        for rnd in range(12):
            h,hvals,syms=s.havoc(st0,vals,hav_cells,hav_ghost,hav_abs,ptrbase,hook)
            s.suppress+=1; tr=s.track; s.track={"icmp":[]}
            try: col=s.probe_body(h,h.frames[-1],hdr,src,body,hvals)
            finally: s.suppress-=1; track=s.track; s.track=tr
            new=set(); ng=set(); na=set(); chg=False
            for kind,bs,bvals in col:
                if kind!="back": continue
                for oid,node in bs.mem.items():
                    if oid in h.mem and h.mem[oid] is not node: s.written_cells(h.mem[oid],node,new,oid)
                for oid in bs.dead:
                    if oid not in h.dead and oid in h.mem and not(hook and hook.get("owns") and hook["owns"](oid)):
                        raise Unsupported("loop in %s frees an object"%dname)
                for k,v in bs.ghost.items():
                    if k in h.ghost and h.ghost[k] is not v and not (isinstance(k,tuple) and k[0] in("addr","nohavoc")): ng.add(k)
                for k,v in bs.abs.items():
                    if k in h.abs and h.abs[k] is not v: na.add(k)
                for (r,t,v),(r2,t2,v2) in zip(hvals,bvals):
                    if isinstance(v2,Ptr) and isinstance(ent.get(r),Ptr) and v2.obj is not ent[r].obj:
                        if not(hook and hook.get("ptrphi") and hook["ptrphi"](r,v2)):
                            raise Unsupported("loop in %s walks across objects"%dname)
            if hook and hook.get("skip"): new={c for c in new if not hook["skip"](c)}
            if hook and hook.get("skipabs"): na={c for c in na if not hook["skipabs"](c)}
            if hook and hook.get("skipghost"): ng={c for c in ng if not hook["skipghost"](c)}
            whole={c[0] for c in hav_cells if c[1]=="all"}; new={c for c in new if c[0] not in whole or c[1]=="all"}
            if new<=hav_cells and ng<=hav_ghost and na<=hav_abs: break
            hav_cells|=new; hav_ghost|=ng; hav_abs|=na
            alls={c[0] for c in hav_cells if c[1]=="all"}
            hav_cells={c for c in hav_cells if c[0] not in alls or c[1]=="all"}
        else: raise Unsupported("loop frame of %s does not stabilise"%dname)
        # candidate invariants
        symids=set(x.get_id() for x in syms); symids|=set(h.ghost.get(("nohavoc","syms"),()))
        invterms=[]
        seen=set()
        for a,b in track["icmp"]:
            for e in(a,b):
                e=S(e)
                if e.get_id() in seen: continue
                seen.add(e.get_id())
                if not s.mentions(e,syms): invterms.append(e)
        backs=[(bs,bv) for k,bs,bv in col if k=="back"]
        cands=s.candidates(st0,h,vals,hvals,hav_cells,invterms,backs,hook)
        # drop those false at entry
        ev=s.env(st0,vals,hav_cells); 
        keep=[c for c in cands if s.holds(st0,c,ev,0)]
        # Houdini
        for rnd in range(40):
            h,hvals,syms=s.havoc(st0,vals,hav_cells,hav_ghost,hav_abs,ptrbase,hook)
            it=fresh("iter",64); h.ghost[("nohavoc","it",hdr)]=it; h.assume(z3.ULT(it,bv64(1<<62)))
            he=s.env(h,hvals,hav_cells)
            for c in keep: h.assume(c[1](h,he,it))
            s.suppress+=1
            try: col=s.probe_body(h,h.frames[-1],hdr,src,body,hvals)
            finally: s.suppress-=1
            bad=set()
            for kind,bs,bvals in col:
                if kind!="back": continue
                be=s.env(bs,bvals,hav_cells)
                for c in keep:
                    if c[0] in bad: continue
                    if not s.holds(bs,c,be,it+1): bad.add(c[0])
            if not bad: break
            keep=[c for c in keep if c[0] not in bad]
        else: raise Unsupported("invariant inference for %s does not converge"%dname)
        # final pass: real execution from the cut point
        h,hvals,syms=s.havoc(st0,vals,hav_cells,hav_ghost,hav_abs,ptrbase,hook)
        it=fresh("iter",64); h.assume(z3.ULT(it,bv64(1<<62))); h.ghost[("nohavoc","it",hdr)]=it
        he=s.env(h,hvals,hav_cells); h.ghost[("nohavoc","cut")]=True
        for c in keep: h.assume(c[1](h,he,it))
        if os.environ.get("LV_INV"): print("INV",dname,hdr,[c[0] for c in keep],file=sys.stderr)
        if not s.suppress:
            s.obligs.append(Oblig(s.prefix+"loop invariants inductive (%d inferred) in %s"%(len(keep),dname),hdr,"proved","z3",0.0))
            s.loops_proved.add((dname,hdr,len(keep)))
        def onback(bs,bf,bvals):
            if hook and hook.get("back"): hook["back"](bs)
        if hook and hook.get("head"): hook["head"](h)
        hf=h.frames[-1]; hf.loops=dict(hf.loops); hf.loops[hdr]=("inv",onback)
        s.enter(h,hf,hdr,src,hvals)
        work.append(h)
        return "stop"
    def holds(s,st,c,env,it):
        try: return s.valid(st,c[1](st,env,it))
        except KeyError: return False
    def mentions(s,e,syms):
        ids=set(x.get_id() for x in syms)
        st=[e]; seen=set()
        while st:
            x=st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.get_id() in ids: return True
            st+=x.children()
        return False
    def havoc(s,st,vals,cells,ghosts,abss,ptrbase,hook):
        h=st.clone(); syms=[]
        if hook and hook.get("havoc"): syms+=hook["havoc"](h) or []
        hv=[]
        for r,t,v in vals:
            tt=s.m.resolve(t)
            if hook and hook.get("phi"):
                x=hook["phi"](h,r,t,v)
                if x is not None: hv.append((r,t,x)); continue
            if isinstance(v,Ptr):
                o=fresh("poff",64); syms.append(o); hv.append((r,t,Ptr(v.obj,o)))
            elif isinstance(v,UndefPtr): hv.append((r,t,v))
            elif z3.is_bool(v):
                b=fresh_bool("phi"); syms.append(b); hv.append((r,t,b))
            elif z3.is_expr(v):
                x=fresh("phi",v.size()); syms.append(x); hv.append((r,t,x))
            elif isinstance(v,list):
                hv.append((r,t,v))
            else: raise Unsupported("phi kind")
        for c in sorted(cells,key=lambda c:(c[0],str(c[1]))):
            oid=c[0]
            if c[1]=="all":
                a=fresh_arr("loopmem"); syms.append(a); h.mem[oid]=base_arr(a)
            else:
                _,off,n,k=c
                if k=="p":
                    v=s._read(st,st.mem[oid],bv64(off),8)
                    if not isinstance(v,Ptr):   # a temporary: unusable until the iteration writes it
                        h.mem[oid]=Node("st",h.mem[oid],bv64(off),8,UndefPtr()); continue
                    if v.obj.kind=="null": raise Unsupported("pointer cell changes in loop")
                    o=fresh("poff",64); syms.append(o); h.mem[oid]=Node("st",h.mem[oid],bv64(off),8,Ptr(v.obj,o))
                else:
                    x=fresh("cell",8*n); syms.append(x); h.mem[oid]=Node("st",h.mem[oid],bv64(off),n,x)
        for c in cells:
            if c[1]=="all" and s.havoc_note: s.havoc_note(s,h,c[0])
        for k in ghosts:
            v=h.ghost[k]
            if z3.is_expr(v):
                x=fresh("ghost",v.size()) if z3.is_bv(v) else fresh_bool("ghost"); syms.append(x); h.ghost[k]=x
            else: raise Unsupported("ghost %r changes in loop"%(k,))
        for k in abss:
            v=h.abs[k]
            nv,sy=v.havoc(s,h); syms+=sy; h.abs[k]=nv
        return h,hv,syms
    def env(s,st,vals,cells):
        e={}
        for r,t,v in vals:
            if isinstance(v,Ptr): e[("phi",r)]=v.off
            elif z3.is_expr(v) and z3.is_bv(v): e[("phi",r)]=v
        for c in cells:
            if c[1]=="all": continue
            v=s._read(st,st.mem[c[0]],bv64(c[1]),c[2])
            if isinstance(v,Ptr): e[("cell",)+c[:3]]=v.off
            elif z3.is_expr(v) and z3.is_bv(v): e[("cell",)+c[:3]]=v
        for k,v in st.abs.items():
            if hasattr(v,"env"):
                for kk,x in v.env().items(): e[("abs",k,kk)]=x
        return e
    def candidates(s,st0,h,vals,hvals,cells,terms,backs,hook):
        e0=s.env(st0,vals,cells); eh=s.env(h,hvals,cells); C=[]
        vs=[k for k in e0 if k in eh and S(e0[k]).get_id()!=S(eh[k]).get_id()]
        if hook and hook.get("nocand"): vs=[k for k in vs if not hook["nocand"](k)]
        def add(n,f): C.append((n,f))
        for k in vs:
            v0=e0[k]; w=v0.size()
            add((k,"u>=0"),lambda st,e,it,k=k,v0=v0: z3.UGE(e[k],v0))
            add((k,"u<=0"),lambda st,e,it,k=k,v0=v0: z3.ULE(e[k],v0))
            add((k,"s>=0"),lambda st,e,it,k=k,v0=v0: e[k]>=v0)
            add((k,"s<=0"),lambda st,e,it,k=k,v0=v0: e[k]<=v0)
            for c in (0,1):
                add((k,"s>=c",c),lambda st,e,it,k=k,c=c,w=w: e[k]>=BV(c,w)) if w>1 else None
            if w>1: add((k,"ne0"),lambda st,e,it,k=k,w=w: e[k]!=BV(0,w))
            # recurrence v' = v + c
            ds=set()
            for bs,bv in backs:
                be=s.env(bs,bv,cells)
                d=S(be[k]-eh[k]) if k in be else None
                ds.add(cv(d) if d is not None and isc(d) else None)
            if len(ds)==1 and None not in ds:
                c=ds.pop()
                add((k,"lin",c),lambda st,e,it,k=k,c=c,v0=v0,w=w: e[k]==v0+BV(c,w)*zx(it if z3.is_expr(it) else bv64(it),w))
            for ti,t in enumerate(terms):
                if t.size()!=w or w==1: continue
                add((k,"ule",ti),lambda st,e,it,k=k,t=t: z3.ULE(e[k],t))
                add((k,"sle",ti),lambda st,e,it,k=k,t=t: e[k]<=t)
                add((k,"uge",ti),lambda st,e,it,k=k,t=t: z3.UGE(e[k],t))
                add((k,"sge",ti),lambda st,e,it,k=k,t=t: e[k]>=t)
        for i,k in enumerate(vs):
            for k2 in vs[i+1:]:
                if e0[k].size()==e0[k2].size():
                    a,b=e0[k],e0[k2]
                    add((k,k2,"d"),lambda st,e,it,k=k,k2=k2,a=a,b=b: e[k]-a==e[k2]-b)
                    add((k,k2,"s"),lambda st,e,it,k=k,k2=k2,a=a,b=b: e[k]-a==b-e[k2])
                    add((k,k2,"ule"),lambda st,e,it,k=k,k2=k2: z3.ULE(e[k],e[k2]))
                    add((k,k2,"uge"),lambda st,e,it,k=k,k2=k2: z3.UGE(e[k],e[k2]))
        for fn in s.houdini_extra: C+=fn(s,st0,h,e0,eh,vs)
        if hook and hook.get("cands"): C+=hook["cands"](s,st0,h,e0,eh,vs)
        return C
    # ------------------------------------------------------------ instruction step
    def step(s,st,f,ins,base,work,peek=False):
        op=ins.op; R=f.regs
        if op=="bin":
            o,a,b=ins.a; R[ins.res]=s.binop(st,o,ins.ty,s.const(st,ins.ty,a),s.const(st,ins.ty,b),ins.flags)
        elif op=="load":
            p=s.const(st,PTR,ins.a[0])
            if ins.a[1] and s.volatile_hook: s.volatile_hook(s,st,"load",p,ins)
            R[ins.res]=s.load(st,p,ins.ty)
        elif op=="store":
            v=s.const(st,ins.ty,ins.a[0]); p=s.const(st,PTR,ins.a[1])
            if ins.a[2] and s.volatile_hook: s.volatile_hook(s,st,"store",p,ins,v)
            s.store(st,p,v,ins.ty)
        elif op=="gep":
            t,b,idx=ins.a
            R[ins.res]=s.gep(st,t,s.const(st,PTR,b),[(it,s.const(st,it,x)) for it,x in idx])
        elif op=="icmp":
            pr,t,a,b=ins.a; x=s.const(st,t,a); y=s.const(st,t,b)
            if s.track is not None and z3.is_expr(x) and z3.is_expr(y): s.track["icmp"].append((x,y))
            if s.track is not None and isinstance(x,Ptr) and isinstance(y,Ptr) and x.obj is y.obj: s.track["icmp"].append((x.off,y.off))
            c=s.icmp(st,pr,x,y)
            R[ins.res]=z3.If(c,BV(1,1),BV(0,1)) if not(z3.is_true(c) or z3.is_false(c)) else BV(1 if z3.is_true(c) else 0,1)
        elif op=="fcmp":
            pr,t,a,b=ins.a; c=s.fcmp(pr,s.const(st,t,a),s.const(st,t,b)); R[ins.res]=S(z3.If(c,BV(1,1),BV(0,1)))
        elif op=="cast":
            o,t,a=ins.a; R[ins.res]=s.cast(st,o,t,s.const(st,t,a),ins.ty)
        elif op=="fneg":
            v=s.const(st,ins.ty,ins.a[0]); w=v.size(); R[ins.res]=S(v^BV(1<<(w-1),w))
        elif op=="alloca":
            t,n=ins.a
            sz=s.m.size(t)
            if n!=("i",1):
                nv=s.const(st,n[0],n[1]); szv=S(zx(nv,64)*sz)
            else: szv=bv64(sz)
            o=s.new_obj(st,"local%s"%ins.res,szv); f.allocas.append(o.id); R[ins.res]=Ptr(o,ZERO)
        elif op=="br": return s.goto(st,f,ins.a[0],base,work)
        elif op=="cbr":
            c=tobool(s.const(st,IntT(1),ins.a[0])); c=S(c)
            if z3.is_true(c): return s.goto(st,f,ins.a[1],base,work)
            if z3.is_false(c): return s.goto(st,f,ins.a[2],base,work)
            if peek: return "stop"
            a=s.sat(st,[c]); nc=S(z3.Not(c)); b=s.sat(st,[nc])
            if a and b:
                t=st.clone(); t.assume(nc)
                tf=t.frames[-1]
                st.assume(c)
                try:
                    if s.goto(t,tf,ins.a[2],base,work)!="stop": work.append(t)
                except PathEnd: pass
                return s.goto(st,f,ins.a[1],base,work)
            if a: st.assume(c); return s.goto(st,f,ins.a[1],base,work)
            if b: st.assume(nc); return s.goto(st,f,ins.a[2],base,work)
            raise PathEnd()
        elif op=="switch":
            v=s.const(st,ins.ty,ins.a[0]); neg=[]
            if isc(S(v)):
                x=cv(S(v)); w=v.size()
                for c,l in ins.a[2]:
                    if (c[1]%(1<<w))==x: return s.goto(st,f,l,base,work)
                return s.goto(st,f,ins.a[1],base,work)
            if peek: return "stop"
            tg={}
            for c,l in ins.a[2]: tg.setdefault(l,[]).append(v==BV(c[1],v.size()))
            for l,cs in tg.items():
                cc=S(z3.Or(*cs)); neg.append(z3.Not(cc))
                if s.sat(st,[cc]):
                    t=st.clone(); t.assume(cc)
                    try:
                        if s.goto(t,t.frames[-1],l,base,work)!="stop": work.append(t)
                    except PathEnd: pass
            d=z3.And(*neg) if neg else TRUE
            if s.sat(st,[d]):
                st.assume(d); return s.goto(st,f,ins.a[1],base,work)
            raise PathEnd()
        elif op=="select":
            c,a,b=ins.a; c=S(tobool(s.const(st,IntT(1),c))); x=s.const(st,ins.ty,a); y=s.const(st,ins.ty,b)
            if z3.is_true(c): R[ins.res]=x
            elif z3.is_false(c): R[ins.res]=y
            elif z3.is_expr(x) and z3.is_expr(y): R[ins.res]=S(z3.If(c,x,y))
            elif isinstance(x,Ptr) and isinstance(y,Ptr) and x.obj is y.obj: R[ins.res]=Ptr(x.obj,S(z3.If(c,x.off,y.off)))
            else:
                if peek: return "stop"
                t=st.clone(); t.assume(z3.Not(c))
                t.frames[-1].regs[ins.res]=y; t.frames[-1].idx+=1
                if s.sat(t): work.append(t)
                st.assume(c); R[ins.res]=x
                if not s.sat(st): raise PathEnd()
        elif op=="phi": raise AssertionError("phi in step")
        elif op=="call": return s.call(st,f,ins,base,work,peek)
        elif op=="ret":
            v=s.const(st,ins.ty,ins.a[0]) if ins.a[0] is not None else None
            return s.do_ret(st,v,base,work)
        elif op=="unreachable":
            s.fail(st,"control flow: unreachable code is not reached"); raise PathEnd()
        elif op=="extractvalue":
            t,v,ix=ins.a; x=s.const(st,t,v)
            for i in ix: x=x[i]
            R[ins.res]=x
        elif op=="insertvalue":
            v,t2,w,ix=ins.a; x=s.const(st,ins.ty,v); y=s.const(st,t2,w)
            def ins_(x,ix):
                x=list(x)
                if len(ix)==1: x[ix[0]]=y
                else: x[ix[0]]=ins_(x[ix[0]],ix[1:])
                return x
            R[ins.res]=ins_(x,ix)
        elif op=="freeze": R[ins.res]=s.const(st,ins.ty,ins.a[0])
        elif op=="landingpad": R[ins.res]=s.landing(st,ins)
        elif op=="resume":
            return s.unwind(st,base,work,popfirst=True)
        elif op=="fence": pass
        elif op=="atomicrmw":
            o,a,v=ins.a; p=s.const(st,PTR,a); old=s.load(st,p,ins.ty); y=s.const(st,ins.ty,v)
            nv={"add":lambda:old+y,"sub":lambda:old-y,"xchg":lambda:y,"and":lambda:old&y,"or":lambda:old|y,"xor":lambda:old^y}[o]()
            s.store(st,p,nv,ins.ty); R[ins.res]=old
        else: raise Unsupported("instruction %s"%(ins.line or op))
        f.idx+=1
        return None
    # ------------------------------------------------------------ calls
    def call(s,st,f,ins,base,work,peek=False):
        callee,args,norm,unw=ins.a
        if callee[0]=="asm":
            raise Unsupported("inline asm")
        cp=s.const(st,PTR,callee) if callee[0]!="g" else None
        if cp is not None:
            if not isinstance(cp,Ptr) or cp.obj.kind!="func":
                if isinstance(cp,Ptr) and cp.obj.kind=="null": s.fail(st,"memory-safety: call through a null pointer"); raise PathEnd()
                raise Unsupported("indirect call to %r"%cp)
            name=cp.obj.fn
        else: name=callee[1]
        if name.startswith("llvm."):
            r=s.intrinsic(st,f,ins,name,args)
            if ins.res is not None: f.regs[ins.res]=r
            f.idx+=1; return None
        av=[]
        for t,v,byval in args:
            x=s.const(st,t,v)
            if byval is not None:
                sz=s.m.size(byval); o=s.new_obj(st,"byval",sz); s.rawcopy(st,Ptr(o,ZERO),x,bv64(sz)); x=Ptr(o,ZERO)
            av.append(x)
        if peek:
            # peeking for a concrete loop exit: only follow calls that do not fork
            pass
        res=s.do_call(st,name,av,ins)
        live=[]
        for r in res:
            if isinstance(r,Outcome):
                if r.kind=="abort": 
                    if base==0 or True: raise_abort(s,r,work); continue
                live.append(r)
            else: live.append(r)
        first=None
        for r in live:
            if isinstance(r,State):   # frame pushed
                if r is st: first="cont"
                else: work.append(r)
            else:
                try: z=s.finish_call(r,base,work)
                except PathEnd: z="stop"
                if r.st is st: first=z if z is not None else "cont"
                else:
                    if z is None: work.append(r.st)
                    elif isinstance(z,Outcome): s._late.append(z)
        if first is None: return "stop"
        return None if first=="cont" else first
    def finish_call(s,r,base,work):
        """apply the outcome of a model/contract call at the calling instruction of r.st"""
        st=r.st; f=st.frames[-1]; ins=f.fn.blocks[f.blk][f.idx]
        if r.kind=="ret":
            if ins.res is not None: f.regs[ins.res]=r.val
            if ins.a[2] is not None: return s.goto(st,f,ins.a[2],base,work)
            f.idx+=1; return None
        if r.kind=="throw":
            st.exc=r.val
            return s.unwind(st,base,work,popfirst=False)
        raise AssertionError(r.kind)
    def do_call(s,st,name,args,ins,top=False):
        """returns list of State (frame pushed) or Outcome (ret/throw)"""
        d=s.dem(name)
        if s.call_log is not None: s.call_log.append((d,args,st))
        if not top:
            c=s.contracts.get(d)
            if c is None:
                for k,v in s.contracts.items():
                    if k.endswith("*") and d.startswith(k[:-1]): c=v; break
            if c is not None:
                s.contract_hits[d]=s.contract_hits.get(d,0)+1
                r=c(s,st,args,ins)
                if r is not None: return norm_out(r,st)
        mdl=s.find_model(name,d)
        if mdl is not None:
            r=mdl(s,st,args,ins,d)
            if r is not NotImplemented: return norm_out(r,st)
        fn=s.m.funcs.get(name)
        if fn is None or not fn.defined: raise Unsupported("external function without contract: %s"%d)
        if d.startswith("std::") or not d.startswith("lce::") and " std::" in d.split("(")[0] or d.startswith("__gnu_cxx") or "__gnu_cxx::" in d.split("(")[0]:
            if not s.inline_std(d): raise Unsupported("library function without contract: %s"%d)
        if any(fr.fn is fn for fr in st.frames) and sum(fr.fn is fn for fr in st.frames)>=s.max_rec(d): raise Unsupported("recursion without contract: %s"%d)
        if len(st.frames)>40: raise Unsupported("call depth")
        s.fn_seen[d]=s.fn_seen.get(d,0)+1
        fr=Frame(fn); fr.blk=fn.order[0]; fr.ret=ins
        if len(args)<len(fn.params): raise Unsupported("argument count %s"%d)
        for (t,n,bv_),v in zip(fn.params,args): fr.regs[n]=v
        st.frames.append(fr)
        return [st]
    def max_rec(s,d): return 3
    def inline_std(s,d):
        # tiny forwarding helpers of the library that carry no algorithm
        return bool(re.match(r'.*std::(__addressof|addressof|forward|move|max|min|__size_to_integer|operator\||operator&|swap|exchange)\b',d)) or "std::pair<" in d.split("(")[0] and "::pair(" in d or d.startswith(("__gnu_cxx::__normal_iterator<","bool __gnu_cxx::operator","__gnu_cxx::__normal_iterator<char","__gnu_cxx::operator"))
    def find_model(s,name,d):
        if name in s.model_cache: return s.model_cache[name]
        r=None
        for pat,fn in s.models:
            if pat.match(d) or pat.match(name): r=fn; break
        s.model_cache[name]=r; return r
    havoc_note=None
    def model(s,pat,fn): s.models.append((re.compile(pat),fn))
    def do_ret(s,st,v,base,work):
        fr=st.frames.pop()
        for a in fr.allocas:
            if a in st.mem: st.dead[a]="out of scope"
        if len(st.frames)<=base:
            return Outcome("ret",v,st)
        f=st.frames[-1]; ins=f.fn.blocks[f.blk][f.idx]
        if ins.res is not None: f.regs[ins.res]=v
        if ins.a[2] is not None: return s.goto(st,f,ins.a[2],base,work)
        f.idx+=1
        return None
    # ------------------------------------------------------------ exceptions
    def unwind(s,st,base,work,popfirst):
        if popfirst:
            fr=st.frames.pop()
            for a in fr.allocas: st.dead[a]="out of scope"
        while True:
            if len(st.frames)<=base: return Outcome("throw",st.exc,st)
            f=st.frames[-1]; ins=f.fn.blocks[f.blk][f.idx]
            if ins.op=="call" and ins.a[3] is not None:
                tgt=ins.a[3]
                lp=[i for i in f.fn.blocks[tgt] if i.op=="landingpad"]
                if lp and s.lp_sel(st,lp[0]) is not None:
                    return s.goto(st,f,tgt,base,work)
            fr=st.frames.pop()
            for a in fr.allocas: st.dead[a]="out of scope"
    HIER={"_ZTISt13runtime_error":["_ZTISt9exception"],"_ZTISt12out_of_range":["_ZTISt11logic_error","_ZTISt9exception"],
          "_ZTISt12length_error":["_ZTISt11logic_error","_ZTISt9exception"],"_ZTISt9bad_alloc":["_ZTISt9exception"],
          "_ZTISt16invalid_argument":["_ZTISt11logic_error","_ZTISt9exception"],"_ZTISt11logic_error":["_ZTISt9exception"],"_ZTISt14overflow_error":["_ZTISt13runtime_error","_ZTISt9exception"]}
    def typeid_num(s,n):
        if not hasattr(s,"_tid"): s._tid={}
        return s._tid.setdefault(n,len(s._tid)+1)
    def lp_sel(s,st,lp):
        cl,cs=lp.a; et=st.exc[1]
        for kind,v in cs:
            if kind=="catch":
                if v[0]=="null": return s.typeid_num("...")
                if v[1]==et or v[1] in s.HIER.get(et,()): return s.typeid_num(v[1])
            else:
                names=[x[1][1] for x in v[1]] if v[0]=="agg" else []
                if not any(n==et or n in s.HIER.get(et,()) for n in names): return -1
        if cl: return 0
        return None
    def landing(s,st,ins):
        sel=s.lp_sel(st,ins)
        if sel is None: sel=0
        return [st.exc[0],BV(sel,32)]
    # ------------------------------------------------------------ intrinsics
    def intrinsic(s,st,f,ins,name,args):
        A=[s.const(st,t,v) if t.k!="metadata" else None for t,v,b in args]
        if name.startswith("llvm.memcpy"): s.copy(st,A[0],A[1],zx(A[2],64)); return None
        if name.startswith("llvm.memmove"): s.copy(st,A[0],A[1],zx(A[2],64),move=True,what="memmove"); return None
        if name.startswith("llvm.memset"): s.fill(st,A[0],A[1],zx(A[2],64)); return None
        if name.startswith("llvm.bswap"): return S(bswap(A[0]))
        if name.startswith(("llvm.lifetime","llvm.assume","llvm.va_","llvm.stackrestore","llvm.donothing","llvm.experimental","llvm.dbg")): return None
        if name.startswith("llvm.stacksave"): return NULL
        if name.startswith("llvm.threadlocal.address"): return A[0]
        if name.startswith("llvm.eh.typeid.for"):
            p=A[0]; return BV(s.typeid_num(p.obj.name),32)
        if name.startswith("llvm.trap"):
            s.fail(st,"control flow: trap is not reached"); raise PathEnd()
        if name.startswith("llvm.abs."):
            return S(z3.If(A[0]<0,-A[0],A[0]))
        if name.startswith(("llvm.umul.with.overflow","llvm.uadd.with.overflow")):
            w=A[0].size(); e=w*2
            if "mul" in name: r=zx(A[0],e)*zx(A[1],e)
            else: r=zx(A[0],e)+zx(A[1],e)
            lo=S(z3.Extract(w-1,0,r)); ov=S(z3.If(z3.Extract(e-1,w,r)!=BV(0,e-w),BV(1,1),BV(0,1)))
            return [lo,ov]
        if name.startswith("llvm.fabs"): 
            w=A[0].size(); return S(A[0]&BV((1<<(w-1))-1,w))
        raise Unsupported("intrinsic "+name)

class PathEnd(Exception): pass
class Fork(Exception):
    def __init__(s,c): s.conds=c
def raise_abort(s,r,work): pass
def tobool(v):
    if z3.is_bool(v): return v
    # If(c,1,0)==1 -> c
    if z3.is_app(v) and v.decl().kind()==z3.Z3_OP_ITE:
        a,b,c=v.children()
        if isc(b) and isc(c) and cv(b)==1 and cv(c)==0: return a
        if isc(b) and isc(c) and cv(b)==0 and cv(c)==1: return z3.Not(a)
    return v==BV(1,1)
def norm_out(r,st):
    if r is None: return [Outcome("ret",None,st)]
    if isinstance(r,list):
        return [x if isinstance(x,(Outcome,State)) else Outcome("ret",x,st) for x in r]
    if isinstance(r,Outcome): return [r]
    return [Outcome("ret",r,st)]
