"""Monitor contract of lce::CTask (C23): the task queue is a sequence slot[h..t) protected by m_lock."""
import z3
from engine import *
import locklib
TU=["task.cpp","/repo/src/CTask.cpp","/repo/src/CThread.cpp"]
C="lce::CTask"; T=C+"::CTaskThread"; I=C+"::STaskInfo"
CONTRACTS=[C+"::dispatch",T+"::run",C+"::init (lock and condition)"]
class Seq:
    """abstract std::queue<STaskInfo>: elements h..t-1 of the slots object"""
    def __init__(s,h,t): s.h=h; s.t=t
    def env(s): return {"h":s.h,"t":s.t}
    def havoc(s,e,st): a,b=fresh("h",64),fresh("t",64); return Seq(a,b),[a,b]
def opaque(e):
    """data pointers of tasks are opaque 64-bit values"""
    e.m_ptr_from_bits=lambda st,v,p: Ptr(FIXOBJ,v)
class Q:
    def __init__(q,e):
        q.e=e; q.st=st=State(); opaque(e); q.max=z3.BitVec("limit",32); q.this=e.newc(st,C,"task",m_iMaxSize=q.max); e.rawstore(st,q.this,Ptr(e.gobj(st,"_ZTV1W"),bv64(16)),8)
        q.lk=e.foff(C,"m_lock"); q.cd=e.foff(C,"m_cond"); q.qo=e.foff(C,"m_queTaskQueue"); q.szI=e.csize(I); q.oT=e.foff(I,"iTaskType"); q.oD=e.foff(I,"pData")
        q.slots=e.new_obj(st,"slots",bv64(1<<50)); q.mon=m=locklib.Monitor(e,"C23",lambda s,p: p.obj is q.this.obj and isc(p.off) and cv(p.off)==q.lk,q.fresh,lambda s: TRUE,q.prot,q.released,lambda c: c[0]==q.slots.id,None)
        m.is_cond=lambda s,p: p.obj is q.this.obj and isc(p.off) and cv(p.off)==q.cd; m.skipabs=lambda k: k=="q"; m.unchanged=lambda s: z3.And(s.abs["q"].h==m.old(s)[1]["q"].h,s.abs["q"].t==m.old(s)[1]["q"].t)
        m.on_wake=q.woken; q.allow=None; q.waits=None; q.fresh(st); m.start(st); q.models()
    def woken(q,s):
        if q.mon.is_held(s) or s.ghost.get(("nohavoc","done")): s.ghost[("nohavoc","woken")]=True
    def fresh(q,s):
        h,t=fresh("h",64),fresh("t",64); s.assume(z3.And(z3.ULE(h,t),z3.ULE(t,1<<40))); s.abs["q"]=Seq(h,t); s.mem[q.slots.id]=base_arr(fresh_arr("slots"))
    def prot(q,s,p): return p.obj is q.slots
    def elem(q,s,i,mem=None):
        m=(mem or s.mem)[q.slots.id]; r=lambda o,n: q.e._read(s,m,S(i*q.szI+o),n); return r(q.oT,4),r(q.oD,8)
    def released(q,s,k):
        e=q.e; m0,a0=q.mon.old(s); a,b=a0["q"],s.abs["q"]; s.ghost[("nohavoc","seen")]=S(a.t-a.h)
        if a.h.eq(b.h) and a.t.eq(b.t) and m0[q.slots.id] is s.mem[q.slots.id]: pass
        else:
            if q.allow is None: e.fail(s,"C23 this operation does not change the queue")
            else: q.allow(s,m0,a,b)
            s.ghost[("nohavoc","done")]=True
        if k!="unlock": 
            if q.waits is None: e.fail(s,"C23 this operation does not wait")
            else: e.prove(s,q.waits(b),"C23 a worker waits only while no task is queued")
    def models(q):
        e=q.e
        def w(f):
            def m(e_,st,a,ins,d):
                e_.assumptions.add("assumed contract: std::queue<STaskInfo> is a first-in first-out sequence")
                p=a[0]
                if not(isinstance(p,Ptr) and p.obj is q.this.obj and isc(p.off) and cv(p.off)==q.qo): raise Unsupported("another queue")
                e.prove(st,q.mon.held(st)==1,"C23 the queue is only touched while its lock is held"); return f(st,a,st.abs["q"])
            return m
        P=r'std::queue<lce::CTask::STaskInfo, .*>::'
        def some(st,x,w): e.prove(st,z3.ULT(x.h,x.t),"C23 %s is called on a non-empty queue"%w)
        def front(st,a,x): some(st,x,"front"); return Ptr(q.slots,S(x.h*q.szI))
        def back(st,a,x): some(st,x,"back"); return Ptr(q.slots,S((x.t-1)*q.szI))
        def pop(st,a,x): some(st,x,"pop"); st.abs["q"]=Seq(S(x.h+1),x.t); return None
        def push(st,a,x):
            e.access(st,a[1],q.szI,"r","pushed task")
            for o,n in((q.oT,4),(q.oD,8)):
                v=e._read(st,st.mem[a[1].obj.id],S(a[1].off+o),n); e.rawstore(st,Ptr(q.slots,S(x.t*q.szI+o)),e.ptrtoint(st,v) if isinstance(v,(Ptr,UndefPtr)) else v,n)
            st.abs["q"]=Seq(x.h,S(x.t+1)); return None
        M=e.model
        M(P+r'empty\(\) const',w(lambda st,a,x: S(z3.If(x.h==x.t,BV(1,1),BV(0,1))))); M(P+r'size\(\) const',w(lambda st,a,x: S(x.t-x.h)))
        M(P+r'front\(\)',w(front)); M(P+r'back\(\)',w(back)); M(P+r'pop\(\)',w(pop)); M(P+r'push\(',w(push))
        M(r'void std::queue<lce::CTask::STaskInfo, .*>::emplace<lce::CTask::STaskInfo( const)?&',w(push))
        h0=e.access_hook
        def hook(e_,st,p,n,rw):
            h0(e_,st,p,n,rw)
            if p.obj is q.slots and not e_.suppress: x=st.abs["q"]; i=z3.UDiv(p.off,bv64(q.szI)); e_.prove(st,z3.And(z3.ULE(x.h*q.szI,p.off),z3.ULT(p.off,x.t*q.szI)),"C23 a task is read from the queue only while it is queued")
        e.access_hook=hook
def u_dispatch(e):
    q=Q(e); ty=z3.BitVec("type",32); data=z3.BitVec("data",64); cov=set(); K=z3.BitVec("K",64)
    def allow(s,m0,a,b):
        e.prove(s,z3.BoolVal(not s.ghost.get(("nohavoc","done"))),"C23 dispatch adds a task once"); e.prove(s,z3.And(b.h==a.h,b.t==a.t+1),"C23 dispatch adds exactly one task")
        x=q.elem(s,a.t); e.prove(s,z3.And(x[0]==ty,x[1]==data),"C23 the task queued last has the type and data given"); u,v=q.elem(s,K,m0),q.elem(s,K); e.prove(s,z3.Implies(z3.And(z3.ULE(a.h,K),z3.ULT(K,a.t)),z3.And(u[0]==v[0],u[1]==v[1])),"C23 dispatch keeps the tasks already queued")
    q.allow=allow
    for o in e.run(q.st,C+"::dispatch(int, void*)",[q.this,ty,Ptr(FIXOBJ,data)]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C23 dispatch does not throw"); e.prove(s,q.mon.held(s)==0,"C23 dispatch releases the lock on every path"); done=bool(s.ghost.get(("nohavoc","done"))); n=s.ghost.get(("nohavoc","seen"))
        e.prove(s,z3.BoolVal(n is not None),"C23 dispatch takes the lock")
        if n is None: continue
        e.prove(s,o.val==BV(0 if done else -1,32),"C23 dispatch returns 0 exactly when it queued the task and -1 otherwise")
        over=z3.UGT(n,sx(q.max,64)); e.prove(s,over==z3.BoolVal(not done),"C23 a task is refused exactly when more tasks than the limit are queued")
        if done: e.prove(s,z3.BoolVal(bool(s.ghost.get(("nohavoc","woken")))),"C23 a queued task wakes a worker")
        cov.add("queued" if done else "refused")
    e.cover(cov,{"queued","refused"})
def u_run(e):
    q=Q(e); st=q.st; th=e.newc(st,T,"thread",m_pTask=q.this); q.waits=lambda b: b.h==b.t; cov=set(); idx=e.getf(st,th,T,"m_iIndex",4); stop=e.foff(T,"m_iStop")
    def allow(s,m0,a,b):
        e.prove(s,z3.And(b.h==a.h+1,b.t==a.t),"C23 a worker takes exactly one task"); e.prove(s,z3.BoolVal(s.ghost.get(("nohavoc","pending")) is None),"C23 a worker takes a task only after the previous one was handed over"); s.ghost[("nohavoc","pending")]=q.elem(s,a.h,m0); cov.add("taken")
    q.allow=allow
    def work(e_,s,a,ins,d):
        p=s.ghost.get(("nohavoc","pending")); e.prove(s,z3.BoolVal(p is not None),"C23 work is called only for a task taken from the queue, once")
        if p is not None: e.prove(s,z3.And(a[0]==p[0],e.ptrtoint(s,a[1])==p[1]),"C23 the worker handles the oldest task with its type and data"); e.prove(s,a[2]==idx,"C23 the worker passes its index"); cov.add("worked")
        e.prove(s,q.mon.held(s)==0,"C23 tasks are handled without holding the lock"); s.ghost[("nohavoc","pending")]=None; return None
    e.model(r'lv_work\(int, void\*, int\)$',work)
    m=q.mon
    base=m.loop
    def wrapped(e_,st_,f,dname,hdr,body):
        r=base(e_,st_,f,dname,hdr,body)
        if r is not None and "CTaskThread::run" in dname and not q.mon.is_held(st_):
            def none(t): e.prove(t,z3.BoolVal(t.ghost.get(("nohavoc","pending")) is None),"C23 every task taken is handed to the worker's function before the next round"); e.prove(t,q.mon.held(t)==0,"C23 the lock is free at every round of a worker")
            if not e.suppress: none(st_)
            ob=r.get("back"); r["back"]=lambda b: (ob and ob(b),none(b)); hv=r.get("havoc")
            def havoc(h): x=(hv(h) if hv else []) or []; v=fresh("stop",32); e.rawstore(h,th+stop,v,4); return x+[v]
            r["havoc"]=havoc
        return r
    m.loop=wrapped
    for o in e.run(st,T+"::run()",[th]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C23 a worker does not throw"); e.prove(s,q.mon.held(s)==0,"C23 a worker ends with the lock free"); e.prove(s,z3.BoolVal(s.ghost.get(("nohavoc","pending")) is None),"C23 no task is lost when a worker stops"); cov.add("stopped")
    e.cover(cov,{"taken","worked","stopped"})
UNITS=[("dispatch",u_dispatch),("run",u_run)]
