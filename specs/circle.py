"""Contracts of lce::CCircleQueue (C04), instantiated with a 64-bit element."""
import z3
from engine import *
TU=["circle.cpp"]
C="lce::CCircleQueue<unsigned long>"
CONTRACTS=[C+"::"+f for f in("init","empty","full","enque","deque","~CCircleQueue")]
class R: pass
def setup(e,st):
    r=R(); r.N=z3.BitVec("slots",32); r.f=z3.BitVec("front",32); r.r=z3.BitVec("rear",32)
    st.assume(z3.And(z3.UGE(r.N,2),z3.ULT(r.f,r.N),z3.ULT(r.r,r.N)))
    r.P=z3.Array("slot_bytes",z3.BitVecSort(64),z3.BitVecSort(8))
    r.d=e.new_obj(st,"slots",zx(r.N,64)*8,base_arr(r.P)); r.d.kind="heap"
    r.this=e.newc(st,C,"queue",m_dwFront=r.f,m_dwRear=r.r,m_dwSize=r.N,pData=Ptr(r.d))
    return r
def F(e,s,r,k): return e.getf(s,r.this,C,k,4)
def slot(e,s,r,i): return e.peek(s,Ptr(r.d,S(zx(i,64)*8)),8)
def old(e,s,r,i): return e._read(s,base_arr(r.P),S(zx(i,64)*8),8)
def nxt(i,N): return z3.If(i+1==N,BV(0,32),i+1)
def unchanged(e,s,r,f=None,rr=None,who=""):
    e.prove(s,F(e,s,r,"m_dwFront")==(r.f if f is None else f),"C04 front position as specified"+who)
    e.prove(s,F(e,s,r,"m_dwRear")==(r.r if rr is None else rr),"C04 rear position as specified"+who)
    e.prove(s,F(e,s,r,"m_dwSize")==r.N,"C04 slot count unchanged"+who)
    p=e.getf(s,r.this,C,"pData",8); e.prove(s,z3.BoolVal(isinstance(p,Ptr) and p.obj is r.d),"C04 slot array unchanged"+who)
def seen(e,s,r,k,a):
    "the other thread sees only the position before and the position after the operation"
    v=F(e,s,r,k); e.prove(s,z3.Or(v==a,v==nxt(a,r.N)),"C04 no other position is visible to the other thread")
def u_enque(e):
    st=State(); r=setup(e,st); v=z3.BitVec("value",64); j=z3.BitVec("j",32); a=e.new_obj(st,"elem",8); e.rawstore(st,Ptr(a),v,8)
    cov=set(); isfull=nxt(r.r,r.N)==r.f
    ro=e.foff(C,"m_dwRear"); fo=e.foff(C,"m_dwFront")
    def hook(e_,s,p,n,rw):
        if rw!="w" or e_.suppress: return
        if p.obj is r.this.obj:
            lo=cv(S(p.off)); n_=n if isinstance(n,int) else cv(S(n))
            e_.prove(s,z3.BoolVal(lo+n_<=fo or lo>=fo+4),"C04 producer writes only the rear position")
            if lo<ro+4 and lo+n_>ro: e_.prove(s,slot(e_,s,r,r.r)==v,"C04 slot is fully written before the position that publishes it moves"); seen(e_,s,r,"m_dwRear",r.r)
        elif p.obj is r.d: e_.prove(s,z3.And(p.off==zx(r.r,64)*8),"C04 producer writes only the slot at rear"); cov.add("slot")
    e.access_hook=hook
    for o in e.run(st,C+"::enque(unsigned long const&)",[r.this,Ptr(a)]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C04 enque does not throw"); ret=tobool(o.val)
        t=s.clone(); t.assume(z3.Not(ret))
        if e.sat(t):
            cov.add("full"); e.prove(t,isfull,"C04 enque refuses only when capacity elements are held"); unchanged(e,t,r,who=" (refused)")
            t.assume(z3.ULT(j,r.N)); e.prove(t,slot(e,t,r,j)==old(e,t,r,j),"C04 refused enque changes no element")
        s.assume(ret)
        if not e.sat(s): continue
        cov.add("ok"); e.prove(s,z3.Not(isfull),"C04 enque accepts only while fewer than capacity elements are held")
        unchanged(e,s,r,rr=nxt(r.r,r.N),who=" (enque)"); e.prove(s,slot(e,s,r,r.r)==v,"C04 enque stores the element at the end")
        s.assume(z3.And(z3.ULT(j,r.N),j!=r.r)); e.prove(s,slot(e,s,r,j)==old(e,s,r,j),"C04 enque changes no other element")
    e.access_hook=None; e.cover(cov,{"full","ok","slot"})
def u_deque(e):
    st=State(); r=setup(e,st); j=z3.BitVec("j",32); v0=z3.BitVec("out0",64); a=e.new_obj(st,"elem",8); e.rawstore(st,Ptr(a),v0,8)
    cov=set(); fo=e.foff(C,"m_dwFront")
    def hook(e_,s,p,n,rw):
        if e_.suppress: return
        if rw!="w":
            # (front, rear] wraps around one reserved slot: the producer cannot write the slot at the old front even after front moved past it
            if p.obj is r.d: e_.prove(s,p.off==zx(r.f,64)*8,"C04 consumer reads only the slot at front")
            return
        if p.obj is r.this.obj:
            lo=cv(S(p.off)); n_=n if isinstance(n,int) else cv(S(n))
            e_.prove(s,z3.BoolVal(lo>=fo and lo+n_<=fo+4),"C04 consumer writes only the front position")
            seen(e_,s,r,"m_dwFront",r.f)
        elif p.obj is r.d: e_.prove(s,FALSE,"C04 consumer writes no slot")
    e.access_hook=hook
    for o in e.run(st,C+"::deque(unsigned long&)",[r.this,Ptr(a)]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C04 deque does not throw"); ret=tobool(o.val)
        t=s.clone(); t.assume(z3.Not(ret))
        if e.sat(t):
            cov.add("empty"); e.prove(t,r.f==r.r,"C04 deque refuses only when empty"); unchanged(e,t,r,who=" (empty)")
            e.prove(t,e.peek(t,Ptr(a),8)==v0,"C04 deque of an empty queue leaves the argument alone")
        s.assume(ret)
        if not e.sat(s): continue
        cov.add("ok"); e.prove(s,r.f!=r.r,"C04 deque succeeds only when not empty"); unchanged(e,s,r,f=nxt(r.f,r.N),who=" (deque)")
        e.prove(s,e.peek(s,Ptr(a),8)==old(e,s,r,r.f),"C04 deque returns the oldest element")
        s.assume(z3.ULT(j,r.N)); e.prove(s,slot(e,s,r,j)==old(e,s,r,j),"C04 deque changes no element")
    e.access_hook=None; e.cover(cov,{"empty","ok"})
def u_obs(e):
    for fn,want in(("empty()",lambda r:r.f==r.r),("full()",lambda r:nxt(r.r,r.N)==r.f)):
        st=State(); r=setup(e,st); n=0
        for o in e.run(st,C+"::"+fn,[r.this]):
            n+=1; e.prove(o.st,z3.BoolVal(o.kind=="ret"),"C04 observers do not throw"); e.prove(o.st,tobool(o.val)==want(r),"C04 %s is exact"%fn); unchanged(e,o.st,r,who=" (%s)"%fn)
        e.cover({n>0},{True})
def u_init(e):
    st=State(); n=z3.BitVec("n",32); st.assume(n!=BV(0xffffffff,32)); cov=set()
    this=e.newc(st,C,"queue"); 
    for o in e.run(st,C+"::CCircleQueue()",[this]):
        for q in e.run(o.st,C+"::init(unsigned int)",[this,n]):
            s=q.st; e.prove(s,z3.BoolVal(q.kind=="ret"),"C04 init does not throw"); cov.add("init")
            want=z3.If(n==0,BV(1001,32),n+1); e.prove(s,e.getf(s,this,C,"m_dwSize",4)==want,"C04 init gives capacity n (0 means 1000)")
            e.prove(s,z3.And(e.getf(s,this,C,"m_dwFront",4)==e.getf(s,this,C,"m_dwRear",4),z3.ULT(e.getf(s,this,C,"m_dwFront",4),want)),"C04 init makes an empty queue")
            p=e.getf(s,this,C,"pData",8); ok=isinstance(p,Ptr) and p.obj.kind=="heap"; e.prove(s,z3.BoolVal(ok),"C04 init allocates the slots")
            if ok: e.prove(s,z3.And(p.off==0,z3.UGE(p.obj.size,zx(want,64)*8)),"C04 one slot more than the capacity")
            for d in e.run(s,C+"::~CCircleQueue()",[this]): cov.add("destroyed"); e.prove(d.st,z3.BoolVal(ok and p.obj.id in d.st.dead),"C04 destructor frees the slots")
    e.cover(cov,{"init","destroyed"})
UNITS=[("enque",u_enque),("deque",u_deque),("observers",u_obs),("init",u_init)]
