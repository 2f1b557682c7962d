"""Contracts of lce::CLogBuffer (C21): ghost content = data[0..size)."""
import z3
from engine import *
TU=["logbuffer.cpp"]
C="lce::CLogBuffer"
CONTRACTS=[C+"::"+f for f in("CLogBuffer","~CLogBuffer","init","write","reset","data","size","empty","full")]
class B: pass
def setup(e,ready=True):
    b=B(); b.st=st=State(); b.max=z3.BitVec("max",64); b.n=z3.BitVec("size",64); b.full=z3.BitVec("full",8); st.assume(z3.And(z3.ULE(b.n,b.max),z3.ULE(b.max,1<<47),z3.ULE(b.full,1)))
    b.this=e.newc(st,C,"log"); b.arr=fresh_arr("content")
    if ready: b.data=e.new_obj(st,"data",b.max,base_arr(b.arr)); b.data.kind="heap"; e.setf(st,b.this,C,m_pData=Ptr(b.data),m_dwMaxSize=b.max,m_dwSize=b.n,m_bFull=b.full)
    else: st.assume(z3.And(b.max==0,b.n==0,b.full==0)); e.setf(st,b.this,C,m_pData=NULL,m_dwMaxSize=ZERO,m_dwSize=ZERO,m_bFull=BV(0,8))
    return b
def get(e,s,b): g=lambda k,w: e.getf(s,b.this,C,k,w); return g("m_pData",8),g("m_dwMaxSize",8),g("m_dwSize",8),g("m_bFull",1)
def kept(e,s,b,size=None,full=None,w=""):
    d,m,n,f=get(e,s,b); e.prove(s,z3.And(z3.BoolVal(d.obj is b.data),d.off==0,m==b.max),w+" keeps the storage"); e.prove(s,n==(b.n if size is None else size),w+" leaves the stated size"); e.prove(s,(f!=0)==((b.full!=0) if full is None else z3.BoolVal(full)),w+" leaves the stated full flag"); return n
K=z3.BitVec("K",64)
def u_write(e):
    b=setup(e); st=b.st; L=z3.BitVec("len",64); src=fresh_arr("given"); so=e.new_obj(st,"given",L,base_arr(src)); cov=set()
    st.assume(z3.Or(z3.ULE(L,1<<47),z3.UGT(L,b.max-b.n)))
    for o in e.run(st,C+"::write(char const*, unsigned long)",[b.this,Ptr(so),L]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C21 write does not throw"); fits=z3.ULE(L,b.max-b.n); e.prove(s,(o.val==BV(1,1))==fits,"C21 write succeeds exactly when the data fits the remaining space")
        rd=lambda i: e._read(s,s.mem[b.data.id],i,1)
        if e.decide(s,o.val==BV(1,1)):
            cov.add("written"); kept(e,s,b,b.n+L,None,"C21 write"); e.prove(s,z3.Implies(z3.ULT(K,b.n),rd(K)==z3.Select(b.arr,K)),"C21 write keeps the bytes already held"); e.prove(s,z3.Implies(z3.ULT(K,L),rd(b.n+K)==z3.Select(src,K)),"C21 write appends exactly the bytes given")
        else:
            cov.add("refused"); kept(e,s,b,None,True,"C21 a refused write"); e.prove(s,z3.Implies(z3.ULT(K,b.n),rd(K)==z3.Select(b.arr,K)),"C21 a refused write changes no held byte")
    e.cover(cov,{"written","refused"})
    b=setup(e,False); so=e.new_obj(b.st,"given",L)
    for o in e.run(b.st,C+"::write(char const*, unsigned long)",[b.this,Ptr(so),L]): d,m,n,f=get(e,o.st,b); e.prove(o.st,z3.And(o.val==BV(0,1),z3.BoolVal(o.kind=="ret" and d.obj is NULLOBJ),n==0,f==0),"C21 a buffer that is not initialised refuses every write")
def u_obs(e):
    for ready in(True,False):
        b=setup(e,ready); d0=get(e,b.st,b)
        for f,val in(("empty()",lambda b: z3.If(b.n==0,BV(1,1),BV(0,1))),("full()",lambda b: z3.If(b.full!=0,BV(1,1),BV(0,1))),("size()",lambda b: b.n)):
            for o in e.run(b.st.clone(),C+"::"+f,[b.this]): e.prove(o.st,o.val==val(b),"C21 %s reports the state"%f); d1=get(e,o.st,b); e.prove(o.st,z3.And(z3.BoolVal(d1[0].obj is d0[0].obj),*[x==y for x,y in zip(d0[1:],d1[1:])]),"C21 %s changes nothing"%f)
        for o in e.run(b.st.clone(),C+"::data()",[b.this]): e.prove(o.st,z3.And(z3.BoolVal(o.val.obj is d0[0].obj),o.val.off==0),"C21 data() is the start of the held bytes")
        for o in e.run(b.st.clone(),C+"::reset()",[b.this]):
            d,m,n,f=get(e,o.st,b); e.prove(o.st,z3.And(z3.BoolVal(d.obj is d0[0].obj),n==0,f==0,m==b.max,o.val==BV(1,1)),"C21 reset empties the buffer and clears the full flag")
def u_life(e):
    st=State(); this=e.newc(st,C,"log"); b=B(); b.this=this; b.max=z3.BitVec("asked",64); ok=set()
    for o in e.run(st,C+"::CLogBuffer()",[this]):
        s=o.st; d,m,n,f=get(e,s,b); e.prove(s,z3.And(z3.BoolVal(d.obj is NULLOBJ),m==0,n==0,f==0),"C21 a new buffer is not initialised")
        for p in e.run(s,C+"::init(unsigned long)",[this,b.max]):
            t=p.st; d,m,n,f=get(e,t,b)
            if p.kind=="throw": e.prove(t,z3.BoolVal(d.obj is NULLOBJ),"C21 a failed init leaves the buffer not initialised"); ok.add("nomem"); continue
            ok.add("made"); e.prove(t,z3.And(p.val==BV(1,1),z3.BoolVal(d.obj.kind=="heap"),d.off==0,d.obj.size==b.max,m==b.max,n==0,f==0),"C21 init provides an empty buffer of the size asked")
            for r in e.run(t,C+"::~CLogBuffer()",[this]): e.prove(r.st,z3.BoolVal(r.kind=="ret" and d.obj.id in r.st.dead),"C21 destruction frees the storage")
    b=setup(e); x=z3.BitVec("asked2",64)
    for o in e.run(b.st,C+"::init(unsigned long)",[b.this,x]): e.prove(o.st,z3.BoolVal(o.kind=="ret"),"C21 init again does not throw"); kept(e,o.st,b,None,None,"C21 init of an initialised buffer"); e.prove(o.st,o.val==BV(1,1),"C21 init of an initialised buffer succeeds")
    e.cover(ok,{"made","nomem"})
UNITS=[("write",u_write),("observers",u_obs),("lifetime",u_life)]
