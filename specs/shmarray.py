"""Contracts of lce::CShmArray (C08), instantiated with a 24-byte element."""
import z3
from engine import *
import shmlib
TU=["shmarray.cpp"]
C="lce::CShmArray<Elem>"; L="lce::CShmArray<struct Elem>"; ES=24
CONTRACTS=[C+"::"+f for f in("CShmArray","init","operator[]","operator[] const","size","isCreate")]
def init(e,st,this,n,key,create):
    out=[]
    for o in e.run(st,C+"::CShmArray()",[this]):
        for q in e.run(o.st,C+"::init(int, unsigned long, bool, bool)",[this,key,n,BV(int(create),1),BV(0,1)]):
            e.prove(q.st,z3.BoolVal(q.kind=="ret"),"C08 init does not throw")
            for c,t in e.split(q.st,tobool(q.val)): out.append((c is not None,t))
    return out
def elems(e,st,this,n,seg):
    """elements are inside the segment and apart from each other; returns the offset function of element i"""
    i=z3.BitVec("i",64); j=z3.BitVec("j",64); offs=[]
    st=st.clone(); st.assume(z3.And(z3.ULT(i,n),z3.ULT(j,n)))
    for f in("operator[](unsigned long)","operator[](unsigned long) const"):
        for o in e.run(st.clone(),C+"::"+f,[this,i]):
            p=o.val; ok=isinstance(p,Ptr) and p.obj is seg; e.prove(o.st,z3.BoolVal(ok),"C08 element lies in the shared segment")
            if not ok: continue
            e.prove(o.st,z3.And(z3.ULE(p.off,seg.size),z3.ULE(bv64(ES),seg.size-p.off)),"C08 element lies wholly inside the segment")
            offs.append(p.off)
            for q in e.run(o.st,C+"::"+f,[this,j]):
                r=q.val; t=q.st
                if not(isinstance(r,Ptr) and r.obj is seg): continue
                for c,w in e.split(t,z3.ULT(i,j)):
                    if c is None: w.assume(z3.ULT(j,i))
                    lo,hi=(p.off,r.off) if c is not None else (r.off,p.off)
                    if e.sat(w): e.prove(w,z3.And(z3.ULE(lo,hi),z3.UGE(hi-lo,bv64(ES))),"C08 elements do not overlap")
    if len(offs)==2: e.prove(st,offs[0]==offs[1],"C08 const and non-const access give the same element")
    return i,offs
def setup(e):
    shmlib.install(e); st=State(); n=z3.BitVec("n",64); st.assume(z3.ULE(n,1<<40)); key=z3.BitVec("key",32); return st,n,key
def size_is(e,t,this,n,who=""):
    for o in e.run(t.clone(),C+"::size() const",[this]): e.prove(o.st,z3.BoolVal(o.kind=="ret") if o.kind!="ret" else o.val==n,"C08 size() is n"+who)
def u_array(e):
    st,n,key=setup(e); import re
    def m_first(e,st,a,ins,d):   # no such segment yet
        if not cv(S(a[2]))&0o1000: return BV(-1,32)
        return NotImplemented
    base=e.models[:]
    e.models.insert(0,(re.compile(r'shmget$'),lambda e,st,a,ins,d: m_first(e,st,a,ins,d) if not cv(S(a[2]))&0o1000 else dict((p.pattern,f) for p,f in reversed(base))['shmget$'](e,st,a,ins,d))); e.model_cache.clear()
    a=e.newc(st,L,"array"); cov=set(); k=z3.BitVec("k",64)
    for ok,t in init(e,st,a,n,key,True):
        s=shmlib.seg_of(t)
        if not ok: cov.add("refused"); continue
        if not s[2]: continue
        seg=s[1]; cov.add("created"); size_is(e,t,a,n); head=[]
        i,offs=elems(e,t,a,n,seg)
        # bookkeeping: writing every byte of an element leaves size() and the element addresses alone
        for fst in (True,):
            w=t.clone(); w.assume(z3.ULT(i,n)); j=z3.BitVec("j",64); w.assume(z3.ULT(j,n))
            for o in e.run(w,C+"::operator[](unsigned long)",[a,i]):
                p=o.val; e.fill(o.st,p,z3.BitVec("byte",8),bv64(ES)); size_is(e,o.st,a,n," after writing an element")
                for q in e.run(o.st,C+"::operator[](unsigned long)",[a,j]):
                    for c in e.run(t.clone(),C+"::operator[](unsigned long)",[a,j]):
                        e.prove(q.st,z3.BoolVal(q.val.obj is c.val.obj) if q.val.obj is not c.val.obj else q.val.off==c.val.off,"C08 writing an element moves no element")
                # a second process attaches to the segment (content as left by the creator, elements arbitrary)
                b=e.newc(o.st,L,"array2"); e2=o.st; e2.ghost[("nohavoc","attach")]=(seg,)
                for ok2,v in attach(e,e2,b,n,key,seg):
                    if not ok2: cov.add("attach refused"); continue
                    cov.add("attached"); size_is(e,v,b,n," for a process that attaches"); v.assume(z3.ULT(i,n))
                    for x in e.run(v.clone(),C+"::operator[](unsigned long)",[a,i]):
                        for y in e.run(x.st,C+"::operator[](unsigned long)",[b,i]):
                            same=isinstance(y.val,Ptr) and y.val.obj is seg
                            e.prove(y.st,z3.BoolVal(False) if not same else y.val.off==x.val.off,"C08 a process that attaches sees the same elements")
    e.cover(cov,{"created","refused","attached","attach refused"})
def attach(e,st,b,n,key,seg):
    """init(create or not) of a second array when shmget finds the existing segment seg"""
    import re
    def m_get(e,st,a,ins,d):
        f=st.clone(); i=fresh("shmid",32); st.assume(i>=0); fits=z3.ULE(a[1],seg.size)
        if not e.valid(st,fits): st.assume(fits)
        st.ghost[("nohavoc","shm")]=((i,seg,False),)
        return [Outcome("ret",BV(-1,32),f),Outcome("ret",i,st)]
    # the segment exists: shmget without IPC_CREAT finds it or fails for lack of permission
    def m_get2(e,st,a,ins,d):
        fl=cv(S(a[2]))
        if st.ghost.get(("nohavoc","tried")): return [Outcome("ret",BV(-1,32),st)]
        st.ghost[("nohavoc","tried")]=True; return m_get(e,st,a,ins,d)
    e.models.insert(0,(re.compile(r'shmget$'),m_get2)); e.model_cache.clear(); out=[]
    for create in(True,False): out+=init(e,st.clone(),b,n,key,create)
    e.models.pop(0); e.model_cache.clear(); return out
UNITS=[("array",u_array)]
