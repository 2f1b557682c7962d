"""Assumed contracts of System V shared memory, used by the CBitmap and CShmArray contracts."""
import z3
from engine import *
def install(e):
    """shmget without IPC_CREAT finds an existing segment of at least the size asked, or fails;
    with IPC_CREAT it makes a zero-filled one of the size asked, or fails.  shmat maps it or returns -1."""
    M=lambda p,f: e.models.insert(0,(__import__("re").compile(p),f)); e.model_cache.clear()
    e.assumptions.add("assumed contract: shmget/shmat/shmdt (segment of at least the requested size, mapped at one address)")
    def segs(st): return st.ghost.get(("nohavoc","shm"),())
    def m_get(e,st,a,ins,d):
        out=[]; flag=S(a[2]); 
        if not isc(flag): raise Unsupported("symbolic shmget flags")
        create=bool(cv(flag)&0o1000)
        f=st.clone(); f.ghost[("nohavoc","shmfail")]=True; out.append(Outcome("ret",BV(-1,32),f))
        i=fresh("shmid",32); st.assume(i>=0)
        if create: o=e.new_obj(st,"segment",a[1],base_fill(BV(0,8)))
        else:
            sz=fresh("segsize",64); st.assume(z3.And(z3.UGE(sz,a[1]),z3.ULE(sz,bv64(1<<62)))); o=e.new_obj(st,"segment",sz)
        st.ghost[("nohavoc","shm")]=segs(st)+((i,o,create),)
        return out+[Outcome("ret",i,st)]
    M(r'shmget$',m_get)
    def m_at(e,st,a,ins,d):
        f=st.clone(); out=[Outcome("ret",Ptr(FIXOBJ,bv64(-1)),f)]
        for i,o,c in segs(st):
            if i is a[0] or e.valid(st,a[0]==i): return out+[Outcome("ret",Ptr(o),st)]
        raise Unsupported("shmat of an unknown segment")
    M(r'shmat$',m_at)
    M(r'shmdt$',lambda e,st,a,ins,d: fresh("shmdt",32))
    def m_strerror(e,st,a,ins,d): return Ptr(e.new_obj(st,"strerror",64),ZERO)
    M(r'strerror$',m_strerror)
def seg_of(st):
    s=st.ghost.get(("nohavoc","shm"),()); return s[-1] if s else None
