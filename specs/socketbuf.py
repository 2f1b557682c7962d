"""Contracts of lce::CSocketBuf (C03).  Data invariant: 0<=begin<=end<=bufsize, begin==end only at 0,
the buffer is a live heap block of bufsize bytes (null only when bufsize is 0), 1<=init<=max<2^31, bufsize<=max; ghost content D: byte k held is at begin+k."""
import z3
from engine import *
TU=["socketbuf.cpp"]
C="lce::CSocketBuf"
CONTRACTS=[C+"::"+f for f in("CSocketBuf(int,int)","CSocketBuf()","CSocketBuf(copy)","operator=","~CSocketBuf","addData(int)","addData(char const*,int)","addFreeBuf","eraseFreeBuf","removeData","reset","getters")]
LIM=(1<<31)-1
class R: pass
A8=lambda n: z3.Array(n,z3.BitVecSort(64),z3.BitVecSort(8))
def i64(x): return sx(x,64)
def content(D,b,en):
    junk=fresh_arr("junk")
    def view(e,s,off,n):
        if n>1: return S(z3.Concat(*[view(e,s,S(off+i),1) for i in reversed(range(n))]))
        p=S(off-i64(b)); c=z3.ULT(p,i64(en-b))
        if e.valid(s,c): return z3.Select(D,p)
        return z3.If(c,z3.Select(D,p),z3.Select(junk,off))
    return base_view(view)
def inv(b,en,n,mx,ini): return z3.And(b>=0,b<=en,en<=n,z3.Implies(b==en,b==0),n>=1,n<=mx,mx<=LIM,ini>=1,ini<=mx)
def fresh_state(e,st,tag="",mx=None,ini=None,size=None,D=None,this=None,extra=True):
    """havoc the object under its invariant"""
    r=R(); v=lambda k: fresh(k+tag,32)
    r.b=v("begin"); r.n=v("bufsize"); r.mx=mx if mx is not None else v("max"); r.ini=ini if ini is not None else v("init")
    r.en=v("end") if size is None else r.b+size
    if size is not None: st.assume(z3.And(r.b<=LIM,r.b>=0,size>=0,size<=LIM))
    st.assume(inv(r.b,r.en,r.n,r.mx,r.ini)); r.size=S(r.en-r.b)
    r.D=D if D is not None else A8("held"+tag)
    r.buf=e.new_obj(st,"buffer"+tag,i64(r.n),content(r.D,r.b,r.en)); r.buf.kind="heap"
    r.this=this or e.newc(st,C,"socketbuf"+tag)
    e.setf(st,r.this,C,m_iBufSize=r.n,m_iDataBeginPos=r.b,m_iDataEndPos=r.en,m_iDataAllowMaxSize=r.mx,m_iInitSize=r.ini,m_pszBuf=Ptr(r.buf))
    return r
def fld(e,s,this):
    r=R(); r.b,r.en,r.n,r.mx,r.ini=[e.getf(s,this,C,k,4) for k in("m_iDataBeginPos","m_iDataEndPos","m_iBufSize","m_iDataAllowMaxSize","m_iInitSize")]; r.p=e.getf(s,this,C,"m_pszBuf",8); return r
def check(e,s,this,mx,ini,pieces,why,old=None):
    """ensures: invariant, configuration and content = concatenation of pieces [(length, byte(k))]"""
    f=fld(e,s,this)
    e.prove(s,z3.And(f.mx==mx,f.ini==ini),"C03 limits unchanged"+why)
    e.prove(s,inv(f.b,f.en,f.n,f.mx,f.ini),"C03 buffer positions consistent"+why)
    ok=isinstance(f.p,Ptr) and f.p.obj.kind=="heap" and f.p.obj.id not in s.dead
    e.prove(s,z3.BoolVal(ok),"C03 buffer is a live block"+why)
    if not ok: return
    e.prove(s,z3.And(f.p.off==0,f.p.obj.size==i64(f.n)),"C03 buffer size is the size of the block"+why)
    if old is not None and f.p.obj is not old: e.prove(s,z3.BoolVal(old.id in s.dead),"C03 replaced block is freed"+why)
    tot=BV(0,32)
    for n,_ in pieces: tot=tot+n
    e.prove(s,f.en-f.b==tot,"C03 number of bytes held"+why)
    k=z3.BitVec("k",64); start=BV(0,32)
    for n,g in pieces:
        t=s.clone(); t.assume(z3.ULT(k,i64(n)))
        if e.sat(t): e.prove(t,e.peek(t,Ptr(f.p.obj,S(i64(f.b)+i64(start)+k)),1)==g(t,k),"C03 bytes held are exact"+why)
        start=start+n
def held(r): return (r.size,lambda t,k: z3.Select(r.D,k))
def loop_inv(e,r,this):
    """every loop of the class keeps the invariant and the held bytes"""
    def hook(s,st,f,d,hdr,body):
        if "CSocketBuf::" not in d: return None
        cur={}
        def chk(x,why):
            if not s.suppress: check(e,x,this,r.mx,r.ini,[held(r)],why)
        def hav(h):
            q=fresh_state(e,h,"_l",r.mx,r.ini,r.size,r.D,this); return [q.b,q.n]
        return {"enter":lambda x:chk(x," (loop entry)"),"havoc":hav,"back":lambda x:chk(x," (loop body)"),"skip":lambda c:c[0]==this.obj.id or c[1]=="all","owns":lambda o:True}
    e.loop_hooks=[hook]
def run(e,st,fn,args): return e.run(st,C+"::"+fn,args)
def ret(e,o): e.prove(o.st,z3.BoolVal(o.kind=="ret"),"C03 does not throw"); return o.kind=="ret"
def u_add(e):
    st=State(); r=fresh_state(e,st); n=z3.BitVec("n",32); st.assume(z3.And(n>=0,n<=LIM)); B=A8("src"); src=e.new_obj(st,"src",i64(n),base_arr(B)); loop_inv(e,r,r.this); cov=set()
    for o in run(e,st,"addData(char const*, int)",[r.this,Ptr(src),n]):
        if not ret(e,o): continue
        for c,t in e.split(o.st,tobool(o.val)):
            if c is None:
                cov.add("refused"); e.prove(t,i64(r.size)+i64(n)>i64(r.mx),"C03 addData refuses only what exceeds the maximum"); check(e,t,r.this,r.mx,r.ini,[held(r)]," (refused addData)")
            else:
                cov.add("added"); e.prove(t,i64(r.size)+i64(n)<=i64(r.mx),"C03 addData accepts only up to the maximum"); check(e,t,r.this,r.mx,r.ini,[held(r),(n,lambda t,k:z3.Select(B,k))]," (addData)")
    e.cover(cov,{"refused","added"})
def u_commit(e):
    st=State(); r=fresh_state(e,st); n=z3.BitVec("n",32); loop_inv(e,r,r.this); cov=set(); B=A8("recv"); k=z3.BitVec("k",64)
    for o in run(e,st,"getFreeBuf()",[r.this]):
        if not ret(e,o): continue
        p=o.val
        for q in run(e,o.st,"getFreeSize() const",[r.this]):
            if not ret(e,q): continue
            s=q.st; s.assume(z3.And(n>=0,n<=q.val)); src=e.new_obj(s,"recv",i64(n),base_arr(B)); e.copy(s,p,Ptr(src),i64(n),what="fill of the free area")   # the caller fills n free bytes
            for w in run(e,s,"addData(int)",[r.this,n]):
                if ret(e,w): cov.add("ok"); e.prove(w.st,tobool(w.val),"C03 commit within the free area succeeds"); 
                # commit may leave begin==end only if nothing was held or added
                check(e,w.st,r.this,r.mx,r.ini,[held(r),(n,lambda t,k:z3.Select(B,k))]," (fill and commit)")
    e.cover(cov,{"ok"})
def u_grow(e):
    for fn in("addFreeBuf()","eraseFreeBuf()"):
        st=State(); r=fresh_state(e,st); loop_inv(e,r,r.this); n=0
        for o in run(e,st,fn,[r.this]):
            if not ret(e,o): continue
            n+=1; check(e,o.st,r.this,r.mx,r.ini,[held(r)]," (%s)"%fn,r.buf); f=fld(e,o.st,r.this)
            if fn=="addFreeBuf()": e.prove(o.st,z3.Implies(z3.And(r.n-r.en==0,r.size<r.mx),f.n-f.en>0),"C03 addFreeBuf makes room while below the maximum")
        e.cover({n>0},{True})
def u_remove(e):
    st=State(); r=fresh_state(e,st); n=z3.BitVec("n",32); st.assume(z3.And(n>=0,n<=r.size)); loop_inv(e,r,r.this); c=0
    for o in run(e,st,"removeData(int)",[r.this,n]):
        if not ret(e,o): continue
        c+=1; check(e,o.st,r.this,r.mx,r.ini,[(r.size-n,lambda t,k:z3.Select(r.D,k+i64(n)))]," (removeData)",r.buf)
    e.cover({c>1},{True})
    st=State(); r=fresh_state(e,st); loop_inv(e,r,r.this)
    for o in run(e,st,"reset()",[r.this]):
        if ret(e,o): check(e,o.st,r.this,r.mx,r.ini,[]," (reset)",r.buf)
def u_get(e):
    for fn,want in(("getSize() const",lambda r:r.size),("getRealFreeSize() const",lambda r:r.n-r.size),("getBufSize() const",lambda r:r.n),("getBufMaxSize() const",lambda r:r.mx),("getFreeSize() const",lambda r:r.n-r.en)):
        st=State(); r=fresh_state(e,st)
        for o in run(e,st,fn,[r.this]):
            if ret(e,o): e.prove(o.st,o.val==want(r),"C03 %s is exact"%fn); check(e,o.st,r.this,r.mx,r.ini,[held(r)]," (%s)"%fn,r.buf)
    for fn,off in(("getData() const",lambda r:r.b),("getFreeBuf()",lambda r:r.en)):
        st=State(); r=fresh_state(e,st)
        for o in run(e,st,fn,[r.this]):
            if ret(e,o):
                ok=isinstance(o.val,Ptr) and o.val.obj is r.buf; e.prove(o.st,z3.BoolVal(False) if not ok else o.val.off==i64(off(r)),"C03 %s points at the right byte"%fn)
def u_life(e):
    cov=set()
    st=State(); a=z3.BitVec("init",32); m=z3.BitVec("max",32); st.assume(z3.And(a>=1,a<=m,m<=LIM)); this=e.newc(st,C,"socketbuf")
    for o in run(e,st,"CSocketBuf(int, int)",[this,a,m]):
        if not ret(e,o): continue
        cov.add("made"); check(e,o.st,this,m,a,[]," (constructor)"); p=fld(e,o.st,this).p
        for q in run(e,o.st,"~CSocketBuf()",[this]): cov.add("destroyed"); e.prove(q.st,z3.BoolVal(p.obj.id in q.st.dead),"C03 destructor frees the block")
    for how in("copy","assign","self"):
        st=State(); r=fresh_state(e,st); 
        if how=="copy": d=e.newc(st,C,"copy"); fn,args="CSocketBuf(lce::CSocketBuf const&)",[d,r.this]; oldbuf=None
        elif how=="assign": x=fresh_state(e,st,"2"); d=x.this; fn,args="operator=(lce::CSocketBuf const&)",[d,r.this]; oldbuf=x.buf
        else: d=r.this; fn,args="operator=(lce::CSocketBuf const&)",[d,d]; oldbuf=r.buf
        for o in run(e,st,fn,args):
            if not ret(e,o): continue
            cov.add(how); check(e,o.st,d,r.mx,r.ini,[held(r)]," (%s)"%how,oldbuf); check(e,o.st,r.this,r.mx,r.ini,[held(r)]," (source of %s)"%how,r.buf)
            if how!="self": e.prove(o.st,z3.BoolVal(fld(e,o.st,d).p.obj is not fld(e,o.st,r.this).p.obj),"C03 copy owns its own block")
    # default construction: an empty buffer of capacity 0
    st=State(); this=e.newc(st,C,"socketbuf")
    for o in run(e,st,"CSocketBuf()",[this]):
        if not ret(e,o): continue
        f=fld(e,o.st,this); cov.add("default"); e.prove(o.st,z3.And(f.b==0,f.en==0,f.n==0,f.mx==0),"C03 default-constructed buffer is empty with no room"); e.prove(o.st,z3.BoolVal(isinstance(f.p,Ptr) and f.p.obj.kind=="null"),"C03 default-constructed buffer has no block")
        n=z3.BitVec("n",32); s=o.st.clone(); s.assume(z3.And(n>=0,n<=LIM)); src=e.new_obj(s,"src",i64(n))
        e.unroll={"CSocketBuf::":2}
        for q in run(e,s,"addData(char const*, int)",[this,Ptr(src),n]):
            if ret(e,q): e.prove(q.st,tobool(q.val)==(n==0),"C03 default-constructed buffer accepts nothing")
        d=e.newc(o.st,C,"copy")
        for q in run(e,o.st,"CSocketBuf(lce::CSocketBuf const&)",[d,this]):
            if ret(e,q): f=fld(e,q.st,d); e.prove(q.st,z3.And(f.b==0,f.en==0,f.n==0),"C03 copy of a default-constructed buffer is empty")
    e.cover(cov,{"made","destroyed","copy","assign","self","default"})
UNITS=[("add",u_add),("commit",u_commit),("grow",u_grow),("remove",u_remove),("getters",u_get),("life",u_life)]
