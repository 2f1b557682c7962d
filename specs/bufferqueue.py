"""Contracts of lce::CBufferQueue (properties C01, C02)."""
import z3
from engine import *
import models
TU=["bufferqueue.cpp"]
HDR=40
class R: pass

def setup(e,st,case,limit=1<<35):
    """requires: the ring invariant.  One region object: 40-byte header, then S data bytes.  Ghost
    content: logical byte k of the ring is the byte k positions after begin (cyclically); the first
    queued message's length L is logical bytes 0..7 when the ring is not empty.
    case: 'linear' (end>=begin) or 'wrapped' (end<begin)."""
    r=R(); r.S=z3.BitVec("S",64); r.b=z3.BitVec("begin",64); r.en=z3.BitVec("end",64); r.num=z3.BitVec("num",64)
    r.V=z3.Array("logical",z3.BitVecSort(64),z3.BitVecSort(8)); r.L=z3.BitVec("firstlen",64)
    r.lin=case=="linear"
    st.assume(z3.And(z3.UGE(r.S,17),z3.ULE(r.S,limit)))
    st.assume(z3.ULT(r.b,r.S)); st.assume(z3.ULT(r.en,r.S))
    st.assume(z3.UGE(r.en,r.b) if r.lin else z3.ULT(r.en,r.b))
    r.u=r.en-r.b if r.lin else r.S-r.b+r.en
    # the ring holds nothing, or whole messages with their length words
    st.assume(z3.ULE(r.u,r.S-8)); rest=r.u-8-r.L
    st.assume(z3.Or(r.u==0,z3.And(z3.UGE(r.u,9),z3.UGE(r.L,1),z3.ULE(r.L,r.u-8),
                                  z3.Or(rest==0,z3.And(z3.UGE(rest,9),z3.UGE(r.num,2))),z3.UGE(r.num,1),z3.ULE(r.num,0xfffffffe))))  # fewer than 2^32 messages fit a ring of <=2^35 bytes
    r.node=Node("st",base_arr(r.V),ZERO,8,r.L)
    def view(e_,s,off,n):
        p=S(off-HDR)
        if e_.valid(s,z3.UGE(p,r.b)) and e_.valid(s,z3.ULE(p,r.S-n)): return e_._read(s,r.node,p-r.b,n)
        if e_.valid(s,z3.ULT(p,r.b)) and e_.valid(s,z3.ULE(p,r.b-n)): return e_._read(s,r.node,p-r.b+r.S,n)
        if n>1: return S(z3.Concat(*[view(e_,s,S(off+i),1) for i in reversed(range(n))]))
        return z3.If(z3.UGE(p,r.b),e_._read(s,r.node,p-r.b,1),e_._read(s,r.node,p-r.b+r.S,1))
    r.reg=e.new_obj(st,"ring",r.S+HDR,base_view(view))
    p=Ptr(r.reg)
    for i,v in enumerate((r.S,bv64(8),r.b,r.en,r.num)): e.rawstore(st,p+8*i,v,8)
    r.this=e.new_obj(st,"queue",16); e.rawstore(st,Ptr(r.this),p,8); e.rawstore(st,Ptr(r.this)+8,p+HDR,8)
    return r
def wraps(e,s,x,S_):
    """case split of a position x<2S taken modulo S"""
    return [(x if c is not None else x-S_,t) for c,t in e.split(s,z3.ULT(x,S_))]
def hdr(e,st,r,i): return e.peek(st,Ptr(r.reg)+8*i,8)
def oldbyte(e,st,r,k): return e._read(st,r.node,k,1)
def bytes_kept(e,s,r,k,name):
    """ensures: logical byte k (counted from the old begin) still has its old value"""
    for p,t in wraps(e,s,r.b+k,r.S):
        e.prove(t,e.peek(t,Ptr(r.reg,S(p+HDR)),1)==oldbyte(e,t,r,k),name)
def word_at(e,s,r,pos,val,name):
    """ensures: the 8 bytes at ring position pos (cyclically) hold val, least significant byte first"""
    for i in range(8):
        for p,t in wraps(e,s,pos+i,r.S):
            e.prove(t,e.peek(t,Ptr(r.reg,S(p+HDR)),1)==z3.Extract(8*i+7,8*i,val),name)

def guard_producer(e,r):
    k=z3.BitVec("k_used",64)
    def hook(e_,st,p,n,rw):
        if p.obj is not r.reg or rw!="w" or e_.suppress: return
        n=bv64(n) if isinstance(n,int) else n
        t=st.clone(); t.assume(n!=0)
        if not e_.sat(t): return
        e_.prove(t,z3.Or(z3.ULE(p.off+n,bv64(16)),z3.UGE(p.off,bv64(24))),"C02 producer never writes the read position")
        t.assume(z3.ULT(k,r.u))
        for a,v in wraps(e_,t,r.b+k,r.S):
            e_.prove(v,z3.Or(z3.UGE(p.off,a+HDR+1),z3.ULE(p.off+n,a+HDR)),"C02 producer never writes a byte of a queued message")
    e.access_hook=hook
def guard_consumer(e,r):
    def hook(e_,st,p,n,rw):
        if p.obj is not r.reg or rw!="w" or e_.suppress: return
        n=bv64(n) if isinstance(n,int) else n
        e_.prove(st,z3.Or(n==0,z3.And(z3.UGE(p.off,16),z3.ULE(p.off+n,24)),z3.And(z3.UGE(p.off,32),z3.ULE(p.off+n,40))),
                "C02 consumer writes only the read position and the count")
    e.access_hook=hook
def same_header(e,st,r,b=None,en=None,num=None,p="C01"):
    e.prove(st,hdr(e,st,r,0)==r.S,"C02 ring size unchanged"); e.prove(st,hdr(e,st,r,1)==8,"C02 reserve length unchanged")
    for x,f,n in ((r.b if b is None else b,2,"read"),(r.en if en is None else en,3,"write")):
        for q,t in (wraps(e,st,x,r.S) if (b if f==2 else en) is not None else [(x,st)]):
            e.prove(t,hdr(e,t,r,f)==q,p+" %s position as specified"%n)
    if num is not None: e.prove(st,hdr(e,st,r,4)==num,p+" message count as specified")

def push_common(e,two,case,part):
    st=State(); r=setup(e,st,case); st.assume(z3.ULE(r.en,r.S-8) if part=="flat" else z3.UGT(r.en,r.S-8))
    l1=z3.BitVec("len1",64); st.assume(z3.ULE(l1,(1<<47) if not two else 0xffffffff))
    b1=e.new_obj(st,"src1",l1,base_arr(z3.Array("src1",z3.BitVecSort(64),z3.BitVecSort(8))))
    if two:
        l2=z3.BitVec("len2",64); st.assume(z3.ULE(l2,0xffffffff))
        b2=e.new_obj(st,"src2",l2,base_arr(z3.Array("src2",z3.BitVecSort(64),z3.BitVecSort(8))))
        args=[Ptr(r.this),Ptr(b1),z3.Extract(31,0,l1),Ptr(b2),z3.Extract(31,0,l2)]
        fn="lce::CBufferQueue::push(char const*, unsigned int, char const*, unsigned int)"; ln=l1+l2
    else:
        args=[Ptr(r.this),Ptr(b1),l1]; fn="lce::CBufferQueue::push(char const*, unsigned long)"; ln=l1
    guard_producer(e,r)
    fit=z3.ULE(ln+16,r.S-r.u)
    covers=set()
    k=z3.BitVec("k",64); j=z3.BitVec("j",64)
    for o in e.run(st,fn,args):
        s=o.st
        if o.kind=="throw":
            covers.add("full")
            e.prove(s,z3.BoolVal(o.val[1]=="_ZTISt13runtime_error"),"C02 refusal is a runtime_error")
            e.prove(s,ln!=0,"C02 push refuses only what does not fit"); e.prove(s,z3.Not(fit),"C02 push refuses only what does not fit")
            same_header(e,s,r,p="C02"); s.assume(z3.ULT(k,r.u))
            bytes_kept(e,s,r,k,"C02 refused push keeps every queued byte")
            continue
        e.prove(s,z3.Or(ln==0,fit),"C02 push accepts only what fits")
        t=s.clone(); t.assume(ln==0)
        if e.sat(t):
            covers.add("empty-message")
            same_header(e,t,r,num=r.num,p="C01"); t.assume(z3.ULT(k,r.u)); bytes_kept(e,t,r,k,"C01 empty push changes nothing")
        s.assume(ln!=0)
        if not e.sat(s): continue
        covers.add("pushed")
        same_header(e,s,r,en=r.en+8+ln)
        for c,t in e.split(s,r.u==0):
            e.prove(t,hdr(e,t,r,4)==(bv64(1) if c is not None else r.num+1),"C01 message count as specified")
        t=s.clone(); t.assume(z3.ULT(k,r.u)); bytes_kept(e,t,r,k,"C01 push keeps every queued byte")
        word_at(e,s,r,r.en,ln,"C01 push stores the message length")
        t=s.clone(); t.assume(z3.ULT(j,ln))
        for p,v in wraps(e,t,r.en+8+j,r.S):
            for c,w in ([(1,v)] if not two else e.split(v,z3.ULT(j,l1))):
                got=e.peek(w,Ptr(r.reg,S(p+HDR)),1)
                e.prove(w,got==(e.peek(w,Ptr(b1,j),1) if c is not None else e.peek(w,Ptr(b2,S(j-l1)),1)),"C01 push stores every payload byte")
    e.access_hook=None
    e.cover(covers,{"full","pushed","empty-message"} if (case,part)!=("wrapped","split") else {"full","empty-message"})

def pop_common(e,two,case,part):
    st=State(); r=setup(e,st,case); st.assume(z3.ULE(r.b,r.S-8) if part=="flat" else z3.UGT(r.b,r.S-8))
    n1=z3.BitVec("size1",64); st.assume(z3.ULE(n1,1<<50))
    B1=z3.Array("dst1",z3.BitVecSort(64),z3.BitVecSort(8)); b1=e.new_obj(st,"dst1",n1,base_arr(B1))
    s1=e.new_obj(st,"size1",8); e.rawstore(st,Ptr(s1),n1,8); args=[Ptr(r.this),Ptr(b1),Ptr(s1)]
    fn="lce::CBufferQueue::pop(char*, unsigned long&)"; cap=n1
    if two:
        n2=z3.BitVec("size2",64); st.assume(z3.ULE(n2,1<<50))
        B2=z3.Array("dst2",z3.BitVecSort(64),z3.BitVecSort(8)); b2=e.new_obj(st,"dst2",n2,base_arr(B2))
        s2=e.new_obj(st,"size2",8); e.rawstore(st,Ptr(s2),n2,8); args+=[Ptr(b2),Ptr(s2)]
        fn="lce::CBufferQueue::pop(char*, unsigned long&, char*, unsigned long&)"; cap=n1+n2
    guard_consumer(e,r); covers=set(); j=z3.BitVec("j",64)
    nb=r.b+8+r.L
    for o in e.run(st,fn,args):
        s=o.st
        sz1=e.peek(s,Ptr(s1),8); sz2=e.peek(s,Ptr(s2),8) if two else None
        def ring_kept(t):
            t=t.clone(); t.assume(z3.ULT(j,r.S)); bytes_kept(e,t,r,j,"C01 pop changes no ring byte")
        def buffers_same(t):
            e.prove(t,e.peek(t,Ptr(b1,j),1)==z3.Select(B1,j),"C01 buffer untouched when nothing is delivered")
            e.prove(t,sz1==n1,"C01 size argument untouched when nothing is delivered")
            if two:
                e.prove(t,e.peek(t,Ptr(b2,j),1)==z3.Select(B2,j),"C01 second buffer untouched when nothing is delivered")
                e.prove(t,sz2==n2,"C01 second size argument untouched when nothing is delivered")
        if o.kind=="throw":
            covers.add("too-long")
            e.prove(s,z3.BoolVal(o.val[1]=="_ZTISt13runtime_error"),"C01 too-long is a runtime_error")
            e.prove(s,z3.And(r.u!=0,z3.UGT(r.L,cap)),"C01 pop throws only for a message longer than the buffers")
            same_header(e,s,r,b=nb,num=r.num-1); buffers_same(s); ring_kept(s)
            continue
        ret=tobool(o.val)
        t=s.clone(); t.assume(z3.Not(ret))
        if e.sat(t):
            covers.add("empty")
            e.prove(t,r.u==0,"C01 pop reports empty only when empty"); same_header(e,t,r); buffers_same(t)
        s.assume(ret)
        if not e.sat(s): continue
        covers.add("popped")
        e.prove(s,z3.And(r.u!=0,z3.ULE(r.L,cap)),"C01 pop delivers only a message that fits")
        same_header(e,s,r,b=nb,num=r.num-1); ring_kept(s)
        for c,q in (e.split(s,z3.ULT(n1,r.L)) if two else [(None,s)]):
            f1=n1 if c is not None else r.L
            e.prove(q,sz1==f1,"C01 pop reports the length placed in the first buffer")
            if two: e.prove(q,sz2==r.L-f1,"C01 pop reports the length placed in the second buffer")
            t=q.clone(); t.assume(z3.ULT(j,f1)); e.prove(t,e.peek(t,Ptr(b1,j),1)==oldbyte(e,t,r,8+j),"C01 pop delivers every payload byte")
            t=q.clone(); t.assume(z3.And(z3.UGE(j,f1),z3.ULT(j,n1))); e.prove(t,e.peek(t,Ptr(b1,j),1)==z3.Select(B1,j),"C01 pop writes only the message into the buffer")
            if two:
                t=q.clone(); t.assume(z3.ULT(j,r.L-f1)); e.prove(t,e.peek(t,Ptr(b2,j),1)==oldbyte(e,t,r,8+f1+j),"C01 pop delivers every payload byte (second buffer)")
                t=q.clone(); t.assume(z3.And(z3.UGE(j,r.L-f1),z3.ULT(j,n2))); e.prove(t,e.peek(t,Ptr(b2,j),1)==z3.Select(B2,j),"C01 pop writes only the message into the second buffer")
    e.access_hook=None
    e.cover(covers,({"popped","too-long"} if (case,part)!=("linear","split") else set())|({"empty"} if case=="linear" else set()))

def observers(e,case):
    for fn,spec in (("empty() const",lambda r,ln:r.u==0),("full(unsigned long) const",lambda r,ln:z3.And(ln!=0,z3.UGT(ln+16,r.S-r.u)))):
        st=State(); r=setup(e,st,case); ln=z3.BitVec("len",64); st.assume(z3.ULE(ln,1<<48))
        args=[Ptr(r.this)]+([ln] if "full" in fn else [])
        n=0
        for o in e.run(st,"lce::CBufferQueue::"+fn,args):
            n+=1
            e.prove(o.st,z3.BoolVal(o.kind=="ret"),"C02 observers do not throw")
            e.prove(o.st,tobool(o.val)==spec(r,ln),"%s %s is exact"%("C01" if "empty" in fn else "C02",fn)); same_header(e,o.st,r,p="C02")
        e.cover({n>0},{True})
    st=State(); r=setup(e,st,case)
    for o in e.run(st,"lce::CBufferQueue::size() const",[Ptr(r.this)]):
        for c,t in e.split(o.st,r.u==0):
            e.prove(t,o.val==(bv64(0) if c is not None else r.num),"C01 size() is the number of queued messages")
        same_header(e,o.st,r,p="C01")

def create_attach(e):
    for fn in("create","attach"):
        st=State(); n=z3.BitVec("iBufSize",64); st.assume(z3.ULE(n,1<<50))
        real=z3.If(z3.ULT(n,40),bv64(40),n) if False else n
        reg=e.new_obj(st,"region",n); this=e.new_obj(st,"queue",16); e.rawstore(st,Ptr(this),NULL,8); e.rawstore(st,Ptr(this)+8,NULL,8)
        H=[z3.BitVec("h%d"%i,64) for i in range(5)]
        a=fresh_arr("region"); st.mem[reg.id]=base_arr(a)
        for i in range(5): e.rawstore(st,Ptr(reg)+8*i,H[i],8)
        cov=set()
        for o in e.run(st,"lce::CBufferQueue::%s(char*, unsigned long)"%fn,[Ptr(this),Ptr(reg),n]):
            s=o.st; big=z3.UGT(n,56); cov.add(o.kind)
            if fn=="create":
                if o.kind=="throw": e.prove(s,z3.Not(big),"C02 create refuses only a region that is too small"); continue
                e.prove(s,big,"C02 create refuses a region that is too small")
                for i,v in enumerate((n-40,bv64(8),bv64(0),bv64(0),bv64(0))): e.prove(s,e.peek(s,Ptr(reg)+8*i,8)==v,"C02 create initialises an empty ring (field %d)"%i)
            else:
                ok=z3.And(big,H[0]==n-40,H[1]==8,z3.ULT(H[2],n-40),z3.ULE(H[3],n-40))
                if o.kind=="throw": e.prove(s,z3.Not(ok),"C02 attach refuses only an inconsistent header")
                else: e.prove(s,ok,"C02 attach refuses an inconsistent header")
                for i in range(5): e.prove(s,e.peek(s,Ptr(reg)+8*i,8)==H[i],"C02 attach changes nothing in the region")
                if o.kind=="throw": continue
            h=e._read(s,s.mem[this.id],ZERO,8); d=e._read(s,s.mem[this.id],bv64(8),8)
            e.prove(s,z3.BoolVal(isinstance(h,Ptr) and h.obj is reg and isinstance(d,Ptr) and d.obj is reg) ,"C02 queue refers to the region given")
            if isinstance(h,Ptr) and isinstance(d,Ptr) and d.obj is reg: e.prove(s,z3.And(h.off==0,d.off==40),"C02 ring data follows the header")
        e.cover(cov,{"ret","throw"})

UNITS=[("create_attach",create_attach)]
for case in ("linear","wrapped"):
    for part in ("flat","split"):   # is the 8-byte length word contiguous or split by the end of the ring
        if (case,part)==("wrapped","split"): parts="pop"  # a wrapped ring has its end at most S-8: nothing to push over the edge
        else: parts="both"
        k=dict(c=case,p=part); n=":%s:%s"%(case,part)
        UNITS+=[("push2"+n,lambda e,c=case,p=part:push_common(e,True,c,p)),("pop2"+n,lambda e,c=case,p=part:pop_common(e,True,c,p)),
                ("push"+n,lambda e,c=case,p=part:push_common(e,False,c,p)),("pop"+n,lambda e,c=case,p=part:pop_common(e,False,c,p))]
        if parts=="pop": UNITS=[u for u in UNITS if u[0] not in("push"+n,"push2"+n)]
    UNITS+=[("observers:"+case,lambda e,c=case:observers(e,c))]
