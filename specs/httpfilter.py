"""Contract of CHttpPackageFilter::isWholePkg (C11) over a received block of exactly n bytes.

With H the first CRLFCRLF, c the first "CRLF Content-Length: " before its end and v the number there:
complete iff H exists and H+4+v <= n; malformed iff v is negative or H+4+v exceeds INT_MAX."""
import z3
from engine import *
import strmodel as sm
TU=["httpfilter.cpp"]
C="lce::CHttpPackageFilter"
CONTRACTS=[C+"::isWholePkg",C+"::getRealPkgData"]
NAME=b"\r\nContent-Length: "
def setup(e):
    st=State(); n=z3.BitVec("n",32); D=z3.Array("received",z3.BitVecSort(64),z3.BitVecSort(8)); node=base_arr(D)
    d=e.new_obj(st,"received",z3.If(n>0,zx(n,64),bv64(0)),node); this=e.newc(st,C,"filter")
    r=e.new_obj(st,"real",4); t=e.new_obj(st,"total",4)
    def hook(e_,s,p,k,rw):
        if rw=="w" and not e_.suppress and p.obj is d: e_.fail(s,"C11 the received bytes are only read")
    e.access_hook=hook
    return st,n,node,d,this,Ptr(r),Ptr(t)
def u_whole(e):
    st,n,node,d,this,r,t=setup(e); N=zx(n,64); cov=set()
    def call(st,want,head=None,v=None):
        for o in e.run(st,C+"::isWholePkg(char const*, int, int&, int&)",[this,Ptr(d),n,r,t]):
            s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C11 the filter does not throw")
            if want=="none": cov.add("none"); e.prove(s,o.val==BV(-1,32),"C11 without the blank line the message is incomplete"); continue
            L=S(head+v); bad=z3.Or(v<0,L>bv64(0x7fffffff),v>bv64(0x7fffffff)); full=z3.And(z3.Not(bad),L<=N)
            for c,u in e.split(s,bad,full):
                if c is None: cov.add("wait"); e.prove(u,o.val==BV(-1,32),"C11 a message whose body has not arrived is incomplete")
                elif c.eq(bad): cov.add("bad"); e.prove(u,o.val==BV(-2,32),"C11 an impossible body length is malformed")
                else:
                    cov.add("full"); e.prove(u,o.val==BV(0,32),"C11 header and declared body received: complete")
                    e.prove(u,sx(e.peek(u,t,4),64)==L,"C11 total length is header plus declared body"); e.prove(u,sx(e.peek(u,r,4),64)==L,"C11 reported payload is the whole message"); e.prove(u,z3.And(e.peek(u,t,4)>0,e.peek(u,t,4)<=n),"C11 accepted length is positive and inside the received bytes")
    s0=st.clone(); s0.assume(n<=0); call(s0,"none")
    st.assume(n>0)
    for h,s in sm.search(e,st,node,ZERO,N,("c",b"\r\n\r\n")):
        if h is None: call(s,"none"); continue
        head=S(h+4)
        for c,u in sm.search(e,s,node,ZERO,head,("c",NAME)):
            if c is None: call(u,"some",head,ZERO); continue
            a=S(c+len(NAME))
            for q,w in sm.search(e,u,node,a,head,("c",b"\r\n")):
                if q is None: e.fail(w,"C11 lemma: a header line ends inside the header"); continue
                call(w,"some",head,sm.number(e,node,a,S(q-a)))
    e.cover(cov,{"none","wait","bad","full"})
def u_real(e):
    st,n,node,d,this,r,t=setup(e)
    for o in e.run(st,C+"::getRealPkgData(char const*, int)",[this,Ptr(d),n]): e.prove(o.st,z3.And(z3.BoolVal(isinstance(o.val,Ptr) and o.val.obj is d),o.val.off==0),"C11 the message starts at the received bytes")
UNITS=[("isWholePkg",u_whole),("getRealPkgData",u_real)]
