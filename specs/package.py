"""Contracts of lce::CPackage (C09), instantiated with a 6-byte head.

View: string B (head, then body), read position p with 0 <= p <= |B|-head; |B| < 2^31."""
import z3
from engine import *
import strmodel as sm
TU=["package.cpp"]
C="lce::CPackage<Head>"; R="lce::CPackage<struct Head>"; H=6
CONTRACTS=[]
def fn(n): CONTRACTS.append(C+"::"+n); return C+"::"+n
class V: pass
def setup(e,name="pkg"):
    st=State(); r=V(); r.L=z3.BitVec(name+"_size",64); r.p=z3.BitVec(name+"_pos",32); r.B=z3.Array(name+"_bytes",z3.BitVecSort(64),z3.BitVecSort(8))
    return st,pkg(e,st,r,name)
def pkg(e,st,r,name):
    st.assume(z3.And(z3.UGE(r.L,H),z3.ULT(r.L,1<<31),r.p>=0,z3.ULE(zx(r.p,64),r.L-H),z3.Select(r.B,r.L)==0))
    r.this=e.newc(st,R,name,m_iPos=r.p); r.s=r.this+e.foff(R,"m_pkgData"); r.o=sm.mk(e,st,r.s,base_arr(r.B),r.L); r.st=st
    return r
def pos(e,s,r): return e.getf(s,r.this,R,"m_iPos",4)
def ln(e,s,r): return sm.slen(e,s,r.s)
def byte(e,s,r,i): return sm.at(e,s,r.s,i)
J=z3.BitVec("j",64)
def same(e,s,r,w,lo=ZERO,hi=None,p=True):
    "string (except [lo,hi)) and position unchanged"
    e.prove(s,ln(e,s,r)==r.L,"C09 package length unchanged"+w)
    c=z3.ULT(J,r.L) if hi is None else z3.And(z3.ULT(J,r.L),z3.Or(z3.ULT(J,lo),z3.UGE(J,hi)))
    t=s.clone(); t.assume(c); e.prove(t,byte(e,t,r,J)==z3.Select(r.B,J),"C09 no other byte changes"+w)
    if p: e.prove(s,pos(e,s,r)==r.p,"C09 read position unchanged"+w)
def inv(e,s,r,w):
    e.prove(s,z3.And(pos(e,s,r)>=0,z3.UGE(ln(e,s,r),H),z3.ULE(zx(pos(e,s,r),64),ln(e,s,r)-H)),"C09 the read position stays inside the body"+w)
def be(v): return bswap(v) if v.size()>8 else v
TYPES=[("unsigned char",8),("char",8),("unsigned short",16),("short",16),("unsigned int",32),("int",32),("unsigned long",64),("long",64),("unsigned long long",64),("long long",64)]
def u_int(e,T,W):
    n=W//8; v=z3.BitVec("value",W)
    st,r=setup(e); st.assume(z3.ULT(r.L,(1<<31)-16))
    for f,isstream in(("write(%s)"%T,0),("operator<<(%s)"%T,1)):
        cov=0
        for o in e.run(st.clone(),fn(f),[r.this,v]):
            s=o.st; cov+=1; e.prove(s,z3.BoolVal(o.kind=="ret"),"C09 write does not throw"); e.prove(s,ln(e,s,r)==r.L+n,"C09 write appends exactly the type's size")
            e.prove(s,e._read(s,sm.chars(e,s,r.s),r.L,n)==be(v),"C09 integers are written in network byte order")
            t=s.clone(); t.assume(z3.ULT(J,r.L)); e.prove(t,byte(e,t,r,J)==z3.Select(r.B,J),"C09 write changes nothing already written"); e.prove(s,pos(e,s,r)==r.p,"C09 write leaves the read position")
            if not isstream: e.prove(s,o.val==r.L,"C09 write returns the position of the field")
            else: e.prove(s,z3.BoolVal(isinstance(o.val,Ptr) and o.val.obj is r.this.obj),"C09 << returns the package")
            # what was written is what is read: position at the field
            t=s.clone(); e.setf(t,r.this,R,m_iPos=z3.Extract(31,0,r.L-H)); out=e.new_obj(t,"out",8)
            for q in e.run(t,fn("operator>>(%s&)"%T),[r.this,Ptr(out)]):
                e.prove(q.st,z3.BoolVal(q.kind=="ret"),"C09 a written field can be read"); e.prove(q.st,e.peek(q.st,Ptr(out),n)==v,"C09 the value read is the value written"); cov+=1
        e.cover({cov>1},{True})
    # writePos
    cov=set(); d=z3.BitVec("where",64)
    for o in e.run(st.clone(),fn("writePos(%s, unsigned long)"%T),[r.this,v,d]):
        s=o.st
        if o.kind=="throw": cov.add("throw"); e.prove(s,z3.UGT(d,r.L),"C09 writePos refuses only positions past the end"); same(e,s,r," (refused writePos)"); continue
        cov.add("ok"); s.assume(z3.And(z3.ULE(n,r.L),z3.ULE(d,r.L-n)))   # contract requires a field previously written there
        if not e.sat(s): continue
        e.prove(s,e._read(s,sm.chars(e,s,r.s),d,n)==be(v),"C09 writePos stores the value in network byte order"); same(e,s,r," (writePos)",d,d+n); cov.add("in")
    e.cover(cov,{"in"})
    # read
    cov=set(); st2,r=setup(e); out=e.new_obj(st2,"out",n); o0=e.peek(st2,Ptr(out),n)
    room=r.L-H-zx(r.p,64)
    for o in e.run(st2,fn("operator>>(%s&)"%T),[r.this,Ptr(out)]):
        s=o.st
        if o.kind=="throw": cov.add("throw"); e.prove(s,z3.ULT(room,n),"C09 a read fails only when too few bytes remain"); same(e,s,r," (failed read)"); e.prove(s,e.peek(s,Ptr(out),n)==o0,"C09 failed read leaves the argument"); continue
        cov.add("ok"); e.prove(s,z3.UGE(room,n),"C09 a read succeeds only when enough bytes remain"); inv(e,s,r," (read)"); same(e,s,r," (read)",p=False)
        e.prove(s,pos(e,s,r)==r.p+n,"C09 read advances by the type's size"); e.prove(s,e.peek(s,Ptr(out),n)==be(e._read(s,base_arr(r.B),zx(r.p,64)+H,n)),"C09 read returns the field at the read position")
    e.cover(cov,{"throw","ok"})
def src(e,st,name,n):
    a=z3.Array(name,z3.BitVecSort(64),z3.BitVecSort(8)); o=e.new_obj(st,name,n,base_arr(a)); return Ptr(o),a
def u_raw(e):
    n=z3.BitVec("n",64); st,r=setup(e); st.assume(z3.ULT(n,1<<31)); st.assume(z3.ULT(r.L+n,1<<31)); p,a=src(e,st,"data",n)
    def appended(s,k,w,arr=a):
        e.prove(s,ln(e,s,r)==r.L+k,"C09 appends exactly the given bytes"+w); e.prove(s,pos(e,s,r)==r.p,"C09 appending leaves the read position"+w)
        t=s.clone(); t.assume(z3.ULT(J,r.L)); e.prove(t,byte(e,t,r,J)==z3.Select(r.B,J),"C09 appending changes nothing already written"+w)
        t=s.clone(); t.assume(z3.ULT(J,k)); e.prove(t,byte(e,t,r,r.L+J)==z3.Select(arr,J),"C09 the appended bytes are the given ones"+w)
    for f in("write(char const*, unsigned long)","write(unsigned char const*, unsigned long)"):
        c=0
        for o in e.run(st.clone(),fn(f),[r.this,p,n]): c+=1; e.prove(o.st,z3.BoolVal(o.kind=="ret"),"C09 write does not throw"); appended(o.st,n," ("+f.split(",")[0]+")")
        e.cover({c>0},{True})
    t=st.clone(); so=e.new_obj(t,"text",32); A=z3.Array("text_bytes",z3.BitVecSort(64),z3.BitVecSort(8)); t.assume(z3.Select(A,n)==0); sm.mk(e,t,Ptr(so),base_arr(A),n); c=0
    for o in e.run(t,fn("operator<<(%s const&)"%STRN),[r.this,Ptr(so)]): c+=1; e.prove(o.st,z3.BoolVal(o.kind=="ret"),"C09 << does not throw"); appended(o.st,n," (<< string)",A)
    e.cover({c>0},{True})
    # C string: up to its terminator
    t=st.clone(); A=z3.Array("ctext",z3.BitVecSort(64),z3.BitVecSort(8)); co=e.new_obj(t,"ctext",n+1,base_arr(A)); co.ghost["nul"]=n; t.assume(z3.Select(A,n)==0); c=0
    for o in e.run(t,fn("operator<<(char const*)"),[r.this,Ptr(co)]):
        s=o.st; c+=1; k=S(ln(e,s,r)-r.L); e.prove(s,z3.And(z3.ULE(k,n),z3.Select(A,k)==0),"C09 << of a C string appends up to its terminator"); appended(s,k," (<< C string)",A)
        t2=s.clone(); t2.assume(z3.ULT(J,k)); sm.inst(t2,J); e.prove(t2,z3.Select(A,J)!=0,"C09 << of a C string stops at the first terminator")
    e.cover({c>0},{True})
STRN="std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
def outstr(e,st):
    so=e.new_obj(st,"out string",32); L=z3.BitVec("out_size",64); A=z3.Array("out_bytes",z3.BitVecSort(64),z3.BitVecSort(8)); st.assume(z3.And(z3.ULT(L,1<<40),z3.Select(A,L)==0)); sm.mk(e,st,Ptr(so),base_arr(A),L); return Ptr(so),L,A
def outsame(e,s,p,L,A,w):
    e.prove(s,sm.slen(e,s,p)==L,"C09 a failed read leaves the argument"+w); t=s.clone(); t.assume(z3.ULT(J,L)); e.prove(t,sm.at(e,t,p,J)==z3.Select(A,J),"C09 a failed read leaves the argument"+w)
def u_read(e):
    # raw read into memory / string
    for f,isstr in(("read(char*, int)",0),("read(%s&, int)"%STRN,1)):
        st,r=setup(e); n=z3.BitVec("n",32); cov=set(); room=z3.Extract(31,0,r.L)-H-r.p
        if isstr: d,L,A=outstr(e,st)
        else:
            A=z3.Array("dest",z3.BitVecSort(64),z3.BitVecSort(8)); d=Ptr(e.new_obj(st,"dest",z3.If(n>=0,zx(n,64),bv64(0)),base_arr(A)))
        w=" ("+("string" if isstr else "memory")+")"
        for o in e.run(st,fn(f),[r.this,d,n]):
            s=o.st
            if o.kind=="throw":
                cov.add("throw"); e.prove(s,z3.Or(n<0,n>room),"C09 a read fails only when it asks for more than remains"+w); same(e,s,r," (failed read)"+w)
                if isstr: outsame(e,s,d,L,A,w)
                continue
            cov.add("ok"); e.prove(s,z3.And(n>=0,n<=room),"C09 a read succeeds only when enough bytes remain"+w); inv(e,s,r,w); same(e,s,r," (read)"+w,p=False); e.prove(s,pos(e,s,r)==r.p+n,"C09 read advances by the bytes read"+w)
            N=zx(n,64)
            if isstr: e.prove(s,sm.slen(e,s,d)==N,"C09 read returns the asked number of bytes"); got=lambda t: sm.at(e,t,d,J)
            else: got=lambda t: e.peek(t,d+J,1)
            t=s.clone(); t.assume(z3.ULT(J,N)); e.prove(t,got(t)==z3.Select(r.B,zx(r.p,64)+H+J),"C09 read returns the bytes at the read position"+w)
        e.cover(cov,{"throw","ok"})
def u_readstr(e):
    for k in(1,2,4):
        st,r=setup(e); d,L,A=outstr(e,st); cov=set(); room=r.L-H-zx(r.p,64); w=" (readString%d)"%k
        raw=e._read(st,base_arr(r.B),zx(r.p,64)+H,k); N=zx(be(raw),64)
        fits=z3.And(z3.UGE(room,k),z3.ULE(N,room-k))
        for o in e.run(st,fn("readString%d(%s&)"%(k,STRN)),[r.this,d]):
            s=o.st
            if o.kind=="throw": cov.add("throw"); e.prove(s,z3.Not(fits),"C09 a counted read fails only when it does not fit the body"+w); same(e,s,r," (failed)"+w); outsame(e,s,d,L,A,w); continue
            cov.add("ok"); e.prove(s,fits,"C09 a counted read succeeds only when the text is inside the body"+w); inv(e,s,r,w); same(e,s,r,w,p=False); e.prove(s,pos(e,s,r)==r.p+k+z3.Extract(31,0,N),"C09 a counted read passes prefix and text"+w)
            e.prove(s,sm.slen(e,s,d)==N,"C09 counted text has the prefixed length"+w); t=s.clone(); t.assume(z3.ULT(J,N)); e.prove(t,sm.at(e,t,d,J)==z3.Select(r.B,zx(r.p,64)+H+k+J),"C09 counted text is the bytes after the prefix"+w)
        e.cover(cov,{"throw","ok"})
    st,r=setup(e); d,L,A=outstr(e,st); cov=set(); P0=zx(r.p,64)+H
    for o in e.run(st,fn("readString(%s&)"%STRN),[r.this,d]):
        s=o.st; w=" (readString)"; cov.add("ok"); e.prove(s,z3.BoolVal(o.kind=="ret"),"C09 readString does not throw"); inv(e,s,r,w); same(e,s,r,w,p=False); N=sm.slen(e,s,d)
        e.prove(s,z3.ULE(N,r.L-P0),"C09 the text ends inside the body"); t=s.clone(); t.assume(z3.ULT(J,N)); e.prove(t,sm.at(e,t,d,J)==z3.Select(r.B,P0+J),"C09 readString returns the bytes at the read position")
        t=s.clone(); t.assume(z3.ULT(J,N)); sm.inst(t,P0+J); e.prove(t,z3.Select(r.B,P0+J)!=0,"C09 readString stops at the first terminator"); e.prove(s,z3.Or(P0+N==r.L,z3.Select(r.B,P0+N)==0),"C09 readString reads up to the terminator or the end")
        e.prove(s,zx(pos(e,s,r),64)==z3.If(P0+N==r.L,P0+N,P0+N+1)-H,"C09 readString passes the terminator")
    e.cover(cov,{"ok"})
def u_seek(e):
    st,r=setup(e); n=z3.BitVec("n",32); body=sx(z3.Extract(31,0,r.L)-H,64); p=sx(r.p,64); N=sx(n,64)
    for d,tgt,ok in((0,N,z3.And(n>=0,N<body)),(1,p+N,z3.And(p+N>=0,p+N<=body)),(2,body+N,z3.And(n<=0,body+N>=0))):
        cov=set()
        for o in e.run(st.clone(),fn("seek(int, lce::CPackage<Head>::SEEK_DIR)"),[r.this,n,BV(d,32)]):
            s=o.st; w=" (seek %d)"%d; e.prove(s,z3.BoolVal(o.kind=="ret"),"C09 seek does not throw"); inv(e,s,r,w); same(e,s,r,w,p=False); ret=tobool(o.val)
            for v,t in e.split(s,ret):
                if v is not None: cov.add("ok"); e.prove(t,sx(pos(e,t,r),64)==tgt,"C09 seek moves to the asked position"+w)
                else: cov.add("no"); e.prove(t,pos(e,t,r)==r.p,"C09 refused seek leaves the position"+w); e.prove(t,z3.Not(ok),"C09 seek refuses only positions outside the body"+w)
        e.cover(cov,{"ok","no"})
    m=z3.BitVec("m",32); c=0
    for o in e.run(st.clone(),fn("isEnd(int) const"),[r.this,m]):
        s=o.st; s.assume(m>=0); s.assume(m<(1<<30)); c+=1; e.prove(s,tobool(o.val)==(sx(m,64)>body-p),"C09 isEnd(n) tells whether fewer than n bytes remain"); same(e,s,r," (isEnd)")
    e.cover({c>0},{True})
def u_set(e):
    n=z3.BitVec("n",32); N=sx(n,64)
    for f in("setPkgData(char const*, int)","setPkgData(unsigned char const*, int)","setPkgData(%s)"%STRN,"CPackage(char const*, int)"):
        st,r=setup(e); cov=set(); w=" ("+f.split("(")[0]+")"; A=z3.Array("src",z3.BitVecSort(64),z3.BitVecSort(8))
        if "basic_string" in f:
            st.assume(n>=0); o=e.new_obj(st,"src",32); st.assume(z3.Select(A,N)==0); sm.mk(e,st,Ptr(o),base_arr(A),N); args=[r.this,Ptr(o)]; nulls=[False]
        else: o=e.new_obj(st,"src",z3.If(n>=0,N,bv64(0)),base_arr(A)); args=[r.this,Ptr(o),n]; nulls=[False,True]
        ctor=f.startswith("CPackage(")
        if ctor: r.this=e.newc(st,R,"fresh"); r.s=r.this+e.foff(R,"m_pkgData"); args[0]=r.this
        for nl in nulls:
            a=list(args); 
            if nl: a[1]=NULL
            for o in e.run(st.clone(),fn(f),a):
                s=o.st
                if o.kind=="throw": 
                    cov.add("throw"); e.prove(s,z3.Or(z3.BoolVal(nl),n<H),"C09 only data shorter than the head (or null) is refused"+w)
                    if not ctor: same(e,s,r," (refused)"+w)
                    continue
                cov.add("ok"); e.prove(s,z3.BoolVal(not nl),"C09 null data is refused"+w); inv(e,s,r,w); e.prove(s,pos(e,s,r)==0,"C09 reading starts at the body"+w); e.prove(s,ln(e,s,r)==N,"C09 the package is the given data"+w)
                t=s.clone(); t.assume(z3.ULT(J,N)); e.prove(t,byte(e,t,r,J)==z3.Select(A,J),"C09 the package is the given data"+w)
        e.cover(cov,{"throw","ok"})
    # body, head, clear
    for f in("setPkgBody(char const*, int)","setPkgBody(unsigned char const*, int)"):
        st,r=setup(e); st.assume(z3.And(n>=0,n<(1<<31)-64)); st.assume(r.p==0); a=z3.Array("body",z3.BitVecSort(64),z3.BitVecSort(8)); o=e.new_obj(st,"body",N,base_arr(a)); c=0
        for q in e.run(st,fn(f),[r.this,Ptr(o),n]):
            s=q.st; c+=1; e.prove(s,z3.BoolVal(q.kind=="ret"),"C09 setPkgBody does not throw"); e.prove(s,ln(e,s,r)==H+N,"C09 setPkgBody replaces the body"); t=s.clone(); t.assume(z3.ULT(J,N)); e.prove(t,byte(e,t,r,J+H)==z3.Select(a,J),"C09 setPkgBody stores the body"); t=s.clone(); t.assume(z3.ULT(J,H)); e.prove(t,byte(e,t,r,J)==z3.Select(r.B,J),"C09 setPkgBody keeps the head")
        e.cover({c>0},{True})
    st,r=setup(e); a=z3.Array("newhead",z3.BitVecSort(64),z3.BitVecSort(8)); o=e.new_obj(st,"newhead",H,base_arr(a)); c=0
    for q in e.run(st,fn("setPkgHead(Head&)"),[r.this,Ptr(o)]):
        s=q.st; c+=1; same(e,s,r," (setPkgHead)",ZERO,bv64(H)); t=s.clone(); t.assume(z3.ULT(J,H)); e.prove(t,byte(e,t,r,J)==z3.Select(a,J),"C09 setPkgHead stores the head")
    e.cover({c>0},{True})
    for f in("clear()","clearBody()","CPackage()"):
        st,r=setup(e); c=0
        if f=="CPackage()": r.this=e.newc(st,R,"fresh"); r.s=r.this+e.foff(R,"m_pkgData")
        for q in e.run(st,fn(f),[r.this]):
            s=q.st; c+=1; e.prove(s,z3.BoolVal(q.kind=="ret"),"C09 %s does not throw"%f); e.prove(s,z3.And(ln(e,s,r)==H,pos(e,s,r)==0),"C09 %s leaves an empty body"%f)
            t=s.clone(); t.assume(z3.ULT(J,H)); e.prove(t,byte(e,t,r,J)==(z3.Select(r.B,J) if f=="clearBody()" else BV(0,8)),"C09 %s leaves the head"%f)
        e.cover({c>0},{True})
    # copies
    for f in("operator=(lce::CPackage<Head> const&)","CPackage(lce::CPackage<Head> const&)"):
        st,r=setup(e); q=V(); q.L=z3.BitVec("rhs_size",64); q.p=z3.BitVec("rhs_pos",32); q.B=z3.Array("rhs_bytes",z3.BitVecSort(64),z3.BitVecSort(8)); pkg(e,st,q,"rhs"); c=0
        if f.startswith("CP"): r.this=e.newc(st,R,"fresh"); r.s=r.this+e.foff(R,"m_pkgData")
        for o in e.run(st.clone(),fn(f),[r.this,q.this]):
            s=o.st; c+=1; e.prove(s,z3.BoolVal(o.kind=="ret"),"C09 copying does not throw"); e.prove(s,z3.And(ln(e,s,r)==q.L,pos(e,s,r)==q.p),"C09 a copy has the same length and position"); t=s.clone(); t.assume(z3.ULT(J,q.L)); e.prove(t,byte(e,t,r,J)==z3.Select(q.B,J),"C09 a copy has the same bytes"); same(e,s,q," (source of a copy)")
        e.cover({c>0},{True})
        if f.startswith("op"):
            for o in e.run(st.clone(),C+"::"+f,[q.this,q.this]): same(e,o.st,q," (self assignment)")
def u_obs(e):
    st,r=setup(e)
    for f,want in(("getPkgLen() const",r.L),("size() const",r.L),("getPkgBodyLen() const",r.L-H)):
        for o in e.run(st.clone(),fn(f),[r.this]): e.prove(o.st,sx(o.val,64)==want,"C09 %s is exact"%f); same(e,o.st,r," (observer)")
    for f,w in(("getPkg() const",0),("data() const",0),("getPkgBody() const",H),("getPkgHead()",0),("head()",0)):
        for o in e.run(st.clone(),fn(f),[r.this]): e.prove(o.st,z3.And(z3.BoolVal(isinstance(o.val,Ptr) and o.val.obj is r.o),o.val.off==w),"C09 %s points at its part"%f); same(e,o.st,r," (observer)")
UNITS=[("int_"+T.replace(" ","_"),lambda e,T=T,W=W:u_int(e,T,W)) for T,W in TYPES]+[("raw",u_raw),("read",u_read),("readstr",u_readstr),("seek",u_seek),("set",u_set),("observers",u_obs)]
