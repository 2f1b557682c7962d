"""Contracts of AnyHeader and CAnyValuePackage<AnyHeader> (C16).

The header is 43 packed bytes; a package holds the encoded text (header, then body) and the root value.
Encoding and decoding of the root itself are contracts here (C12, C13, C15)."""
import z3
from engine import *
import strmodel as sm, anylib
TU=["any.cpp"]
H="lce::AnyHeader"; P="lce::CAnyValuePackage<lce::AnyHeader>"; R="lce::CAnyValuePackage<AnyHeader>"; HS=43; STR="std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"; A=anylib.A
FIELDS=[("Stx",0,8),("Len",1,32),("Version",5,16),("ServiceId",7,32),("Cmd",11,32),("Seq",15,32),("Format",19,32),("Uid",23,64),("ClientIp",31,32),("Errno",35,32),("Flag",39,32)]
CT={8:"unsigned char",16:"unsigned short",32:"unsigned int",64:"unsigned long"}
CONTRACTS=[H+"::AnyHeader()"]+[H+"::"+g+f for f,_,_ in FIELDS for g in("set","get")]
def fn(n): CONTRACTS.append(P+"::"+n); return P+"::"+n
J=z3.BitVec("j",64); V64=z3.BitVecSort(64); B8=z3.BitVecSort(8)
def u_header(e):
    seen=set(); D=z3.Array("header",V64,B8)
    for f,off,w in FIELDS:
        st=State(); o=e.new_obj(st,"header",HS,base_arr(D)); v=z3.BitVec("value",w); n=w//8; p=Ptr(o)
        for q in e.run(st,H+"::set%s(%s)"%(f,CT[w]),[p,v]):
            s=q.st; seen.add(f); e.prove(s,z3.BoolVal(q.kind=="ret"),"C16 set%s returns"%f)
            e.prove(s,e.peek(s,p+off,n)==(bswap(v) if w>8 else v),"C16 set%s stores the value in network byte order at offset %d"%(f,off))
            t=s.clone(); t.assume(z3.And(z3.ULT(J,HS),z3.Or(z3.ULT(J,off),z3.UGE(J,off+n)))); e.prove(t,e.peek(t,p+J,1)==z3.Select(D,J),"C16 set%s disturbs no other byte"%f)
        st=State(); o=e.new_obj(st,"header",HS,base_arr(D)); raw=e.peek(st,Ptr(o)+off,n)
        for q in e.run(st,H+"::get%s()"%f,[Ptr(o)]):
            s=q.st; e.prove(s,z3.BoolVal(q.kind=="ret"),"C16 get%s returns"%f); e.prove(s,q.val==(bswap(raw) if w>8 else raw),"C16 get%s returns the value stored"%f)
            t=s.clone(); t.assume(z3.ULT(J,HS)); e.prove(t,e.peek(t,Ptr(o)+J,1)==z3.Select(D,J),"C16 get%s changes nothing"%f)
    e.prove(State(),z3.BoolVal(e.csize("lce::AnyHeader")==HS),"C16 the header is 43 bytes"); e.cover(seen,{f for f,_,_ in FIELDS})
    st=State(); o=e.new_obj(st,"header",HS)
    for q in e.run(st,H+"::AnyHeader()",[Ptr(o)]):
        t=q.st; t.assume(z3.ULT(J,HS)); e.prove(t,e.peek(t,Ptr(o)+J,1)==z3.If(J==0,BV(2,8),BV(0,8)),"C16 a new header has the start mark and zero fields")
class V: pass
def setup(e,kind="Null"):
    st=State(); r=V(); r.any=anylib.Any(e); r.L=z3.BitVec("size",64); r.B=z3.Array("text",V64,B8); st.assume(z3.And(z3.UGE(r.L,HS),z3.ULT(r.L,1<<32)))
    r.this=e.newc(st,R,"pkg"); r.s=r.this+e.foff(R,"m_sEncodeData"); r.o=sm.mk(e,st,r.s,base_arr(r.B),r.L); r.root=r.this+e.foff(R,"m_oAnyValues"); r.pl=r.any.fill(st,r.root,kind,"root"); r.st=st
    r.word=e._read(st,st.mem[r.root.obj.id],S(r.root.off+8),8); r.type=r.any.get(st,r.root,"type"); return st,r
def ln(e,s,r): return sm.slen(e,s,r.s)
def headsame(e,s,r,w):
    e.prove(s,z3.UGE(ln(e,s,r),HS),"C16 the package keeps at least its header"+w); t=s.clone(); t.assume(z3.ULT(J,HS)); e.prove(t,sm.at(e,t,r.s,J)==z3.Select(r.B,J),"C16 the header bytes stay"+w)
def textsame(e,s,r,w):
    e.prove(s,ln(e,s,r)==r.L,"C16 the encoded text stays"+w); t=s.clone(); t.assume(z3.ULT(J,r.L)); e.prove(t,sm.at(e,t,r.s,J)==z3.Select(r.B,J),"C16 the encoded text stays"+w)
def rootsame(e,s,r,w):
    x=r.any.get(s,r.root,"val"); ok=(x.obj is r.word.obj) if isinstance(x,Ptr) and isinstance(r.word,Ptr) else (None if isinstance(x,Ptr) or isinstance(r.word,Ptr) else x==r.word)
    e.prove(s,z3.BoolVal(bool(ok)) if not z3.is_expr(ok) else ok,"C16 the root value stays"+w); e.prove(s,r.any.get(s,r.root,"type")==r.type,"C16 the root value stays"+w)
KINDS=("Null","Integer","String","Map")
def u_encode(e):
    for f,child in(("encode()","encode"),("encodeJSON()","encodeJSON")):
        for k in KINDS:
            st,r=setup(e,k); w=" (%s)"%child; n=0; W=z3.Array("encoded",V64,B8); N=z3.BitVec("encoded_len",64); st.assume(z3.ULT(N,1<<32))
            def c(e_,s,a,ins,r=r,W=W,N=N,w=w):
                e_.prove(s,z3.BoolVal(isinstance(a[0],Ptr) and a[0].obj is r.root.obj and cv(a[0].off)==cv(r.root.off)),"C16 the root is what is encoded"+w)
                s.ghost[("nohavoc","enc")]=s.ghost.get(("nohavoc","enc"),0)+1; sm.app(e_,s,a[1],base_arr(W),ZERO,N); return NULL
            e.contracts={A+"::%s(%s&)"%(child,STR):c}
            for q in e.run(st,fn(f),[r.this]):
                s=q.st; n+=1; e.prove(s,z3.BoolVal(q.kind=="ret" and s.ghost.get(("nohavoc","enc"))==1),"C16 the root is encoded exactly once"+w); headsame(e,s,r,w); rootsame(e,s,r,w)
                e.prove(s,ln(e,s,r)==HS+N,"C16 the body is exactly the encoded root"+w); t=s.clone(); t.assume(z3.ULT(J,N)); e.prove(t,sm.at(e,t,r.s,HS+J)==z3.Select(W,J),"C16 the body is exactly the encoded root"+w)
            e.cover({n>0},{True})
def u_decode(e):
    for f,child in(("decode(%s const*, unsigned long)","decode"),("decodeJSON(%s const*, unsigned long)","decodeJSON")):
        for ct in("char","unsigned char"):
            for k in KINDS:
                st,r=setup(e,k); w=" (%s)"%child; n=z3.BitVec("n",64); st.assume(z3.ULT(n,1<<31)); D=z3.Array("data",V64,B8); data=e.new_obj(st,"data",n,base_arr(D),const=True); T=fresh("newtype",8); X=fresh("newword",64); cov=set()
                def c(e_,s,a,ins,r=r,data=data,n=n,w=w,T=T,X=X):
                    e_.prove(s,z3.BoolVal(isinstance(a[0],Ptr) and a[0].obj is r.root.obj and cv(a[0].off)==cv(r.root.off)),"C16 the body is decoded into the root"+w)
                    e_.prove(s,z3.And(z3.BoolVal(isinstance(a[1],Ptr) and a[1].obj is data),a[1].off==HS,a[2]==n-HS) if isinstance(a[1],Ptr) else FALSE,"C16 exactly the bytes after the header are decoded"+w)
                    s.ghost[("nohavoc","dec")]=s.ghost.get(("nohavoc","dec"),0)+1; t=s.clone()
                    e_.rawstore(s,a[0]+r.any.o["type"],T,1); e_.rawstore(s,a[0]+r.any.o["val"],X,8); return [Outcome("ret",NULL,s),Outcome("throw",(Ptr(e_.new_obj(t,"exc",16)),"_ZTISt13runtime_error"),t)]
                e.contracts={A+"::%s(char const*, unsigned long)"%child:c,A+"::%s(unsigned char const*, unsigned long)"%child:c}
                for q in e.run(st,fn(f%ct),[r.this,Ptr(data),n]):
                    s=q.st; d=s.ghost.get(("nohavoc","dec"),0)
                    if q.kind=="throw" and not d: cov.add("short"); e.prove(s,z3.ULT(n,HS),"C16 only data shorter than the header is refused"+w); textsame(e,s,r,w+" refused"); rootsame(e,s,r,w+" refused"); continue
                    e.prove(s,z3.UGE(n,HS),"C16 data shorter than the header is refused"+w); e.prove(s,ln(e,s,r)==HS,"C16 decoding keeps the header"+w); t=s.clone(); t.assume(z3.ULT(J,HS)); e.prove(t,sm.at(e,t,r.s,J)==z3.Select(D,J),"C16 the header bytes are the first 43 bytes of the data"+w)
                    if q.kind=="throw": cov.add("badbody"); continue
                    if d: cov.add("body"); e.prove(s,z3.BoolVal(d==1),"C16 the body is decoded once"+w); e.prove(s,z3.And(r.any.get(s,r.root,"type")==T,r.any.get(s,r.root,"val")==X),"C16 the root is what the body decodes to"+w)
                    else: cov.add("head"); e.prove(s,n==HS,"C16 a body is decoded"+w); e.prove(s,r.any.get(s,r.root,"type")==anylib.KIND["Null"],"C16 a package without body has a null root"+w)
                e.cover(cov,{"short","body","head","badbody"})
def u_access(e):
    e.contracts={}
    for f,off in(("head()",0),("data()",0),("getBodyData()",HS)):
        st,r=setup(e)
        for q in e.run(st,fn(f),[r.this]): e.prove(q.st,z3.And(z3.BoolVal(q.kind=="ret" and isinstance(q.val,Ptr) and q.val.obj is r.o),q.val.off==off),"C16 %s points into the encoded text"%f); textsame(e,q.st,r," ("+f+")"); rootsame(e,q.st,r," ("+f+")")
    for f,k in(("size()",0),("getBodySize()",HS)):
        st,r=setup(e)
        for q in e.run(st,fn(f),[r.this]): e.prove(q.st,q.val==r.L-k,"C16 %s is the length of the text"%f); textsame(e,q.st,r," ("+f+")")
    st,r=setup(e)
    for q in e.run(st,fn("getRoot()"),[r.this]): e.prove(q.st,z3.BoolVal(isinstance(q.val,Ptr) and q.val.obj is r.root.obj and cv(q.val.off)==cv(r.root.off)),"C16 getRoot is the root")
    st,r=setup(e); D=z3.Array("newhead",V64,B8); h=e.new_obj(st,"newhead",HS,base_arr(D))
    for q in e.run(st,fn("setHead(lce::AnyHeader const&)"),[r.this,Ptr(h)]):
        s=q.st; e.prove(s,ln(e,s,r)==r.L,"C16 setHead keeps the text length"); t=s.clone(); t.assume(z3.ULT(J,r.L)); e.prove(t,sm.at(e,t,r.s,J)==z3.If(z3.ULT(J,HS),z3.Select(D,J),z3.Select(r.B,J)),"C16 setHead replaces exactly the header bytes"); rootsame(e,s,r," (setHead)")
    st,r=setup(e); v=z3.BitVec("etx",8)
    for q in e.run(st,fn("setEtx(unsigned char)"),[r.this,v]):
        s=q.st; e.prove(s,ln(e,s,r)==r.L+1,"C16 setEtx appends one byte"); t=s.clone(); t.assume(z3.ULE(J,r.L)); e.prove(t,sm.at(e,t,r.s,J)==z3.If(J==r.L,v,z3.Select(r.B,J)),"C16 setEtx appends the end mark and changes nothing else"); rootsame(e,s,r," (setEtx)")
    for ct in("char","unsigned char"):
        st,r=setup(e); n=z3.BitVec("n",64); st.assume(z3.ULT(n,1<<32)); D=z3.Array("body",V64,B8); o=e.new_obj(st,"body",n,base_arr(D),const=True)
        for q in e.run(st,fn("setBodyData(%s const*, unsigned long)"%ct),[r.this,Ptr(o),n]):
            s=q.st; e.prove(s,z3.BoolVal(q.kind=="ret"),"C16 setBodyData returns"); e.prove(s,ln(e,s,r)==HS+n,"C16 setBodyData replaces the whole body"); headsame(e,s,r," (setBodyData)"); t=s.clone(); t.assume(z3.ULT(J,n)); e.prove(t,sm.at(e,t,r.s,HS+J)==z3.Select(D,J),"C16 the body is the bytes given"); rootsame(e,s,r," (setBodyData)")
    for k in KINDS:
        st,r=setup(e,k)
        for q in e.run(st,fn("clear()"),[r.this]):
            s=q.st; e.prove(s,ln(e,s,r)==HS,"C16 clear drops the body"); headsame(e,s,r," (clear)"); e.prove(s,z3.BoolVal(r.any.inv(s,r.root,"C16 clear")=="Null"),"C16 clear leaves a null root")
        st,r=setup(e,k)
        for q in e.run(st,fn("clearBody()"),[r.this]): textsame(e,q.st,r," (clearBody)"); e.prove(q.st,z3.BoolVal(r.any.inv(q.st,r.root,"C16 clearBody")=="Null"),"C16 clearBody leaves a null root")
    st=State(); a=anylib.Any(e); this=e.newc(st,R,"pkg"); s0=this+e.foff(R,"m_sEncodeData")
    for q in e.run(st,fn("CAnyValuePackage()"),[this]): e.prove(q.st,sm.slen(e,q.st,s0)==HS,"C16 a new package holds its header"); e.prove(q.st,z3.BoolVal(a.inv(q.st,this+e.foff(R,"m_oAnyValues"),"C16 new package")=="Null"),"C16 a new package has a null root")
UNITS=[("header",u_header),("encode",u_encode),("decode",u_decode),("access",u_access)]
