"""Contracts of CAnyValue's JSON text (C15).

Strings: the escaped form of a text is the fold E over its bytes (E(i) = length after i bytes); the
writer produces it and the reader, given it followed by a quote, yields the text back.  Numbers: the
decimal text of n is an assumed bijection of snprintf/strtoull.  Containers: the text of a container is
consecutive slices, one per element, each starting with its separating comma; elements are read back
by the contract of their kind."""
import z3
from engine import *
import strmodel as sm, anylib
from anylib import Any,KIND
from anyvalue import grown,V
from utils import cursors,hexd
TU=["any.cpp"]
A=anylib.A; STR="std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
F=A+"::"
ESC=F+"textEncodeJSON(%s&, char const*, unsigned long)"%STR; ENC=F+"encodeJSON(%s&)"%STR; DEC=F+"decodeJSON(char const*, unsigned long)"
RSTR=F+"readString(int&, %s&, char const*, int)"%STR; RNUM=F+"readNumber(int&, %s&, char const*, int)"%STR
CONTRACTS=[ESC,ENC,DEC,RSTR,RNUM,F+"readUnicode",F+"unicodeToUTF8",F+"skipSpaces",F+"readArray",F+"readObj",F+"encodeJSON()",A+"Package::encodeJSON",A+"Package::decodeJSON"]
J=z3.BitVec("j",64); K=z3.BitVec("k",64); V64=z3.BitVecSort(64); B8=z3.BitVecSort(8); LIM=1<<28
E=z3.Function("escaped",V64,V64)
SHORT={34:34,13:114,10:110,92:92,8:98,12:102,9:116}
def isshort(c): return z3.Or([c==k for k in SHORT])
def iscontrol(c): return z3.And(c!=0,z3.ULE(c,31),z3.Not(isshort(c)))
def w(c): return z3.If(isshort(c),bv64(2),z3.If(iscontrol(c),bv64(6),bv64(1)))
def letter(c):
    r=BV(0,8)
    for k,v in SHORT.items(): r=z3.If(c==k,BV(v,8),r)
    return r
def esc(c,g):
    """the characters g(0..) are the escaped form of c"""
    return z3.If(isshort(c),z3.And(g(0)==92,g(1)==letter(c)),z3.If(iscontrol(c),z3.And(g(0)==92,g(1)==117,g(2)==48,g(3)==48,g(4)==hexd(z3.LShR(c,4)),g(5)==hexd(c&15)),g(0)==c))
def ax(t,i,n,at,lim=LIM):
    """the defining facts of E at i; i and k up to n"""
    t.assume(z3.Implies(z3.ULT(i,n),E(i+1)==E(i)+w(at(i)))); t.assume(z3.Implies(z3.ULE(i,n),z3.And(z3.ULE(E(i),6*i),z3.ULE(i,E(i)),z3.ULE(E(i),E(n)),z3.Implies(z3.ULT(i,n),z3.ULE(E(i)+w(at(i)),E(n))))))
    t.assume(z3.Implies(z3.And(z3.ULT(K,i),z3.ULE(i,n)),z3.ULE(E(K)+w(at(K)),E(i)))); t.assume(z3.Implies(z3.ULE(n,lim),z3.ULE(E(n),6*n)))
def streams(e):
    """std::ostringstream as far as it is used here: literals, one integer, the usual manipulators"""
    O=r'std::__cxx11::basic_ostringstream<char, std::char_traits<char>, std::allocator<char>>::'; OS=r'std::(basic_ostream<char, std::char_traits<char>>|ostream)'; NEW=dict(hex=False,up=False,fill=32,w=0,out=())
    key=lambda p: ("nohavoc","os",p.obj.id)
    def get(st,p):
        if key(p) not in st.ghost: raise Unsupported("stream of unknown state")
        return dict(st.ghost[key(p)])
    def put(st,p,s): st.ghost[key(p)]=s
    def emit(st,p,cs):
        s=get(st,p); pad=max(0,s["w"]-len(cs)); s["out"]=s["out"]+(BV(s["fill"],8),)*pad+tuple(cs); s["w"]=0; put(st,p,s)
    note=lambda: e.assumptions.add("assumed contract: std::ostringstream formats integers in hexadecimal as the standard says")
    def M(p,f): e.models.insert(0,(__import__("re").compile(p),f))
    M(O+r'basic_ostringstream\(\)$',lambda e_,st,a,ins,d: (note(),put(st,a[0],NEW),None)[2]); M(O+r'~basic_ostringstream\(\)$',lambda e_,st,a,ins,d: None)
    def lit(e_,st,a,ins,d):
        n=sm.cstr(e,st,a[1])
        if not isc(n): raise Unsupported("stream output of an unknown text")
        emit(st,a[0],[S(e._read(st,st.mem[a[1].obj.id],S(a[1].off+i),1)) for i in range(cv(n))]); return a[0]
    M(r'.*std::operator<<<std::char_traits<char>>\(.*char const\*\)$|.*std::operator<< <std::char_traits<char> ?>\(.*char const\*\)$',lit)
    def manip(e_,st,a,ins,d):
        f=e.dem(a[1].obj.fn) if isinstance(a[1],Ptr) and a[1].obj.kind=="func" else ""; s=get(st,a[0])
        if f.startswith("std::hex"): s["hex"]=True
        elif f.startswith("std::dec"): s["hex"]=False
        elif f.startswith("std::uppercase"): s["up"]=True
        elif f.startswith("std::nouppercase"): s["up"]=False
        else: raise Unsupported("stream manipulator "+f)
        put(st,a[0],s); return a[0]
    M(r'std::ostream::operator<<\(std::ios_base& \(\*\)\(std::ios_base&\)\)$|'+OS+r'::operator<<\(std::ios_base& \(\*\)\(std::ios_base&\)\)$',manip)
    M(r'std::setw\(int\)$',lambda e_,st,a,ins,d: a[0]); M(r'.*std::setfill<char>\(char\)$',lambda e_,st,a,ins,d: a[0])
    def setn(k):
        def f(e_,st,a,ins,d):
            x=S(a[1]) if z3.is_expr(a[1]) else a[1]
            if not isc(x): raise Unsupported("stream width or fill is not a constant")
            s=get(st,a[0]); s[k]=cv(x); put(st,a[0],s); return a[0]
        return f
    M(r'.*std::operator<<.*\(.*std::_Setfill<char>\)$',setn("fill")); M(r'.*std::operator<<.*\(.*std::_Setw\)$',setn("w"))
    def num(e_,st,a,ins,d):
        s=get(st,a[0]); v=a[1]
        if not s["hex"] or v.size()!=32: raise Unsupported("stream output of a decimal number")
        hx=(lambda x: hexd(x)) if s["up"] else (lambda x: z3.If(z3.ULT(x,10),x+48,x+87)); out=[]
        for k in range(1,9):
            t=st.clone(); lo=z3.UGE(v,1<<(4*(k-1))) if k>1 else TRUE; t.assume(z3.And(lo,z3.ULT(v,1<<(4*k)) if k<8 else TRUE))
            if e.sat(t): emit(t,a[0],[hx(zx(z3.Extract(4*i+3,4*i,v),8)) for i in reversed(range(k))]); out.append(Outcome("ret",a[0],t))
        return out
    M(r'(std::ostream|'+OS+r')::operator<<\((unsigned )?int\)$',num)
    def to_s(e_,st,a,ins,d):
        o=get(st,a[1])["out"]; node=base_fill(BV(0,8))
        for i,c in enumerate(o): node=Node("st",node,bv64(i),1,c)
        sm.mk(e,st,a[0],node,bv64(len(o))); return None
    M(O+r'str\(\) const$|'+O+r'str\[abi:cxx11\]\(\) const$',to_s)
def source(e,st,name="text",lim=LIM):
    n=z3.BitVec(name+"_size",64); st.assume(z3.ULE(n,lim)); D=z3.Array(name,V64,B8); return e.new_obj(st,name,n,base_arr(D),const=True),n,(lambda i: z3.Select(D,i))
def dest(e,st,name="out"):
    o=V(); o.p=Ptr(e.new_obj(st,name,32)); o.L=z3.BitVec(name+"_size",64); o.B=z3.Array(name,V64,B8); st.assume(z3.ULE(o.L,LIM)); sm.mk(e,st,o.p,base_arr(o.B),o.L); return o
def kept(e,s,o,w): t=s.clone(); t.assume(z3.ULT(J,o.L)); e.prove(t,sm.at(e,t,o.p,J)==z3.Select(o.B,J),"C15 %s only appends"%w)
# ---------------------------------------------------------------- strings
def u_escape(e):
    streams(e); e.contracts={}; st=State(); st.assume(E(ZERO)==0); d,n,at=source(e,st); o=dest(e,st)
    def text(t,p): return esc(at(K),lambda j: sm.at(e,t,p,S(o.L+E(K)+j)))
    def hook(e_,st_,fr,dname,hdr,body):
        def cands(e__,st0,h,e0,eh,vs):
            out=[]
            for p in grown(e_,st0,h):
                for kc,c in cursors(e0,eh,vs):
                    def f1(t,en,it,p=p,c=c): i=c(en); ax(t,i,n,at); return z3.And(z3.ULE(i,n),sm.slen(e_,t,p)==o.L+E(i))
                    def f2(t,en,it,p=p,c=c): i=c(en); ax(t,i,n,at); return z3.Implies(z3.ULT(K,i),text(t,p))
                    out+=[(("len",p.obj.id,kc),f1),(("chars",p.obj.id,kc),f2)]
                out.append((("old",p.obj.id),lambda t,en,it,p=p: z3.Implies(z3.ULT(J,o.L),sm.at(e_,t,p,J)==z3.Select(o.B,J))))
            return out
        return {"cands":cands}
    e.loop_hooks=[hook]; c=0
    for q in e.run(st,ESC,[o.p,Ptr(d),n]):
        s=q.st; ax(s,n,n,at); c+=1; e.prove(s,z3.BoolVal(q.kind=="ret"),"C15 escaping returns"); kept(e,s,o,"escaping"); e.prove(s,sm.slen(e,s,o.p)==o.L+E(n),"C15 the escaped text has the length of its parts"); e.prove(s,z3.Implies(z3.ULT(K,n),text(s,o.p)),"C15 every byte is escaped so that it reads back")
    e.cover({c>0},{True})
def parser(e,st,n=None,zero=True):
    """text of n characters with its terminating zero byte"""
    r=V(); r.n=z3.BitVec("size",32) if n is None else n; st.assume(z3.And(r.n>=0,r.n<=LIM)); r.D=z3.Array("json",V64,B8); r.N=zx(r.n,64); r.d=e.new_obj(st,"json",S(r.N+1),Node("st",base_arr(r.D),r.N,1,BV(0,8)),const=True); r.at=lambda i: z3.Select(r.D,i)
    r.pos=z3.BitVec("pos",32); st.assume(z3.And(r.pos>=0,r.pos<=r.n)); r.po=e.new_obj(st,"position",4); e.rawstore(st,Ptr(r.po),r.pos,4); r.P=zx(r.pos,64); return r
def pos(e,s,r): return zx(S(e._read(s,s.mem[r.po.id],ZERO,4)),64)
def fails(q): return q.kind=="throw" and q.val[1]=="_ZTISt13runtime_error"
def span_hook(e,r,strs=True,extra=None):
    """the position only moves right, inside the text"""
    def hook(e_,st_,fr,dname,hdr,body):
        def cands(e__,st0,h,e0,eh,vs):
            out=[]
            for k in vs:
                if e0[k].size()==32: out.append((("inside",k),lambda t,en,it,k=k: z3.And(en[k]>=e0[k],en[k]<=r.n)))
            return out+(extra(e__,st0,h,e0,eh,vs) if extra else [])
        return {"cands":cands}
    e.loop_hooks=[hook]
# \u escapes
UNI=F+"readUnicode(int&, char const*, int, unsigned int&)"
def hexd_any(c): return z3.Or(z3.And(z3.UGE(c,48),z3.ULE(c,57)),z3.And(z3.UGE(c,97),z3.ULE(c,102)),z3.And(z3.UGE(c,65),z3.ULE(c,70)))
def hval(c): return zx(z3.If(z3.ULE(c,57),c-48,z3.If(z3.ULE(c,70),c-55,c-87)),32)
def four(at,p):
    """the four characters after position p: (are they in hex, their value)"""
    cs=[at(p+i) for i in range(1,5)]; v=BV(0,32)
    for c in cs: v=v*16+hval(c)
    return z3.And([hexd_any(c) for c in cs]),v
def u_hex4(e):
    e.contracts={}; st=State(); r=parser(e,st); st.assume(r.pos<r.n); u=e.new_obj(st,"code",4); cov=set(); ok,v=four(r.at,r.P); room=z3.ULT(r.P+4,r.N)
    for q in e.run(st,UNI,[Ptr(r.po),Ptr(r.d),r.n,Ptr(u)]):
        s=q.st; cov.add(q.kind); p=pos(e,s,r)
        if q.kind=="throw": e.prove(s,z3.BoolVal(fails(q)),"C15 a bad escape fails with an error"); e.prove(s,z3.Not(z3.And(room,ok)),"C15 four hex digits are accepted"); e.prove(s,z3.And(z3.UGE(p,r.P),z3.ULE(p,r.N)),"C15 the position stays inside the text (escape)"); continue
        e.prove(s,z3.And(room,ok),"C15 only four hex digits are accepted"); e.prove(s,p==r.P+4,"C15 an escape takes four digits"); e.prove(s,e._read(s,s.mem[u.id],ZERO,4)==v,"C15 an escape denotes its hexadecimal value")
    e.cover(cov,{"ret","throw"})
def hex4_contract(e,r):
    def c(e_,s,a,ins):
        if not(isinstance(a[0],Ptr) and isinstance(a[1],Ptr) and a[1].obj is r.d): return None
        p=e_._read(s,s.mem[a[0].obj.id],a[0].off,4); e_.prove(s,z3.And(a[1].off==0,a[2]==r.n,p>=0,p<r.n),"C15 escapes are read inside the text"); P=zx(p,64); ok,v=four(r.at,P); good=z3.And(z3.ULT(P+4,r.N),ok); t=s.clone(); s.assume(good); t.assume(z3.Not(good)); e_.rawstore(s,a[0],p+4,4); e_.rawstore(s,a[3],v,4); x=fresh("stop",32); t.assume(z3.And(x>=p,x<=r.n)); e_.rawstore(t,a[0],x,4)
        return [z for z in(Outcome("ret",NULL,s),Outcome("throw",(Ptr(e_.new_obj(t,"exc",16)),"_ZTISt13runtime_error"),t)) if e_.sat(z.st)]
    return {UNI:c}
def u_string(e):
    """any text: stops at the closing quote or fails"""
    st=State(); r=parser(e,st); e.contracts=hex4_contract(e,r); o=dest(e,st,"value"); span_hook(e,r); cov=set()
    for q in e.run(st,RSTR,[Ptr(r.po),o.p,Ptr(r.d),r.n]):
        s=q.st; cov.add(q.kind); p=pos(e,s,r); e.prove(s,z3.BoolVal(q.kind=="ret" or fails(q)),"C15 reading a string fails only with an error"); e.prove(s,z3.And(z3.UGE(p,r.P),z3.ULE(p,r.N)),"C15 the position stays inside the text (string)")
        if q.kind=="ret": e.prove(s,z3.And(z3.ULT(p,r.N),r.at(p)==34),"C15 a string ends at a quote")
    e.cover(cov,{"ret","throw"})
def u_unescape(e):
    """the escaped form of a text followed by a quote reads back as that text"""
    st=State(); st.assume(E(ZERO)==0); r=parser(e,st); e.contracts=hex4_contract(e,r); o=dest(e,st,"value"); X,n,at=source(e,st,"text"); st.assume(z3.ULE(r.P+E(n),r.N-1)); st.assume(z3.UGT(r.N,r.P)); st.assume(r.at(r.P+E(n))==34)
    def shape(t,i): ax(t,i,n,at); t.assume(z3.Implies(z3.ULT(i,n),esc(at(i),lambda j: r.at(r.P+E(i)+j))))
    def extra(e_,st0,h,e0,eh,vs):
        out=[]
        for p in grown(e_,st0,h):
            for k in vs:
                if e0[k].size()!=32: continue
                def f1(t,en,it,p=p,k=k): i=S(sm.slen(e_,t,p)-o.L); shape(t,i); return z3.And(z3.UGE(sm.slen(e_,t,p),o.L),z3.ULE(i,n),zx(en[k],64)==r.P+E(i))
                out.append((("at",p.obj.id,k),f1))
            out.append((("text",p.obj.id),lambda t,en,it,p=p: z3.Implies(z3.ULT(J,sm.slen(e_,t,p)-o.L),sm.at(e_,t,p,S(o.L+J))==at(J)))); out.append((("old",p.obj.id),lambda t,en,it,p=p: z3.Implies(z3.ULT(J,o.L),sm.at(e_,t,p,J)==z3.Select(o.B,J))))
        return out
    shape(st,ZERO); shape(st,n); span_hook(e,r,extra=extra); c=0
    for q in e.run(st,RSTR,[Ptr(r.po),o.p,Ptr(r.d),r.n]):
        s=q.st; i=S(sm.slen(e,s,o.p)-o.L); shape(s,i); c+=1; e.prove(s,z3.BoolVal(q.kind=="ret"),"C15 an escaped string is read"); e.prove(s,pos(e,s,r)==r.P+E(n),"C15 an escaped string is read up to its closing quote"); e.prove(s,i==n,"C15 a string reads back with its length"); t=s.clone(); t.assume(z3.ULT(J,n)); e.prove(t,sm.at(e,t,o.p,S(o.L+J))==at(J),"C15 a string reads back byte for byte"); kept(e,s,o,"reading a string")
    e.cover({c>0},{True})
# ---------------------------------------------------------------- numbers
DELIM=(32,44,125,93,13,10,9,8,12)
def isdelim(c): return z3.Or([c==x for x in DELIM])
def u_number(e):
    """the characters up to the next delimiter, at least one if there is one"""
    e.contracts={}; st=State(); r=parser(e,st); o=V(); o.p=Ptr(e.new_obj(st,"digits",32)); sm.mk(e,st,o.p,base_fill(BV(0,8)),ZERO)
    def extra(e_,st0,h,e0,eh,vs):
        out=[]
        for p in grown(e_,st0,h):
            for k in vs:
                if e0[k].size()!=32: continue
                out.append((("len",p.obj.id,k),lambda t,en,it,p=p,k=k: sm.slen(e_,t,p)==zx(en[k],64)-r.P)); out.append((("chars",p.obj.id,k),lambda t,en,it,p=p,k=k: z3.Implies(z3.ULT(J,zx(en[k],64)-r.P),sm.at(e_,t,p,J)==r.at(r.P+J))))
                out.append((("nodelim",k),lambda t,en,it,k=k: z3.Implies(z3.And(z3.UGT(K,r.P),z3.ULT(K,zx(en[k],64))),z3.Not(isdelim(r.at(K)))))); out.append((("lastok",k),lambda t,en,it,k=k: z3.Or(en[k]==r.pos,en[k]==r.n,z3.Not(isdelim(r.at(zx(en[k],64)))))))
        return out
    span_hook(e,r,extra=extra); c=0
    for q in e.run(st,RNUM,[Ptr(r.po),o.p,Ptr(r.d),r.n]):
        s=q.st; p=pos(e,s,r); c+=1; e.prove(s,z3.BoolVal(q.kind=="ret"),"C15 reading a number returns"); e.prove(s,z3.And(z3.UGE(p,r.P),z3.ULE(p,r.N)),"C15 the position stays inside the text (number)"); e.prove(s,z3.Implies(z3.ULT(r.P,r.N),z3.UGT(p,r.P)),"C15 a number takes at least one character")
        e.prove(s,z3.Or(p==r.P,p==r.N,isdelim(r.at(p))),"C15 a number ends at a delimiter or the end"); e.prove(s,z3.Implies(z3.And(z3.UGT(K,r.P),z3.ULT(K,p)),z3.Not(isdelim(r.at(K)))),"C15 a number stops at the first delimiter"); e.prove(s,sm.slen(e,s,o.p)==p-r.P,"C15 a number is all its characters"); t=s.clone(); t.assume(z3.ULT(J,p-r.P)); e.prove(t,sm.at(e,t,o.p,J)==r.at(r.P+J),"C15 a number is the characters of the text")
    e.cover({c>0},{True})
# the text of a number
def digit(c): return z3.And(z3.UGE(c,48),z3.ULE(c,57))
FINITE=lambda v: (v>>52)&0x7ff!=0x7ff
class Txt:
    """an assumed text: length, characters, the value it denotes"""
    def __init__(s,L,C,v,facts): s.L=L; s.C=C; s.v=v; s.facts=facts
def dec_text(v,signed):
    n="i" if signed else "u"; L=z3.Function("declen_"+n,V64,V64)(v); f=z3.Function("decchar_"+n,V64,V64,B8); C=lambda i: f(v,i); neg=(v<0) if signed else FALSE
    def facts(t,*at):
        t.assume(z3.And(z3.UGE(L,1),z3.ULE(L,20),(C(ZERO)==45)==neg,z3.Implies(neg,z3.UGE(L,2))))
        for i in at: t.assume(z3.Implies(z3.ULT(i,L),z3.Or(digit(C(i)),z3.And(i==0,neg))))
    return Txt(L,C,v,facts)
def flt_text(v,prec):
    L=z3.Function("fltlen%d"%prec,V64,V64)(v); f=z3.Function("fltchar%d"%prec,V64,V64,B8); C=lambda i: f(v,i); P=z3.Function("fltpoint%d"%prec,V64,V64)(v)
    def facts(t,*at):
        t.assume(z3.And(z3.UGE(L,2),z3.ULE(L,25),z3.ULT(P,L),C(P)==46))
        for i in at+(ZERO,): t.assume(z3.Implies(z3.ULT(i,L),z3.And(z3.Or(digit(C(i)),C(i)==46,C(i)==43,C(i)==45,C(i)==101),z3.Implies(i==0,z3.Or(digit(C(i)),C(i)==45)))))
    T=Txt(L,C,v,facts); T.P=P; return T
NUMNOTE="assumed contract: snprintf of a 64-bit integer writes its decimal digits (with '-' if negative) and strtoull/atoll of exactly that text gives it back; %#.17g of a finite double is read back exactly by strtod/atof, contains a point and only digits, signs and e"
def readback(prec): return z3.Function("strtod_of_%d_digits"%prec,V64,V64)
def numbers(e):
    reg=e.__dict__.setdefault("_texts",[])
    import re
    def M(p,f): e.models.insert(0,(re.compile(p),f))
    def fmt(st,p):
        n=sm.cstr(e,st,p)
        return bytes(cv(S(e._read(st,st.mem[p.obj.id],S(p.off+i),1))) for i in range(cv(n))).decode() if isc(n) else None
    def sn(e_,st,a,ins,d):
        f=fmt(st,a[2]); m=re.fullmatch(r'%(l{0,2})([dui])',f or ""); g=re.fullmatch(r'%#?\.(\d+)g',f or ""); v=a[3] if len(a)>3 else None
        if m and v.size()==(64 if m.group(1) else 32): T=dec_text(v if v.size()==64 else (sx(v,64) if m.group(2)!="u" else zx(v,64)),m.group(2)!="u")
        elif g and "#" in f: T=flt_text(v,int(g.group(1))); e.prove(st,TRUE,"C15 number format"); T.prec=int(g.group(1))
        else: return NotImplemented
        e.assumptions.add(NUMNOTE); T.facts(st,ZERO); e.access(st,a[0],S(T.L+1),"w","snprintf target"); e.prove(st,z3.ULT(T.L,a[1]),"C15 the text of a number fits its buffer"); reg.append(T); sm.add_fact(st,lambda k,T=T: [T.facts(x:=_Sink(),k),x.c][1])
        node=Node("st",base_fn(T.C),T.L,1,BV(0,8))
        if not(isc(a[0].off) and cv(a[0].off)==0): return NotImplemented
        st.mem[a[0].obj.id]=node; st.ghost[("nohavoc","cstr",id(node),ZERO.get_id())]=(T.L,node,ZERO); e._keep.append(node); return z3.Extract(31,0,T.L)
    M(r'snprintf$',sn)
    def denotes(st,p,isf):
        """the registered text that the string at p is"""
        if not isinstance(p,Ptr) or p.obj.kind in("null","func"): return None
        node=st.mem[p.obj.id]
        for T in reversed(reg):
            if hasattr(T,"prec")!=isf: continue
            if p.obj.kind=="strbuf":
                own=p.obj.ghost["owner"]; n=e._read(st,st.mem[own[0].id],own[1]+8,8)
            else: n=sm.cstr(e,st,p)
            t=st.clone(); T.facts(t,J); t.assume(z3.ULT(J,T.L))
            if e.valid(st,n-p.off==T.L) and e.valid(t,e._read(t,node,S(p.off+J),1)==T.C(J)): return T
        return None
    def num(e_,st,a,ins,d):
        if len(a)>2 and not(isc(a[2]) and cv(a[2]) in(0,10)): return NotImplemented
        T=denotes(st,a[0],False); return T.v if T is not None else NotImplemented
    M(r'(atoll|atol|strtol|strtoll|strtoul|strtoull|__isoc23_strto(l|ll|ul|ull))(\(.*)?$',num)
    def flt(e_,st,a,ins,d):
        T=denotes(st,a[0],True)
        if T is None: return fresh("strtod",64)
        return T.v if T.prec>=17 else readback(T.prec)(T.v)
    M(r'(atof|strtod)(\(.*)?$',flt)
class _Sink:
    def __init__(s): s.l=[]
    def assume(s,x): s.l.append(x)
    @property
    def c(s): return z3.And(s.l)
def same_double(x,y): return fp_eq(x,y)
def const_text(b): return Txt(bv64(len(b)),lambda i,b=b: _sel(b,i),None,lambda t,*at: None)
def _sel(b,i):
    r=BV(0,8)
    for k,c in enumerate(b): r=z3.If(i==k,BV(c,8),r)
    return r
def forms(k,pl):
    """the texts a scalar may have: (condition, text)"""
    if k=="Null": return [(TRUE,const_text(b"null"))]
    if k=="Bool": return [(pl!=0,const_text(b"true")),(pl==0,const_text(b"false"))]
    if k=="Integer": return [(TRUE,dec_text(pl,False))]
    if k=="SInteger": return [(TRUE,dec_text(pl,True))]
    a,b=flt_text(pl,16),flt_text(pl,17); a.prec=16; b.prec=17; c=same_double(readback(16)(pl),pl); return [(c,a),(z3.Not(c),b)]
def esc_contract(log=None):
    def c(e,s,a,ins):
        if not isinstance(a[0],Ptr) or not isinstance(a[1],Ptr): return None
        return None if log is None else log(e,s,a)
    return {ESC:c}
def u_write(e):
    """the text of a scalar, and of a string in quotes"""
    numbers(e)
    for k in("Null","Bool","Integer","SInteger","Float"):
        e.contracts={}; st=State(); a=Any(e); p,pl=a.make(st,k,"value"); o=dest(e,st); w=" (%s)"%k; n=0
        if k=="Float": st.assume(FINITE(pl))
        for q in e.run(st,ENC,[p,o.p]):
            s=q.st; n+=1; e.prove(s,z3.BoolVal(q.kind=="ret"),"C15 encodeJSON returns"+w); kept(e,s,o,"encodeJSON"); e.prove(s,a.get(s,p,"val")==pl,"C15 encodeJSON does not change the value"+w)
            for c,T in forms(k,pl):
                t=s.clone(); t.assume(c)
                if not e.sat(t): continue
                e.prove(t,sm.slen(e,t,o.p)==o.L+T.L,"C15 the text of a value has its length"+w); t.assume(z3.ULT(J,T.L)); T.facts(t,J); e.prove(t,sm.at(e,t,o.p,S(o.L+J))==T.C(J),"C15 the text of a value"+w)
        e.cover({n>0},{True})
    st=State(); a=Any(e); p,pl=a.make(st,"String","value"); o=dest(e,st); N,C=sm.slen(e,st,Ptr(pl)),sm.chars(e,st,Ptr(pl)); st.assume(z3.ULE(N,LIM)); W=z3.Array("escaped_text",V64,B8); hits=set()
    def log(e_,s,x):
        e_.prove(s,z3.BoolVal(x[0].obj is o.p.obj and x[1].obj is sm.sget(e_,s,Ptr(pl))[0]),"C15 the string is escaped into the text"); e_.prove(s,z3.And(x[1].off==0,x[2]==N),"C15 the whole string is escaped"); hits.add("esc"); s.assume(z3.ULE(E(N),6*N)); e_.prove(s,sm.slen(e_,s,o.p)==o.L+1,"C15 the opening quote comes first"); sm.app(e_,s,o.p,base_arr(W),ZERO,E(N)); return NULL
    e.contracts=esc_contract(log)
    for q in e.run(st,ENC,[p,o.p]):
        s=q.st; hits.add(q.kind); kept(e,s,o,"encodeJSON"); e.prove(s,sm.slen(e,s,o.p)==o.L+E(N)+2,"C15 a string's text is its escaped form in quotes"); e.prove(s,z3.And(sm.at(e,s,o.p,o.L)==34,sm.at(e,s,o.p,S(o.L+1+E(N)))==34),"C15 a string's text is in quotes"); t=s.clone(); t.assume(z3.ULT(J,E(N))); e.prove(t,sm.at(e,t,o.p,S(o.L+1+J))==z3.Select(W,J),"C15 a string's text is its escaped form")
    e.cover(hits,{"esc","ret"})
# ---------------------------------------------------------------- reading values
SKIP=F+"skipSpaces(int&, char const*, int)"; RARR=F+"readArray(int&, lce::CAnyValue&, char const*, int, int)"; ROBJ=F+"readObj(int&, lce::CAnyValue&, char const*, int, int)"; ASG=F+"operator=(lce::CAnyValue const&)"
MAXDEPTH=1000
def isspace(c): return z3.Or([c==x for x in(32,9,13,10)])
def u_spaces(e):
    """spaces are skipped up to the next other character"""
    e.contracts={}; st=State(); r=parser(e,st)
    def extra(e_,st0,h,e0,eh,vs): return [(("allspace",k),lambda t,en,it,k=k: z3.Implies(z3.And(z3.UGE(K,r.P),z3.ULT(K,zx(en[k],64))),isspace(r.at(K)))) for k in vs if e0[k].size()==32]
    span_hook(e,r,extra=extra); c=0
    for q in e.run(st,SKIP,[Ptr(r.po),Ptr(r.d),r.n]):
        s=q.st; p=pos(e,s,r); c+=1; e.prove(s,z3.BoolVal(q.kind=="ret"),"C15 skipping spaces returns"); e.prove(s,z3.And(z3.UGE(p,r.P),z3.ULE(p,r.N)),"C15 the position stays inside the text (spaces)"); e.prove(s,z3.Or(p==r.N,z3.Not(isspace(r.at(p)))),"C15 spaces are skipped up to the next other character"); e.prove(s,z3.Implies(z3.And(z3.UGE(K,r.P),z3.ULT(K,p)),isspace(r.at(K))),"C15 only spaces are skipped")
    e.cover({c>0},{True})
class Reader:
    """contracts of the parts of the parser, for a text of r.n characters r.at(i)"""
    def __init__(v,e,r,a): v.e=e; v.r=r; v.a=a; v.hit=set(); v.depth=None; v.on_space=v.on_num=v.on_str=v.on_nest=None
    def text(v,s,p,n):
        e,r=v.e,v.r; same=e.decide(s,p.off==0) if isinstance(p,Ptr) else False
        if same and p.obj is not r.d:
            t=s.clone(); t.assume(z3.ULT(J,r.N)); same=e.valid(t,e._read(t,s.mem[p.obj.id],J,1)==r.at(J))
        e.prove(s,n==r.n if same else FALSE,"C15 the parts of the parser read the same text")
    def pos(v,s,p): return v.e._read(s,s.mem[p.obj.id],p.off,4)
    def move(v,s,p,x): v.e.rawstore(s,p,x,4)
    def inside(v,s,x): v.e.prove(s,z3.And(x>=v.r.pos,x<=v.r.n),"C15 the parser moves right, inside the text")
    def throws(v,t,p,x):
        """fails at a position further right"""
        y=fresh("stop",32); t.assume(z3.And(y>=x,y<=v.r.n)); v.move(t,p,y); return Outcome("throw",(Ptr(v.e.new_obj(t,"exc",16)),"_ZTISt13runtime_error"),t)
    def contracts(v,top=None):
        e,r=v.e,v.r; live=lambda l: [x for x in l if e.sat(x.st)]
        def skip(e_,s,a,ins):
            v.text(s,a[1],a[2]); x=v.pos(s,a[0]); v.inside(s,x)
            if v.on_space:
                o=v.on_space(s,x)
                if o is not None: return o
            c=r.at(zx(x,64)); y=fresh("past",32); s.assume(z3.And(y>=x,y<=r.n,z3.Implies(z3.And(x<r.n,z3.Not(isspace(c))),y==x),z3.Or(y==r.n,z3.Not(isspace(r.at(zx(y,64))))))); s.assume(z3.Implies(x==r.n,y==x)); v.move(s,a[0],y if not e.valid(s,y==x) else x); return NULL
        def num(e_,s,a,ins):
            v.text(s,a[2],a[3]); x=v.pos(s,a[0]); v.inside(s,x); e.prove(s,sm.slen(e,s,a[1])==0,"C15 a number is read into an empty string"); v.hit.add("num"); X=zx(x,64)
            outs=v.on_num(s,x) if v.on_num else [(s,None)]; res=[]
            for t,L in outs:
                q=fresh("numend",32); Q=zx(q,64); t.assume(z3.And(q>=x,q<=r.n,z3.Implies(x<r.n,q>x),z3.Or(q==x,q==r.n,isdelim(r.at(Q)))))
                if L is not None:
                    L=L if L.size()==32 else z3.Extract(31,0,L); E1=zx(S(x+L),64); t.assume(z3.Implies(z3.And(x+L>x,x+L<q),z3.Not(isdelim(r.at(E1))))); t.assume(v.text_fact(t,zx(q-x,64))); e.prove(t,q==x+L,"C15 a number is read up to its end"); q=S(x+L); Q=zx(q,64)
                v.move(t,a[0],q); sm.put(e,t,a[1],base_fn(lambda j,X=X: r.at(S(X+j))),ZERO,S(Q-X)); res.append(Outcome("ret",NULL,t))
            return live(res)
        def stri(e_,s,a,ins):
            v.text(s,a[2],a[3]); x=v.pos(s,a[0]); v.inside(s,x); v.hit.add("str")
            if v.on_str: return v.on_str(s,x,a)
            t=s.clone(); y=fresh("quote",32); s.assume(z3.And(y>=x,y<r.n,r.at(zx(y,64))==34)); v.move(s,a[0],y); n=fresh("strlen",64); s.assume(z3.ULE(n,LIM)); sm.app(e,s,a[1],base_arr(fresh_arr("strchars")),ZERO,n); return live([Outcome("ret",NULL,s),v.throws(t,a[0],x)])
        def nest(kind):
            def c(e_,s,a,ins):
                if top is not None and isinstance(a[1],Ptr) and a[1].obj is top.obj: return None
                v.text(s,a[2],a[3]); x=v.pos(s,a[0]); v.inside(s,x); v.hit.add(kind)
                if v.depth is not None: e.prove(s,z3.And(a[4]==v.depth+1,v.depth<MAXDEPTH),"C15 nesting is counted and bounded"); e.prove(s,x>r.pos,"C15 nested values start further right (reading terminates)")
                if v.on_nest: return v.on_nest(s,x,a,kind)
                t=s.clone(); y=fresh("nestend",32); s.assume(z3.And(y>=x,y<=r.n)); v.move(s,a[0],y); return live([Outcome("ret",NULL,s),v.throws(t,a[0],x)])
            return c
        return {SKIP:skip,RNUM:num,RSTR:stri,RARR:nest("Vector"),ROBJ:nest("Map")}
    def text_fact(v,t,i): return TRUE
def assigned(a,s,x,k,pl,w):
    """the value at x has this kind and word"""
    e=a.e; kk=a.inv(s,x,"C15 "+w); t=a.get(s,x,"type")
    if k=="SInteger": e.prove(s,z3.Or(t==KIND["Integer"],t==KIND["SInteger"]),"C15 %s: the value has its type"%w); e.prove(s,(t==KIND["SInteger"])==(pl<0),"C15 %s: a negative integer stays signed"%w)
    elif k=="Integer": e.prove(s,t==KIND[k],"C15 %s: the value has its type"%w)
    else: e.prove(s,z3.BoolVal(kk==k),"C15 %s: the value has its type"%w)
    if kk is None or k in("Null","String","Vector","Map"): return kk
    g=a.get(s,x,"val"); e.prove(s,same_double(g,pl) if k=="Float" else g==pl,"C15 %s: the value is the same"%w); return kk
def scalar_facts(t,k,T,at,*idx):
    """the text T stands at at(0..)"""
    for i in idx: T.facts(t,i); t.assume(z3.Implies(z3.ULT(i,T.L),at(i)==T.C(i)))
def kind_of(k,pl): return pl if k!="Bool" else zx(z3.Extract(7,0,pl),64)
def fresh_payload(st,k,e):
    if k=="Null": return ZERO
    x=z3.BitVec("payload",64)
    if k=="Bool": st.assume(z3.ULE(x,1))
    if k=="Float": st.assume(FINITE(x))
    return x
PTS=lambda T: [ZERO,bv64(1),bv64(2),bv64(3),bv64(4),J]+([T.P] if hasattr(T,"P") else [])
def u_read(ks):
    def u(e):
        """the text of a scalar or a string, alone, into any value"""
        numbers(e); reg=e._texts; hits=set()
        for k in ks:
            for init in("Null","String","Map") if k in("Integer","String") else ("Null","Vector"):
                st0=State(); a=Any(e); pl=fresh_payload(st0,k,e)
                for c,T in forms(k,pl) if k!="String" else [(TRUE,None)]:
                    st=st0.clone(); a=Any(e); this,_=a.make(st,init,"value"); st.assume(c); n=z3.BitVec("size",32); r=parser(e,st,n); r.pos=BV(0,32); r.P=ZERO; del reg[:]
                    if T is not None:
                        st.assume(r.N==T.L); scalar_facts(st,k,T,r.at,*PTS(T))
                        def tf(x,T=T,r=r): y=_Sink(); scalar_facts(y,k,T,r.at,x); return y.c
                        sm.add_fact(st,tf); st.ghost[("nohavoc","points")]=tuple(PTS(T))
                        if k in("Integer","SInteger","Float"): reg.append(T)
                    v=Reader(e,r,a); SL=z3.BitVec("strlen",64); SC=z3.Array("str",V64,B8); 
                    if k=="String": st.assume(z3.And(z3.UGE(r.N,2),r.at(ZERO)==34,r.at(r.N-1)==34,z3.ULE(SL,LIM)))
                    v.text_fact=(lambda t,i: tf(i)) if T is not None else None
                    v.on_num=(lambda s,x,T=T: [(s,T.L)])
                    def on_str(s,x,A):
                        e.prove(s,x==1,"C15 a string is read after its quote"); e.prove(s,sm.slen(e,s,A[1])==0,"C15 a string is read into an empty string"); v.move(s,A[0],S(r.n-1)); sm.put(e,s,A[1],base_arr(SC),ZERO,SL); return NULL
                    v.on_str=on_str if k=="String" else None; e.contracts=v.contracts()
                    # the text handed over: exactly these bytes, nothing promised after them
                    d=e.new_obj(st,"input",r.N,base_arr(r.D),const=True); e.loop_hooks=[]
                    for q in e.run(st,DEC,[this,Ptr(d),r.N]):
                        s=q.st; hits.add((k,q.kind)); e.prove(s,z3.BoolVal(q.kind=="ret"),"C15 the text of a value is read back (%s)"%k)
                        if q.kind!="ret": continue
                        kk=assigned(a,s,this,k,pl,"reading %s"%k)
                        if k=="String" and kk=="String":
                            o=Ptr(a.get(s,this,"val").obj); e.prove(s,sm.slen(e,s,o)==SL,"C15 a top-level string keeps its length"); t=s.clone(); t.assume(z3.ULT(J,SL)); e.prove(t,sm.at(e,t,o,J)==z3.Select(SC,J),"C15 a top-level string keeps its bytes")
        e.cover({x for x,y in hits if y=="ret"},set(ks))
    return u
# ---------------------------------------------------------------- containers: any text
def any_numbers(e):
    e.models.insert(0,(__import__("re").compile(r'(atof|strtod)(\(.*)?$'),lambda e_,st,a,ins,d: (sm.cstr(e_,st,a[0]),fresh("number",64))[1]))
def cells(e0,n): return [k for k in e0 if e0[k].size()==n]
def safe_hook(e,r):
    def extra(e_,st0,h,e0,eh,vs):
        out=[]
        for k in vs:
            for p in vs:
                if e0[k].size()==64 and e0[p].size()==32: out.append((("few",k,p),lambda t,en,it,k=k,p=p: z3.ULE(en[k]-e0[k],zx(en[p]-e0[p],64))))
        return out
    span_hook(e,r,extra=extra)
def u_container_safe(kind,inits):
    FN={"Vector":RARR,"Map":ROBJ}[kind]; w=" (%s)"%kind.lower()
    def u(e):
        any_numbers(e); allc=set()
        for init in inits:
            st=State(); r=parser(e,st); a=Any(e); this,pl=a.make(st,init,"value"); depth=z3.BitVec("depth",32); st.assume(z3.And(depth>=0,depth<=MAXDEPTH,r.pos>0)); v=Reader(e,r,a); v.depth=depth; e.contracts=v.contracts(this); safe_hook(e,r); cov=set(); v.pushed=0
            if init=="Vector": st.assume(z3.ULE(a.count(st,pl),LIM))
            def on_push(s,k,o,p): a.inv(s,p,"C15 an element"+w); v.hit.add("push")
            a.on_push=on_push
            def on_nest(s,x,A,k):
                t=s.clone(); c=a.get(s,this,"val"); p=A[1]; good=False
                if isinstance(c,Ptr) and isinstance(p,Ptr) and c.obj.ghost.get("what")=="vec" and a.elems(s,c.obj) is p.obj: e.prove(s,z3.ULT(p.off,a.count(s,c.obj)*anylib.ESZ),"memory-safety: nested value inside its vector"); good=True
                elif isinstance(c,Ptr) and isinstance(p,Ptr) and c.obj.ghost.get("what")=="map" and p.obj in c.obj.ghost.get("nodes",()) and p.obj.id not in s.dead: e.prove(s,p.off==32,"memory-safety: nested value is an entry's value"); good=True
                elif isinstance(p,Ptr) and p.obj.kind in("stack","alloca") and p.obj.id not in s.dead:
                    y=a.inv(s,p,"C15 a nested value is read into a valid value"); good=y is not None
                    if good:
                        for z in(s,t): a.fill(z,p,k,"nested")
                e.prove(s,z3.BoolVal(good),"C15 a nested value is read into a child of this value")
                if not good: raise PathEnd()
                t2=t; y=fresh("nestend",32); s.assume(z3.And(y>=x,y<=r.n)); v.move(s,A[0],y); return [z for z in(Outcome("ret",NULL,s),v.throws(t2,A[0],x)) if e.sat(z.st)]
            v.on_nest=on_nest
            def asg(e_,s,A,ins):
                a.inv(s,A[1],"C15 an assigned value"+w); p=A[0]; ok=isinstance(p,Ptr) and any(x[3] is p.obj for x in a.events(s,"index")) and p.obj.id not in s.dead; e_.prove(s,p.off==32 if ok else FALSE,"C15 values are assigned to entries of this map"); v.hit.add("assign"); return A[0]
            if kind=="Map": e.contracts[ASG]=asg
            for q in e.run(st,FN,[Ptr(r.po),this,Ptr(r.d),r.n,depth]):
                s=q.st; cov.add(q.kind); p=pos(e,s,r); e.prove(s,z3.BoolVal(q.kind=="ret" or fails(q)),"C15 reading fails only with its error"+w); e.prove(s,z3.And(z3.UGE(p,r.P),z3.ULE(p,r.N)),"C15 the position stays inside the text"+w); kk=a.inv(s,this,"C15 after reading"+w)
                if q.kind=="ret": e.prove(s,z3.BoolVal(kk==kind),"C15 the text's type is the value's type"+w); e.prove(s,depth<MAXDEPTH,"C15 nesting beyond the limit is refused"+w)
            allc|=cov|v.hit
        e.cover(allc,{"ret","throw","num","str","Vector","Map"}|({"push"} if kind=="Vector" else {"assign"}))
    return u
def u_top_safe(e):
    """decodeJSON of any text into any value"""
    any_numbers(e)
    for init in("Null","String","Map"):
        st=State(); n=z3.BitVec("size",32); r=parser(e,st,n); r.pos=BV(0,32); r.P=ZERO; a=Any(e); this,_=a.make(st,init,"value"); v=Reader(e,r,a); e.loop_hooks=[]; e.contracts=v.contracts(); cov=set(); d=e.new_obj(st,"input",r.N,base_arr(r.D),const=True)
        def on_nest(s,x,A,k):
            e.prove(s,z3.BoolVal(A[1].obj is this.obj),"C15 the text is read into this value"); e.prove(s,z3.And(A[1].off==this.off,A[4]==0),"C15 nesting starts at no depth"); e.prove(s,z3.And(x>0,r.at(zx(x-1,64))==(91 if k=="Vector" else 123)),"C15 a container is read after its bracket"); a.inv(s,this,"C15 before reading"); t=s.clone(); y=fresh("nestend",32); s.assume(z3.And(y>=x,y<=r.n)); v.move(s,A[0],y); a.fill(s,this,k,"read"); a.fill(t,this,k,"partly_read"); return [z for z in(Outcome("ret",NULL,s),v.throws(t,A[0],x)) if e.sat(z.st)]
        v.on_nest=on_nest
        for q in e.run(st,DEC,[this,Ptr(d),r.N]):
            s=q.st; cov.add(q.kind); e.prove(s,z3.BoolVal(q.kind=="ret" or fails(q)),"C15 decodeJSON fails only with its error"); a.inv(s,this,"C15 after decodeJSON")
        e.cover(cov|v.hit,{"ret","throw","num","str","Vector","Map"})
# ---------------------------------------------------------------- containers: round trip
# Element i of a container has kind KD(i) and word VAL(i) or string; its text is the LEN(i) characters at
# VST(i); its slice starts at OFF(i) (a map's with the key), OFF(i+1) is one past the separating comma,
# OFF(n) one past the closing bracket.
from anyvalue import Cursor,cursor,advance
B32=z3.BitVecSort(32); OFF=z3.Function("offset",V64,B32); VST=z3.Function("valuestart",V64,B32); LEN=z3.Function("textlen",V64,B32); KD=z3.Function("kindof",V64,B8); VAL=z3.Function("wordof",V64,V64); SLEN=z3.Function("strlenof",V64,V64); SCH=z3.Function("strchar",V64,V64,B8)
KLEN=z3.Function("keylenof",V64,V64); KCH=z3.Function("keychar",V64,V64,B8); KTXT=z3.Function("keytextlen",V64,B32);
KINDS=("Null","Bool","Integer","SInteger","Float","String","Vector","Map")
def off_facts(t,i,n,base,ismap=False):
    """the slices follow each other from base on"""
    t.assume(z3.And(OFF(ZERO)==base,OFF(n)>=base,OFF(n)<=LIM)); vs=OFF(i)+KTXT(i)+3 if ismap else OFF(i)
    t.assume(z3.Implies(z3.ULT(i,n),z3.And(LEN(i)>=1,LEN(i)<=LIM,KTXT(i)>=0,KTXT(i)<=LIM,VST(i)==vs,VST(i)>=OFF(i),OFF(i+1)==VST(i)+LEN(i)+1,OFF(i+1)>VST(i)+1,OFF(i+1)<=OFF(n)))); t.assume(z3.Implies(z3.ULE(i,n),z3.And(OFF(i)>=base,OFF(i)<=OFF(n))))
def el_forms(k,i):
    if k=="String": return [(TRUE,None)]
    if k in("Vector","Map"): return [(TRUE,None)]
    out=forms(k,VAL(i)); return out
def u_container_round(kind,kinds,inits=("Null",)):
    """the text of a container reads back element by element"""
    FN={"Vector":RARR,"Map":ROBJ}[kind]; ismap=kind=="Map"; w=" (%s)"%kind.lower(); close=93 if kind=="Vector" else 125
    def u(e):
        numbers(e); reg=e._texts; allc=set(); e._inc.set("timeout",150)
        for init in inits:
            del reg[:]; st=State(); st.abs["cursor"]=Cursor(ZERO); r=parser(e,st); n=z3.BitVec("count",64); H=z3.BitVec("height",32); depth=z3.BitVec("depth",32); st.assume(z3.And(z3.ULE(n,LIM),r.pos>0,H>=1,depth>=0,H<=MAXDEPTH,depth<=MAXDEPTH-H)); a=Any(e); this,_=a.make(st,init,"value"); base=r.pos; at=lambda i: r.at(S(zx(i,64))); end=z3.If(n==0,base+1,OFF(n)); st.assume(end<=r.n); st.assume(z3.Implies(n==0,at(base)==close))
            HT=z3.Function("heightof",V64,z3.BitVecSort(32))
            def facts(t,i):
                off_facts(t,i,n,base,ismap); t.assume(z3.Implies(z3.ULT(i,n),z3.And(at(OFF(i+1)-1)==z3.If(i+1==n,BV(close,8),BV(44,8)),z3.Or([KD(i)==KIND[k] for k in KINDS]),z3.And(HT(i)>=1,HT(i)<H))))
                if ismap: t.assume(z3.Implies(z3.ULT(i,n),z3.And(at(OFF(i))==34,at(VST(i)-2)==34,at(VST(i)-1)==58,z3.ULE(KLEN(i),255))))
            def element(t,i,k):
                """element i has kind k: what its text looks like; the forms it may take"""
                t.assume(KD(i)==KIND[k]); p=VST(i); out=[]
                for c,T in el_forms(k,i):
                    x=t.clone(); x.assume(c)
                    if k=="Bool": x.assume(z3.ULE(VAL(i),1))
                    if k=="Float": x.assume(FINITE(VAL(i)))
                    if T is not None:
                        x.assume(zx(LEN(i),64)==T.L)
                        def tf(j,T=T,p=p): y=_Sink(); scalar_facts(y,k,T,lambda z: r.at(S(zx(p,64)+z)),j); return y.c
                        for j in PTS(T): x.assume(tf(j))
                        sm.add_fact(x,tf); x.ghost[("nohavoc","points")]=tuple(PTS(T)); x.ghost["form"]=(T,tf)
                    elif k=="String": x.assume(z3.And(LEN(i)>=2,at(p)==34,at(p+LEN(i)-1)==34,z3.ULE(SLEN(i),LIM)))
                    else: x.assume(z3.And(LEN(i)>=2,at(p)==(91 if k=="Vector" else 123)))
                    if e.sat(x): out.append(x)
                return out
            v=Reader(e,r,a); v.depth=depth
            def on_space(s,x):
                if "el" in s.ghost: return None
                c=cursor(s); facts(s,c)
                if not e.valid(s,x==OFF(c)): return None
                out=[]; z=s.clone(); z.assume(z3.Not(z3.ULT(c,n))); s.assume(z3.ULT(c,n))
                if e.sat(z): out.append(Outcome("ret",NULL,z)); z.assume(z3.Not(isspace(at(OFF(c)))))
                if z.pc and not e.valid(z,n==0): return None
                for k in kinds:
                    for t in element(s.clone(),c,k): t.ghost["el"]=(k,c); out.append(Outcome("ret",NULL,t))
                # every other kind is another unit's case
                return out
            v.on_space=on_space
            def el(s):
                if "el" not in s.ghost: e.fail(s,"C15 elements are read where they start"+w); raise PathEnd()
                return s.ghost["el"]
            def on_num(s,x):
                k,c=el(s); T,tf=s.ghost.get("form",(None,None)); e.prove(s,z3.BoolVal(T is not None and k in("Integer","SInteger","Float")),"C15 only numbers are read as numbers"+w)
                if T is None: raise PathEnd()
                e.prove(s,x==VST(c),"C15 a number is read from its start"+w); reg.append(T); v.text_fact=lambda t,j: tf(j); return [(s,LEN(c))]
            v.on_num=on_num
            def on_str(s,x,A):
                k,c=el(s); X=x; e.prove(s,sm.slen(e,s,A[1])==0,"C15 a string is read into an empty string"); iskey=ismap and e.decide(s,X==OFF(c)+1)
                if iskey: v.move(s,A[0],S(OFF(c)+1+KTXT(c))); sm.put(e,s,A[1],base_fn(lambda j,c=c: KCH(c,j)),ZERO,KLEN(c)); return NULL
                e.prove(s,X==VST(c)+1 if k=="String" else FALSE,"C15 a string is read after its quote"+w); v.move(s,A[0],S(VST(c)+LEN(c)-1)); sm.put(e,s,A[1],base_fn(lambda j,c=c: SCH(c,j)),ZERO,SLEN(c)); return NULL
            v.on_str=on_str
            def right(s,p,k,c,nested=False):
                if k in("Vector","Map"):
                    if not nested: e.prove(s,z3.BoolVal(a.kind(s,p)=="Null"),"C15 a nested value is read into a new value"+w)
                    return
                assigned(a,s,p,k,VAL(c),"%s in a %s"%(k,kind.lower()))
                if k=="String":
                    o=a.get(s,p,"val")
                    if isinstance(o,Ptr) and a.isstr(s,o.obj): q=Ptr(o.obj); e.prove(s,sm.slen(e,s,q)==SLEN(c),"C15 a string keeps its length"+w); t=s.clone(); t.assume(z3.ULT(J,SLEN(c))); e.prove(t,sm.at(e,t,q,J)==SCH(c,J),"C15 a string keeps its bytes"+w)
            def done(s): advance(s); s.ghost.pop("el",None); s.ghost.pop("form",None)
            def keyed(s,p):
                """the entry at p was looked up under the key of the element"""
                k,c=el(s); ev=[x for x in a.events(s,"index") if isinstance(p,Ptr) and x[3] is p.obj]; e.prove(s,z3.BoolVal(bool(ev)),"C15 a value is stored under its key")
                if not ev: raise PathEnd()
                node,kn=ev[-1][2]; e.prove(s,z3.And(kn==KLEN(c),p.off==32),"C15 keys keep their length"); t=s.clone(); t.assume(z3.ULT(J,KLEN(c))); e.prove(t,e._read(t,node,J,1)==KCH(c,J),"C15 keys keep their bytes")
            def on_push(s,how,o,p):
                k,c=el(s); v.hit.add((k,"push")); e.prove(s,z3.BoolVal(how=="push_back" and o is a.get(s,this,"val").obj),"C15 elements are appended to this value"); e.prove(s,a.count(s,o)==c,"C15 elements keep their order"); right(s,p,k,c)
                s.ghost["nest"]=(k,c); done(s)
            a.on_push=on_push
            def on_nest(s,x,A,k):
                if ismap: keyed(s,A[1]); kk,c=el(s); ok=TRUE
                else:
                    kk,c=s.ghost.get("nest",(None,None)); y=a.get(s,this,"val").obj; ok=z3.And(A[1].off==anylib.ESZ*c,z3.ULT(c,a.count(s,y))) if kk and isinstance(A[1],Ptr) and A[1].obj is a.elems(s,y) else FALSE
                e.prove(s,z3.BoolVal(kk==k),"C15 a nested container is read as what it is"); e.prove(s,ok,"C15 a nested container is read into its element")
                if kk!=k: raise PathEnd()
                v.hit.add((k,"nest")); e.prove(s,x==VST(c)+1,"C15 a nested container is read after its bracket"); e.prove(s,A[4]+HT(c)<=MAXDEPTH,"C15 nesting within the limit is read"); v.move(s,A[0],S(VST(c)+LEN(c)))
                if ismap: done(s)
                else: s.ghost.pop("nest")
                return NULL
            v.on_nest=on_nest; e.contracts=v.contracts(this)
            def asg(e_,s,A,ins): keyed(s,A[0]); k,c=el(s); e.prove(s,z3.BoolVal(k not in("Vector","Map")),"C15 a nested container is read into its entry"); v.hit.add((k,"push")); right(s,A[1],k,c); done(s); return A[0]
            if ismap:
                e.contracts[ASG]=asg
                def index(s,o,x):
                    k,c=el(s); 
                    for f,z in(("type",BV(KIND["Null"],8)),("sub",BV(0,8)),("init",BV(1,8)),("has",BV(0,8)),("val",ZERO)): e.rawstore(s,Ptr(x,bv64(32+a.o[f])),z,z.size()//8)
                    if k=="Null": keyed(s,Ptr(x,bv64(32))); v.hit.add((k,"push")); done(s)
                a.on_index=index
            def extra(e_,st0,h,e0,eh,vs):
                cur=("abs","cursor","o"); out=[]
                if cur not in eh: return out
                for k in vs:
                    if k==cur: continue
                    if e0[k].size()==32: out.append((("at",k),lambda t,en,it,k=k: (facts(t,en[cur]),z3.And(en[k]==OFF(en[cur]),z3.Or(z3.ULT(en[cur],n),n==0),z3.ULE(en[cur],n)))[1]))
                    if e0[k].size()==64: out.append((("count",k),lambda t,en,it,k=k: en[k]==en[cur]))
                return out
            e.loop_hooks=[lambda e_,st_,fr,dname,hdr,body: {"cands":extra}]; facts(st,ZERO); facts(st,n)
            for q in e.run(st,FN,[Ptr(r.po),this,Ptr(r.d),r.n,depth]):
                s=q.st; c=cursor(s); facts(s,c); e.prove(s,z3.BoolVal(q.kind=="ret"),"C15 the text of a container is read back"+w)
                if q.kind!="ret": continue
                allc.add("ret"); e.prove(s,c==n,"C15 every element is read"+w); e.prove(s,pos(e,s,r)==zx(end,64),"C15 a container is read up to its closing bracket"+w); kk=a.inv(s,this,"C15 read container"+w); e.prove(s,z3.BoolVal(kk==kind),"C15 a container keeps its type"+w)
                if kk=="Vector": e.prove(s,a.count(s,a.get(s,this,"val").obj)==n,"C15 a vector keeps its length")
                if kk=="Map": e.prove(s,z3.BoolVal(not a.events(s,"erase") and not a.events(s,"clear")),"C15 reading drops no entry")
            allc|=v.hit
        e.cover(allc,{"ret"}|{(k,"push") for k in kinds if k not in("Vector","Map") or not ismap}|{(k,"nest") for k in kinds if k in("Vector","Map")})
    return u
# writing
WO=z3.Function("writtenat",V64,V64); WV=z3.Function("valueat",V64,V64); WL=z3.Function("writtenlen",V64,V64); WK=z3.Function("writtenkey",V64,V64); DTX=z3.Function("expected",V64,B8)
def w_facts(t,i,n,base,ismap):
    """element i is written at WO(i), its value at WV(i); WO(i+1) is past the comma that follows"""
    t.assume(z3.And(WO(ZERO)==base,z3.UGE(WO(n),base),z3.ULE(WO(n),2*LIM)))
    t.assume(z3.Implies(z3.ULT(i,n),z3.And(z3.UGE(WL(i),1),z3.ULE(WL(i),LIM),z3.ULE(WK(i),LIM),WV(i)==(WO(i)+WK(i)+3 if ismap else WO(i)),WO(i+1)==WV(i)+WL(i)+1,z3.UGE(WV(i),WO(i)),z3.UGT(WO(i+1),WV(i)+1),z3.ULE(WO(i+1),WO(n))))); t.assume(z3.Implies(z3.ULE(i,n),z3.And(z3.UGE(WO(i),base),z3.ULE(WO(i),WO(n))))); t.assume(z3.Implies(z3.And(z3.ULE(i,n),z3.UGT(i,0)),z3.UGE(WO(i),base+2)))
def u_write_container(kind):
    ismap=kind=="Map"; op,cl=(123,125) if ismap else (91,93); w=" (%s)"%kind.lower()
    def u(e):
        st=State(); st.abs["cursor"]=Cursor(ZERO); a=Any(e); p,co=a.make(st,kind,"value"); o=dest(e,st); n=a.mapsize(st,co) if ismap else a.count(st,co); st.assume(z3.ULE(n,LIM)); hits=set(); KL,KC=(a.keylen(co),a.keychar(co)) if ismap else (None,None)
        def facts(t,c):
            
            w_facts(t,c,n,B,ismap); t.assume(z3.Implies(z3.And(z3.ULE(c,n),z3.UGT(c,0)),DTX(WO(c)-1)==44))
            if ismap: t.assume(z3.Implies(z3.ULT(c,n),z3.And(DTX(WO(c))==34,DTX(WV(c)-2)==34,DTX(WV(c)-1)==58)))
        B=S(o.L+1)
        def length(c): return z3.If(c==0,B,WO(c)-1)
        def part(t,c):
            """what is written before c elements: all but the last, its comma and key, itself"""
            d=S(c-1); facts(t,d); return [z3.And(c!=0,z3.ULT(J,WO(d)-1)),z3.And(c!=0,z3.UGE(J,WO(d)-1),z3.ULT(J,WO(d)+1)),z3.And(c!=0,z3.UGE(J,WO(d)+1),z3.ULT(J,WV(d))),z3.And(c!=0,z3.UGE(J,WV(d)),z3.ULT(J,WO(c)-1))]
        cur=("abs","cursor","o")
        def cands(e_,st0,h,e0,eh,vs_):
            out=[]
            if cur not in eh: return out
            for q in grown(e_,st0,h):
                def f(g): return lambda t,en,it,q=q,g=g: (facts(t,en[cur]),g(t,q,en[cur]))[1]
                out+=[(("len",q.obj.id),f(lambda t,q,c: z3.And(z3.ULE(c,n),sm.slen(e_,t,q)==length(c)))),*[(("text",m,q.obj.id),f(lambda t,q,c,m=m: z3.Implies(z3.And(z3.UGE(J,B),part(t,c)[m]),sm.at(e_,t,q,J)==DTX(J)))) for m in range(4)],(("open",q.obj.id),f(lambda t,q,c: sm.at(e_,t,q,o.L)==op)),(("old",q.obj.id),f(lambda t,q,c: z3.Implies(z3.ULT(J,o.L),sm.at(e_,t,q,J)==z3.Select(o.B,J))))]
            for k in vs_:
                if k==cur: continue
                z=e0[k].size()
                if z in(1,8,32): out+=[(("first",k),lambda t,en,it,k=k,z=z: en[k]==z3.If(en[cur]==0,BV(1,z),BV(0,z))),(("notfirst",k),lambda t,en,it,k=k,z=z: en[k]==z3.If(en[cur]==0,BV(0,z),BV(1,z)))]
                if z==64: out+=[(("elem",k),lambda t,en,it,k=k: z3.And(en[k]==anylib.ESZ*en[cur],z3.ULE(en[cur],n))),(("idx",k),lambda t,en,it,k=k: z3.And(en[k]==en[cur],z3.ULE(en[cur],n)))]
            return out
        e.loop_hooks=[lambda e_,st_,fr,dname,hdr,body: {"cands":cands}]
        def child(e_,s,A,ins):
            if isinstance(A[0],Ptr) and A[0].obj is p.obj: return None
            c=cursor(s); facts(s,c); ok=FALSE
            if isinstance(A[0],Ptr):
                if ismap: g=A[0].obj.ghost.get("at"); ok=z3.And(g[1]==c,z3.ULT(c,n),A[0].off==32) if g and g[0] is co else FALSE
                else: ok=z3.And(A[0].off==anylib.ESZ*c,z3.ULT(c,n)) if A[0].obj is a.elems(s,co) else FALSE
            e_.prove(s,ok,"C15 the elements are written once each, in order"+w); e_.prove(s,z3.BoolVal(isinstance(A[1],Ptr) and A[1].obj is o.p.obj),"C15 elements are written into the same text"); e_.prove(s,sm.slen(e_,s,o.p)==WV(c),"C15 an element follows its comma"+(" and its key" if ismap else "")); e_.rawstore(s,o.p+8,S(WV(c)),8)
            sm.app(e_,s,o.p,base_fn(lambda j,c=c: DTX(WV(c)+j)),ZERO,WL(c)); advance(s); hits.add("child"); return NULL
        def key(e_,s,A,ins):
            c=cursor(s); facts(s,c); s.assume(z3.Implies(z3.ULT(c,n),z3.ULE(KL(c),255))); e_.prove(s,z3.ULT(c,n),"C15 there is an entry for every key written"); e_.prove(s,A[2]==KL(c),"C15 keys are written with their length"); t=s.clone(); t.assume(z3.ULT(J,KL(c))); e_.access(s,A[1],A[2],"r","key"); e_.prove(t,e_._read(t,t.mem[A[1].obj.id],S(A[1].off+J),1)==KC(c,J),"C15 keys are written with their bytes")
            e_.prove(s,z3.BoolVal(isinstance(A[0],Ptr) and A[0].obj is o.p.obj),"C15 keys are written into the same text"); e_.prove(s,sm.slen(e_,s,o.p)==WO(c)+1,"C15 a key follows its comma and its quote"); e_.rawstore(s,o.p+8,S(WO(c)+1),8); sm.app(e_,s,o.p,base_fn(lambda j,c=c: DTX(WO(c)+1+j)),ZERO,WK(c)); hits.add("key"); return NULL
        e.contracts={ENC:child}
        if ismap: e.contracts[ESC]=key
        for q in e.run(st,ENC,[p,o.p]):
            s=q.st; c=cursor(s); facts(s,c); hits.add(q.kind); e.prove(s,z3.BoolVal(q.kind=="ret"),"C15 encodeJSON returns"+w); e.prove(s,c==n,"C15 every element is written"+w); kept(e,s,o,"encodeJSON"+w); e.prove(s,sm.slen(e,s,o.p)==length(n)+1,"C15 the text of a container has its length"+w); e.prove(s,z3.And(sm.at(e,s,o.p,o.L)==op,sm.at(e,s,o.p,S(length(n)))==cl),"C15 a container is written in its brackets"+w)
            t=s.clone(); part(t,n); t.assume(z3.And(z3.UGE(J,B),z3.ULT(J,length(n)))); e.prove(t,sm.at(e,t,o.p,J)==DTX(J),"C15 a container's text is its elements' texts%s between commas"%(" after their keys" if ismap else "")+w)
        e.cover(hits,{"child","ret"}|({"key"} if ismap else set()))
    return u
def u_entry(e):
    """encodeJSON() is the text encodeJSON(string&) appends to nothing"""
    st=State(); a=Any(e); p,_=a.make(st,"Integer","value"); T=z3.Array("json_text",V64,B8); n=z3.BitVec("json_size",64); st.assume(z3.ULE(n,LIM)); hits=set()
    def enc(e_,s,A,ins): e_.prove(s,z3.BoolVal(A[0].obj is p.obj),"C15 encodeJSON() writes this value"); e_.prove(s,sm.slen(e_,s,A[1])==0,"C15 encodeJSON() starts from an empty text"); hits.add("enc"); sm.app(e_,s,A[1],base_arr(T),ZERO,n); return NULL
    e.contracts={ENC:enc}; ret=Ptr(e.new_obj(st,"result",32)); name=[d for d in e.m.demangled.values() if d.startswith(F+"encodeJSON") and d.split("encodeJSON")[1] in("()","[abi:cxx11]()")][0]
    for q in e.run(st,name,[ret,p]):
        s=q.st; hits.add(q.kind); e.prove(s,sm.slen(e,s,ret)==n,"C15 encodeJSON() returns the whole text"); t=s.clone(); t.assume(z3.ULT(J,n)); e.prove(t,sm.at(e,t,ret,J)==z3.Select(T,J),"C15 encodeJSON() returns the text")
    e.cover(hits,{"enc","ret"})
UNITS=[("entry",u_entry),("escape",u_escape),("hex4",u_hex4),("string",u_string),("unescape",u_unescape),("number",u_number),("write",u_write),("spaces",u_spaces)]+[("read_"+k,u_read([k])) for k in("Null","Bool","Integer","SInteger","Float","String")]+[("array_safe",u_container_safe("Vector",("Null","String"))),("array_safe_again",u_container_safe("Vector",("Vector",))),("object_safe",u_container_safe("Map",("Null","Integer"))),("object_safe_again",u_container_safe("Map",("Map",))),("top_safe",u_top_safe)]+[("%s_round_%s"%(c,ks[0]),u_container_round(k,ks)) for c,k in(("array","Vector"),("object","Map")) for ks in(("Null","Bool","String"),("Integer","SInteger"),("Float",),("Vector","Map"))]+[("write_vector",u_write_container("Vector")),("write_map",u_write_container("Map"))]
