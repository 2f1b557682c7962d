"""Contracts of CAnyValue's binary encoding: decoding untrusted bytes (C13), round trip (C12).

encode/decode of a value are specified once and used as their own contract for the children (the
value tree is finite and every child decode starts further right in the input).  The encodings of the
elements of a container are consecutive slices of one unknown byte array W: element o occupies
[OFF(o),OFF(o+1)), OFF(0)=0, every slice at least one byte."""
import z3
from engine import *
import strmodel as sm, anylib
from anylib import Any,KIND,runtime_error
TU=["any.cpp"]
A=anylib.A; STR="std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
DEC=A+"::decode(unsigned long&, char const*, unsigned long)"; ENC=A+"::encode(%s&)"%STR
CONTRACTS=[DEC,ENC,A+"::decode(char const*, unsigned long)",A+"::decode(unsigned char const*, unsigned long)",A+"::encode()",A+"::decode_*",A+"::encode_*",A+"::check",A+"::clear",A+"::initAsBuf",A+"::initAsVector",A+"::initAsMap"]
J=z3.BitVec("j",64); V64=z3.BitVecSort(64); B8=z3.BitVecSort(8); DEPTH=4096
SUB={0:("Integer",1),1:("Integer",2),2:("Integer",4),3:("Integer",8),4:("String",1),5:("String",2),6:("String",4),7:("Vector",4),8:("Map",4),9:(None,0),10:("Float",8),11:("Bool",1),12:("Null",0),13:("SInteger",1),14:("SInteger",2),15:("SInteger",4),16:("SInteger",8)}
def be(v): return bswap(v) if v.size()>8 else v
def counters(e):
    out=[]
    for n,g in e.m.globals.items():
        if g.const or n.startswith(("_ZGV","_ZTV","_ZTI")): continue
        t=e.m.resolve(g.ty)
        if t.k=="int" and t.a in(32,64) and not e.never_written(n): out.append((n,t.a//8))
    return out
class V: pass
class Cursor:
    "abstract state: index of the next child"
    def __init__(s,o): s.o=o
    def env(s): return {"o":s.o}
    def havoc(s,e,h): x=fresh("child",64); return Cursor(x),[x]
def cnt(e,s,r,n,w): return S(e._read(s,s.mem[e.gobj(s,n).id],ZERO,w))
def setup(e,kind,sub,n=None,data=None,pos=None):
    st=State(); r=V(); r.any=Any(e); r.this,r.pl=r.any.make(st,kind,"value"); r.n=z3.BitVec("size",64) if n is None else n; r.pos=z3.BitVec("pos",64) if pos is None else pos
    st.assume(z3.ULT(r.n,1<<46)); r.D=z3.Array("data",V64,B8); node=base_arr(r.D) if data is None else data
    if sub is not None and isc(sub): node=Node("st",node,r.pos,1,sub)
    elif sub is not None: st.assume(z3.Select(r.D,r.pos)==sub)
    r.d=e.new_obj(st,"data",r.n,node,const=True); r.po=e.new_obj(st,"position",8); e.rawstore(st,Ptr(r.po),r.pos,8); r.c={}
    for n_,w in counters(e): x=fresh("depth",w*8); st.assume(z3.And(x>=0,x<=DEPTH)); e.rawstore(st,Ptr(e.gobj(st,n_)),x,w); r.c[n_]=(x,w)
    r.st=st; st.abs["cursor"]=Cursor(bv64(0)); return st,r
def pos(e,s,r): return S(e._read(s,s.mem[r.po.id],ZERO,8))
def depth_same(e,s,r,w):
    for n,(x,k) in r.c.items(): e.prove(s,cnt(e,s,r,n,k)==x,"C13 the nesting counter is restored"+w)
def deeper(e,s,r):
    return z3.Or([z3.And(cnt(e,s,r,n,k)==x+1,cnt(e,s,r,n,k)<=DEPTH) for n,(x,k) in r.c.items()]) if r.c else FALSE
def child_obj(e,s,r,p):
    """the value handed to a nested decode is a live child of this value"""
    o=p.obj if isinstance(p,Ptr) else None
    if o is None or o.id in s.dead: e.fail(s,"memory-safety: a nested value is decoded into a dead object"); raise PathEnd()
    x=r.any.get(s,r.this,"val")
    if isinstance(x,Ptr) and x.obj.ghost.get("what")=="vec" and r.any.elems(s,x.obj) is o: e.prove(s,z3.ULT(p.off,r.any.count(s,x.obj)*anylib.ESZ),"memory-safety: nested value inside its vector"); return "elem"
    if isinstance(x,Ptr) and x.obj.ghost.get("what")=="map" and o in x.obj.ghost.get("nodes",()): e.prove(s,p.off==32,"memory-safety: nested value is an entry's value"); return "entry"
    if o.kind=="stack" or o.kind=="data" or o.kind=="alloca": return "local"
    e.fail(s,"C13 a nested value is decoded into a child of this value"); raise PathEnd()
# ---------------------------------------------------------------- C13
def safe_child(e,r):
    def c(e_,s,a,ins):
        if isinstance(a[0],Ptr) and a[0].obj is r.this.obj: return None
        child_obj(e_,s,r,a[0]); e_.prove(s,z3.BoolVal(isinstance(a[1],Ptr) and a[1].obj is r.po and isinstance(a[2],Ptr) and a[2].obj is r.d),"C13 nested values are decoded from the same input")
        p=pos(e_,s,r); e_.prove(s,z3.And(a[1].off==0,a[2].off==0,a[3]==r.n),"C13 nested values are decoded from the same input"); e_.prove(s,z3.UGT(p,r.pos),"C13 nested values start further right (decoding terminates)"); e_.prove(s,z3.ULE(p,r.n),"C13 the position never passes the end"); e_.prove(s,deeper(e_,s,r),"C13 the nesting depth is bounded")
        q=fresh("childpos",64); t=s.clone(); s.assume(z3.And(z3.UGT(q,p),z3.ULE(q,r.n))); e_.rawstore(s,Ptr(r.po),q,8); q2=fresh("childpos",64); t.assume(z3.And(z3.UGE(q2,p),z3.ULE(q2,r.n))); e_.rawstore(t,Ptr(r.po),q2,8)
        return [Outcome("ret",NULL,s),Outcome("throw",(Ptr(e_.new_obj(t,"exc",16)),"_ZTISt13runtime_error"),t)]
    return {DEC:c}
def in_input(e,r):
    """candidate invariant: a 64-bit loop variable is a position inside the input"""
    def hook(e_,st,fr,dname,hdr,body): return {"cands":lambda e__,st0,h,e0,eh,vs: [(("inside",k),lambda t,en,it,k=k: z3.And(z3.UGT(en[k],r.pos),z3.ULE(en[k],r.n))) for k in vs if e0[k].size()==64]}
    e.loop_hooks=[hook]
def run_decode(e,r,st): return e.run(st,DEC,[r.this,Ptr(r.po),Ptr(r.d),r.n])
def u_safe(subs,kinds):
    def u(e):
        for sub in subs:
            for k in kinds:
                x=BV(sub,8) if sub is not None else fresh("type",8); st,r=setup(e,k,x); st.assume(z3.ULT(r.pos,r.n)); w=" (type %s)"%("beyond 16" if sub is None else sub)
                if sub is None: st.assume(z3.UGT(x,16))
                e.contracts=safe_child(e,r); in_input(e,r); cov=set(); T,sz=SUB.get(sub,(None,0)); room=r.n-r.pos-1; ln=zx(be(e._read(st,base_arr(r.D),r.pos+1,sz)),64) if sz else ZERO
                for q in run_decode(e,r,st):
                    s=q.st; p=pos(e,s,r); cov.add(q.kind); e.prove(s,z3.BoolVal(q.kind=="ret" or runtime_error(q)),"C13 decode fails only with its error"+w); depth_same(e,s,r,w); e.prove(s,z3.And(z3.UGE(p,r.pos),z3.ULE(p,r.n)),"C13 the position stays inside the input"+w)
                    kk=r.any.inv(s,r.this,"C13 after decode"+w)
                    if T in("Integer","SInteger","Float","Bool","Null") and q.kind=="throw" and not r.c: pass
                    if q.kind=="ret":
                        e.prove(s,z3.UGT(p,r.pos),"C13 the position moves forward"+w)
                        if T and T not in("Vector","Map"): e.prove(s,z3.BoolVal(kk==T),"C13 the value has the type the bytes declare"+w)
                        if T and sz: e.prove(s,z3.UGE(room,sz),"C13 a value whose size does not fit the rest is refused"+w)
                        if T=="String":
                            o=r.any.get(s,r.this,"val").obj; e.prove(s,z3.And(z3.ULE(ln,room-sz),p==r.pos+1+sz+ln),"C13 a string longer than the rest is refused"+w); e.prove(s,sm.slen(e,s,Ptr(o))==ln,"C13 the string has its declared length"+w); t=s.clone(); t.assume(z3.ULT(J,ln)); e.prove(t,sm.at(e,t,Ptr(o),J)==z3.Select(r.D,r.pos+1+sz+J),"C13 the string is the bytes of the input"+w)
                        elif T=="Vector": e.prove(s,z3.ULE(ln,room),"C13 a vector with more elements than bytes is refused"+w); e.prove(s,z3.BoolVal(kk=="Vector") if kk!="Vector" else r.any.count(s,r.any.get(s,r.this,"val").obj)==ln,"C13 the vector has its declared length"+w)
                        elif T=="Map": e.prove(s,z3.BoolVal(kk=="Map"),"C13 the value has the type the bytes declare"+w)
                        elif T and sz: e.prove(s,p==r.pos+1+sz,"C13 a scalar takes its declared size"+w)
                e.cover(cov&{"ret"},{"ret"})
                if sub is not None and sz: e.cover(cov,{"ret","throw"})
    return u
def u_end(e):
    """nothing left: refused without reading"""
    for k in("Null","String"):
        st,r=setup(e,k,None); st.assume(r.pos==r.n); e.contracts=safe_child(e,r)
        for q in run_decode(e,r,st): e.prove(q.st,z3.BoolVal(runtime_error(q)),"C13 decoding at the end of the input fails"); e.prove(q.st,pos(e,q.st,r)==r.pos,"C13 decoding at the end of the input does not move"); r.any.inv(q.st,r.this,"C13 at the end"); depth_same(e,q.st,r,"")
def u_entry(e):
    """the public forms decode from position 0 of exactly the bytes given"""
    for ct in("char","unsigned char"):
        st,r=setup(e,"Integer",None); n=0
        def c(e_,s,a,ins,r=r):
            s.ghost[("nohavoc","n")]=s.ghost.get(("nohavoc","n"),0)+1; e_.prove(s,z3.BoolVal(a[0].obj is r.this.obj and isinstance(a[2],Ptr) and a[2].obj is r.d and a[1].obj is not r.po),"C12,C13 the public decode decodes this value from the bytes given"); e_.prove(s,z3.And(a[2].off==0,a[3]==r.n,e_._read(s,s.mem[a[1].obj.id],a[1].off,8)==0),"C12,C13 the public decode starts at the first byte and ends at the last"); t=s.clone(); e_.rawstore(s,a[1],fresh("p",64),8)
            return [Outcome("ret",NULL,s),Outcome("throw",(Ptr(e_.new_obj(t,"exc",16)),"_ZTISt13runtime_error"),t)]
        e.contracts={DEC:c}; cov=set()
        for q in e.run(st,A+"::decode(%s const*, unsigned long)"%ct,[r.this,Ptr(r.d),r.n]): cov.add(q.kind); e.prove(q.st,z3.BoolVal(q.st.ghost.get(("nohavoc","n"))==1),"C12,C13 the public decode decodes once")
        e.cover(cov,{"ret","throw"})
# ---------------------------------------------------------------- C12
def out(e,st):
    o=V(); o.p=Ptr(e.new_obj(st,"text",32)); o.L=z3.BitVec("text_size",64); o.B=z3.Array("text",V64,B8); st.assume(z3.ULT(o.L,1<<40)); sm.mk(e,st,o.p,base_arr(o.B),o.L); return o
def kept(e,s,o,w): t=s.clone(); t.assume(z3.ULT(J,o.L)); e.prove(t,sm.at(e,t,o.p,J)==z3.Select(o.B,J),"C12 encoding only appends"+w)
def into(e,s,o,r):
    """decode what was appended, with arbitrary bytes after it"""
    t=s; T=z3.Array("rest",V64,B8); tn=z3.BitVec("rest_size",64); t.assume(z3.ULT(tn,1<<40)); end=sm.slen(e,t,o.p); sm.app(e,t,o.p,base_arr(T),ZERO,tn); n=sm.slen(e,t,o.p); node=sm.chars(e,t,o.p)
    r.d=e.new_obj(t,"data",n,node,const=True); r.n=n; r.pos=o.L; e.rawstore(t,Ptr(r.po),o.L,8); t.assume(z3.ULT(n,1<<46)); return t,end
FORMS={"Integer":[(lambda v: z3.ULE(v,0xff),0,1),(lambda v: z3.ULE(v,0xffff),1,2),(lambda v: z3.ULE(v,0xffffffff),2,4),(lambda v: TRUE,3,8)],
 "SInteger":[(lambda v: z3.And(v>=-128,v<=127),13,1),(lambda v: z3.And(v>=-32768,v<=32767),14,2),(lambda v: z3.And(v>=-(1<<31),v<(1<<31)),15,4),(lambda v: TRUE,16,8)],
 "Float":[(lambda v: TRUE,10,8)],"Bool":[(lambda v: TRUE,11,1)],"Null":[(lambda v: TRUE,12,0)]}
def u_scalars(e):
    for k in("Integer","SInteger","Float","Bool","Null"):
        e.contracts={}; st,r=setup(e,k,None); o=out(e,st); v=r.pl; w=" (%s)"%k; n=0
        for q in e.run(st,ENC,[r.this,o.p]):
            s=q.st; e.prove(s,z3.BoolVal(q.kind=="ret"),"C12 encode returns"+w); kept(e,s,o,w); end=sm.slen(e,s,o.p); prev=[]
            for c,code,sz in FORMS[k]:
                t=s.clone(); t.assume(z3.And(c(v),*[z3.Not(x) for x in prev])); prev.append(c(v))
                if not e.sat(t): continue
                e.prove(t,end==o.L+1+sz,"C12 the smallest form is used"+w); e.prove(t,sm.at(e,t,o.p,o.L)==code,"C12 the form's type byte"+w)
                if sz: e.prove(t,e._read(t,sm.chars(e,t,o.p),S(o.L+1),sz)==be(z3.Extract(8*sz-1,0,v)),"C12 numbers are in network byte order"+w)
            e.prove(s,r.any.get(s,r.this,"val")==v,"C12 encoding does not change the value"+w)
            for init in("Null","Map","String"):
                t=s.clone(); r2=V(); r2.__dict__.update(r.__dict__); r2.this,_=r.any.make(t,init,"target"); r2.any=r.any; t,en=into(e,t,o,r2); 
                for z in run_decode(e,r2,t):
                    if z.kind=="throw" and not e.valid(z.st,z3.BoolVal(True)): continue
                    if z.kind=="throw": e.prove(z.st,z3.Or([x>=999 for x,_ in r.c.values()]) if r.c else FALSE,"C12 an encoded value decodes"+w); continue
                    n+=1; e.prove(z.st,pos(e,z.st,r2)==en,"C12 decoding consumes exactly the bytes encoded"+w); kk=r.any.inv(z.st,r2.this,"C12 decoded"+w); e.prove(z.st,z3.BoolVal(kk==k),"C12 the decoded value has the same type"+w)
                    if kk==k: e.prove(z.st,r.any.get(z.st,r2.this,"val")==v,"C12 the decoded value is the same"+w)
        e.cover({n>=len(FORMS[k])},{True})
def u_strings(e):
    e.contracts={}; st,r=setup(e,"String",None); o=out(e,st); so=r.pl; N,C=sm.slen(e,st,Ptr(so)),sm.chars(e,st,Ptr(so)); st.assume(z3.ULT(N,1<<32)); n=set()
    for q in e.run(st,ENC,[r.this,o.p]):
        s=q.st; e.prove(s,z3.BoolVal(q.kind=="ret"),"C12 encode returns (string)"); kept(e,s,o," (string)"); end=sm.slen(e,s,o.p); prev=[]
        for lim,code,sz in((0xff,4,1),(0xffff,5,2),(0xffffffff,6,4)):
            t=s.clone(); t.assume(z3.And(z3.ULE(N,lim),*[z3.Not(x) for x in prev])); prev.append(z3.ULE(N,lim))
            if not e.sat(t): continue
            e.prove(t,end==o.L+1+sz+N,"C12 the smallest string form is used"); e.prove(t,sm.at(e,t,o.p,o.L)==code,"C12 the string form's type byte"); e.prove(t,e._read(t,sm.chars(e,t,o.p),S(o.L+1),sz)==be(z3.Extract(8*sz-1,0,N)),"C12 string lengths are in network byte order")
            u=t.clone(); u.assume(z3.ULT(J,N)); e.prove(u,sm.at(e,u,o.p,S(o.L+1+sz+J))==e._read(u,C,J,1),"C12 the string's bytes are encoded as they are")
        for init in("Null","Vector","String"):
            t=s.clone(); r2=V(); r2.__dict__.update(r.__dict__); r2.this,_=r.any.make(t,init,"target"); t,en=into(e,t,o,r2)
            for z in run_decode(e,r2,t):
                if z.kind=="throw": e.prove(z.st,z3.Or([x>=999 for x,_ in r.c.values()]) if r.c else FALSE,"C12 an encoded string decodes"); continue
                e.prove(z.st,pos(e,z.st,r2)==en,"C12 decoding consumes exactly the bytes encoded (string)"); kk=r.any.inv(z.st,r2.this,"C12 decoded string"); e.prove(z.st,z3.BoolVal(kk=="String"),"C12 the decoded value is a string")
                if kk!="String": continue
                d=Ptr(r.any.get(z.st,r2.this,"val").obj); e.prove(z.st,sm.slen(e,z.st,d)==N,"C12 the decoded string has the same length"); u=z.st.clone(); u.assume(z3.ULT(J,N)); e.prove(u,sm.at(e,u,d,J)==e._read(u,C,J,1),"C12 the decoded string has the same bytes"); n.add(1)
    e.cover(n,{1})
# containers: slices of W
OFF=z3.Function("slice",V64,V64)
def fold(e,t,o,lim):
    """the defining facts of OFF at o (strictly increasing, all within memory)"""
    t.assume(z3.Implies(z3.ULT(o,lim),z3.And(z3.ULT(OFF(o),OFF(o+1)),z3.ULE(OFF(o+1),1<<44)))); t.assume(z3.Implies(z3.ULE(o,lim),z3.ULE(OFF(o),1<<44)))
def grown(e,st,h):
    out=[]
    for oid,n in h.mem.items():
        o=h.objs.get(oid)
        if o is not None and o.kind=="strbuf" and oid not in h.dead and (oid not in st.mem or st.mem[oid] is not n): out.append(Ptr(*o.ghost["owner"]))
    return out
def enc_hook(e,o,W,lim,base):
    """the text is what it was, the head of the container, and the slices before the next child"""
    def cands(e_,st0,h,e0,eh,vs):
        cur=("abs","cursor","o"); out=[]
        if cur not in eh: return out
        for p in grown(e_,st0,h):
            def f1(t,en,it,p=p): c=en[cur]; fold(e_,t,c,lim); return z3.And(z3.ULE(c,lim),sm.slen(e_,t,p)==o.L+5+OFF(c))
            def f2(t,en,it,p=p): c=en[cur]; fold(e_,t,c,lim); return z3.Implies(z3.ULT(J,OFF(c)),sm.at(e_,t,p,S(o.L+5+J))==z3.Select(W,J))
            def f3(t,en,it,p=p): return z3.Implies(z3.ULT(J,o.L),sm.at(e_,t,p,J)==z3.Select(o.B,J))
            def f4(t,en,it,p=p): return sm.at(e_,t,p,o.L)==base
            def f5(t,en,it,p=p): return e_._read(t,sm.chars(e_,t,p),S(o.L+1),4)==e_._read(st0,sm.chars(e_,st0,p),S(o.L+1),4)
            out+=[(("len",p.obj.id),f1),(("slices",p.obj.id),f2),(("before",p.obj.id),f3),(("kind",p.obj.id),f4),(("count",p.obj.id),f5)]
        for k in vs:
            if e0[k].size()==64 and k!=cur: out.append((("elem",k),lambda t,en,it,k=k: z3.And(en[k]==anylib.ESZ*en[cur],z3.ULE(en[cur],lim))))
            if e0[k].size() in(32,64) and k!=cur: out.append((("idx",k),lambda t,en,it,k=k: en[k]==z3.Extract(en[k].size()-1,0,en[cur]))); out.append((("down",k),lambda t,en,it,k=k,w=e0[k].size(): en[k]==z3.Extract(w-1,0,lim-en[cur])))
        return out
    e.loop_hooks=[lambda e_,st,fr,dname,hdr,body: {"cands":cands}]
def dec_hook(e,r,lim):
    def cands(e_,st0,h,e0,eh,vs):
        cur=("abs","cursor","o"); out=[]
        if cur not in eh: return out
        for k in vs:
            if k==cur: continue
            if e0[k].size()==64: out.append((("at",k),lambda t,en,it,k=k: (fold(e_,t,en[cur],lim),z3.And(z3.ULE(en[cur],lim),en[k]==r.pos+5+OFF(en[cur])))[1]))
            if e0[k].size() in(32,64): out.append((("idx",k),lambda t,en,it,k=k,w=e0[k].size(): en[k]==z3.Extract(w-1,0,en[cur]))); out.append((("down",k),lambda t,en,it,k=k,w=e0[k].size(): en[k]==z3.Extract(w-1,0,lim-en[cur])))
        return out
    e.loop_hooks=[lambda e_,st,fr,dname,hdr,body: {"cands":cands}]
def cursor(s): return s.abs["cursor"].o
def advance(s): s.abs["cursor"]=Cursor(S(cursor(s)+1))
def u_vectors(e):
    e.contracts={}; st,r=setup(e,"Vector",None); o=out(e,st); vo=r.pl; n=r.any.count(st,vo); els=r.any.elems(st,vo); st.assume(z3.And(z3.ULT(n,1<<32),OFF(ZERO)==0)); W=z3.Array("slices",V64,B8); enc_hook(e,o,W,n,BV(7,8)); hits=set()
    def child(e_,s,a,ins):
        if isinstance(a[0],Ptr) and a[0].obj is r.this.obj: return None
        c=cursor(s); fold(e_,s,c,n); e_.prove(s,z3.And(a[0].off==anylib.ESZ*c,z3.ULT(c,n)) if isinstance(a[0],Ptr) and a[0].obj is els else FALSE,"C12 the elements are encoded once each, in order"); e_.prove(s,z3.BoolVal(isinstance(a[1],Ptr) and a[1].obj is o.p.obj),"C12 elements are encoded into the same text"); e_.prove(s,sm.slen(e_,s,o.p)==o.L+5+OFF(c),"C12 elements are encoded one after the other")
        sm.app(e_,s,o.p,base_arr(W),OFF(c),S(OFF(c+1)-OFF(c))); advance(s); hits.add("child"); return NULL
    e.contracts={ENC:child}
    for q in e.run(st,ENC,[r.this,o.p]):
        s=q.st; c=cursor(s); fold(e,s,c,n); e.prove(s,z3.BoolVal(q.kind=="ret"),"C12 encode returns (vector)"); e.prove(s,c==n,"C12 every element is encoded"); kept(e,s,o," (vector)"); end=sm.slen(e,s,o.p); hits.add("ret")
        e.prove(s,end==o.L+5+OFF(n),"C12 a vector is its head and its elements"); e.prove(s,sm.at(e,s,o.p,o.L)==7,"C12 a vector's type byte"); e.prove(s,e._read(s,sm.chars(e,s,o.p),S(o.L+1),4)==be(z3.Extract(31,0,n)),"C12 element counts are in network byte order")
        t=s.clone(); t.assume(z3.ULT(J,OFF(n))); e.prove(t,sm.at(e,t,o.p,S(o.L+5+J))==z3.Select(W,J),"C12 the elements' encodings follow the head")
    e.cover(hits,{"child","ret"})
    # decoding such a text
    hits=set()
    for init in("Null","Vector","String"):
        e.contracts={}; st,r=setup(e,init,BV(7,8)); n=z3.BitVec("count",64); st.assume(z3.And(z3.ULT(n,1<<32),OFF(ZERO)==0,z3.ULT(r.pos,1<<45))); fold(e,st,n,n); st.assume(z3.And(z3.ULE(n,OFF(n)),z3.ULE(r.pos+5+OFF(n),r.n),e._read(st,base_arr(r.D),r.pos+1,4)==be(z3.Extract(31,0,n)))); dec_hook(e,r,n)
        def child(e_,s,a,ins,r=r,n=n):
            if isinstance(a[0],Ptr) and a[0].obj is r.this.obj: return None
            child_obj(e_,s,r,a[0]); c=cursor(s); fold(e_,s,c,n); p=pos(e_,s,r); e_.prove(s,z3.And(z3.ULT(c,n),a[0].off==anylib.ESZ*c) if isinstance(a[0],Ptr) else FALSE,"C12 the elements are decoded once each, in order"); e_.prove(s,z3.And(p==r.pos+5+OFF(c),a[3]==r.n,a[2].off==0) if isinstance(a[2],Ptr) and a[2].obj is r.d and a[1].obj is r.po else FALSE,"C12 every element is decoded from its own slice")
            e_.rawstore(s,Ptr(r.po),S(r.pos+5+OFF(c+1)),8); advance(s); hits.add("child"); return NULL
        e.contracts={DEC:child}
        for q in run_decode(e,r,st):
            s=q.st
            if q.kind=="throw": e.prove(s,z3.Or([x>=999 for x,_ in r.c.values()]) if r.c else FALSE,"C12 an encoded vector decodes"); continue
            hits.add("ret"); c=cursor(s); e.prove(s,c==n,"C12 every element is decoded"); e.prove(s,pos(e,s,r)==r.pos+5+OFF(n),"C12 decoding consumes exactly the bytes encoded (vector)"); kk=r.any.inv(s,r.this,"C12 decoded vector"); e.prove(s,z3.BoolVal(kk=="Vector"),"C12 the decoded value is a vector")
            if kk=="Vector": e.prove(s,r.any.count(s,r.any.get(s,r.this,"val").obj)==n,"C12 the decoded vector has the same length")
    e.cover(hits,{"child","ret"})
def u_maps(e,part):
    e.contracts={}; st,r=setup(e,"Map",None); o=out(e,st); mo=r.pl; n=r.any.mapsize(st,mo); KL,KC=r.any.keylen(mo),r.any.keychar(mo); W=z3.Array("slices",V64,B8); hits=set(); st.assume(OFF(ZERO)==0)
    def kfold(t,c,D=None,base=ZERO):
        """entry c is its key length, its key, and a value of at least one byte"""
        f=(lambda i: z3.Select(W,i)) if D is None else (lambda i: z3.Select(D,base+i))
        fold(e,t,c,n); k=KL(c); t.assume(z3.Implies(z3.ULT(c,n),z3.And(z3.ULE(k,255),z3.UGE(OFF(c+1),OFF(c)+2+k),f(OFF(c))==z3.Extract(7,0,k))))
        return k
    def inkey(t,c): t.assume(z3.Implies(z3.And(z3.ULT(c,n),z3.UGT(J,OFF(c)),z3.ULE(J,OFF(c)+KL(c))),z3.Select(W,J)==KC(c,J-OFF(c)-1)))
    if part=="encode":
        enc_hook(e,o,W,n,BV(8,8))
        def child(e_,s,a,ins):
            if isinstance(a[0],Ptr) and a[0].obj is r.this.obj: return None
            c=cursor(s); k=kfold(s,c); inkey(s,c); at=a[0].obj.ghost.get("at") if isinstance(a[0],Ptr) else None
            e_.prove(s,z3.And(at[1]==c,z3.ULT(c,n),a[0].off==32) if at and at[0] is mo else FALSE,"C12 the entries are encoded once each, in order"); e_.prove(s,z3.BoolVal(isinstance(a[1],Ptr) and a[1].obj is o.p.obj),"C12 entries are encoded into the same text"); e_.prove(s,sm.slen(e_,s,o.p)==o.L+5+OFF(c)+1+k,"C12 an entry is its key length, its key and its value")
            t=s.clone(); t.assume(z3.And(z3.UGE(J,OFF(c)),z3.ULE(J,OFF(c)+k))); e_.prove(t,sm.at(e_,t,o.p,S(o.L+5+J))==z3.If(J==OFF(c),z3.Extract(7,0,k),KC(c,J-OFF(c)-1)),"C12 the key precedes its value")
            sm.app(e_,s,o.p,base_arr(W),S(OFF(c)+1+k),S(OFF(c+1)-OFF(c)-1-k)); advance(s); hits.add("child"); return NULL
        e.contracts={ENC:child}
        for q in e.run(st,ENC,[r.this,o.p]):
            s=q.st; c=cursor(s); kfold(s,c); e.prove(s,z3.BoolVal(q.kind=="ret"),"C12 encode returns (map)"); e.prove(s,c==n,"C12 every entry is encoded"); kept(e,s,o," (map)"); end=sm.slen(e,s,o.p); hits.add("ret")
            e.prove(s,end==o.L+5+OFF(n),"C12 a map is its head and its entries"); e.prove(s,sm.at(e,s,o.p,o.L)==8,"C12 a map's type byte"); e.prove(s,e._read(s,sm.chars(e,s,o.p),S(o.L+1),4)==be(z3.Extract(31,0,n)),"C12 entry counts are in network byte order")
            t=s.clone(); t.assume(z3.ULT(J,OFF(n))); e.prove(t,sm.at(e,t,o.p,S(o.L+5+J))==z3.Select(W,J),"C12 the entries' encodings follow the head")
        e.cover(hits,{"child","ret"}); return
    for init in part:
        e.contracts={}; st,r=setup(e,init,BV(8,8)); n=z3.BitVec("count",64); st.assume(z3.And(z3.ULT(n,1<<32),OFF(ZERO)==0,z3.ULT(r.pos,1<<45))); fold(e,st,n,n); st.assume(z3.And(z3.ULE(r.pos+5+OFF(n),r.n),e._read(st,base_arr(r.D),r.pos+1,4)==be(z3.Extract(31,0,n)))); D=r.D
        dec_hook(e,r,n); inner=e.loop_hooks[0]
        def hook(e_,st_,fr,dname,hdr,body,inner=inner,r=r,D=D,kfold=kfold):
            h=inner(e_,st_,fr,dname,hdr,body)
            def head(x): c=cursor(x); x.assume(z3.Implies(z3.ULT(c,n),z3.ULE(OFF(c+1),OFF(n)))); kfold(x,c,D,S(r.pos+5))
            f=h["cands"]
            def cands(*a):
                out=[]
                for nm,g in f(*a): out.append((nm,(lambda t,en,it,g=g: (kfold(t,en[("abs","cursor","o")],D,S(r.pos+5)),t.assume(z3.Implies(z3.ULT(en[("abs","cursor","o")],n),z3.ULE(OFF(en[("abs","cursor","o")]+1),OFF(n)))),g(t,en,it))[2])))
                return out
            return {"cands":cands,"head":head}
        e.loop_hooks=[hook]
        def child(e_,s,a,ins,r=r,n=n,D=D):
            if isinstance(a[0],Ptr) and a[0].obj is r.this.obj: return None
            child_obj(e_,s,r,a[0]); c=cursor(s); k=kfold(s,c,D,S(r.pos+5)); p=pos(e_,s,r); ev=[x for x in r.any.events(s,"index") if x[3] is a[0].obj]
            e_.prove(s,z3.BoolVal(len(ev)==1),"C12 every value is decoded under its key")
            if len(ev)!=1: raise PathEnd()
            node,kn=ev[0][2]; e_.prove(s,z3.And(z3.ULT(c,n),kn==k),"C12 keys are decoded with their length"); t=s.clone(); t.assume(z3.ULT(J,k)); e_.prove(t,e_._read(t,node,J,1)==z3.Select(D,r.pos+6+OFF(c)+J),"C12 keys are decoded with their bytes")
            e_.prove(s,z3.And(p==r.pos+6+OFF(c)+k,a[3]==r.n,a[2].off==0) if isinstance(a[2],Ptr) and a[2].obj is r.d and a[1].obj is r.po else FALSE,"C12 every entry is decoded from its own slice")
            e_.rawstore(s,Ptr(r.po),S(r.pos+5+OFF(c+1)),8); advance(s); hits.add("child"); return NULL
        e.contracts={DEC:child}
        for q in run_decode(e,r,st):
            s=q.st
            if q.kind=="throw": e.prove(s,z3.Or([x>=999 for x,_ in r.c.values()]) if r.c else FALSE,"C12 an encoded map decodes"); continue
            hits.add("ret"); c=cursor(s); e.prove(s,c==n,"C12 every entry is decoded"); e.prove(s,pos(e,s,r)==r.pos+5+OFF(n),"C12 decoding consumes exactly the bytes encoded (map)"); kk=r.any.inv(s,r.this,"C12 decoded map"); e.prove(s,z3.BoolVal(kk=="Map"),"C12 the decoded value is a map")
            e.prove(s,z3.BoolVal(not r.any.events(s,"erase") and not r.any.events(s,"clear")),"C12 decoding drops no entry")
    e.cover(hits,{"child","ret"})
UNITS=[("end",u_end),("entry",u_entry)]+[("safe%s"%("_".join(map(str,s)) if s[0] is not None else "_other"),u_safe(s,k)) for s,k in(([0,1,2,3],("Null","String","Vector")),([4,5],("Null","Map","Integer")),([6],("Null","String","Integer")),([10,11,12],("Null","String","Map")),([13,14,15,16],("Null","String","Vector")),([9],("Null","String")),([None],("Null","Map")),([7],("Null","Vector","Integer")),([8],("Null","Map","String")))]+[("scalars",u_scalars),("strings",u_strings),("vectors",u_vectors),("maps_encode",lambda e: u_maps(e,"encode")),("maps_decode",lambda e: u_maps(e,("Null","String"))),("maps_decode_again",lambda e: u_maps(e,("Map",)))]
