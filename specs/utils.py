"""Contracts of Utils: Hash, charToHex, hexToChar (C29), FormUrlEncode, FormUrlDecode (C17).

The content of a string built by a loop is specified by folds over the source: L(i) = output length
after i source bytes (encoder), p(k) = source position of the k-th output byte (decoder), H(i) = hash
of the first i bytes.  The folds are uninterpreted functions with their defining equations
instantiated at the loop's cursor; the cursor is any loop variable that steps through the source."""
import z3
from engine import *
import strmodel as sm
TU=["utils.cpp","/repo/src/Utils.cpp"]
CONTRACTS=["lce::Hash (6 overloads)","lce::charToHex","lce::hexToChar","lce::FormUrlEncode","lce::FormUrlDecode"]
STRT="std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"
B8=lambda c: BV(ord(c) if isinstance(c,str) else c,8)
V64=z3.BitVecSort(64)
def source(st,e,name="src"):
    n=z3.BitVec("len_"+name,64); st.assume(z3.ULT(n,bv64(1<<31))); D=z3.Array(name,V64,z3.BitVecSort(8)); node=Node("st",base_arr(D),n,1,BV(0,8))
    s=e.new_obj(st,name,32); sm.mk(e,st,Ptr(s),node,n)
    return s,n,(lambda i: z3.Select(D,i))
# ------------------------------------------------------------------ cursors
def cursors(e0,eh,vs):
    """(name, distance walked as a 64-bit value) of every loop variable"""
    out=[]
    for k in vs:
        v0=e0[k]
        if v0.size() in(32,64): out.append((k,lambda en,k=k,v0=v0: S(sx(en[k]-v0,64))))
        if v0.size() in(32,64): out.append((("rev",)+tuple(k),lambda en,k=k,v0=v0: S(sx(v0-en[k],64))))
    return out
def grown(e,st,h):
    """strings whose content a loop changes: [pointer]"""
    out=[]
    for oid,n in h.mem.items():
        o=h.objs.get(oid)
        if o is not None and o.kind=="strbuf" and oid not in h.dead and (oid not in st.mem or st.mem[oid] is not n): out.append(Ptr(*o.ghost["owner"]))
    return out
def hook_of(f):
    def hook(e,st,fr,dname,hdr,body): return {"cands":lambda e_,st0,h,e0,eh,vs: f(e_,st0,h,e0,eh,vs,fr)}
    return hook
# ------------------------------------------------------------------ Hash
def u_hash(e):
    st=State(); n=z3.BitVec("len",64); st.assume(z3.ULT(n,1<<46)); D=z3.Array("key",V64,z3.BitVecSort(8)); o=e.new_obj(st,"key",n,base_arr(D)); H=z3.Function("hash",V64,V64)
    st.assume(H(bv64(0))==0)
    def cands(e_,st0,h,e0,eh,vs,fr):
        out=[]
        for ka in vs:
            if e0[ka].size()!=64: continue
            for kc,c in cursors(e0,eh,vs):
                if kc==ka: continue
                def f(s,en,it,ka=ka,c=c):
                    i=c(en); s.assume(H(i+1)==5*H(i)+sx(z3.Select(D,i),64)); return z3.And(z3.ULE(i,n),en[ka]==H(i))
                out.append((("hash",ka,kc),f))
        return out
    e.loop_hooks.append(hook_of(cands))
    for q in e.run(st,"lce::Hash(char const*, unsigned long)",[Ptr(o),n]):
        e.prove(q.st,z3.BoolVal(q.kind=="ret"),"C29 Hash does not throw"); e.prove(q.st,q.val==H(n),"C29 hash is the fold h = 5h + byte over every byte")
def u_hash_over(e):
    """every overload hashes exactly the bytes of its argument"""
    HF=z3.Function("hashOf",z3.ArraySort(V64,z3.BitVecSort(8)),V64,V64); log=[]
    def m(e_,st,a,ins,d):
        p=a[0]; r=fresh("hash",64); st.ghost[("nohavoc","hashed")]=(p,a[1],r); return r
    e.model(r'^lce::Hash\(char const\*, unsigned long\)$',m)
    for t,w in(("int",32),("unsigned int",32),("long",64),("unsigned long",64)):
        st=State(); v=z3.BitVec("v",w)
        for q in e.run(st,"lce::Hash(%s)"%t,[v]):
            p,l,r=q.st.ghost[("nohavoc","hashed")]; e.prove(q.st,z3.BoolVal(q.kind=="ret"),"C29 Hash does not throw")
            e.prove(q.st,z3.And(l==w//8,q.val==r),"C29 the integer hash covers every byte of the integer"); e.prove(q.st,e._read(q.st,q.st.mem[p.obj.id],p.off,w//8)==v,"C29 the integer hash is over the integer's own bytes")
    st=State(); s,n,at=source(st,e)
    for q in e.run(st,"lce::Hash(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&)",[Ptr(s)]):
        p,l,r=q.st.ghost[("nohavoc","hashed")]; b,_=sm.sget(e,q.st,Ptr(s))
        e.prove(q.st,z3.And(z3.BoolVal(p.obj is b),p.off==0,l==n,q.val==r),"C29 the string hash covers every byte of the string")
# ------------------------------------------------------------------ hex
def hexd(v): return z3.If(z3.ULT(v,10),v+48,v+55)
def u_hex(e):
    st=State(); c=z3.BitVec("c",8); r=e.new_obj(st,"result",32)
    for q in e.run(st,"lce::charToHex[abi:cxx11](char)",[Ptr(r),c]):
        s=q.st; e.prove(s,z3.BoolVal(q.kind=="ret"),"C17,C29 charToHex does not throw"); e.prove(s,sm.slen(e,s,Ptr(r))==2,"C17,C29 charToHex yields two characters")
        e.prove(s,sm.at(e,s,Ptr(r),ZERO)==hexd(z3.LShR(c,4)),"C17,C29 first hex digit is the high half, upper case"); e.prove(s,sm.at(e,s,Ptr(r),bv64(1))==hexd(c&15),"C17,C29 second hex digit is the low half, upper case")
    st=State(); h,l=z3.BitVec("hi",8),z3.BitVec("lo",8); u,v=z3.Bools("lowercase1 lowercase2"); st.assume(z3.ULT(h,16)); st.assume(z3.ULT(l,16))
    dig=lambda x,up: z3.If(z3.ULT(x,10),x+48,z3.If(up,x+87,x+55))
    for q in e.run(st,"lce::hexToChar(char, char)",[dig(h,u),dig(l,v)]): e.prove(q.st,z3.BoolVal(q.kind=="ret"),"C17,C29 hexToChar does not throw"); e.prove(q.st,q.val==h*16+l,"C17,C29 hexToChar is the inverse of charToHex for either case")
# ------------------------------------------------------------------ form encoding
PLAIN=b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_."
def plain(c): return z3.Or(z3.And(z3.UGE(c,65),z3.ULE(c,90)),z3.And(z3.UGE(c,97),z3.ULE(c,122)),z3.And(z3.UGE(c,48),z3.ULE(c,57)),c==45,c==95,c==46)
def single(c): return z3.Or(plain(c),c==32)
def w(c): return z3.If(single(c),bv64(1),bv64(3))
def hexdig(c): return z3.Or(z3.And(z3.UGE(c,48),z3.ULE(c,57)),z3.And(z3.UGE(c,65),z3.ULE(c,70)),z3.And(z3.UGE(c,97),z3.ULE(c,102)))
def hexval(c): return z3.If(z3.ULE(c,57),c-48,z3.If(z3.ULE(c,70),c-55,c-87))
def charToHex_contract(e):
    """callers see charToHex by its contract (proved in unit hex)"""
    def m(e_,st,a,ins,d):
        node=Node("st",Node("st",base_fill(BV(0,8)),ZERO,1,hexd(z3.LShR(a[1],4))),bv64(1),1,hexd(a[1]&15)); sm.mk(e_,st,a[0],node,bv64(2)); return None
    e.model(r'^lce::charToHex(\[abi:cxx11\])?\(char\)$',m)
def u_encode(e):
    charToHex_contract(e); st=State(); s,n,at=source(st,e); r=e.new_obj(st,"result",32); L=z3.Function("outlen",V64,V64); K=z3.BitVec("k",64); st.assume(L(ZERO)==0)
    def ax(t,i):
        t.assume(L(i+1)==L(i)+w(at(i))); t.assume(z3.Implies(z3.ULE(i,n),z3.ULE(L(i),3*i))); t.assume(z3.Implies(z3.And(z3.ULT(K,i),z3.ULE(i,n)),z3.ULE(L(K)+w(at(K)),L(i)))); t.assume(z3.Implies(z3.ULT(K,n),z3.ULE(L(K),3*K)))
    def content(t,p): 
        b=at(K); g=lambda j: sm.at(e,t,p,S(L(K)+j)); return z3.If(b==32,g(0)==B8("+"),z3.If(plain(b),g(0)==b,z3.And(g(0)==B8("%"),g(1)==hexd(z3.LShR(b,4)),g(2)==hexd(b&15))))
    def cands(e_,st0,h,e0,eh,vs,fr):
        out=[]
        for p in grown(e_,st0,h):
            for kc,c in cursors(e0,eh,vs):
                def f1(t,en,it,p=p,c=c): i=c(en); ax(t,i); return z3.And(z3.ULE(i,n),sm.slen(e_,t,p)==L(i))
                def f2(t,en,it,p=p,c=c): i=c(en); ax(t,i); return z3.Implies(z3.ULT(K,i),content(t,p))
                out+=[(("enc-len",p.obj.id,kc),f1),(("enc-chars",p.obj.id,kc),f2)]
        return out
    e.loop_hooks.append(hook_of(cands))
    for q in e.run(st,"lce::FormUrlEncode(%s const&)"%STRT.replace("> >",">>"),[Ptr(r),Ptr(s)]):
        t=q.st; e.prove(t,z3.BoolVal(q.kind=="ret"),"C17 FormUrlEncode does not throw"); ax(t,n)
        e.prove(t,sm.slen(e,t,Ptr(r))==L(n),"C17 encoded length: one character per unreserved byte and space, three otherwise")
        e.prove(t,z3.Implies(z3.ULT(K,n),content(t,Ptr(r))),"C17 every byte is encoded as itself, '+' or %XX with upper-case digits")
def u_decode(e):
    st=State(); s,n,at=source(st,e); r=e.new_obj(st,"result",32); P=z3.Function("srcpos",V64,V64); K=z3.BitVec("k",64); st.assume(P(ZERO)==0)
    def esc(i): return z3.And(at(i)==B8("%"),z3.ULT(i,n),z3.ULT(i+2,n),hexdig(at(i+1)),hexdig(at(i+2)))
    def ax(t,k):
        t.assume(P(k+1)==P(k)+z3.If(esc(P(k)),bv64(3),bv64(1)))
        t.assume(z3.Implies(z3.ULE(k,n),z3.And(z3.ULE(k,P(k)),z3.ULE(P(k),3*k)))); t.assume(z3.Implies(z3.And(z3.ULT(K,k),z3.ULE(k,n)),z3.ULT(P(K),P(k))))
    def content(t,p): b=at(P(K)); return sm.at(e,t,p,K)==z3.If(b==B8("+"),B8(" "),z3.If(esc(P(K)),hexval(at(P(K)+1))*16+hexval(at(P(K)+2)),b))
    def cands(e_,st0,h,e0,eh,vs,fr):
        out=[]
        for p in grown(e_,st0,h):
            for kc,c in cursors(e0,eh,vs):
                def f1(t,en,it,p=p,c=c): i=c(en); l=sm.slen(e_,t,p); ax(t,l); return z3.And(z3.ULE(i,n),z3.ULE(l,i),i==P(l))
                def f2(t,en,it,p=p,c=c): l=sm.slen(e_,t,p); ax(t,l); return z3.Implies(z3.ULT(K,l),content(t,p))
                out+=[(("dec-pos",p.obj.id,kc),f1),(("dec-chars",p.obj.id,kc),f2)]
        return out
    e.loop_hooks.append(hook_of(cands))
    for q in e.run(st,"lce::FormUrlDecode(%s const&)"%STRT.replace("> >",">>"),[Ptr(r),Ptr(s)]):
        t=q.st; e.prove(t,z3.BoolVal(q.kind=="ret"),"C17 decoding is total: no input throws"); l=sm.slen(e,t,Ptr(r)) if q.kind=="ret" else None
        if l is None: continue
        ax(t,l); e.prove(t,P(l)==n,"C17 the whole input is decoded"); e.prove(t,z3.Implies(z3.ULT(K,l),content(t,Ptr(r))),"C17 escapes give their byte, '+' a space, everything else itself")
def u_lemmas(e):
    """induction steps: the folds' monotonicity used above, and decode(encode(s)) = s"""
    st=State(); L=z3.Function("outlen",V64,V64); P=z3.Function("srcpos",V64,V64); S_=z3.Function("s",V64,z3.BitVecSort(8)); E=z3.Function("enc",V64,z3.BitVecSort(8)); i,k,n=z3.BitVecs("i k n",64); st.assume(z3.ULT(n,1<<31)); st.assume(z3.ULT(i,n)); st.assume(L(i+1)==L(i)+w(S_(i)))
    t=st.clone(); t.assume(z3.ULE(L(i),3*i)); e.prove(t,z3.ULE(L(i+1),3*(i+1)),"C17 lemma: encoded length is at most 3 times the source (step)")
    t.assume(z3.Or(k==i,z3.And(z3.ULT(k,i),z3.ULE(L(k)+w(S_(k)),L(i))))); t.assume(z3.ULE(L(k),3*k)); e.prove(t,z3.ULE(L(k)+w(S_(k)),L(i+1)),"C17 lemma: encoded positions increase (step)")
    t=State(); t.assume(z3.ULT(n,1<<31)); t.assume(z3.ULT(k,n)); d=z3.BitVec("d",64); t.assume(z3.Or(d==1,d==3)); t.assume(P(k+1)==P(k)+d); t.assume(z3.And(z3.ULE(k,P(k)),z3.ULE(P(k),3*k)))
    e.prove(t,z3.And(z3.ULE(k+1,P(k+1)),z3.ULE(P(k+1),3*(k+1))),"C17 lemma: source position of the k-th output byte is between k and 3k (step)")
    e.prove(t,z3.Implies(z3.Or(i==k,z3.And(z3.ULT(i,k),z3.ULT(P(i),P(k)))),z3.Implies(z3.Or(i==k,P(i)<P(k)),z3.ULT(P(i),P(k+1)))),"C17 lemma: source positions increase (step)")
    # round trip: at the i-th token the decoder stands at L(i) and yields s[i]
    t=State(); m=z3.BitVec("m",64); t.assume(z3.ULT(n,1<<31)); t.assume(z3.ULT(i,n)); b=S_(i); t.assume(L(i+1)==L(i)+w(b)); t.assume(z3.And(z3.ULE(L(i),3*i),z3.ULE(L(i+1),m),z3.ULE(m,3*n)))
    g=lambda j: E(L(i)+j); t.assume(z3.If(b==32,g(0)==B8("+"),z3.If(plain(b),g(0)==b,z3.And(g(0)==B8("%"),g(1)==hexd(z3.LShR(b,4)),g(2)==hexd(b&15)))))
    esc=z3.And(g(0)==B8("%"),z3.ULT(L(i)+2,m),hexdig(g(1)),hexdig(g(2)))
    e.prove(t,L(i)+z3.If(esc,bv64(3),bv64(1))==L(i+1),"C17 lemma: the decoder advances over exactly one encoded byte (step of decode(encode(s))=s)")
    e.prove(t,z3.If(g(0)==B8("+"),B8(" "),z3.If(esc,hexval(g(1))*16+hexval(g(2)),g(0)))==b,"C17 lemma: the decoder yields the byte that was encoded (step of decode(encode(s))=s)")
UNITS=[("hash",u_hash),("hash_overloads",u_hash_over),("hex",u_hex),("encode",u_encode),("decode",u_decode),("lemmas",u_lemmas)]
