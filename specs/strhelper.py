"""Contracts of the string helpers (C18): TrimStr, SplitStr, ReplaceStr, SplitHostPort, GetMiddleStr.

Every search position is compared with the contract's own first-occurrence search; loops are cut at a
ghost state: SplitStr (J: where the next piece starts), ReplaceStr (q, out: source consumed, output
final up to out, the text behind out is the unconsumed source)."""
import z3
from engine import *
import strmodel as sm
from utils import source,cursors,hook_of,V64
TU=["strhelper.cpp"]
CONTRACTS=["lce::"+f for f in("TrimStr","SplitStr","ReplaceStr","SplitHostPort","GetMiddleStr (both overloads)")]
ST="std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
class G:
    """ghost values that a loop changes"""
    def __init__(s,**v): s.v=v
    def env(s): return {k:x for k,x in s.v.items() if z3.is_bv(x)}
    def havoc(s,e,h):
        n={k:(fresh("ghost_"+k,x.size()) if z3.is_bv(x) else fresh_bool("ghost_"+k)) for k,x in s.v.items()}; return G(**n),list(n.values())
    def up(s,**v): d=dict(s.v); d.update(v); return G(**d)
def src(st,e,name):
    o,n,at=source(st,e,name); return Ptr(o),sm.chars(e,st,Ptr(o)),n,at
def needle(e,st,node,m): return ("s",)+sm.origin(e,st,node,ZERO,m)+(m,)
def is_range(e,st,p,node,off,l,name):
    """the string at p is the l bytes of node at off"""
    n=sm.slen(e,st,p); e.prove(st,n==l,name+" (length)"); b,o=sm.origin(e,st,sm.chars(e,st,p),ZERO,n); c,q=sm.origin(e,st,node,off,l)
    e.prove(st,z3.Or(n==0,z3.And(z3.BoolVal(b is c or (b.k=="arr" and c.k=="arr" and b.v.eq(c.v))),o==q)),name)
def unchanged(e,st,p,node,n,name): is_range(e,st,p,node,ZERO,n,name)
# ------------------------------------------------------------------ trim
BL=b" \t\r\n"
def blank(c): return z3.Or(*[c==b for b in BL])
def u_trim(e):
    st=State(); p,node,n,at=src(st,e,"text"); K=z3.BitVec("k",64)
    def cands(e_,st0,h,e0,eh,vs,fr):
        out=[]
        for k in vs:
            if e0[k].size()!=64: continue
            for nm,f in(("lt",lambda v: z3.ULT(K,v)),("le",lambda v: z3.ULE(K,v)),("gt",lambda v: z3.And(z3.UGT(K,v),z3.ULT(K,n))),("ge",lambda v: z3.And(z3.UGE(K,v),z3.ULT(K,n)))): out.append((("blank",nm,k),lambda s,en,it,k=k,f=f: z3.Implies(f(en[k]),blank(at(K)))))
        return out
    e.loop_hooks.append(hook_of(cands)); cov=set()
    for q in e.run(st,"lce::TrimStr(%s&)"%ST,[p]):
        s=q.st; e.prove(s,z3.BoolVal(q.kind=="ret"),"C18 TrimStr does not throw")
        if q.kind!="ret": continue
        l=sm.slen(e,s,p); 
        for c,t in e.split(s,l==0):
            if c is not None: cov.add("empty"); e.prove(t,z3.Implies(z3.ULT(K,n),blank(at(K))),"C18 TrimStr empties only an all-blank string"); continue
            cov.add("kept"); b,o=sm.origin(e,t,sm.chars(e,t,p),ZERO,l); b0,_=sm.origin(e,t,node,ZERO,n); e.prove(t,z3.And(z3.BoolVal(b is b0),z3.ULE(o,n),z3.ULE(l,n-o)),"C18 TrimStr leaves a contiguous part of the text")
            e.prove(t,z3.And(z3.Implies(z3.ULT(K,o),blank(at(K))),z3.Implies(z3.And(z3.UGE(K,o+l),z3.ULT(K,n)),blank(at(K)))),"C18 TrimStr removes only blanks at the ends")
            e.prove(t,z3.And(z3.Not(blank(at(o))),z3.Not(blank(at(o+l-1)))),"C18 TrimStr removes all blanks at the ends")
    e.cover(cov,{"empty","kept"})
# ------------------------------------------------------------------ split
def u_split(e,empty=False):
    st=State(); p,node,n,at=src(st,e,"text"); sp,snode,m,_=src(st,e,"separator"); st.assume((m==0) if empty else (m!=0)); v=Ptr(e.new_obj(st,"pieces",24)); nd=needle(e,st,snode,m); cov=set()
    st.abs["split"]=G(J=ZERO,done=BV(0,8))
    def push(e_,s,a,ins,d):
        g=s.abs["split"]; J=g.v["J"]
        if a[0].obj is not v.obj: raise Unsupported("another vector of strings")
        e.prove(s,g.v["done"]==0,"C18 SplitStr: nothing follows the last piece"); q=a[1]; l=sm.slen(e,s,q); outs=[]
        e.prove(s,z3.And(z3.ULE(J,n),z3.ULE(l,n-J)),"C18 SplitStr: a piece lies in the text"); is_range(e,s,q,node,J,l,"C18 SplitStr: each piece continues where the separator before it ended")
        bn,bo=sm.origin(e,s,node,J,S(n-J)); M=sm.needle_pred(e,s,bn,nd); d_=S(bo-J); kk=fresh("k",64); t=s.clone(); t.assume(m!=0); t.assume(z3.And(z3.ULT(kk,l),z3.ULE(m,n-(J+kk)))); sm.inst(t,S(J+kk+d_),S(J+kk)); e.prove(t,z3.Not(M(S(J+kk+d_))),"C18 SplitStr: no separator inside a piece")
        for c,u in e.split(s,J+l==n):
            if c is not None: sm.inst(u,S(J+l+d_)); u.abs["split"]=g.up(done=BV(1,8)); cov.add("last")
            else: e.prove(u,z3.And(m!=0,z3.ULE(m,n-(J+l)),M(S(J+l+d_))),"C18 SplitStr: the separator follows each piece but the last"); u.abs["split"]=g.up(J=S(J+l+m)); cov.add("inner")
            outs.append(Outcome("ret",None,u))
        return outs
    e.model(r'^std::vector<std::__cxx11::basic_string<.*>::(push_back|emplace_back)',push)
    def hook(e_,s0,f,dname,hdr,body):
        if "SplitStr" not in dname: return None
        def head(h): h.ghost[("nohavoc","J0")]=h.abs["split"].v["J"]
        return {"cands":lambda e_,st0,h,e0,eh,vs:[(("split-in-text",),lambda s,en,it: z3.ULE(s.abs["split"].v["J"],n))],"head":head,"back":lambda b: e.prove(b,z3.UGT(b.abs["split"].v["J"],b.ghost[("nohavoc","J0")]),"C18 SplitStr terminates: every iteration consumes text")}
    e.loop_hooks.append(hook)
    for q in e.run(st,"lce::SplitStr(%s const&, %s const&, std::vector<%s, std::allocator<%s>>&)"%(ST,ST,ST,ST),[p,sp,v]):
        s=q.st; e.prove(s,z3.BoolVal(q.kind=="ret"),"C18 SplitStr does not throw")
        if q.kind=="ret": e.prove(s,s.abs["split"].v["done"]==1,"C18 SplitStr: the pieces cover the whole text")
    e.cover(cov,{"last"} if empty else {"last","inner"})
# ------------------------------------------------------------------ replace
def u_replace(e,empty=False):
    st=State(); p,node,n,at=src(st,e,"text"); fp,fnode,m,_=src(st,e,"find"); rp,rnode,r,_=src(st,e,"replacement"); st.assume((m==0) if empty else (m!=0)); nd=needle(e,st,fnode,m); cov=set(); base,_=sm.origin(e,st,node,ZERO,n); M=sm.needle_pred(e,st,base,nd)
    st.abs["rep"]=G(q=ZERO,out=ZERO); buf,_=sm.sget(e,st,p)
    def tail(s,name):
        g=s.abs["rep"].v; l=sm.slen(e,s,p); q,out=g["q"],g["out"]; e.prove(s,z3.And(z3.ULE(q,n),l==out+(n-q)),name+" (length)")
        b,o=sm.origin(e,s,sm.chars(e,s,p),out,S(n-q)); e.prove(s,z3.Or(n==q,z3.And(z3.BoolVal(b is base),o==q)),name)
    def nomatch(s,a,b,name):
        """no occurrence starts in source [a,b)"""
        t=s.clone(); kk=fresh("k",64); t.assume(z3.And(z3.UGE(kk,a),z3.ULT(kk,b),z3.ULE(m,n-kk))); g=t.abs["rep"].v; sm.inst(t,kk,S(kk-g["q"]+g["out"])); e.prove(t,z3.Not(M(kk)),name)
    osplice=sm.splice
    def splice(e_,s,x,pos,cnt,nn,off,ln):
        if x.obj is not p.obj: return osplice(e_,s,x,pos,cnt,nn,off,ln)
        if e.suppress==0: cov.add("replaced")
        e.prove(s,m!=0,"C18 ReplaceStr replaces nothing when there is nothing to find"); tail(s,"C18 ReplaceStr: the text behind the last replacement is the unconsumed source"); g=s.abs["rep"].v; q,out=g["q"],g["out"]; at_=S(q+(pos-out))
        e.prove(s,z3.And(z3.UGE(pos,out),cnt==m,ln==r),"C18 ReplaceStr replaces one whole occurrence"); b,o=sm.origin(e,s,nn,off,ln); e.prove(s,z3.Or(ln==0,z3.And(z3.BoolVal(b is sm.origin(e,s,rnode,ZERO,r)[0]),o==0)),"C18 ReplaceStr inserts the replacement text")
        nomatch(s,q,at_,"C18 ReplaceStr leaves no occurrence before the one it replaces"); e.prove(s,z3.And(z3.ULE(m,n-at_),z3.ULE(at_,n),M(at_)),"C18 ReplaceStr replaces only an occurrence of the text")
        osplice(e_,s,x,pos,cnt,nn,off,ln); s.abs["rep"]=G(q=S(at_+m),out=S(pos+r))
    def hook(e_,s0,f,dname,hdr,body):
        if "ReplaceStr" not in dname: return None
        tail(s0,"C18 ReplaceStr: loop entry: the text behind is the source")
        def havoc(h):
            g,sy=h.abs["rep"].havoc(e,h); h.abs["rep"]=g; q,out=g.v["q"],g.v["out"]; h.assume(z3.And(z3.ULE(q,n),z3.ULE(out,sm.LIM))); R=fresh_arr("done"); ln=S(out+(n-q)); h.assume(z3.ULE(ln,sm.LIM))
            h.mem[buf.id]=Node("st",Node("cp",base_arr(R),out,S(n-q),node,q),ln,1,BV(0,8)); sm.setlen(e,h,p,ln); h.ghost[("nohavoc","q0")]=q; return sy+[R]
        def back(bs): tail(bs,"C18 ReplaceStr: loop step: the text behind is the unconsumed source"); e.prove(bs,z3.UGT(bs.abs["rep"].v["q"],bs.ghost[("nohavoc","q0")]),"C18 ReplaceStr terminates: every iteration consumes text")
        return {"skip":lambda c: c[0]==buf.id or (c[0]==p.obj.id and c[1]==8),"skipabs":lambda k:k=="rep","havoc":havoc,"back":back}
    e.loop_hooks.append(hook); sm.splice=splice
    try:
        for o in e.run(st,"lce::ReplaceStr(%s&, %s const&, %s const&)"%(ST,ST,ST),[p,fp,rp]):
            s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C18 ReplaceStr does not throw")
            if o.kind!="ret": continue
            tail(s,"C18 ReplaceStr: nothing else changes"); None if empty else nomatch(s,s.abs["rep"].v["q"],n,"C18 ReplaceStr leaves no occurrence of the text")
    finally: sm.splice=osplice
    e.cover(cov,set() if empty else {"replaced"})
# ------------------------------------------------------------------ delimited extraction
def u_hostport(e):
    st=State(); p,node,n,at=src(st,e,"text"); h,hn,hl,_=src(st,e,"host"); q,qn,ql,_=src(st,e,"port"); c=z3.BitVec("splitter",8); cov=set()
    for i,s0 in sm.search(e,st,node,ZERO,n,("b",c)):
        for o in e.run(s0,"lce::SplitHostPort(%s const&, %s&, %s&, char)"%(ST,ST,ST),[p,h,q,c]):
            s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C18 SplitHostPort does not throw")
            if o.kind!="ret": continue
            unchanged(e,s,p,node,n,"C18 SplitHostPort leaves its input")
            if i is None: cov.add("absent"); e.prove(s,o.val==BV(0,1),"C18 SplitHostPort reports an absent separator"); unchanged(e,s,h,hn,hl,"C18 SplitHostPort leaves the host when the separator is absent"); unchanged(e,s,q,qn,ql,"C18 SplitHostPort leaves the port when the separator is absent")
            else: cov.add("present"); e.prove(s,o.val==BV(1,1),"C18 SplitHostPort reports the separator"); is_range(e,s,h,node,ZERO,i,"C18 the host is the text before the first separator"); is_range(e,s,q,node,S(i+1),S(n-i-1),"C18 the port is the text behind the first separator")
    e.cover(cov,{"absent","present"})
NPOS=bv64(-1)
def middle(e,second):
    st=State(); p,node,n,at=src(st,e,"text"); op,on,ol,_=src(st,e,"out"); ep,en,el,_=src(st,e,"end"); beg=z3.BitVec("from",64); cov=set()
    if second: args=[z3.BitVec("unused",64),p,op,beg,ep]; sig="unsigned long, %s const&, %s&, unsigned long, %s const&"%(ST,ST,ST); starts=[(beg,st)]
    else:
        bp,bn,bl,_=src(st,e,"begin"); args=[beg,p,op,bp,ep]; sig="unsigned long, %s const&, %s&, %s const&, %s const&"%(ST,ST,ST,ST); starts=[]
        big=st.clone(); big.assume(z3.UGT(beg,n)); st.assume(z3.ULE(beg,n)); starts.append((None,big))
        for i,s in sm.search(e,st,node,beg,n,needle(e,st,bn,bl)): starts.append((None if i is None else S(i+bl),s))
    cases=[]
    for a,s in starts:
        if a is None: cases.append((None,None,s)); continue
        t=s.clone(); t.assume(z3.UGT(a,n)); s.assume(z3.ULE(a,n)); 
        if e.sat(t): cases.append((None,None,t))
        for i,u in sm.search(e,s,node,a,n,needle(e,s,en,el)): cases.append((a,i,u))
    for a,b,s0 in cases:
        for o in e.run(s0,"lce::GetMiddleStr(%s)"%sig,args):
            s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C18 GetMiddleStr does not throw")
            if o.kind!="ret": continue
            unchanged(e,s,p,node,n,"C18 GetMiddleStr leaves its input")
            if b is None: cov.add("absent"); e.prove(s,o.val==NPOS,"C18 GetMiddleStr reports a missing delimiter"); unchanged(e,s,op,on,ol,"C18 GetMiddleStr leaves the output when a delimiter is missing")
            else: cov.add("present"); e.prove(s,o.val==S(b+el),"C18 GetMiddleStr returns the position behind the end delimiter"); is_range(e,s,op,node,a,S(b-a),"C18 GetMiddleStr yields the text between the delimiters")
    e.cover(cov,{"absent","present"})
UNITS=[("trim",u_trim),("split",u_split),("split_empty",lambda e:u_split(e,True)),("replace",u_replace),("replace_empty",lambda e:u_replace(e,True)),("hostport",u_hostport),("middle",lambda e:middle(e,False)),("middle_at",lambda e:middle(e,True))]
