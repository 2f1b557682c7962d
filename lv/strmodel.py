"""Assumed contracts of std::string (libstdc++, new ABI) and of the C string functions.

A string object keeps its real layout only as far as the contract needs it: word 0 is a pointer to
the string's character block, word 1 its length.  The block is one abstract object per string whose
admissible range is [0,length] (the byte at length reads 0); iterator invalidation by growth is not
modelled.  Strings longer than 2^46 bytes are outside the model (lengths above that throw
length_error, as libstdc++ does for lengths above max_size)."""
import z3, re
from engine import *
LIM=bv64(1<<46)
STR=r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
# ------------------------------------------------------------------ universal facts
def facts(st): return st.ghost.get(("nohavoc","univ"),())
def add_fact(st,f):
    st.ghost[("nohavoc","cut")]=True   # refutations under universal facts are not conclusive
    st.ghost[("nohavoc","univ")]=facts(st)+(f,)
def inst(st,*terms):
    """instantiate every recorded universal fact at the given positions"""
    for f in facts(st):
        for t in terms: st.assume(f(t))
# ------------------------------------------------------------------ string objects
def guard(e,st,p,n,rw):
    if rw=="free": return
    o=p.obj; own=o.ghost["owner"]; ln=e._read(st,st.mem[own[0].id],S(own[1]+8),8)
    n=bv64(n) if isinstance(n,int) else n
    if rw=="r": e.prove(st,z3.Or(n==0,z3.And(z3.ULE(p.off,ln),z3.ULE(n,ln+1-p.off))),"memory-safety: read stays inside the string")
    else: e.prove(st,z3.Or(n==0,z3.And(z3.ULE(p.off,ln),z3.ULE(n,ln-p.off))),"memory-safety: write stays inside the string")
def mk(e,st,p,node=None,ln=ZERO):
    """make the bytes at p a string with the given content"""
    o=e.new_obj(st,"chars of "+p.obj.name,1<<47,node if node is not None else base_fill(BV(0,8))); o.kind="strbuf"; o.guard=guard; o.ghost["owner"]=(p.obj,p.off)
    st.mem[p.obj.id]=Node("st",st.mem[p.obj.id],p.off,8,Ptr(o)); st.mem[p.obj.id]=Node("st",st.mem[p.obj.id],S(p.off+8),8,ln)
    return o
def sget(e,st,p):
    """(block, length) of the string at p"""
    if not isinstance(p,Ptr) or p.obj.kind in("null","func"): e.fail(st,"memory-safety: string through a null pointer"); raise PathEnd()
    if p.obj.id in st.dead: e.fail(st,"memory-safety: string after free of %s"%p.obj.name); raise PathEnd()
    b=e._read(st,st.mem[p.obj.id],p.off,8)
    if not isinstance(b,Ptr) or b.obj.kind!="strbuf": raise Unsupported("no string at %r"%p)
    ln=e._read(st,st.mem[p.obj.id],S(p.off+8),8)
    return b.obj,S(ln)
def slen(e,st,p): return sget(e,st,p)[1]
def chars(e,st,p): return st.mem[sget(e,st,p)[0].id]
def at(e,st,p,i): return e._read(st,chars(e,st,p),S(i),1)
def setlen(e,st,p,n): e.rawstore(st,p+8,S(n),8)
def owner(p): return p
def touch(e,st,p):
    o,_=sget(e,st,p)
    # memory owned by the object: the write is a write to the object for access hooks
    if e.access_hook: e.access_hook(e,st,Ptr(p.obj,p.off),16,"w")
    if p.obj.guard: p.obj.guard(e,st,p,bv64(16),"w")
    return o
def rtouch(e,st,p):
    if e.access_hook: e.access_hook(e,st,Ptr(p.obj,p.off),16,"r")
    if p.obj.guard: p.obj.guard(e,st,p,bv64(16),"r")
def big(e,st,n):
    """fork: lengths above the model's limit throw length_error.  Returns throw outcomes; st continues"""
    if e.valid(st,z3.ULE(n,LIM)): return []
    t=st.clone(); t.assume(z3.UGT(n,LIM)); st.assume(z3.ULE(n,LIM)); x=e.new_obj(t,"exc",8)
    return [Outcome("throw",(Ptr(x,ZERO),"_ZTISt12length_error"),t)]
def cap(e,st,n): st.assume(z3.ULE(n,LIM))
def put(e,st,p,node,soff,n):
    """content := n bytes of node at soff"""
    o=touch(e,st,p); n=S(n); m=base_fill(BV(0,8))
    if not(isc(n) and cv(n)==0): m=Node("cp",m,ZERO,n,node,S(soff))
    st.mem[o.id]=m; setlen(e,st,p,n)
def app(e,st,p,node,soff,n):
    o,ln=sget(e,st,p); touch(e,st,p); n=S(n)
    if isc(n) and cv(n)==0: return
    cap(e,st,S(ln+n))
    if isc(n) and cv(n)<=8:
        m=st.mem[o.id]
        for i in range(cv(n)): m=Node("st",m,S(ln+i),1,e._read(st,node,S(soff+i),1))
    else: m=Node("cp",st.mem[o.id],ln,n,node,S(soff))
    st.mem[o.id]=Node("st",m,S(ln+n),1,BV(0,8)); setlen(e,st,p,ln+n)
def splice(e,st,p,pos,n,node,soff,m):
    """replace n bytes at pos by m bytes of node at soff"""
    o,ln=sget(e,st,p); touch(e,st,p); old=st.mem[o.id]; nl=S(ln-n+m); cap(e,st,nl)
    if S(n).eq(S(m)) or e.valid(st,n==m): c=Node("cp",old,S(pos),S(m),node,S(soff)); st.mem[o.id]=c; return
    c=Node("cp",base_fill(BV(0,8)),ZERO,S(pos),old,ZERO); c=Node("cp",c,S(pos),S(m),node,S(soff)); c=Node("cp",c,S(pos+m),S(ln-pos-n),old,S(pos+n))
    st.mem[o.id]=c; setlen(e,st,p,nl)
def oor(e,st,c):
    """fork: out_of_range when c"""
    if e.valid(st,z3.Not(c)): return []
    t=st.clone(); t.assume(c); out=[]
    if e.sat(t): x=e.new_obj(t,"exc",8); out=[Outcome("throw",(Ptr(x,ZERO),"_ZTISt12out_of_range"),t)]
    st.assume(z3.Not(c))
    return out
def live(e,st): return e.sat(st)
def lim(e,st,n,room):
    """min(n,room)"""
    if e.valid(st,z3.ULE(n,room)): return n
    if e.valid(st,z3.UGE(n,room)): return room
    return None
def cstr(e,st,p,what="strlen"):
    """length of the C string at p: content facts are recorded as universal facts"""
    if not isinstance(p,Ptr) or p.obj.kind in("null","func"): e.fail(st,"memory-safety: %s of a null pointer"%what); raise PathEnd()
    o=p.obj
    if o.kind not in("strbuf",) and isc(p.off):
        # concrete content (literals)
        for i in range(4096):
            if isc(o.size) and cv(p.off)+i>=cv(o.size): break
            b=S(e._read(st,st.mem[o.id],S(p.off+i),1)) 
            if not isc(b): break
            if cv(b)==0:
                e.access(st,p,i+1,"r",what); return bv64(i)
    node=st.mem[o.id]; key=("nohavoc","cstr",id(node),p.off.get_id()); 
    if key in st.ghost: return st.ghost[key][0]
    end=cend(e,st,p,what)
    if isc(end) and cv(end)==0: return ZERO
    r=fresh("strlen",64); st.assume(z3.ULE(r,end)); st.assume(e._read(st,node,S(p.off+r),1)==BV(0,8)); off=p.off
    add_fact(st,lambda k,node=node,off=off,r=r: z3.Implies(z3.And(z3.UGE(k,off),z3.ULT(k,off+r)),e._read(st.clone(),node,S(k),1)!=BV(0,8)))
    st.ghost[key]=(r,node,p.off); return r
def cend(e,st,p,what):
    """distance from p to a position known to hold a terminator"""
    if not isinstance(p,Ptr) or p.obj.kind in("null","func"): e.fail(st,"memory-safety: %s of a null pointer"%what); raise PathEnd()
    o=p.obj; node=st.mem[o.id]
    if o.id in st.dead: e.fail(st,"memory-safety: %s after free"%what); raise PathEnd()
    if o.kind=="strbuf":
        own=o.ghost["owner"]; ln=e._read(st,st.mem[own[0].id],own[1]+8,8)
        e.prove(st,z3.ULE(p.off,ln),"memory-safety: %s starts inside the string"%what); end=S(ln-p.off)
    elif "nul" in o.ghost:
        e.prove(st,z3.ULE(p.off,o.ghost["nul"]),"memory-safety: %s starts before the terminator"%what); end=S(o.ghost["nul"]-p.off)
    else:
        e.prove(st,z3.And(z3.ULT(p.off,o.size),e._read(st,node,S(o.size-1),1)==BV(0,8)),"memory-safety: %s finds a terminator inside %s"%(what,o.name)); end=S(o.size-1-p.off)
    return end
# ------------------------------------------------------------------ searching
def origin(e,st,node,off,n):
    """follow copies: the n bytes of node at off are the n bytes of the result at the returned offset"""
    off=S(off)
    for _ in range(200):
        k=node.k
        if k=="cp":
            d=S(off-node.off)
            if e.valid(st,z3.And(z3.ULE(d,node.n),z3.ULE(n,node.n-d))) : off=S(node.soff+d); node=node.v; continue
            if e.valid(st,z3.Or(n==0,z3.And(z3.UGE(off,node.off),z3.UGE(d,node.n)),z3.And(z3.ULT(off,node.off),z3.ULE(n,node.off-off)))): node=node.p; continue
        elif k=="st":
            sn=bv64(node.n)
            if e.valid(st,z3.Or(z3.UGE(off,node.off+sn),z3.And(z3.ULE(off,node.off),z3.ULE(n,node.off-off)))): node=node.p; continue
        elif k=="fill":
            d=S(off-node.off)
            if e.valid(st,z3.Or(n==0,z3.UGE(off,node.off+node.n),z3.And(z3.ULE(off,node.off),z3.ULE(n,node.off-off)))): node=node.p; continue
        break
    return node,off
def ident(node):
    return ("arr",node.v.get_id()) if node.k=="arr" else ("node",id(node))
def needle_pred(e,st,node,nd):
    """match(i): the needle nd is at absolute offset i of node.  nd=('c',bytes) | ('s',node,off,len) | ('set',bytes)"""
    if nd[0]=="c":
        bs=nd[1]
        return lambda i: z3.And(*[e._read(st,node,S(i+j),1)==BV(b,8) for j,b in enumerate(bs)]) if bs else TRUE
    if nd[0]=="set": return lambda i: z3.Or(*[e._read(st,node,S(i),1)==BV(b,8) for b in nd[1]])
    if nd[0]=="notset": return lambda i: z3.And(*[e._read(st,node,S(i),1)!=BV(b,8) for b in nd[1]])
    if nd[0]=="b": return lambda i: e._read(st,node,S(i),1)==nd[1]
    if nd[0]=="nb": return lambda i: e._read(st,node,S(i),1)!=nd[1]
    M=pred(e,node,nd); return lambda i: M(S(i))
def pred(e,node,nd):
    if not hasattr(e,"_preds"): e._preds={}
    k=(ident(node),ident(nd[1]),nd[2].get_id(),nd[3].get_id())
    if k not in e._preds: e._preds[k]=(z3.Function("match!%d"%len(e._preds),z3.BitVecSort(64),z3.BoolSort()),node,nd)
    return e._preds[k][0]
def nlen(nd):
    return bv64(len(nd[1])) if nd[0]=="c" else (nd[3] if nd[0]=="s" else bv64(1))
def search(e,st,node,lo,hi,nd,last=False):
    """first (last) position i in [lo,hi-len] with the needle at i.  Returns [(None|pos, state)]"""
    m=nlen(nd); 
    span=S(z3.If(z3.ULE(lo,hi),hi-lo,bv64(0)))
    bn,bo=origin(e,st,node,lo,span); d=S(lo-bo)      # absolute position in bn = position - d
    M0=needle_pred(e,st,bn,nd); M=lambda i: M0(S(i-d))
    out=[]; t=st.clone()
    add_fact(t,lambda k: z3.Implies(z3.And(z3.ULE(lo,hi),z3.UGE(k,lo),z3.ULE(k,hi),z3.ULE(m,hi-k)),z3.Not(M(k))))
    log=t.ghost.get(("nohavoc","finds"),()); 
    t.ghost[("nohavoc","finds")]=log+((ident(bn),nd,S(lo-d),S(hi-d),None),)
    relate(e,t)
    if e.sat(t): out.append((None,t))
    i=fresh("found",64); s=st
    s.assume(z3.And(z3.ULE(lo,hi),z3.UGE(i,lo),z3.ULE(i,hi),z3.ULE(m,hi-i),M(i)))
    if not last: add_fact(s,lambda k: z3.Implies(z3.And(z3.UGE(k,lo),z3.ULT(k,i)),z3.Not(M(k))))
    else: add_fact(s,lambda k: z3.Implies(z3.And(z3.UGT(k,i),z3.ULE(k,hi),z3.ULE(m,hi-k)),z3.Not(M(k))))
    s.ghost[("nohavoc","finds")]=s.ghost.get(("nohavoc","finds"),())+((ident(bn),nd,S(lo-d),S(hi-d),S(i-d)),)
    relate(e,s)
    if e.sat(s):
        for x in s.ghost[("nohavoc","finds")][:-1]:
            if x[0]==ident(bn) and x[4] is not None and x[1]==nd:
                j=S(x[4]+d)
                if e.valid(s,i==j): s.assume(i==j); i=j; break
        out.append((i,s))
    return out
def relate(e,st):
    """instantiate recorded universal facts at every position found so far"""
    ps=list(st.ghost.get(("nohavoc","points"),()))
    for x in st.ghost[("nohavoc","finds")]:
        if x[4] is not None: ps.append(x[4])
    # facts speak about positions of their own block; blocks found by origin share offsets
    inst(st,*[S(p) for p in ps])
# ------------------------------------------------------------------ equality
def equal(e,st,n1,o1,l1,n2,o2,l2):
    """fork on equality of two byte ranges: [(bool, state)]"""
    out=[]
    same=z3.And(l1==l2)
    small=None
    for l in(l1,l2):
        l=S(l)
        if isc(l) and cv(l)<=64: small=cv(l)
    if small is not None:
        c=z3.And(same,*[z3.Implies(z3.ULT(bv64(i),l1),e._read(st,n1,S(o1+i),1)==e._read(st,n2,S(o2+i),1)) for i in range(small)]) if small else same
        for v,t in e.split(st,S(c)): out.append((v is not None,t))
        return out
    t=st.clone(); t.assume(same); add_fact(t,lambda k: z3.Implies(z3.And(z3.UGE(k,o1),z3.ULT(k-o1,l1)),e._read(t,n1,S(k),1)==e._read(t,n2,S(k-o1+o2),1)))
    if e.sat(t): out.append((True,t))
    w=fresh("differ",64); st.assume(z3.Or(z3.Not(same),z3.And(z3.ULT(w,l1),e._read(st,n1,S(o1+w),1)!=e._read(st,n2,S(o2+w),1))))
    if e.sat(st): out.append((False,st))
    return out

def havoc_note(e,st,oid):
    o=st.objs.get(oid)
    if o is None or o.kind!="strbuf" or oid in st.dead: return
    own=o.ghost["owner"]; ln=e._read(st,st.mem[own[0].id],S(own[1]+8),8)
    st.assume(z3.ULE(ln,LIM)); st.assume(e._read(st,st.mem[oid],S(ln),1)==BV(0,8))
def install(e):
    e.havoc_note=havoc_note
    NOTE="assumed contract: std::string member functions and C string functions as the C++/C standards state them; allocation by std::string succeeds"
    def M(p,f):
        def g(e,st,a,ins,d,f=f): e.assumptions.add(NOTE); return f(e,st,a,ins,d)
        e.model(p,g)
    def SM(name,f): M(STR+'::(?:'+name+')',f)
    def ret(v): return lambda e,st,a,ins,d: v
    nop=lambda e,st,a,ins,d: None
    M(r'std::(__new_)?allocator<.*>::~?(__new_)?allocator\(|__gnu_cxx::new_allocator<.*>::~?new_allocator\(',nop)
    # ---- sources: (node, off, len, throw-outcomes)
    def src_str(e,st,p): o,l=sget(e,st,p); rtouch(e,st,p); return st.mem[o.id],ZERO,l
    def src_c(e,st,p): n=cstr(e,st,p,"C string argument"); return (st.mem[p.obj.id],p.off,n) if isinstance(p,Ptr) and p.obj.kind!="null" else (base_fill(BV(0,8)),ZERO,ZERO)
    def src_pn(e,st,p,n):
        n=S(n)
        if isc(n) and cv(n)==0: return base_fill(BV(0,8)),ZERO,ZERO
        if not e.access(st,p,n,"r","string source"): return base_fill(BV(0,8)),ZERO,ZERO
        return st.mem[p.obj.id],p.off,n
    def src_fill(c,n): return base_fill(c),ZERO,n
    def src_sub(e,st,p,pos,n):
        """substring of another string: forks out_of_range; returns ([throws],[(state,node,off,len)])"""
        o,l=sget(e,st,p); thr=oor(e,st,z3.UGT(pos,l)); res=[]
        if not live(e,st): return thr,[]
        room=S(l-pos); m=lim(e,st,n,room)
        if m is not None: return thr,[(st,st.mem[o.id],pos,m)]
        t=st.clone(); t.assume(z3.ULT(n,room)); st.assume(z3.UGE(n,room))
        return thr,[(st,st.mem[o.id],pos,room),(t,t.mem[o.id],pos,n)]
    # ---- constructors, destructor
    def ctor(e,st,a,ins,d):
        sig=re.search(r'::basic_string(?:<[^()]*>)?\((.*)$',d).group(1); p=a[0]; out=[]
        if sig.startswith(")") or sig.startswith("std::allocator"): src=(base_fill(BV(0,8)),ZERO,ZERO)
        elif sig.startswith("char const*, unsigned long"): out=big(e,st,a[2]); src=src_pn(e,st,a[1],a[2]) if live(e,st) else None
        elif sig.startswith("char const*, char const*") or sig.startswith("char*, char*") or "__normal_iterator" in sig: src=src_pn(e,st,a[1],S(a[2].off-a[1].off)) if isinstance(a[1],Ptr) and isinstance(a[2],Ptr) and a[1].obj is a[2].obj else None
        elif sig.startswith("char const*"): src=src_c(e,st,a[1])
        elif sig.startswith("unsigned long, char"): out=big(e,st,a[1]); src=src_fill(a[2],a[1]) if live(e,st) else None
        elif re.match(STR+r' const&, unsigned long',sig):
            thr,rs=src_sub(e,st,a[1],a[2],a[3] if ", unsigned long, unsigned long" in sig else bv64(-1))
            for t,n,o,l in rs: mk(e,t,p); put(e,t,p,n,o,l); thr.append(Outcome("ret",None,t))
            return thr
        elif re.match(STR+r' const&\)',sig): src=src_str(e,st,a[1])
        elif re.match(STR+r' ?&&\)',sig):
            src=src_str(e,st,a[1]); mk(e,st,p); put(e,st,p,*src); put(e,st,a[1],base_fill(BV(0,8)),ZERO,ZERO); return None
        else: raise Unsupported("string constructor "+sig)
        if src is None: return out
        e.access(st,p,32,"w","string construction"); mk(e,st,p); put(e,st,p,*src)
        return out+[Outcome("ret",None,st)]
    SM(r'basic_string(<.*>)?\(',ctor)
    def dtor(e,st,a,ins,d):
        p=a[0]
        try: o,_=sget(e,st,p)
        except Unsupported: return None
        if o.id in st.dead: e.fail(st,"memory-safety: string destroyed twice"); raise PathEnd()
        st.dead[o.id]="string destroyed"; st.mem[p.obj.id]=Node("st",st.mem[p.obj.id],p.off,8,fresh("dead",64))
        return None
    SM(r'~basic_string\(\)',dtor)
    # ---- observers
    SM(r'(size|length)\(\) const',lambda e,st,a,ins,d: (rtouch(e,st,a[0]),slen(e,st,a[0]))[1])
    SM(r'empty\(\) const',lambda e,st,a,ins,d: (rtouch(e,st,a[0]),S(z3.If(slen(e,st,a[0])==ZERO,BV(1,1),BV(0,1))))[1])
    SM(r'(c_str|data)\(\)( const)?|c?begin\(\)( const)?',lambda e,st,a,ins,d: (rtouch(e,st,a[0]),Ptr(sget(e,st,a[0])[0],ZERO))[1])
    SM(r'c?end\(\)( const)?',lambda e,st,a,ins,d: Ptr(sget(e,st,a[0])[0],slen(e,st,a[0])))
    SM(r'capacity\(\) const',lambda e,st,a,ins,d: slen(e,st,a[0]))
    SM(r'max_size\(\) const',ret(bv64((1<<62)-1)))
    SM(r'reserve\(|shrink_to_fit\(',nop)
    SM(r'operator\[\]\(unsigned long\)( const)?',lambda e,st,a,ins,d: (rtouch(e,st,a[0]),Ptr(sget(e,st,a[0])[0],a[1]))[1])
    def m_at(e,st,a,ins,d):
        o,l=sget(e,st,a[0]); out=oor(e,st,z3.UGE(a[1],l)); return out+([Outcome("ret",Ptr(o,a[1]),st)] if live(e,st) else [])
    SM(r'at\(unsigned long\)( const)?',m_at)
    def m_front(e,st,a,ins,d): return Ptr(sget(e,st,a[0])[0],ZERO)
    SM(r'front\(\)( const)?',m_front)
    SM(r'back\(\)( const)?',lambda e,st,a,ins,d: Ptr(sget(e,st,a[0])[0],S(slen(e,st,a[0])-1)))
    # ---- modifiers
    def m_append(e,st,a,ins,d):
        sig=re.split(r'(?:append|operator\+=|push_back|assign|operator=)\(',d)[-1]; asg="assign(" in d or "operator=(" in d; p=a[0]; out=[]; sget(e,st,p)
        W=put if asg else app; R=Outcome("ret",p,st)
        if sig.startswith("char const*, unsigned long"): 
            out=big(e,st,a[2]); 
            if not live(e,st): return out
            src=src_pn(e,st,a[1],a[2])
        elif sig.startswith("char const*, char const*") or "normal_iterator" in sig: src=src_pn(e,st,a[1],S(a[2].off-a[1].off))
        elif sig.startswith("char const*"): src=src_c(e,st,a[1])
        elif sig.startswith("unsigned long, char"):
            out=big(e,st,a[1])
            if not live(e,st): return out
            src=src_fill(a[2],a[1])
        elif sig.startswith("char)"): src=(base_arr_byte(a[1]),ZERO,bv64(1))
        elif re.match(STR+r' const&, unsigned long, unsigned long',sig):
            thr,rs=src_sub(e,st,a[1],a[2],a[3])
            for t,n,o,l in rs: W(e,t,p,n,o,l); thr.append(Outcome("ret",p,t))
            return thr
        elif re.match(STR+r' const&',sig):
            if asg and a[1].obj is p.obj and S(a[1].off).eq(S(p.off)): return p
            src=src_str(e,st,a[1])
        elif re.match(STR+r' ?&&',sig):
            src=src_str(e,st,a[1]); W(e,st,p,*src)
            if asg: put(e,st,a[1],base_fill(BV(0,8)),ZERO,ZERO)
            return p
        else: raise Unsupported("string "+d)
        W(e,st,p,*src); return out+[Outcome("ret",p,st)]
    def base_arr_byte(c): return Node("st",base_fill(BV(0,8)),ZERO,1,c)
    SM(r'(append|operator\+=|push_back|assign|operator=)\(',m_append)
    SM(r'(append|assign)<.*>\(',m_append)
    SM(r'clear\(\)',lambda e,st,a,ins,d: put(e,st,a[0],base_fill(BV(0,8)),ZERO,ZERO))
    def m_popback(e,st,a,ins,d):
        o,l=sget(e,st,a[0]); e.prove(st,l!=0,"memory-safety: pop_back of a non-empty string"); st.mem[o.id]=Node("st",st.mem[o.id],S(l-1),1,BV(0,8)); setlen(e,st,a[0],l-1); touch(e,st,a[0])
    SM(r'pop_back\(\)',m_popback)
    def m_resize(e,st,a,ins,d):
        o,l=sget(e,st,a[0]); n=S(a[1]); c=a[2] if len(a)>2 else BV(0,8); out=big(e,st,n)
        for v,t in e.split(st,z3.ULE(n,l)):
            if v is not None: t.mem[o.id]=Node("st",t.mem[o.id],n,1,BV(0,8)); setlen(e,t,a[0],n); touch(e,t,a[0])
            else: app(e,t,a[0],base_fill(c),ZERO,S(n-l))
            out.append(Outcome("ret",None,t))
        return out
    SM(r'resize\(',m_resize)
    def spl(e,st,p,pos,n,src):
        """replace [pos,pos+n) (n clipped) by src: throws out_of_range"""
        o,l=sget(e,st,p); out=oor(e,st,z3.UGT(pos,l))
        if not live(e,st): return out
        room=S(l-pos); m=lim(e,st,n,room); cases=[(st,m)] if m is not None else None
        if cases is None:
            t=st.clone(); t.assume(z3.ULT(n,room)); st.assume(z3.UGE(n,room)); cases=[(st,room),(t,n)]
        for t,k in cases: splice(e,t,p,pos,k,*src); out.append(Outcome("ret",p,t))
        return out
    E0=(base_fill(BV(0,8)),ZERO,ZERO)
    def m_erase(e,st,a,ins,d):
        sig=d[d.rindex("erase(")+6:]
        if sig.startswith(")"): put(e,st,a[0],*E0); return a[0]
        if sig.startswith("unsigned long"): return spl(e,st,a[0],a[1],a[2] if len(a)>2 else bv64(-1),E0)
        if "normal_iterator" in sig:
            p=a[1]; n=S(a[2].off-p.off) if len(a)>2 else bv64(1); e.prove(st,z3.ULE(p.off+n,slen(e,st,a[0])),"memory-safety: erase inside the string"); splice(e,st,a[0],p.off,n,*E0); return p
        raise Unsupported("string "+d)
    SM(r'erase\(',m_erase)
    def m_replace(e,st,a,ins,d):
        sig=d[d.rindex("replace(")+8:]; p=a[0]
        if sig.startswith("unsigned long, unsigned long, char const*, unsigned long"):
            o,l=sget(e,st,p); out=oor(e,st,z3.UGT(a[1],l))
            if not live(e,st): return out
            out+=big(e,st,a[4]); 
            if not live(e,st): return out
            return out+spl(e,st,p,a[1],a[2],src_pn(e,st,a[3],a[4]))
        if sig.startswith("unsigned long, unsigned long, char const*"): return spl(e,st,p,a[1],a[2],src_c(e,st,a[3]))
        if re.match(r'unsigned long, unsigned long, '+STR+r' const&\)',sig): return spl(e,st,p,a[1],a[2],src_str(e,st,a[3]))
        if sig.startswith("unsigned long, unsigned long, unsigned long, char"): return spl(e,st,p,a[1],a[2],src_fill(a[4],a[3]))
        raise Unsupported("string "+d)
    SM(r'replace\(',m_replace)
    def m_insert(e,st,a,ins,d):
        sig=d[d.rindex("insert(")+7:]; p=a[0]
        if sig.startswith("unsigned long, char const*, unsigned long"): return spl(e,st,p,a[1],ZERO,src_pn(e,st,a[2],a[3]))
        if sig.startswith("unsigned long, char const*"): return spl(e,st,p,a[1],ZERO,src_c(e,st,a[2]))
        if re.match(r'unsigned long, '+STR+r' const&\)',sig): return spl(e,st,p,a[1],ZERO,src_str(e,st,a[2]))
        if sig.startswith("unsigned long, unsigned long, char"): return spl(e,st,p,a[1],ZERO,src_fill(a[3],a[2]))
        raise Unsupported("string "+d)
    SM(r'insert\(',m_insert)
    def m_swap(e,st,a,ins,d):
        x,y=a[0],a[1]; sx_=src_str(e,st,x); sy=src_str(e,st,y); put(e,st,x,*sy); put(e,st,y,*sx_)
    SM(r'swap\(',m_swap); M(r'void std::swap<char,',m_swap)
    def m_substr(e,st,a,ins,d):
        thr,rs=src_sub(e,st,a[1],a[2],a[3])
        for t,n,o,l in rs: mk(e,t,a[0]); put(e,t,a[0],n,o,l); thr.append(Outcome("ret",None,t))
        return thr
    SM(r'substr\(',m_substr)
    # ---- operator+
    def m_plus(e,st,a,ins,d):
        sig=d[d.index("operator+<")+9:]; sig=sig[sig.index(">(")+2:]; parts=re.findall(STR+r'(?: const)? ?&{1,2}|char const\*|char(?=[,)])',sig); out=[]
        if len(parts)!=2: raise Unsupported("string "+d)
        srcs=[]
        for t,x in zip(parts,a[1:]):
            if t=="char const*": srcs.append(src_c(e,st,x))
            elif t=="char": srcs.append((base_arr_byte(x),ZERO,bv64(1)))
            else: srcs.append(src_str(e,st,x))
        mk(e,st,a[0]); put(e,st,a[0],*srcs[0]); app(e,st,a[0],*srcs[1])
        for t,x in zip(parts,a[1:]):
            if t.endswith("&&"): put(e,st,x,*E0)
        return None
    M(r'.*std::operator\+<char,',m_plus)
    # ---- comparison
    def m_eq(neg):
        def f(e,st,a,ins,d):
            sig=d[d.index(">(")+2:] if ">(" in d else d; xs=[]
            parts=re.findall(STR+r' const&|char const\*',sig)
            if len(parts)!=2: raise Unsupported("string "+d)
            for t,x in zip(parts,a): xs.append(src_c(e,st,x) if t=="char const*" else src_str(e,st,x))
            (n1,o1,l1),(n2,o2,l2)=xs
            return [Outcome("ret",BV(int(v!=neg),1),t) for v,t in equal(e,st,n1,o1,l1,n2,o2,l2)]
        return f
    M(r'.*std::operator==<char',m_eq(False)); M(r'.*std::operator!=<char',m_eq(True))
    def m_cmp(e,st,a,ins,d):
        sig=d[d.rindex("compare(")+8:]
        if sig.startswith("char const*)"): x=src_c(e,st,a[1])
        elif re.match(STR+r' const&\)',sig): x=src_str(e,st,a[1])
        elif re.match(r'unsigned long, unsigned long, (char const\*|'+STR+r' const&)\)',sig):
            thr,rs=src_sub(e,st,a[0],a[1],a[2])
            for t,n,o,l in rs:
                x=src_c(e,t,a[3]) if "char const*)" in sig[:60] else src_str(e,t,a[3])
                for v,u in equal(e,t,n,o,l,*x): thr.append(Outcome("ret",cmpval(u,v),u))
            return thr
        else: raise Unsupported("string "+d)
        y=src_str(e,st,a[0])
        return [Outcome("ret",cmpval(t,v),t) for v,t in equal(e,st,*y,*x)]
    def cmpval(t,v):
        if v: return BV(0,32)
        r=fresh("cmp",32); t.assume(r!=0); return r
    SM(r'compare\(',m_cmp)
    # ---- searching
    def needle_c(e,st,p,n):
        n=S(n)
        if isc(n) and cv(n)<=64:
            bs=[S(e._read(st,st.mem[p.obj.id],S(p.off+i),1)) for i in range(cv(n))]
            if all(isc(b) for b in bs): return ("c",bytes(cv(b) for b in bs))
        return ("s",)+origin(e,st,st.mem[p.obj.id],p.off,n)+(n,)
    def set_c(e,st,p,n,neg):
        n=S(n)
        if not isc(n): raise Unsupported("symbolic character set")
        bs=[S(e._read(st,st.mem[p.obj.id],S(p.off+i),1)) for i in range(cv(n))]
        if not all(isc(b) for b in bs): raise Unsupported("symbolic character set")
        return ("notset" if neg else "set",bytes(cv(b) for b in bs))
    def m_find(e,st,a,ins,d):
        m=re.search(r'::(r?find(?:_first_of|_last_of|_first_not_of|_last_not_of)?)\((.*)\) const$',d); fn,sig=m.group(1),m.group(2); p=a[0]; rtouch(e,st,p)
        o,l=sget(e,st,p); node=st.mem[o.id]; neg="not" in fn; last=fn.startswith("rfind") or "last" in fn; isset="_of" in fn
        dflt=bv64(-1) if last else ZERO
        if sig.startswith("char,"): nd=("nb" if neg else "b",a[1]); pos=a[2]
        elif sig.startswith("char const*, unsigned long, unsigned long"): nd=set_c(e,st,a[1],a[3],neg) if isset else needle_c(e,st,a[1],a[3]); pos=a[2]
        elif sig.startswith("char const*"): n=cstr(e,st,a[1],"find argument"); nd=set_c(e,st,a[1],n,neg) if isset else needle_c(e,st,a[1],n); pos=a[2]
        else:
            so,sl=sget(e,st,a[1]); nd=set_c(e,st,Ptr(so),sl,neg) if isset else needle_c(e,st,Ptr(so),sl); pos=a[2]
        if not last:
            return [Outcome("ret",bv64(-1) if i is None else i,t) for i,t in search(e,st,node,pos,l,nd)]
        m_=nlen(nd); out=[]
        for c,t in e.split(st,z3.ULT(l,m_),z3.ULE(pos,l-m_)):
            if c is not None and S(c).eq(S(z3.ULT(l,m_))): out.append(Outcome("ret",bv64(-1),t)); continue
            hi=S(pos+m_) if c is not None else l
            out+=[Outcome("ret",bv64(-1) if i is None else i,u) for i,u in search(e,t,node,ZERO,hi,nd,last=True)]
        return out
    SM(r'r?find(_first_of|_last_of|_first_not_of|_last_not_of)?\(',m_find)
    # ---- C strings
    M(r'strlen$|std::char_traits<char>::length\(',lambda e,st,a,ins,d: cstr(e,st,a[0]))
    def m_strstr(e,st,a,ins,d):
        n=cstr(e,st,a[1]); l=cstr(e,st,a[0],"strstr"); nd=needle_c(e,st,a[1],n); p=a[0]
        return [Outcome("ret",NULL if i is None else Ptr(p.obj,i),t) for i,t in search(e,st,st.mem[p.obj.id],p.off,S(p.off+l),nd)]
    M(r'(strstr|std::strstr\(.*|strstr\(.*)$',m_strstr)
    def m_strchr(e,st,a,ins,d):
        l=cstr(e,st,a[0],"strchr"); p=a[0]; c=z3.Extract(7,0,a[1])
        return [Outcome("ret",NULL if i is None else Ptr(p.obj,i),t) for i,t in search(e,st,st.mem[p.obj.id],p.off,S(p.off+l+1),("b",S(c)))]
    M(r'(strchr|std::strchr\(.*|strchr\(.*)$',m_strchr)
    def m_memmem(e,st,a,ins,d):
        p=a[0]
        if isinstance(p,Ptr) and p.obj.kind=="null": e.access(st,p,a[1],"r","memmem"); return NULL
        e.access(st,p,a[1],"r","memmem"); e.access(st,a[2],a[3],"r","memmem needle"); nd=needle_c(e,st,a[2],a[3])
        return [Outcome("ret",NULL if i is None else Ptr(p.obj,i),t) for i,t in search(e,st,st.mem[p.obj.id],p.off,S(p.off+a[1]),nd)]
    M(r'memmem$',m_memmem)
    def m_memchr(e,st,a,ins,d):
        p=a[0]; e.access(st,p,a[2],"r","memchr")
        return [Outcome("ret",NULL if i is None else Ptr(p.obj,i),t) for i,t in search(e,st,st.mem[p.obj.id],p.off,S(p.off+a[2]),("b",S(z3.Extract(7,0,a[1]))))]
    M(r'(memchr|std::memchr\(.*|memchr\(.*)$',m_memchr)
    def m_memcmp(e,st,a,ins,d):
        n=S(a[2]); e.access(st,a[0],n,"r","memcmp"); e.access(st,a[1],n,"r","memcmp")
        return [Outcome("ret",cmpval(t,v),t) for v,t in equal(e,st,st.mem[a[0].obj.id],a[0].off,n,st.mem[a[1].obj.id],a[1].off,n)]
    M(r'memcmp$|bcmp$',m_memcmp)
    def m_strcmp(e,st,a,ins,d):
        x=src_c(e,st,a[0]); y=src_c(e,st,a[1]); return [Outcome("ret",cmpval(t,v),t) for v,t in equal(e,st,*x,*y)]
    M(r'strcmp$',m_strcmp)
    def m_strncmp(e,st,a,ins,d):
        n=S(a[2])
        if not isc(n): raise Unsupported("strncmp with a symbolic length")
        # reads stop at the first difference or terminator: compare byte by byte
        out=[]; cur=[st]
        for i in range(cv(n)):
            nx=[]
            for t in cur:
                e.access(t,a[0]+i,1,"r","strncmp"); e.access(t,a[1]+i,1,"r","strncmp")
                x=e._read(t,t.mem[a[0].obj.id],S(a[0].off+i),1); y=e._read(t,t.mem[a[1].obj.id],S(a[1].off+i),1)
                for c,u in e.split(t,x!=y,x==BV(0,8)):
                    if c is None: nx.append(u)
                    elif S(c).eq(S(x!=y)): r=fresh("cmp",32); u.assume(r!=0); out.append(Outcome("ret",r,u))
                    else: out.append(Outcome("ret",BV(0,32),u))
            cur=nx
        return out+[Outcome("ret",BV(0,32),t) for t in cur]
    M(r'strncmp$',m_strncmp)
    # ---- number conversion: an uninterpreted function of the bytes read
    def m_strtol(e,st,a,ins,d):
        p=a[0]
        if len(a)>2 and "u" not in d.split("strto")[-1][:1]:
            b=S(a[2]); v=short_number(e,st,p,cv(b)) if isc(b) and not(isinstance(a[1],Ptr) and a[1].obj.kind!="null") else None
            if v is not None: return v
        l=cend(e,st,p,"number conversion")
        node,off=origin(e,st,st.mem[p.obj.id],p.off,l); v=number(e,node,off,l)
        if len(a)>1 and isinstance(a[1],Ptr) and a[1].obj.kind!="null":
            r=fresh("numend",64); st.assume(z3.ULE(r,l)); e.store(st,a[1],Ptr(p.obj,S(p.off+r)),PTR)
        e.assumptions.add("strtol/atoi (base 10): the value is an unspecified function of the characters up to the end of the string")
        return S(z3.Extract(31,0,v)) if "atoi" in d else v
    M(r'(atoi|atol|atoll|strtol|strtoll|strtoul|strtoull|__isoc23_strto\w+)(\(.*)?$',m_strtol)
def short_number(e,st,p,base):
    """exact value of strtol on a short buffer that starts with a concrete digit and has a concrete terminator"""
    if not isinstance(p,Ptr) or p.obj.kind in("null","func","strbuf") or not isc(p.off) or not isc(p.obj.size) or base not in(8,10,16): return None
    cs=[]
    for i in range(cv(p.off),min(cv(p.obj.size),cv(p.off)+12)):
        b=S(e._read(st,st.mem[p.obj.id],bv64(i),1)); cs.append(b)
        if isc(b) and cv(b)==0: break
    else: return None
    if len(cs)==1 or not isc(cs[0]) or not 48<=cv(cs[0])<=57: return None
    if not e.access(st,p,len(cs),"r","strtol"): return None
    k=0
    if base==16 and cv(cs[0])==48 and len(cs)>2 and isc(cs[1]) and cv(cs[1]) in(120,88) and isc(cs[2]) and 48<=cv(cs[2])<=57: k=2
    elif base==16 and cv(cs[0])==48 and len(cs)>1 and not isc(cs[1]): return None
    elif base==16 and len(cs)>2 and isc(cs[1]) and cv(cs[1]) in(120,88): return None
    v=bv64(0); on=TRUE
    for b in cs[k:]:
        d=zx(b,64); val=z3.If(z3.And(z3.UGE(b,48),z3.ULE(b,57)),d-48,z3.If(z3.And(z3.UGE(b,65),z3.ULE(b,90)),d-55,z3.If(z3.And(z3.UGE(b,97),z3.ULE(b,122)),d-87,bv64(99))))
        on=z3.And(on,z3.ULT(val,base)); v=z3.If(on,v*base+val,v)
    return S(v)
def number(e,node,off,l):
    """value denoted by the l characters of node at off (uninterpreted)"""
    if not hasattr(e,"_nums"): e._nums={}
    k=ident(node)
    if k not in e._nums: e._nums[k]=(z3.Function("number!%d"%len(e._nums),z3.BitVecSort(64),z3.BitVecSort(64),z3.BitVecSort(64)),node)
    return e._nums[k][0](S(off),S(l))
