"""Contracts of lce::CLruCache (C06).  Nodes live in a field-array heap (one array per field, indexed by node
address; a node may only be accessed while allocated); the recency list is the ghost sequence seq[lo..hi) with
inverse pos, the key index an abstract map (has, val).

Invariant, for every position k, key q and address a:
  I1 lo<=k<hi: x=seq(k) is an allocated node, pos(x)=k, x.next/x.prev are seq(k+1)/seq(k-1) or NULL at the ends, the index maps x.key to x
  I2 q in the index: its node is in the list and has key q        I3 allocated nodes are in the list
  I4 head/tail are the first/last node or NULL; the index has hi-lo entries, at most maximum+1."""
import z3,re
from engine import *
TU=["lru.cpp","/repo/src/Utils.cpp"]
C="lce::CLruCache<unsigned long, unsigned long>"; N=C+"::SNode"; VL="lce::CLruCacheV2<class std::basic_string<char>, unsigned long>"; CSL="lce::CLruCache<class std::basic_string<char>, unsigned long>"; V="lce::CLruCacheV2<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, unsigned long>"; CS="lce::CLruCache<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, unsigned long>"
CONTRACTS=[C+"::"+f for f in("CLruCache","~CLruCache","set","get","del","clear","getSize","getMaxSize")]+["lce::CLruCacheV2::"+f for f in("CLruCacheV2","~CLruCacheV2","set","get","del","clear","getSize","getMaxSize")]
B64=z3.BitVecSort(64)
class FM:
    """a total map as an uninterpreted function with finitely many updates"""
    def __init__(s,f,ups=()): s.f=f; s.ups=ups
    def at(s,a):
        r=s.f(a)
        for k,v in s.ups: r=z3.If(a==k,v,r)
        return S(r)
def sel(m,a): return m.at(a)
def sto(m,a,v): return FM(m.f,m.ups+((a,v),))
def const(v): return FM(lambda a: v)
K,Q,A=(z3.BitVec(n,64) for n in("anypos","anykey","anynode"))
def arr(n,w): return fresh_named(n,B64,z3.BoolSort() if w==1 else z3.BitVecSort(w))
_c=[0]
def fresh_named(n,a,b): _c[0]+=1; return FM(z3.Function("%s!%d"%(n,_c[0]),a,b))
FIELDS=(("nx","next",64),("pv","prev",64),("key","key",64),("data","data",64),("ct","dwCTime",32),("ex","dwExpireTime",32))
class H:
    """heap of nodes, key index and ghost sequence"""
    def __init__(s,v): s.v=v
    def __getattr__(s,k):
        if k=="v": raise AttributeError
        return s.v[k]
    def set(s,**k): v=dict(s.v); v.update(k); return H(v)
    def env(s): return {"D":s.v["D"]}
    def havoc(s,e,st): raise Unsupported("the cache changes in a loop")
def fresh_heap(**k):
    v=dict((n,arr(n,w)) for n,_,w in FIELDS); v.update(live=arr("live",1),has=arr("has",1),val=arr("val",64),n=fresh("count",64),D=ZERO); v.update(k); return H(v)
class Nodes:
    """typed access to the fields of the nodes"""
    def __init__(p,r): p.r=r; p.f={r.e.foff(N,f):(n,w) for n,f,w in FIELDS}; p.size=r.e.csize(N)
    def field(p,st,ptr,n,rw):
        e=p.r.e; off=S(ptr.off); c=0; base=off
        if z3.is_app(off) and off.decl().kind()==z3.Z3_OP_BADD:
            k=[x for x in off.children() if isc(x)]
            if k and 0<cv(k[0])<p.size: c=cv(k[0]); base=S(off-k[0])
        elif isc(off): c=cv(off); base=ZERO
        if c not in p.f or p.f[c][1]!=8*n: raise Unsupported("access inside a node at offset %d"%c)
        p.r.locked(st,"the list"); e.prove(st,sel(st.abs["H"].live,base),"memory-safety: only nodes that are allocated are accessed")
        return p.f[c][0],base
    def load(p,e,st,ptr,n,ty):
        f,b=p.field(st,ptr,n,"r"); v=S(sel(st.abs["H"].v[f],b)); return Ptr(p.r.pool,v) if ty.k=="ptr" else v
    def store(p,e,st,ptr,v,n):
        f,b=p.field(st,ptr,n,"w"); h=st.abs["H"]; st.abs["H"]=h.set(**{f:sto(h.v[f],b,p.r.num(v))})
class Entry:
    """the index entry of one key, as find and operator[] yield it"""
    def __init__(p,r,key,base): p.r=r; p.key=key; p.base=base
    def load(p,e,st,ptr,n,ty):
        p.r.locked(st,"the index"); h=st.abs["H"]; o=S(ptr.off-p.base); e.prove(st,sel(h.has,p.key),"C06 an index entry is used only while it exists")
        if isc(o) and cv(o)==0 and n==8: return p.key
        if isc(o) and cv(o)==8 and n==8: return Ptr(p.r.pool,S(sel(h.val,p.key)))
        raise Unsupported("access inside an index entry")
    def store(p,e,st,ptr,v,n):
        p.r.locked(st,"the index"); h=st.abs["H"]; o=S(ptr.off-p.base); e.prove(st,sel(h.has,p.key),"C06 an index entry is used only while it exists")
        if not(isc(o) and cv(o)==8 and n==8): raise Unsupported("access inside an index entry")
        st.abs["H"]=h.set(val=sto(h.val,p.key,p.r.num(v)))
class R:
    def __init__(r,e):
        r.e=e; r.inst={}; r.st=st=State(); r.pool=e.new_obj(st,"nodes",bv64(1<<62)); r.pool.kind="pool"; r.pool.ghost["pool"]=Nodes(r)
        r.max=z3.BitVec("maximum",64); r.this=e.newc(st,C,"cache",m_dwMaxSize=r.max); r.off={k:e.foff(C,f) for k,f in(("mutex","m_oMutex"),("map","m_mapCache"),("head","pstHead"),("tail","pstTail"))}
        e.rawstore(st,r.this+r.off["mutex"],Ptr(e.gobj(st,"_ZTVN3lce6CMutexE"),bv64(16)),8)
        r.lo,r.hi=z3.BitVec("lo",64),z3.BitVec("hi",64); st.assume(z3.And(z3.ULE(r.lo,r.hi),z3.UGE(r.lo,1<<40),z3.ULE(r.hi,1<<41),z3.ULE(r.max,1<<62)))
        r.seq=fresh_named("seq",B64,B64); r.pos=fresh_named("pos",B64,B64); r.seqf=lambda k: sel(r.seq,k); r.posf=lambda a: sel(r.pos,a)
        r.h0=h=fresh_heap(G=(r.lo,r.hi),n=S(r.hi-r.lo)); st.assume(z3.ULE(h.n,r.max+1)); st.abs["H"]=h; r.T0=z3.BitVec("time0",64); st.assume(z3.ULT(r.T0,1<<32)); st.ghost[("nohavoc","now")]=r.T0
        r.ends(st,h); st.ghost[("nohavoc","lock")]=0; r.needlock=True; r.models()
    def num(r,v):
        if isinstance(v,Ptr):
            if v.obj.kind=="null": return v.off
            if v.obj is r.pool: return v.off
            raise Unsupported("a node field holds another pointer")
        return v
    def ends(r,st,h):
        lo,hi=h.G; e=r.e; e.rawstore(st,r.this+r.off["head"],Ptr(r.pool,S(z3.If(lo==hi,ZERO,sel(r.seq,lo)))),8); e.rawstore(st,r.this+r.off["tail"],Ptr(r.pool,S(z3.If(lo==hi,ZERO,sel(r.seq,hi-1)))),8)
        for k in(lo,lo+1,hi-1,hi-2,hi-3): r.at(st,h,S(k))
    # ---- the invariant over heap h with ghost view (lo,hi,seq,pos)
    def I1(r,h,k,g=None):
        lo,hi,seq,pos=g or h.G+(r.seqf,r.posf); x=seq(k); return z3.Implies(z3.And(z3.ULE(lo,k),z3.ULT(k,hi)),z3.And(x!=0,sel(h.live,x),pos(x)==k,sel(h.nx,x)==z3.If(k+1==hi,ZERO,seq(k+1)),sel(h.pv,x)==z3.If(k==lo,ZERO,seq(k-1)),sel(h.has,sel(h.key,x)),sel(h.val,sel(h.key,x))==x))
    def inlist(r,h,x,g): lo,hi,seq,pos=g or h.G+(r.seqf,r.posf); return z3.And(z3.ULE(lo,pos(x)),z3.ULT(pos(x),hi),seq(pos(x))==x)
    def I2(r,h,q,g=None): x=sel(h.val,q); return z3.Implies(sel(h.has,q),z3.And(r.inlist(h,x,g),sel(h.key,x)==q))
    def I3(r,h,a,g=None): return z3.Implies(sel(h.live,a),r.inlist(h,a,g))
    def fact(r,st,c):
        """assume an instance of the invariant (once); such facts may be dropped again"""
        c=S(c)
        if z3.is_true(c) or any(x.get_id()==c.get_id() for x in st.pc): return
        r.inst[c.get_id()]=c; st.pc.append(c)
    def at(r,st,h,k):
        r.fact(st,r.I1(h,k))
        if h.v.get("rel"): r.fact(st,h.rel(sel(h.key,sel(r.seq,k))))
    def atkey(r,st,h,q):
        r.fact(st,r.I2(h,q)); h.v.get("rel") and r.fact(st,h.rel(q))
        p=S(sel(r.pos,sel(h.val,q)))
        for k in(p,p-1,p+1): r.at(st,h,S(k))
    def atnode(r,st,h,a): r.fact(st,r.I3(h,a))
    def sk(r,st,h):
        """instances of the invariant at the arbitrary position, key and node"""
        for k in(K,K-1,K+1,K-2,K+2): r.at(st,h,S(k))
        r.atkey(st,h,Q); r.atnode(st,h,A); r.at(st,h,S(sel(r.pos,A))); r.atkey(st,h,S(sel(h.key,sel(r.seq,K)))) 
    def check(r,st,h,w,g=None,prove_ends=True):
        e=r.e; lo,hi,seq,pos=g=g or h.G+(r.seqf,r.posf)
        e.prove(st,r.I1(h,K,g),"C06 %s: each node of the list is linked to its neighbours and indexed under its key"%w)
        e.prove(st,r.I2(h,Q,g),"C06 %s: each key of the index has its node in the list"%w); e.prove(st,r.I3(h,A,g),"C06 %s: each allocated node is in the list"%w); e.prove(st,h.n==hi-lo,"C06 %s: index and list have the same number of entries"%w)
        hd,tl=(r.num(e._read(st,st.mem[r.this.obj.id],S(r.this.off+r.off[x]),8)) for x in("head","tail"))
        e.prove(st,z3.And(hd==z3.If(lo==hi,ZERO,seq(lo)),tl==z3.If(lo==hi,ZERO,seq(hi-1))),"C06 %s: head and tail are the ends of the list"%w)
    def locked(r,st,w):
        if r.needlock and not r.e.suppress: r.e.prove(st,z3.BoolVal(st.ghost[("nohavoc","lock")]==1),"C06 %s is only touched while the lock is held"%w)
    def models(r):
        e=r.e; e.assumptions.add("assumed contract: std::unordered_map is a map (find, operator[], erase, clear, size); operator new yields a node not in use; the clock does not run backwards and is below 2^32")
        def M(p,f): e.models.insert(0,(re.compile(p),lambda e_,st,a,ins,d: f(st,*a))); e.model_cache.clear()
        UM=r'std::unordered_map<unsigned long, .*SNode\*.*>::'
        def w(f):
            def m(st,p,*a):
                if not(isinstance(p,Ptr) and p.obj is r.this.obj and isc(p.off) and cv(p.off)==r.off["map"]): raise Unsupported("another map")
                r.locked(st,"the index"); return f(st,st.abs["H"],*a)
            return m
        def entry(st,q,base): o=e.new_obj(st,"entry",bv64(24)); o.kind="pool"; o.ghost["pool"]=Entry(r,q,base); return Ptr(o)
        rd=lambda st,p: e.load(st,p,IntT(64))
        def find(st,h,p):
            q=rd(st,p); r.atkey(st,h.v.get("base",r.h0),q); out=[]
            for c,t in e.split(st,sel(h.has,q)): out.append(Outcome("ret",NULL if c is None else entry(t,q,8),t))
            return out
        def index(st,h,p):
            q=rd(st,p); r.atkey(st,h.v.get("base",r.h0),q); was=sel(h.has,q); st.abs["H"]=h.set(has=sto(h.has,q,TRUE),val=sto(h.val,q,z3.If(was,sel(h.val,q),ZERO)),n=S(z3.If(was,h.n,h.n+1))); return entry(st,q,-8)
        def erase(st,h,p):
            q=rd(st,p); r.atkey(st,h.v.get("base",r.h0),q); was=sel(h.has,q); st.abs["H"]=h.set(has=sto(h.has,q,FALSE),n=S(z3.If(was,h.n-1,h.n))); return S(z3.If(was,bv64(1),ZERO))
        def erase_it(st,h,p):
            if not(isinstance(p,Ptr) and p.obj.kind=="pool" and isinstance(p.obj.ghost["pool"],Entry)): e.fail(st,"memory-safety: erase of an entry that exists"); raise PathEnd()
            q=p.obj.ghost["pool"].key; e.prove(st,sel(h.has,q),"memory-safety: erase of an entry that exists"); st.abs["H"]=h.set(has=sto(h.has,q,FALSE),n=S(h.n-1)); return NULL
        def clear(st,h): st.abs["H"]=h.set(has=const(FALSE),n=ZERO)
        def empty(st,h): clear(st,h)
        M(UM+r'find\(',w(find)); M(UM+r'end\(\)',w(lambda st,h: NULL)); M(UM+r'operator\[\]\(',w(index)); M(UM+r'erase\(unsigned long const&\)',w(erase)); M(UM+r'erase\(std::__detail::_Node',w(erase_it)); M(UM+r'clear\(\)',w(clear)); M(UM+r'size\(\) const',w(lambda st,h: h.n)); M(UM+r'count\(',w(lambda st,h,p: S(z3.If(sel(h.has,rd(st,p)),bv64(1),ZERO)))); M(UM+r'empty\(\) const',w(lambda st,h: S(z3.If(h.n==0,BV(1,1),BV(0,1)))))
        M(UM+r'unordered_map\(\)',w(empty)); M(UM+r'~unordered_map\(\)',w(lambda st,h: None))
        it=lambda st,p: e.load(st,p,PTR)
        def same(st,p,q):
            x,y=it(st,p),it(st,q); f=lambda z: z.obj.kind=="null"
            if not f(x) and not f(y): raise Unsupported("comparison of two entries")
            return f(x) and f(y)
        M(r'(bool )?std::__detail::operator!=\(std::__detail::_Node_iterator_base',lambda st,p,q: BV(0 if same(st,p,q) else 1,1)); M(r'(bool )?std::__detail::operator==\(std::__detail::_Node_iterator_base',lambda st,p,q: BV(1 if same(st,p,q) else 0,1))
        def deref(st,p):
            x=it(st,p)
            if x.obj.kind=="null": e.fail(st,"memory-safety: end() is not dereferenced"); raise PathEnd()
            return x+8
        M(r'std::__detail::_Node_iterator<.*>::operator(->|\*)\(\) const',deref)
        def new(st,n):
            n=S(n)
            if not(isc(n) and cv(n)==e.csize(N)): raise Unsupported("allocation of another size")
            h=st.abs["H"]; a=fresh("node",64); st.assume(a!=0); st.assume(z3.Not(sel(h.live,a))); v=dict((f,sto(h.v[f],a,fresh(f+"_new",wd))) for f,_,wd in FIELDS)
            st.abs["H"]=h.set(live=sto(h.live,a,TRUE),last=a,**v); return Ptr(r.pool,a)
        M(r'operator new\(unsigned long\)$',new)
        def delete(st,p,*n):
            if isinstance(p,Ptr) and p.obj.kind=="null": return None
            if not isinstance(p,Ptr) or p.obj is not r.pool: e.fail(st,"memory-safety: delete of a node"); raise PathEnd()
            h=st.abs["H"]; out=[]
            for c,t in e.split(st,p.off!=0):
                if c is not None: r.locked(t,"the list"); e.prove(t,sel(h.live,p.off),"memory-safety: a node is deleted once"); t.abs["H"]=h.set(live=sto(h.live,p.off,FALSE),D=S(h.D+1))
                out.append(Outcome("ret",None,t))
            return out
        M(r'operator delete\(void\*(, unsigned long)?\)$',delete)
        def time(st,p):
            t=fresh("now",64); st.assume(z3.And(z3.UGE(t,st.ghost[("nohavoc","now")]),z3.ULT(t,1<<32))); st.ghost[("nohavoc","now")]=t
            if isinstance(p,Ptr) and p.obj.kind!="null": e.store(st,p,t,IntT(64))
            return t
        M(r'time$',time)
        def mine(p): return isinstance(p,Ptr) and p.obj is r.this.obj
        def lock(st,p):
            if not mine(p): raise Unsupported("another lock")
            k=("nohavoc","lock"); e.prove(st,z3.BoolVal(st.ghost[k]==0),"C06 the lock is taken once per operation")
            if st.ghost[k]!=0: raise PathEnd()
            st.ghost[k]=1; return BV(0,32)
        def unlock(st,p):
            if not mine(p): raise Unsupported("another lock")
            k=("nohavoc","lock"); e.prove(st,z3.BoolVal(st.ghost[k]==1),"C06 only a held lock is released"); st.ghost[k]=2; return BV(0,32)
        M(r'pthread_mutex_lock$',lock); M(r'pthread_mutex_unlock$',unlock); M(r'pthread_mutex_(init|destroy)$',lambda st,*a: BV(0,32))
        def hook(e_,st,p,n,rw):
            if p.obj is r.this.obj and not e_.suppress and r.needlock and isc(p.off) and cv(p.off) in(r.off["head"],r.off["tail"]): r.locked(st,"the list")
        e.access_hook=hook
    def done(r,o,w):
        e=r.e; s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C06 %s does not throw"%w); e.prove(s,z3.BoolVal(s.ghost[("nohavoc","lock")]==2),"C06 %s takes and releases the lock"%w)
        if o.kind!="ret": return None
        h=s.abs["H"]; return s,h
    def cell(r,st,name,v): o=r.e.new_obj(st,name,8); r.e.rawstore(st,Ptr(o),v,8); return Ptr(o)
    def evict_hook(r):
        """loop that removes entries from the tail: after D removals the list is seq[lo..hi-D)"""
        e=r.e; hid=r.this.obj.id; cells=[r.off["head"],r.off["tail"]]
        def at_loop(st,w):
            h=st.abs["H"]; h=h.set(G=(r.lo,S(r.hi-h.D)),rel=None); r.sk(st,r.h0); e.prove(st,z3.ULE(h.D,r.hi-r.lo),"C06 eviction %s: removes no more than is there"%w); r.check(st,h,"eviction "+w); e.prove(st,rel(h)(Q),"C06 eviction %s: removes exactly the least recently used entries from the index"%w)
            e.prove(st,z3.And(*[z3.Implies(z3.And(sel(h.live,A)),sel(h.v[f],A)==sel(r.h0.v[f],A)) for f in("key","data","ct","ex")]),"C06 eviction %s: changes no other entry"%w)
        def rel(h):
            h0=r.h0; end=S(r.hi-h.D); return lambda q: z3.And(sel(h.has,q)==z3.And(sel(h0.has,q),z3.ULT(sel(r.pos,sel(h0.val,q)),end)),z3.Implies(sel(h.has,q),sel(h.val,q)==sel(h0.val,q)))
        def hook(e_,st,fr,dname,hdr,body):
            if "lce::" not in dname: return None
            def enter(st0): at_loop(st0,"(start)")
            def havoc(h):
                D=fresh("removed",64); x=fresh_heap(key=r.h0.key,data=r.h0.data,ct=r.h0.ct,ex=r.h0.ex,D=D,G=(r.lo,S(r.hi-D)),n=S(r.hi-D-r.lo)); x=x.set(rel=rel(x)); h.pc=[c for c in h.pc if c.get_id() not in r.inst]; h.assume(z3.ULE(D,r.hi-r.lo)); h.abs["H"]=x.set(base=x); r.ends(h,x); r.sk(h,x)
                k=S(sel(x.key,sel(r.seq,r.hi-D-1))); r.atkey(h,x,k)
                if r.tkey is not None: r.atkey(h,x,r.tkey)
                return [D]
            def back(bs): at_loop(bs,"(step)")
            def cands(e__,st0,h,e0,eh,vs):
                out=[]
                for v in vs:
                    if v[0]=="abs" or e0[v].size() not in(32,64): continue
                    out.append((("count",v),lambda s,en,it,v=v: sx(en[v]-e0[v],64)==en[("abs","H","D")])); out.append((("down",v),lambda s,en,it,v=v: sx(e0[v]-en[v],64)==en[("abs","H","D")]))
                return out
            return {"enter":enter,"havoc":havoc,"back":back,"cands":cands,"skip":lambda c: c[0]==hid and (c[1]=="all" or c[1] in cells),"skipabs":lambda k: k=="H"}
        e.loop_hooks=[hook]; e.force_cut=True
def gone(r,h,p): 
    """view after the node at position p has left the list [lo,hi)"""
    lo,hi=h; return (lo,S(hi-1),lambda k: sel(r.seq,S(z3.If(z3.ULT(k,p),k,k+1))),lambda a: z3.If(z3.UGT(sel(r.pos,a),p),sel(r.pos,a)-1,sel(r.pos,a)))
def front(r,h,p,x):
    """view after the node x at position p has become the most recent"""
    lo,hi=h; return (lo,hi,lambda k: z3.If(k==lo,x,z3.If(z3.ULE(k,p),sel(r.seq,k-1),sel(r.seq,k))),lambda a: z3.If(a==x,lo,z3.If(z3.ULT(sel(r.pos,a),p),sel(r.pos,a)+1,sel(r.pos,a))))
def new(r,h,x): lo,hi=h; return (S(lo-1),hi,lambda k: z3.If(k==lo-1,x,sel(r.seq,k)),lambda a: z3.If(a==x,lo-1,sel(r.pos,a)))
def others(r,s,h,x,w): r.e.prove(s,z3.Implies(z3.And(sel(h.live,A),A!=x),z3.And(*[sel(h.v[f],A)==sel(r.h0.v[f],A) for f in("key","data","ct","ex")])),"C06 %s changes no other entry"%w)
def index(r,s,h,f,w): r.e.prove(s,sel(h.has,Q)==f,"C06 %s leaves exactly the right keys in the index"%w)
def u_set(e):
    r=R(e); st=r.st; r.tkey=q=z3.BitVec("key",64); v=z3.BitVec("value",64); ex=z3.BitVec("lifetime",32); r.evict_hook(); cov=set()
    for o in e.run(st,C+"::set(unsigned long const&, unsigned long const&, unsigned int)",[r.this,r.cell(st,"key",q),r.cell(st,"value",v),ex]):
        d=r.done(o,"set")
        if d is None: continue
        s,h=d; D=h.D; h0=r.h0; E=z3.If(z3.UGT(h0.n,r.max),z3.If(z3.ULT(h0.n,50),h0.n,bv64(50)),ZERO); e.prove(s,D==E,"C06 set evicts up to 50 entries exactly when the cache is over its maximum"); e.prove(s,o.val==BV(1,1),"C06 set returns true")
        hi1=S(r.hi-D); hb=h.v.get("base") or h0; here=sel(hb.has,q); r.atkey(s,hb,q)
        if hb is h0: r.sk(s,h0)
        for c,t in e.split(s,here):
            if c is not None: cov.add("old"); x=S(sel(hb.val,q)); p=S(sel(r.pos,x)); g=front(r,(r.lo,hi1),p,x)
            else:
                cov.add("new"); x=h.v.get("last"); e.prove(t,z3.BoolVal(x is not None),"C06 set of a key not held makes an entry")
                if x is None: continue
                g=new(r,(r.lo,hi1),x)
            if e.decide(t,D!=0): cov.add("evicting")
            r.check(t,h,"set",g); e.prove(t,z3.And(sel(h.key,x)==q,sel(h.data,x)==v,sel(h.ex,x)==ex,sel(h.ct,x)==z3.Extract(31,0,t.ghost[("nohavoc","now")]),z3.BoolVal(t.ghost[("nohavoc","now")] is not r.T0)),"C06 set stores the value, its lifetime and the present time"); others(r,t,h,x,"set")
            index(r,t,h,z3.Or(Q==q,z3.And(sel(h0.has,Q),z3.ULT(sel(r.pos,sel(h0.val,Q)),hi1))),"set"); e.prove(t,z3.ULE(h.n,r.max+1),"C06 the cache holds at most one entry more than its maximum")
    e.cover(cov,{"old","new","evicting"})
def u_get(e):
    r=R(e); st=r.st; r.tkey=q=z3.BitVec("key",64); v0=z3.BitVec("out0",64); out=r.cell(st,"out",v0); cov=set()
    for o in e.run(st,C+"::get(unsigned long const&, unsigned long&)",[r.this,r.cell(st,"key",q),out]):
        d=r.done(o,"get")
        if d is None: continue
        s,h=d; h0=r.h0; r.atkey(s,h0,q); r.sk(s,h0); x=S(sel(h0.val,q)); p=S(sel(r.pos,x)); t=s.ghost[("nohavoc","now")]; s.assume(z3.ULE(zx(sel(h0.ct,x),64),r.T0)); old=z3.And(sel(h0.ex,x)!=0,z3.UGT(t-zx(sel(h0.ct,x),64),zx(sel(h0.ex,x),64)))
        for c,u in e.split(s,sel(h0.has,q)):
            if c is None: cov.add("absent"); e.prove(u,o.val==BV(0,1),"C06 get of a key not held returns false"); r.check(u,h,"get"); others(r,u,h,ZERO,"get"); index(r,u,h,sel(h0.has,Q),"get"); continue
            for c2,w in e.split(u,old):
                if c2 is not None: cov.add("expired"); e.prove(w,o.val==BV(0,1),"C06 get of an entry whose lifetime has passed returns false"); r.check(w,h,"get",gone(r,(r.lo,r.hi),p)); others(r,w,h,x,"get"); index(r,w,h,z3.And(sel(h0.has,Q),Q!=q),"get")
                else: cov.add("held"); e.prove(w,z3.And(o.val==BV(1,1),e._read(w,w.mem[out.obj.id],ZERO,8)==sel(h0.data,x)),"C06 get of a live entry returns true and the value last set"); r.check(w,h,"get",front(r,(r.lo,r.hi),p,x)); others(r,w,h,ZERO,"get"); index(r,w,h,sel(h0.has,Q),"get")
    e.cover(cov,{"absent","expired","held"})
def u_del(e):
    r=R(e); st=r.st; r.tkey=q=z3.BitVec("key",64); cov=set()
    for o in e.run(st,C+"::del(unsigned long const&)",[r.this,r.cell(st,"key",q)]):
        d=r.done(o,"del")
        if d is None: continue
        s,h=d; h0=r.h0; r.atkey(s,h0,q); r.sk(s,h0); x=S(sel(h0.val,q)); p=S(sel(r.pos,x))
        for c,u in e.split(s,sel(h0.has,q)):
            cov.add(c is None); r.check(u,h,"del",None if c is None else gone(r,(r.lo,r.hi),p)); others(r,u,h,ZERO if c is None else x,"del"); index(r,u,h,z3.And(sel(h0.has,Q),Q!=q),"del")
    e.cover(cov,{True,False})
def clear_hook(r):
    """loop that frees the list from its head: after D deletions exactly seq[lo+D..hi) is allocated"""
    e=r.e; h0=r.h0
    def alive(h,a): return sel(h.live,a)==z3.And(sel(h0.live,a),z3.UGE(sel(r.pos,a),r.lo+h.D))
    def hook(e_,st,fr,dname,hdr,body):
        if "lce::" not in dname: return None
        base=st.abs["H"]
        def enter(s): r.sk(s,h0); e.prove(s,alive(s.abs["H"],A),"C06 clear (start): nothing freed yet")
        def havoc(h):
            D=fresh("removed",64); x=base.set(D=D,live=arr("live",1)); h.abs["H"]=x; h.assume(z3.ULE(D,r.hi-r.lo))
            for k in(r.lo+D,r.lo+D+1,r.hi-D-1,r.hi-1): r.at(h,h0,S(k)); h.assume(alive(x,sel(r.seq,S(k))))
            r.sk(h,h0); h.assume(alive(x,A)); return [D]
        def back(s): e.prove(s,z3.ULE(s.abs["H"].D,r.hi-r.lo),"C06 clear (step): frees no more than is there"); e.prove(s,alive(s.abs["H"],A),"C06 clear (step): frees the nodes one after the other")
        def cands(e__,st0,h,e0,eh,vs):
            out=[]
            for v in vs:
                if v[0]=="abs" or e0[v].size()!=64: continue
                D=lambda en: en[("abs","H","D")]
                out.append((("node",v),lambda s,en,it,v=v: en[v]==z3.If(D(en)==r.hi-r.lo,ZERO,sel(r.seq,r.lo+D(en)))))
            return out
        return {"enter":enter,"havoc":havoc,"back":back,"cands":cands,"skipabs":lambda k: k=="H"}
    e.loop_hooks=[hook]
def u_clear(e):
    for name,fn in(("clear","clear()"),("destruction","~CLruCache()")):
        r=R(e); st=r.st; r.tkey=None; clear_hook(r); r.needlock=name=="clear"; ok=False
        if name!="clear": st.ghost[("nohavoc","lock")]=2
        for o in e.run(st,C+"::"+fn,[r.this]):
            d=r.done(o,name)
            if d is None: continue
            ok=True; s,h=d; e.prove(s,z3.Not(sel(h.live,A)),"C06 %s frees every node"%name)
            if name=="clear": r.check(s,h,"clear",(r.hi,r.hi,r.seqf,r.posf)); index(r,s,h,FALSE,"clear")
        e.cover({ok},{True})
def u_misc(e):
    r=R(e)
    for o in e.run(r.st.clone(),C+"::getSize()",[r.this]):
        d=r.done(o,"getSize")
        if d: e.prove(d[0],o.val==r.h0.n,"C06 getSize is the number of entries"); e.prove(d[0],z3.BoolVal(d[1] is r.h0),"C06 getSize changes nothing")
    for o in e.run(r.st.clone(),C+"::getMaxSize()",[r.this]): e.prove(o.st,o.val==r.max,"C06 getMaxSize is the maximum")
    s0=r.st.clone(); s0.abs["H"]=fresh_heap(live=const(FALSE),G=(ZERO,ZERO)); this=e.newc(s0,C,"new"); r.this=this; r.needlock=False; m=z3.BitVec("asked",64)
    for o in e.run(s0,C+"::CLruCache(unsigned long)",[this,m]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C06 construction does not throw"); r.check(s,s.abs["H"],"a new cache",(r.lo,r.lo,r.seqf,r.posf)); e.prove(s,e.getf(s,this,C,"m_dwMaxSize",8)==m,"C06 a new cache has the maximum it was given"); index(r,s,s.abs["H"],FALSE,"construction")
# ------------------------------------------------------------------ the sharded cache
def u_shards(e):
    st=State(); mx=z3.BitVec("maximum",64); this=e.newc(st,VL,"cache"); off=e.foff(VL,"m_pLruCaches"); sh=[]
    e.assumptions.add("sharded cache: Hash of the key is a function of the key (C29); the shards are CLruCache under its own contract")
    HV=z3.BitVec("hash",64); key=e.new_obj(st,"key",32); val=e.new_obj(st,"value",8); kind=lambda s: s.ghost.get(("nohavoc","calls"),())
    def rec(s,*x): s.ghost[("nohavoc","calls")]=kind(s)+(x,)
    def hashf(e_,s,a,ins,*_):
        e.prove(s,z3.BoolVal(isinstance(a[0],Ptr) and a[0].obj is key),"C06 the shard is chosen by the key"); return HV
    for d in list(e.m.demangled.values()):
        if re.match(r"lce::Hash\(std::__cxx11",d): e.contracts[d]=hashf
    def c(name,ret):
        def f(e_,s,a,ins,*_): rec(s,name,a,ret); return ret(s) if callable(ret) else ret
        return f
    RET=z3.BitVec("shard_result",1); sizes=z3.Function("shard_size",B64,B64); S_="std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&"
    cn={"set":CS+"::set(%s, unsigned long const&, unsigned int)"%S_,"get":CS+"::get(%s, unsigned long&)"%S_,"del":CS+"::del(%s)"%S_,"clear":CS+"::clear()","ctor":CS+"::CLruCache(unsigned long)","dtor":CS+"::~CLruCache()"}
    for k,d in cn.items(): e.contracts[d]=c(k,RET if k in("set","get","del") else [])
    def none(e_,s,a,ins,*_): return [Outcome("ret",None,s)]
    for k in("clear","ctor","dtor"):
        def f(e_,s,a,ins,*_,k=k): rec(s,k,a,None); return [Outcome("ret",None,s)]
        e.contracts[cn[k]]=f
    def size(e_,s,a,ins,*_): rec(s,"size",a,None); return sizes(bv64(index_of(a[0])))
    def index_of(p):
        for i,x in enumerate(sh):
            if isinstance(p,Ptr) and p.obj is x and isc(p.off) and cv(p.off)==0: return i
        raise Unsupported("another shard")
    e.contracts[CS+"::getSize()"]=size
    cs=e.csize(CSL)
    # construction
    s0=st.clone(); ok=0
    for o in e.run(s0,V+"::CLruCacheV2(unsigned long)",[this,mx]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C06 construction does not throw"); cc=[x for x in kind(s) if x[0]=="ctor"]; ok+=1
        e.prove(s,z3.BoolVal(len(cc)==32),"C06 the sharded cache has 32 shards")
        if len(cc)!=32: continue
        objs=[e._read(s,s.mem[this.obj.id],bv64(off+8*i),8) for i in range(32)]; e.prove(s,z3.BoolVal(all(isinstance(p,Ptr) and p.obj is x[1][0].obj and p.obj.kind=="heap" for p,x in zip(objs,cc)) and len({p.obj.id for p in objs if isinstance(p,Ptr)})==32),"C06 each shard is its own cache")
        tot=ZERO
        for x in cc: tot=tot+x[1][1]
        e.prove(s,tot==mx,"C06 the maxima of the shards add up to the maximum"); e.prove(s,e.getf(s,this,VL,"m_dwMaxSize",8)==mx,"C06 the sharded cache has the maximum it was given")
        e.prove(s,z3.And(*[z3.UGE(x[1][1],z3.LShR(mx,5)) for x in cc]),"C06 each shard has its share of the maximum")
        t=s.clone()
        for q in e.run(t,V+"::~CLruCacheV2()",[this]): e.prove(q.st,z3.BoolVal(q.kind=="ret" and all(p.obj.id in q.st.dead for p in objs) and [x[1][0].obj for x in kind(q.st) if x[0]=="dtor"]==[p.obj for p in objs]),"C06 destruction destroys every shard")
    e.cover({ok>0},{True})
    for i in range(32): o=e.new_obj(st,"shard%d"%i,cs); o.kind="heap"; sh.append(o); e.rawstore(st,this+(off+8*i),Ptr(o),8)
    e.setf(st,this,VL,m_dwMaxSize=mx); ex=z3.BitVec("lifetime",32); H5=S(HV&31)
    fork=lambda: [st.clone() for _ in range(0)]
    for i in range(32):
        b=st.clone(); b.assume(H5==i)
        for nm,sig,args in(("set","::set(%s, unsigned long const&, unsigned int)"%S_,[Ptr(key),Ptr(val),ex]),("get","::get(%s, unsigned long&)"%S_,[Ptr(key),Ptr(val)]),("del","::del(%s)"%S_,[Ptr(key)])):
            for o in e.run(b.clone(),V+sig,[this]+args):
                s=o.st; k=kind(s); e.prove(s,z3.BoolVal(o.kind=="ret" and len(k)==1 and k[0][0]==nm),"C06 %s of the sharded cache is one %s of a shard"%(nm,nm))
                if len(k)!=1 or o.kind!="ret": continue
                a=k[0][1]; e.prove(s,z3.BoolVal(isinstance(a[0],Ptr) and a[0].obj is sh[i] and all((x.obj is y.obj) if isinstance(x,Ptr) else True for x,y in zip(a[1:],args))),"C06 %s of the sharded cache goes to the shard its key hashes to"%nm); e.prove(s,o.val==RET,"C06 %s of the sharded cache reports the shard's result"%nm)
                if nm=="set": e.prove(s,a[3]==ex,"C06 set of the sharded cache passes the lifetime")
    for o in e.run(st.clone(),V+"::clear()",[this]): e.prove(o.st,z3.BoolVal(o.kind=="ret" and sorted(sh.index(x[1][0].obj) for x in kind(o.st) if x[0]=="clear")==list(range(32))),"C06 clear of the sharded cache clears every shard")
    for o in e.run(st.clone(),V+"::getSize()",[this]):
        tot=ZERO
        for i in range(32): tot=tot+sizes(bv64(i))
        e.prove(o.st,o.val==tot,"C06 getSize of the sharded cache adds the sizes of all shards")
    for o in e.run(st.clone(),V+"::getMaxSize()",[this]): e.prove(o.st,o.val==mx,"C06 getMaxSize of the sharded cache is the maximum")
UNITS=[("set",u_set),("get",u_get),("del",u_del),("clear",u_clear),("misc",u_misc),("shards",u_shards)]
