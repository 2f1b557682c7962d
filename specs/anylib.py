"""Representation contract of lce::CAnyValue and assumed contracts of the std::deque and std::map it
holds.  A value owns what m_value points to exactly when its type is String, Vector or Map; a Null
value holds a zero word.  A deque is (element count, element storage); a map is abstract, every
operation on it is recorded with the key it was given."""
import z3
from engine import *
import strmodel as sm
A="lce::CAnyValue"; MAP=r'std::map<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, lce::CAnyValue, .*>::'; DEQ=r'std::deque<lce::CAnyValue, std::allocator<lce::CAnyValue>>::'
PAIR=r'std::_Rb_tree_(const_)?iterator<std::pair<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const, lce::CAnyValue>>::'
KIND={"Integer":3,"String":6,"Vector":7,"Map":8,"Float":10,"Bool":11,"Null":12,"SInteger":16}; NAME={v:k for k,v in KIND.items()}; SCALAR=("Integer","SInteger","Bool","Float"); ESZ=24
class Any:
    def __init__(v,e):
        v.e=e; v.on_push=v.on_index=None; v.o={k:e.foff(A,"m_"+f) for k,f in(("type","ucType"),("sub","ucSubType"),("val","value"),("init","bInit"),("has","bHasData"))}; v.size=e.csize(A); assert v.size==ESZ; v.install()
    # ---------------------------------------------------------------- values
    def note(v,st,*x): st.ghost[("nohavoc","ev")]=st.ghost.get(("nohavoc","ev"),())+(x,)
    def events(v,st,k=None): return [x for x in st.ghost.get(("nohavoc","ev"),()) if k is None or x[0]==k]
    def deque(v,st,n=None,name="vec"):
        e=v.e; o=e.new_obj(st,name,80); o.kind="heap"; n=fresh("count",64) if n is None else n; st.assume(z3.ULE(n,1<<40)); el=e.new_obj(st,"elements of "+name,bv64(1<<50)); e.rawstore(st,Ptr(o),n,8); e.rawstore(st,Ptr(o)+8,Ptr(el),8); o.ghost["what"]="vec"; return o
    def map(v,st,name="map"): o=v.e.new_obj(st,name,48); o.kind="heap"; o.ghost["what"]="map"; return o
    def fill(v,st,p,kind,name="v",val=None):
        """the value at p is of this kind with arbitrary content; returns its payload"""
        e=v.e; w=lambda k,x: e.rawstore(st,p+v.o[k],x,8 if isinstance(x,Ptr) else x.size()//8); w("type",BV(KIND[kind],8)); w("sub",fresh(name+"_sub",8)); w("init",BV(1,8)); h=fresh(name+"_has",8); st.assume(z3.ULE(h,1)); w("has",h); pl=None
        if kind=="Null": x=ZERO
        elif kind=="Bool": x=zx(fresh(name+"_bool",1),64)
        elif kind in SCALAR: x=fresh(name+"_word",64)
        elif kind=="String":
            o=e.new_obj(st,name+"_string",32); o.kind="heap"; n=fresh(name+"_len",64); st.assume(z3.ULE(n,1<<40)); sm.mk(e,st,Ptr(o),base_arr(fresh_arr(name+"_chars")),n); x=pl=o; o.ghost["what"]="str"
        elif kind=="Vector": x=pl=v.deque(st,name=name+"_vec")
        else: x=pl=v.map(st,name+"_map")
        w("val",Ptr(pl) if pl is not None else (val if val is not None else x)); return pl if pl is not None else (val if val is not None else x)
    def make(v,st,kind,name="v",val=None):
        p=Ptr(v.e.new_obj(st,name,v.size)); pl=v.fill(st,p,kind,name,val); return p,pl
    def get(v,s,p,k):
        n=8 if k=="val" else 1; x=v.e._read(s,s.mem[p.obj.id],S(p.off+v.o[k]),n)
        if not z3.is_expr(x): return x
        x=S(x); q=None if isc(x) or k!="val" else v.e.inttoptr(s,x,strict=False)   # a pointer copied as an integer word is still that pointer
        return x if q is None else q
    def kind(v,s,p):
        t=v.get(s,p,"type")
        if isc(t): return NAME.get(cv(t))
        for k in KIND:
            if v.e.decide(s,t==KIND[k]): return k
        return None
    def inv(v,s,p,name):
        """the representation invariant; returns the kind"""
        e=v.e; k=v.kind(s,p)
        if k is None:
            t=v.get(s,p,"type")
            if e.valid(s,z3.Or([t==KIND[x] for x in SCALAR])): k="Scalar"
        e.prove(s,z3.BoolVal(k is not None),name+": the value has one of the known types")
        if k is None: return None
        x=v.get(s,p,"val"); e.prove(s,v.get(s,p,"init")==1,name+": the value is initialised")
        if k in("String","Vector","Map"):
            ok=isinstance(x,Ptr) and x.obj.kind=="heap" and x.obj.id not in s.dead and (v.isstr(s,x.obj) if k=="String" else x.obj.ghost.get("what")=={"Vector":"vec","Map":"map"}[k])
            e.prove(s,z3.BoolVal(bool(ok)),name+": a value of type %s owns a live %s"%(k,k.lower()))
            if not ok: return None
        else:
            e.prove(s,z3.BoolVal(not isinstance(x,Ptr) or x.obj is NULLOBJ),name+": a scalar holds no pointer")
            if k=="Null" and not isinstance(x,Ptr): e.prove(s,x==0,name+": a null value holds a zero word")
            if k in("Bool","Scalar") and not isinstance(x,Ptr): e.prove(s,z3.Implies(v.get(s,p,"type")==KIND["Bool"],z3.ULE(x,255)),name+": a boolean is a byte")
        return k
    def isstr(v,s,o):
        b=v.e._read(s,s.mem[o.id],ZERO,8); return isinstance(b,Ptr) and b.obj.kind=="strbuf" and b.obj.id not in s.dead
    # ---------------------------------------------------------------- containers
    def obj(v,st,p,what):
        e=v.e
        if not isinstance(p,Ptr) or p.obj.kind in("null","func"): e.fail(st,"memory-safety: %s through a null or wild pointer"%what); raise PathEnd()
        if p.obj.id in st.dead: e.fail(st,"memory-safety: %s after it was destroyed"%what); raise PathEnd()
        if p.obj.ghost.get("what")!=what or not(isc(p.off) and cv(p.off)==0): e.fail(st,"memory-safety: %s used on another object"%what); raise PathEnd()
        return p.obj
    def count(v,s,o): return S(v.e._read(s,s.mem[o.id],ZERO,8))
    def elems(v,s,o): return v.e._read(s,s.mem[o.id],bv64(8),8).obj
    def setcount(v,s,o,n): v.e.rawstore(s,Ptr(o),S(n),8)
    def install(v):
        e=v.e; M=e.model
        def w(what,f,new=False):
            def m(e_,st,a,ins,d):
                e_.assumptions.add("assumed contract: std::deque<CAnyValue> and std::map<string,CAnyValue> behave as the standard says")
                if new: return f(st,a,d)
                return f(st,a,v.obj(st,a[0],what))
            return m
        def dctor(st,a,d):
            o=a[0].obj; o.ghost["what"]="vec"; n=ZERO
            if "const&)" in d: src=v.obj(st,a[1],"vec"); n=v.count(st,src); v.note(st,"copy",o,src)
            el=e.new_obj(st,"elements",bv64(1<<50)); e.rawstore(st,Ptr(o),n,8); e.rawstore(st,Ptr(o)+8,Ptr(el),8); return None
        def mctor(st,a,d):
            o=a[0].obj; o.ghost["what"]="map"
            if "const&)" in d: v.note(st,"copy",o,v.obj(st,a[1],"map"))
            return None
        def ddtor(st,a,o): el=v.elems(st,o); v.kill(st,el); st.dead[o.id]="destroyed"; st.ghost[("nohavoc","freed",o.id)]=1; del st.dead[o.id]; v.note(st,"destroyed",o); return None
        def mdtor(st,a,o):
            for x in o.ghost.get("nodes",()): v.kill(st,x)
            v.note(st,"destroyed",o); return None
        M(DEQ+r'deque\((std::deque<.*const&)?\)$',w("vec",dctor,True)); M(DEQ+r'~deque\(\)$',w("vec",ddtor)); M(MAP+r'map\((std::map<.*const&)?\)$',w("map",mctor,True)); M(MAP+r'~map\(\)$',w("map",mdtor))
        M(DEQ+r'(size)\(\) const$',w("vec",lambda st,a,o: v.count(st,o))); M(DEQ+r'empty\(\) const$',w("vec",lambda st,a,o: S(z3.If(v.count(st,o)==0,BV(1,1),BV(0,1)))))
        def at(st,a,o): e.prove(st,z3.ULT(a[1],v.count(st,o)),"memory-safety: vector index below its size"); return Ptr(v.elems(st,o),S(a[1]*ESZ))
        M(DEQ+r'operator\[\]\(unsigned long\)( const)?$',w("vec",at))
        def m_at(st,a,o):
            n=v.count(st,o); out=[]
            for c,t in e.split(st,z3.ULT(a[1],n)): out.append(Outcome("ret",Ptr(v.elems(t,o),S(a[1]*ESZ)),t) if c is not None else Outcome("throw",(Ptr(e.new_obj(t,"exc",8)),"_ZTISt12out_of_range"),t))
            return out
        M(DEQ+r'at\(unsigned long\)( const)?$',w("vec",m_at))
        def end_(front):
            def f(st,a,o): n=v.count(st,o); e.prove(st,n!=0,"memory-safety: %s of a non-empty vector"%("front" if front else "back")); return Ptr(v.elems(st,o),ZERO if front else S((n-1)*ESZ))
            return f
        M(DEQ+r'back\(\)( const)?$',w("vec",end_(False))); M(DEQ+r'front\(\)( const)?$',w("vec",end_(True)))
        def grow(k):
            def f(st,a,o): e.access(st,a[1],ESZ,"r","pushed value"); v.note(st,k,o,a[1]); r=v.on_push(st,k,o,a[1]) if v.on_push else None; v.setcount(st,o,v.count(st,o)+1); return r
            return f
        def shrink(k):
            def f(st,a,o): n=v.count(st,o); e.prove(st,n!=0,"memory-safety: pop from a non-empty vector"); v.note(st,k,o); v.setcount(st,o,n-1); return None
            return f
        for k in("push_back","push_front"): M(DEQ+k+r'\(',w("vec",grow(k)))
        for k in("pop_back","pop_front"): M(DEQ+k+r'\(\)$',w("vec",shrink(k)))
        def resize(st,a,o): v.note(st,"resize",o,a[1]); v.setcount(st,o,a[1]); return None
        M(DEQ+r'resize\(unsigned long\)$',w("vec",resize)); M(DEQ+r'clear\(\)$',w("vec",lambda st,a,o: (v.note(st,"clear",o),v.setcount(st,o,ZERO),None)[2]))
        # iterators: word 0 is the position
        IT=r'std::_Deque_iterator<lce::CAnyValue, lce::CAnyValue( const)?&, lce::CAnyValue( const)?\*>::'
        def it(where):
            def f(st,a,d):
                o=v.obj(st,a[1],"vec"); e.rawstore(st,a[0],Ptr(v.elems(st,o),ZERO if where==0 else S(v.count(st,o)*ESZ)),8); e.rawstore(st,a[0]+8,Ptr(o),8); return None
            return f
        M(DEQ+r'c?begin\(\)( const)?$',w("vec",it(0),True)); M(DEQ+r'c?end\(\)( const)?$',w("vec",it(1),True))
        cur=lambda st,p: e._read(st,st.mem[p.obj.id],p.off,8)
        def step(k): return w("vec",lambda st,a,d: (e.rawstore(st,a[0],cur(st,a[0])+k,8),a[0])[1],True)
        M(IT+r'operator\+\+\(\)$',step(ESZ)); M(IT+r'operator--\(\)$',step(-ESZ))
        def deref(st,a,d):
            p=cur(st,a[0]); o=e._read(st,st.mem[a[0].obj.id],S(a[0].off+8),8).obj; e.prove(st,z3.ULT(p.off,v.count(st,o)*ESZ),"memory-safety: the iterator denotes an element"); return p
        M(IT+r'operator(\*|->)\(\) const$',w("vec",deref,True)); M(IT+r'_Deque_iterator\(',w("vec",lambda st,a,d: (e.rawcopy(st,a[0],a[1],16),None)[1],True))
        def cmp(neg):
            def f(st,a,d): x,y=cur(st,a[0]),cur(st,a[1]); c=x.off!=y.off if neg else x.off==y.off; return S(z3.If(c,BV(1,1),BV(0,1)))
            return f
        M(r'(bool )?std::operator!=\(std::_Deque_iterator<lce::CAnyValue.*|bool std::operator!=<lce::CAnyValue.*_Deque_iterator',w("vec",cmp(True),True)); M(r'(bool )?std::operator==\(std::_Deque_iterator<lce::CAnyValue.*',w("vec",cmp(False),True))
        # maps
        def key(st,p): o,n=sm.sget(e,st,p); return (st.mem[o.id],n)
        def node(st,o): x=e.new_obj(st,"map entry",32+ESZ); o.ghost.setdefault("nodes",[]).append(x); return x
        v.node=node
        def sub(st,a,o):
            x=node(st,o); v.note(st,"index",o,key(st,a[1]),x)
            if v.on_index: v.on_index(st,o,x)
            return Ptr(x,bv64(32))
        M(MAP+r'operator\[\]\(',w("map",sub))
        def find(st,a,o):
            t=st.clone(); x=node(t,o); sm.mk(e,t,Ptr(x),base_arr(fresh_arr("key")),fresh("keylen",64)); k=key(st,a[1]); v.note(st,"find",o,k,None); v.note(t,"find",o,k,x); return [Outcome("ret",Ptr(v.entries(st,o),v.mapsize(st,o)),st),Outcome("ret",Ptr(x),t)]
        M(MAP+r'find\(',w("map",find)); M(MAP+r'c?end\(\)( const)?$',w("map",lambda st,a,o: Ptr(v.entries(st,o),v.mapsize(st,o)))); M(MAP+r'c?begin\(\)( const)?$',w("map",lambda st,a,o: Ptr(v.entries(st,o))))
        def cnt(st,a,o):
            r=find(st,a,o); return [Outcome("ret",bv64(0 if "entries" in x.val.obj.ghost else 1),x.st) for x in r]
        M(MAP+r'count\(',w("map",cnt))
        M(MAP+r'erase\(std::__cxx11',w("map",lambda st,a,o: (v.note(st,"erase",o,key(st,a[1])),fresh("erased",64))[1])); M(MAP+r'size\(\) const$',w("map",lambda st,a,o: v.mapsize(st,o)))
        def mdel(st,a,d):
            p=cur(st,a[0])
            if isinstance(p,Ptr) and "entries" in p.obj.ghost and p.obj.ghost["entries"].id not in st.dead: return Ptr(v.entry(st,p.obj.ghost["entries"],p.off))
            if not isinstance(p,Ptr) or p.obj.ghost.get("what")=="map" or p.obj.kind=="null": e.fail(st,"memory-safety: the map iterator denotes an entry"); raise PathEnd()
            return p
        M(PAIR+r'operator(\*|->)\(\) const$',w("map",mdel,True)); M(PAIR+r'operator\+\+\(\)$',step(1)); M(PAIR+r'operator--\(\)$',step(-1))
        def mcmp(neg):
            def f(st,a,d):
                x,y=cur(st,a[0]),cur(st,a[1]); same=(x.off==y.off) if x.obj is y.obj else FALSE; return S(z3.If(z3.Not(same) if neg else same,BV(1,1),BV(0,1)))
            return f
        M(r'(bool )?std::operator!=\(std::_Rb_tree_(const_)?iterator<std::pair<std::__cxx11.*CAnyValue|'+PAIR[:-2]+r'::operator!=\(',w("map",mcmp(True),True)); M(r'(bool )?std::operator==\(std::_Rb_tree_(const_)?iterator<std::pair<std::__cxx11.*CAnyValue|'+PAIR[:-2]+r'::operator==\(',w("map",mcmp(False),True))
        M(PAIR+r'_Rb_tree_(const_)?iterator\(',w("map",lambda st,a,d: (e.rawcopy(st,a[0],a[1],8),None)[1] if isinstance(a[1],Ptr) and a[1].obj.size.eq(bv64(8)) else (e.rawstore(st,a[0],a[1],8),None)[1],True))
    def entries(v,st,o):
        """the entries of a map in key order: position i denotes the i-th one"""
        if "seq" not in o.ghost: x=Obj("entries of "+o.name,1<<40); x.ghost["entries"]=o; o.ghost["seq"]=x
        x=o.ghost["seq"]; st.objs[x.id]=x
        if x.id not in st.mem: st.mem[x.id]=base_fill(BV(0,8))
        return x
    def keylen(v,o): return z3.Function("keylen%d"%o.id,z3.BitVecSort(64),z3.BitVecSort(64))
    def keychar(v,o): return z3.Function("key%d"%o.id,z3.BitVecSort(64),z3.BitVecSort(64),z3.BitVecSort(8))
    def entry(v,st,o,i):
        e=v.e; e.prove(st,z3.ULT(i,v.mapsize(st,o)),"memory-safety: the map iterator denotes an entry"); x=e.new_obj(st,"map entry",32+ESZ); x.ghost["at"]=(o,i); n=v.keylen(o)(i); st.assume(z3.ULE(n,255)); K=v.keychar(o); sm.mk(e,st,Ptr(x),base_fn(lambda j: K(i,j)),n); o.ghost.setdefault("nodes",[]).append(x); return x
    def mapsize(v,st,o):
        k=("mapsize",o.id)
        if k not in st.ghost: n=fresh("mapsize",64); st.assume(z3.ULE(n,1<<32)); st.ghost[k]=n
        return st.ghost[k]
    def kill(v,st,x):
        st.dead[x.id]="its container was destroyed"
        for c in x.ghost.get("children",()): st.dead[c.id]="its owner was destroyed"
def runtime_error(o): return o.kind=="throw" and o.val[1] in("_ZTISt13runtime_error","_ZTISt9bad_alloc","_ZTISt12length_error")
