"""std::string as a sequence of text segments (no arrays, no length arithmetic): the model of std::string for
code that only builds text.  A string object holds one version cell; SEG maps a version to its segments."""
import z3,re
from engine import *
import strmodel as sm, segs as sg
from segs import norm
STR=r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
TXT=z3.Function("text_of",sg.B64,sg.A8); LEN=z3.Function("text_len",sg.B64,sg.B64)
class SegStr:
    def __init__(s,e): s.e=e; s.seg={}; s.keep=[]; s.addr={}; s.tok={}; s.install()
    def set(s,st,p,l):
        v=fresh("text",64); s.seg[v.get_id()]=tuple(norm(l)); s.keep.append(v); s.addr[(p.obj.id,S(p.off).get_id())]=p; s.keep.append(p.off); s.e.rawstore(st,p,v,8)
    def ver(s,st,p):
        v=s.e._read(st,st.mem[p.obj.id],S(p.off),8)
        if not z3.is_expr(v): raise Unsupported("text of a non-string")
        return S(v)
    def of(s,v): return [("r",base_arr(TXT(v)),ZERO,LEN(v))]
    def get(s,st,p):
        if not isinstance(p,Ptr) or p.obj.id not in st.mem: raise Unsupported("unknown string")
        s.e.access(st,p,32,"r","string"); v=s.ver(st,p); l=s.seg.get(v.get_id())
        if l is None: st.assume(z3.ULT(LEN(v),1<<40)); s.keep.append(v); return s.of(v)
        return list(l)
    def len(s,st,p):
        n=ZERO
        for x in s.get(st,p): n=n+(bv64(len(x[1])) if x[0]=="b" else bv64(1) if x[0]=="c" else x[3])
        return S(n)
    def buf(s,st,node,l): st.ghost[("nohavoc","segtext",id(node))]=tuple(l); s.keep.append(node)
    def ctext(s,st,p):
        """the C string at p"""
        if not isinstance(p,Ptr) or p.obj.kind=="null" or p.obj.id not in st.mem: raise Unsupported("unknown C string")
        l=st.ghost.get(("nohavoc","segtext",id(st.mem[p.obj.id])))
        if l is not None and isc(p.off) and cv(p.off)==0: return list(l)
        t=sg.literal(s.e,st,p)
        if t is None: raise Unsupported("unknown C string")
        return [("b",t.encode("latin1"))] if t else []
    def empty(s,st,p):
        l=s.get(st,p); c=TRUE
        for x in l:
            if x[0]!="r": return FALSE
            c=z3.And(c,x[3]==0)
        return S(c)
    def install(s):
        e=s.e; e.assumptions.add("assumed contract: std::string member functions as the C++ standard states them; allocation by std::string succeeds; texts stay below 2^40 bytes")
        def M(p,f): e.models.insert(0,(re.compile(p),f))
        def bad(e_,st,a,ins,d): raise Unsupported("string operation "+d)
        M(STR+'::',bad); M(r'std::.*operator(==|!=|<|>|<=|>=)<char, std::char_traits',bad)
        def text(st,t,v,rest=()):
            t=t.strip()
            if t.startswith("std::__cxx11::basic_string"): return s.get(st,v)
            if t=="char": v=S(v); return [("b",bytes([cv(v)]))] if isc(v) else [("c",v)]
            if t in("char const*","char*"): return s.ctext(st,v)
            raise Unsupported("string source "+t)
        def split(d,name):
            i=d.rindex(name)+len(name); a=d[i:d.rindex(")")]; out=[]; k=0; cur=""
            for c in a:
                if c in "<(": k+=1
                if c in ">)": k-=1
                if c=="," and k==0: out.append(cur.strip()); cur=""; continue
                cur+=c
            return out+([cur.strip()] if cur.strip() else [])
        def src(st,ts,a):
            """the text named by an argument list"""
            ts=[t for t in ts if not t.startswith("std::allocator")]
            if not ts: return []
            if len(ts)==1: return text(st,ts[0],a[0])
            if ts[0]=="char const*" and ts[1]=="unsigned long":
                l=s.ctext(st,a[0]); n=S(a[1])
                if len(l)==1 and l[0][0]=="b" and isc(n) and cv(n)<=len(l[0][1]): return [("b",l[0][1][:cv(n)])]
            if ts[0]=="unsigned long" and ts[1]=="char" and isc(S(a[0])) and cv(S(a[0]))<64: return text(st,"char",a[1])*cv(S(a[0]))
            raise Unsupported("string source "+", ".join(ts))
        def ctor(e_,st,a,ins,d):
            ts=split(d,"basic_string(") if "basic_string(" in d else split(d,"(")
            l=src(st,ts,a[1:]); e.access(st,a[0],32,"w","string construction"); s.set(st,a[0],l)
            if ts and ts[0].endswith("&&"): s.set(st,a[1],[])
        M(STR+r'::basic_string(<.*>)?\(',ctor)
        M(STR+r'::~basic_string\(\)',lambda e_,st,a,ins,d: None)
        def mod(e_,st,a,ins,d):
            m=[x for x in("operator+=(","operator=(","append(","assign(","push_back(") if x in d]; ts=split(d,m[0]); l=src(st,ts,a[1:])
            s.set(st,a[0],(s.get(st,a[0]) if m[0] in("operator+=(","append(","push_back(") else [])+l)
            if ts[0].endswith("&&") and m[0] in("operator=(","assign("): s.set(st,a[1],[])
            return a[0]
        M(STR+r'::(operator\+=|operator=|append|assign|push_back)\(',mod)
        def erase(e_,st,a,ins,d):
            if "erase(unsigned long" in d and not(isc(S(a[1])) and cv(S(a[1]))==0 and isc(S(a[2])) and cv(S(a[2]))==(1<<64)-1): raise Unsupported(d)
            s.set(st,a[0],[]); return a[0]
        M(STR+r'::(clear\(\)|erase\((unsigned long.*)?\))',erase)
        M(STR+r'::(reserve\(|shrink_to_fit\()',lambda e_,st,a,ins,d: None)
        M(STR+r'::empty\(\) const',lambda e_,st,a,ins,d: S(z3.If(s.empty(st,a[0]),BV(1,1),BV(0,1))))
        M(STR+r'::(size|length)\(\) const',lambda e_,st,a,ins,d: s.len(st,a[0]))
        def c_str(e_,st,a,ins,d):
            l=s.get(st,a[0]); o=e.new_obj(st,"chars",bv64(1<<40)); n=base_arr(fresh_arr("chars")); st.mem[o.id]=n; s.buf(st,n,l); return Ptr(o)
        M(STR+r'::(c_str|data)\(\)( const)?',c_str)
        def swap(e_,st,a,ins,d): x,y=s.get(st,a[0]),s.get(st,a[1]); s.set(st,a[0],y); s.set(st,a[1],x)
        M(STR+r'::swap\(',swap)
        def plus(e_,st,a,ins,d):
            ts=split(re.sub(r'operator\+<[^(]*>\(','operator+(',d),"operator+("); x=text(st,ts[0],a[1]); y=text(st,ts[1],a[2]); s.set(st,a[0],x+y)
        M(r'std::operator\+<char|.* std::operator\+<char|.* std::operator\+\(',plus)
        def eq(e_,st,a,ins,d):
            neg="operator!=" in d; ts=split(re.sub(r'operator([!=]=)<[^(]*>\(',r'operator\1(',d),"operator!=(" if neg else "operator==("); x=norm(text(st,ts[0],a[0])); y=norm(text(st,ts[1],a[1]))
            if y and not x: x,y=y,x
            if y: raise Unsupported("comparison of texts")
            c=TRUE
            for z in x: c=z3.And(c,FALSE if z[0]!="r" else z[3]==0)
            return S(z3.If(z3.Not(c) if neg else c,BV(1,1),BV(0,1)))
        M(r'(bool )?std::operator[!=]=<char, std::char_traits',eq)
        def ts_(e_,st,a,ins,d):
            x=a[1]; x=S(x if x.size()==64 else (zx(x,64) if "unsigned" in d else sx(x,64))); nd,L=sg.dec_node(st,x); s.set(st,a[0],[("r",nd,ZERO,L)])
        M(r'.*std::__cxx11::to_string\(',ts_)
        # string streams: text written, text read back
        SS=r'std::__cxx11::basic_o?stringstream<char, std::char_traits<char>, std::allocator<char>>::'
        base=lambda p: Ptr(p.obj,ZERO)
        def ssctor(e_,st,a,ins,d):
            if not(isc(a[0].off) and cv(a[0].off)==0) or not re.search(r'stringstream\((std::_Ios_Openmode)?\)',d): raise Unsupported(d)
            s.set(st,base(a[0]),[])
        M(SS+r'basic_o?stringstream\(',ssctor); M(SS+r'~basic_o?stringstream\(',lambda e_,st,a,ins,d: None)
        M(SS+r'str\(\) const',lambda e_,st,a,ins,d: s.set(st,a[0],s.get(st,base(a[1]))))
        def put(e_,st,a,ins,d):
            t=re.search(r'operator<<(?:<.*>)?\((?:std::.*ostream[^,]*, )?(.*)\)$',d).group(1).strip(); x=a[1]
            if t in("int","unsigned int","long","unsigned long","short","unsigned short"): x=S(x if x.size()==64 else (zx(x,64) if "unsigned" in t else sx(x,64))); nd,L=sg.dec_node(st,x); l=[("r",nd,ZERO,L)]
            else: l=text(st,re.sub(r' const&$| const$','',t) if t.startswith("std::") else t,x)
            s.set(st,base(a[0]),s.get(st,base(a[0]))+l); return a[0]
        M(r'std::ostream::operator<<\(|(std::.*)?std::operator<<( ?<.*>)?\(std::.*ostream',put)
        e.model_cache.clear()
    def snprintf(s,what):
        e=s.e; e.assumptions.add("assumed contract: snprintf writes the text its constant format describes; decimal texts are at most 20 bytes")
        F=r'%%|%(l{0,2}|z)([duisc])|([^%]+)'
        def sn(e_,st,a,ins,d):
            f=sg.literal(e,st,a[2]); v=list(a[3:]); l=[]
            if f is None: raise Unsupported("snprintf with a computed format")
            if "".join(m.group(0) for m in re.finditer(F,f))!=f: raise Unsupported("snprintf format %r"%f)
            for m in re.finditer(F,f):
                if m.group(0)=="%%": l.append(("b",b"%"))
                elif m.group(3): l.append(("b",m.group(3).encode("latin1")))
                else:
                    x=v.pop(0); k=m.group(2)
                    if k=="s": l+=s.ctext(st,x)
                    elif k=="c": l.append(("c",z3.Extract(7,0,x)))
                    else: x=z3.Extract(31,0,x) if m.group(1)=="" and x.size()>32 else x; x=S(x if x.size()==64 else (zx(x,64) if k=="u" else sx(x,64))); nd,L=sg.dec_node(st,x); l.append(("r",nd,ZERO,L))
            l=norm(l); n=ZERO
            for x in l: n=n+(bv64(len(x[1])) if x[0]=="b" else bv64(1) if x[0]=="c" else x[3])
            n=S(n); size=zx(a[1],64) if a[1].size()<64 else a[1]; e.access(st,a[0],size,"w","snprintf target"); e.prove(st,z3.ULT(n,size),what)
            if not(isc(a[0].off) and cv(a[0].off)==0): raise Unsupported("snprintf into the middle of an object")
            node=base_arr(fresh_arr("text")); st.mem[a[0].obj.id]=node; s.buf(st,node,l); return z3.Extract(31,0,n)
        e.models.insert(0,(re.compile(r'snprintf$'),sn)); e.model_cache.clear()
    def isstr(s,oid,off): return any(k[0]==oid and isc(p.off) and cv(p.off)==off for k,p in s.addr.items())
    # ---- strings that a loop extends
    def head(s,st0,h,pos):
        mine=[]
        for p in list(s.addr.values()):
            if p.obj.id not in st0.mem or p.obj.id not in h.mem or st0.mem[p.obj.id] is h.mem[p.obj.id]: continue
            try: v0,v=s.ver(st0,p),s.ver(h,p)
            except Unsupported: continue
            if v0.eq(v): continue
            t=dict(ver=v,owner=p,before=s.get(st0,p),backs=[],pos=pos); s.tok[v.get_id()]=t; s.keep.append(v); mine.append(t)
        return mine
    def back(s,mine,bs,pos):
        for t in mine:
            l=norm(s.get(bs,t["owner"])); ok=l and l[0][0]=="r" and l[0][1].k=="arr" and l[0][1].v.eq(TXT(t["ver"])); t["backs"].append((bs.clone(),l[1:] if ok else None,pos))
    def expand(s,l):
        out=[]
        for x in l:
            t=s.tok.get(x[1].v.arg(0).get_id()) if x[0]=="r" and x[1].k=="arr" and z3.is_app(x[1].v) and x[1].v.decl().eq(TXT) else None
            if t is None: out.append(x); continue
            out+=s.expand(t["before"])+[("loop",id(t),t)]
        return norm(out)
