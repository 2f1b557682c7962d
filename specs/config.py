"""Contracts of lce::CConfig (C28).  The file is an arbitrary sequence of lines (getline: any text, any number of
times); each line's effect on the stored values and on the section in force is compared with the contract's own
reading of that line (first non-blank, first ']' and '=', blanks trimmed).  The getters are compared with a map that
does or does not hold the section and the key."""
import z3,re
from engine import *
import strmodel as sm
from segs import same_node
TU=["config.cpp","/repo/src/CConfig.cpp"]
C="lce::CConfig"; ST="std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
CONTRACTS=[C+"::"+f for f in("CConfig","loadConfig","getValue (all overloads)","getIPAndPort")]
V64=z3.BitVecSort(64)
def bl(c): return z3.Or(*[c==b for b in b" \t\r\n"])
def bl2(c): return z3.Or(c==32,c==9)
class Cfg:
    """ghost: the section in force (node, offset, length) and the line being read with what it has stored so far"""
    def __init__(s,w,sec,line=None,puts=()): s.w=w; s.sec=sec; s.line=line; s.puts=puts
    def env(s): return {}
    def up(s,**k): d=dict(w=s.w,sec=s.sec,line=s.line,puts=s.puts); d.update(k); return Cfg(**d)
    def havoc(s,e,h):
        w=s.w; w.heads={}
        for oid,o in h.objs.items():
            if o.kind=="strbuf" and oid in h.mem and oid not in h.dead: w.heads[id(h.mem[oid])]=Ptr(*o.ghost["owner"]); w.keep.append(h.mem[oid])
        sec=s.sec
        if w.carrier is not None:
            n=sm.slen(e,h,w.carrier); nd=sm.chars(e,h,w.carrier); sec=(nd,ZERO,n); h.assume(w.trimmed(h,sec))
        return Cfg(w,sec),[]
def reads(pc,D):
    """the positions at which the path condition looks at the text"""
    seen=set(); todo=list(pc); out=[]
    while todo:
        x=todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind()==z3.Z3_OP_SELECT and x.arg(0).eq(D): out.append(x.arg(1))
        todo+=x.children()
    return out
class W:
    def __init__(w,e):
        w.e=e; w.st=st=State(); w.this=e.newc(st,C,"config"); w.keep=[]; w.carrier=None; w.heads={}; w.lines=[]; e.assumptions.add("assumed contract: std::getline yields the lines of the file, one per call, and fails after the last; std::map finds, creates and keeps values by key; ifstream")
        w.strings=0; w.MAPO=e.foff(C,"m_mapConfig")
        st.abs["cfg"]=Cfg(w,(base_fill(BV(0,8)),ZERO,ZERO))
    def arg(w,name,st=None):
        st=st or w.st; n=z3.BitVec("len_"+name,64); st.assume(z3.ULT(n,1<<31)); D=z3.Array(name,V64,z3.BitVecSort(8)); o=w.e.new_obj(st,name,32); sm.mk(w.e,st,Ptr(o),Node("st",base_arr(D),n,1,BV(0,8)),n); return Ptr(o),(base_arr(D),ZERO,n)
    def text(w,st,p):
        n=sm.slen(w.e,st,p); b,o=sm.origin(w.e,st,sm.chars(w.e,st,p),ZERO,n); return b,o,n
    def ch(w,st,t,i): return w.e._read(st,t[0],S(t[1]+i),1)
    def trimmed(w,st,t):
        b,o,n=t; r=lambda i: w.e._read(st,b,S(i),1); return z3.Or(n==0,z3.And(z3.Not(bl(r(o))),z3.Not(bl(r(o+n-1)))))
    def eq(w,a,b): return z3.And(a[2]==b[2],z3.Or(a[2]==0,z3.And(z3.BoolVal(same_node(a[0],b[0])),a[1]==b[1])))
    # ---------------------------------------------------------------- models
    def load_models(w):
        e=w.e; WHAT="lce::TrimStr(%s&)"%ST
        def trim(e_,st,a,ins):
            """contract proved under C18: the text without its leading and trailing blanks"""
            b,o,n=w.text(st,a[0]); lo=fresh("trim_lo",64); hi=fresh("trim_hi",64); end=S(o+n); st.assume(z3.And(z3.ULE(o,lo),z3.ULE(lo,hi),z3.ULE(hi,end))); r=lambda i: e._read(st,b,S(i),1)
            F=lambda k: z3.And(z3.Implies(z3.And(z3.UGE(k,o),z3.ULT(k,lo)),bl(r(k))),z3.Implies(z3.And(z3.UGE(k,hi),z3.ULT(k,end)),bl(r(k))),z3.Implies(z3.And(lo==hi,z3.UGE(k,o),z3.ULT(k,end)),bl(r(k))))
            st.assume(z3.Or(lo==hi,z3.And(z3.Not(bl(r(lo))),z3.Not(bl(r(hi-1)))))); sm.add_fact(st,F); w.pts(st,lo,S(hi-1),o,S(end-1)); st.assume(z3.And(F(o),F(S(end-1))))
            nd=Node("cp",base_fill(BV(0,8)),ZERO,S(hi-lo),b,lo); sm.put(e,st,a[0],b,lo,S(hi-lo)); return None
        def trim_(e_,st,a,ins): trim(e_,st,a,ins); return Outcome("ret",a[0],st)
        e.contracts[WHAT]=trim_
        def M(p,f): e.models.insert(0,(re.compile(p),f))
        IO=256
        def ifctor(e_,st,a,ins,d):
            vt=e.new_obj(st,"vtable",64); st.mem[vt.id]=Node("st",st.mem[vt.id],ZERO,8,bv64(IO)); p=a[0]; st.mem[p.obj.id]=Node("st",st.mem[p.obj.id],p.off,8,Ptr(vt,bv64(24))); w.stream=p.obj; e.rawstore(st,Ptr(p.obj,bv64(8)),BV(0,8),1)
            if "(char const*" in d or "basic_string" in d.split("::basic_ifstream(")[1]: opn(e_,st,a,ins,d)
        def opn(e_,st,a,ins,d): w.opened(st,a[1]); x=fresh("open_failed",8); st.assume(z3.ULE(x,1)); e.rawstore(st,Ptr(a[0].obj,bv64(8)),x,1); st.ghost[("nohavoc","openfail")]=x
        IFS=r'std::basic_ifstream<char, std::char_traits<char>>::'
        M(IFS+r'basic_ifstream\(',ifctor); M(IFS+r'~basic_ifstream\(',lambda *a: None); M(IFS+r'open\(',opn); M(IFS+r'close\(\)',lambda *a: None)
        flag=lambda st,p: e._read(st,st.mem[p.obj.id],bv64(8),1)
        bit=lambda c: S(z3.If(c,BV(1,1),BV(0,1)))
        BI=r'std::basic_ios<char, std::char_traits<char>>::'
        M(BI+r'(fail\(\) const|operator!\(\) const|eof\(\) const|bad\(\) const)',lambda e_,st,a,ins,d: bit(flag(st,a[0])!=0)); M(BI+r'(operator bool\(\) const|good\(\) const)',lambda e_,st,a,ins,d: bit(flag(st,a[0])==0)); M(IFS+r'is_open\(\)',lambda e_,st,a,ins,d: bit(flag(st,a[0])==0))
        def getline(e_,st,a,ins,d):
            if len(a)>2: raise Unsupported(d)
            w.flush(st); e.prove(st,flag(st,a[0])==0,"C28 reading goes on only while there are lines"); t=st.clone(); e.rawstore(t,Ptr(a[0].obj,bv64(8)),BV(1,8),1); sm.put(e,t,a[1],base_fill(BV(0,8)),ZERO,ZERO); t.abs["cfg"]=t.abs["cfg"].up(line=None,puts=())
            n=fresh("line_len",64); D=fresh_arr("line"); st.assume(z3.ULT(n,1<<40)); nd=base_arr(D); FI=fresh("first_nonblank",64); st.assume(z3.And(z3.ULE(FI,n),z3.Or(FI==n,z3.Not(bl2(z3.Select(D,FI))))))
            sm.put(e,st,a[1],nd,ZERO,n); st.abs["cfg"]=st.abs["cfg"].up(line=dict(n=n,D=D,node=nd,FI=FI),puts=()); sm.inst(st,FI)
            return [Outcome("ret",a[0],st),Outcome("ret",a[0],t)]
        M(r'std::basic_istream<char, std::char_traits<char>>& std::getline<',getline)
        M2=r'std::map<'+re.escape(ST)+r', std::map<.*>::'; M1=r'std::map<'+re.escape(ST)+r', '+re.escape(ST)+r', .*>::'
        def outer(e_,st,a,ins,d):
            if a[0].obj is not w.this.obj: raise Unsupported("another map")
            t=w.text(st,a[1])
            if w.carrier is None:
                for nid,p in w.heads.items():
                    if id(t[0])==nid: w.carrier=p
            o=e.new_obj(st,"section",48); o.ghost["sec"]=t; return Ptr(o)
        def inner(e_,st,a,ins,d):
            if "sec" not in a[0].obj.ghost: raise Unsupported("another map")
            o=e.new_obj(st,"value",32); sm.mk(e,st,Ptr(o)); g=st.abs["cfg"]; st.abs["cfg"]=g.up(puts=g.puts+((a[0].obj.ghost["sec"],w.text(st,a[1]),Ptr(o)),)); return Ptr(o)
        M(M1+r'operator\[\]\(',inner); M(M2+r'operator\[\]\(',outer); M(r'std::map<.*>::~?map\(',lambda *a: None)
        def sn(e_,st,a,ins,d):
            size=zx(a[1],64) if a[1].size()<64 else a[1]; e.access(st,a[0],size,"w","snprintf target"); x=fresh_arr("msg"); L=fresh("msg_len",64); st.assume(z3.ULT(L,1024)); st.mem[a[0].obj.id]=Node("cp",st.mem[a[0].obj.id],a[0].off,size,base_arr(x),ZERO); return z3.Extract(31,0,L)
        M(r'snprintf$',sn); e.model_cache.clear()
        def hook(e_,st0,fr,dname,hdr,body):
            if "lce::" not in dname: return None
            line=st0.abs["cfg"].line; outer_=line is None; box={}
            def head(h):
                if not outer_: return
                g=st0.abs["cfg"]; t=st0.clone(); e.prove(t,z3.BoolVal(w.carrier is not None),"C28 the values are stored under a section")
                if w.carrier is not None: e.prove(t,z3.And(w.eq(w.text(t,w.carrier),g.sec),w.trimmed(t,g.sec)),"C28 values before any section line have the empty section")
            def back(b):
                if not outer_: return
                w.flush(b); 
                if w.carrier is not None: b=b.clone(); t=w.text(b,w.carrier); sm.inst(b,t[1],S(t[1]+t[2]-1),b.abs["cfg"].sec[1]); e.prove(b,w.eq(t,b.abs["cfg"].sec),"C28 the section stays in force until the next section line"); e.prove(b,w.trimmed(b,b.abs["cfg"].sec),"C28 the section is trimmed")
            def cands(e__,s0,h,e0,eh,vs):
                if line is None: return []
                return [(("before",v),lambda s,en,it,v=v: z3.ULE(en[v],line["FI"])) for v in vs if e0[v].size()==64]
            return {"head":head,"back":back,"cands":cands,"nocand":(lambda k: True) if outer_ else None}
        e.loop_hooks=[hook]
    def pts(w,st,*p): st.ghost[("nohavoc","trimpts")]=st.ghost.get(("nohavoc","trimpts"),())+tuple(p)
    def opened(w,st,p):
        w.e.prove(st,z3.BoolVal(getattr(w,"path",None) is not None and isinstance(p,Ptr) and p.obj is w.path and isc(p.off) and cv(p.off)==0),"C28 the file named by the caller is read")
    # ---------------------------------------------------------------- what a line means
    def flush(w,st):
        g=st.abs["cfg"]; L=g.line
        if L is None: return
        e=w.e; t=st.clone(); n,D,FI=L["n"],L["D"],L["FI"]; r=lambda i: z3.Select(D,S(i))
        F=[]; P=[FI]
        def first(lo,c):
            """first position >= lo of the character, n when there is none"""
            x=fresh("first_%s"%c,64); t.assume(z3.And(z3.ULE(lo,x),z3.ULE(x,n),z3.Or(x==n,r(x)==ord(c)))); F.append(lambda k: z3.Implies(z3.And(z3.UGE(k,lo),z3.ULT(k,x)),r(k)!=ord(c))); P.append(x); return x
        def trim(lo,hi,ok):
            a,b=fresh("from",64),fresh("to",64); t.assume(z3.Implies(ok,z3.And(z3.ULE(lo,a),z3.ULE(a,b),z3.ULE(b,hi),z3.Or(a==b,z3.And(z3.Not(bl(r(a))),z3.Not(bl(r(b-1))))))))
            F.append(lambda k: z3.Implies(ok,z3.And(z3.Implies(z3.And(z3.UGE(k,lo),z3.ULT(k,a)),bl(r(k))),z3.Implies(z3.And(z3.UGE(k,b),z3.ULT(k,hi)),bl(r(k))),z3.Implies(z3.And(a==b,z3.UGE(k,lo),z3.ULT(k,hi)),bl(r(k)))))); P.extend([a,S(b-1)]); return a,b
        F.append(lambda k: z3.Implies(z3.ULT(k,FI),bl2(r(k))))
        EQ=first(FI,"="); RB=first(FI,"]"); c=r(FI); has=z3.ULT(FI,n); com=z3.And(has,z3.Or(c==ord("#"),c==ord(";"))); sec=z3.And(has,c==ord("["),z3.ULT(RB,n)); nosec=z3.And(has,c==ord("["),RB==n)
        kv=z3.And(has,z3.Not(com),c!=ord("["),z3.ULT(EQ,n)); ka,kb=trim(FI,EQ,kv); va,vb=trim(S(EQ+1),n,kv); sa,sb=trim(S(FI+1),RB,sec)
        code=[p[4] for p in t.ghost.get(("nohavoc","finds"),()) if p[4] is not None]+list(t.ghost.get(("nohavoc","trimpts"),()))+list(t.ghost.get(("nohavoc","pts"),()))
        code+=reads(t.pc,D)
        for k in {x.get_id():x for x in code+P}.values():
            for f in F: t.assume(f(k))
        sm.inst(t,*P)
        if g.sec[2] is not ZERO: sm.inst(t,g.sec[1],S(g.sec[1]+g.sec[2]-1))
        line=lambda a,b: (L["node"],a,S(b-a)); e.prove(t,z3.BoolVal(len(g.puts)<=1),"C28 a line stores at most one value"); store=z3.And(kv,ka!=kb)
        if not g.puts: e.prove(t,z3.Not(store),"C28 a key=value line is stored"); w.cov.add("nothing")
        else:
            s_,k_,p=g.puts[0]; v_=w.text(t,p); e.prove(t,z3.Not(com),"C28 comments contribute nothing"); e.prove(t,store,"C28 only key=value lines are stored")
            if e.sat(t,[store]): w.cov.add("stored")
            e.prove(t,z3.Implies(store,w.eq(k_,line(ka,kb))),"C28 the key is the trimmed text before the first '='"); e.prove(t,z3.Implies(store,w.eq(v_,line(va,vb))),"C28 the value is the trimmed text behind the first '='"); e.prove(t,w.eq(s_,g.sec),"C28 the value is stored under the section in force")
        # the section after the line
        new=g.sec; car=w.text(t,w.carrier) if w.carrier is not None else None
        d=e.decide(t,sec)
        if d is None and car is not None: e.prove(t,FALSE,"C28 section lines are told from other lines"); 
        if d is True:
            w.cov.add("section"); new=line(sa,sb); u=t
            e.prove(t,z3.BoolVal(not g.puts),"C28 a section line stores no value")
            if car is not None: sm.inst(t,car[1],S(car[1]+car[2]-1)); e.prove(t,w.eq(car,new),"C28 a section line sets the section to the trimmed text between the brackets")
            st.pc=list(t.pc)
        st.abs["cfg"]=g.up(line=None,puts=(),sec=new)
def u_load(e):
    w=W(e); w.cov=set(); st=w.st; p,t=w.arg("file_name"); w.path=sm.sget(e,st,p)[0]; w.load_models()
    for o in e.run(st,C+"::loadConfig(%s const&)"%ST,[w.this,p]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C28 loadConfig does not throw")
        if o.kind!="ret": continue
        w.flush(s); f=e._read(s,s.mem[w.stream.id],bv64(8),1); of=s.ghost.get(("nohavoc","openfail"),BV(0,8)); r=e.asbool(o.val) if hasattr(e,"asbool") else (o.val if z3.is_bool(o.val) else o.val!=0)
        e.prove(s,r==(of==0),"C28 loadConfig tells whether the file could be opened"); e.prove(s,f!=0,"C28 every line of the file is read"); w.cov.add("ret")
    e.cover(w.cov,{"nothing","stored","section","ret"})
def u_ctor(e):
    w=W(e); w.cov=set(); w.load_models(); st=w.st; st.mem[w.this.obj.id]=base_arr(fresh_arr("uninit"))
    for o in e.run(st,C+"::CConfig()",[w.this]):
        m=Ptr(w.this.obj,bv64(e.foff(C,"m_szErrMsg"))); e.prove(o.st,z3.And(z3.BoolVal(o.kind=="ret"),e._read(o.st,o.st.mem[m.obj.id],m.off,1)==0),"C28 a new configuration has a defined message")
# ------------------------------------------------------------------ getters
class Get(W):
    def __init__(w,e):
        W.__init__(w,e); st=w.st; w.sec,w.key=w.arg("section"),w.arg("key"); w.hs=z3.Bool("has_section"); w.hk=z3.Bool("has_key"); w.endo=e.new_obj(st,"outer end",64); w.ende=e.new_obj(st,"inner end",64); w.no=e.new_obj(st,"section node",128); w.ni=e.new_obj(st,"value node",64)
        n=z3.BitVec("len_value",64); st.assume(z3.ULT(n,1<<31)); D=z3.Array("value",V64,z3.BitVecSort(8)); w.val=(base_arr(D),ZERO,n); nd=Node("st",base_arr(D),n,1,BV(0,8)); sm.mk(e,st,Ptr(w.ni,bv64(32)),nd,n); w.N={k:z3.Function("number_"+k,V64,V64,V64) for k in "su"}
        def M(p,f): e.models.insert(0,(re.compile(p),f))
        M2=r'std::map<'+re.escape(ST)+r', std::map<.*>::'; M1=r'std::map<'+re.escape(ST)+r', '+re.escape(ST)+r', .*>::'; IT=r'std::_Rb_tree_(const_)?iterator<.*>::'; bit=lambda c: S(z3.If(c,BV(1,1),BV(0,1)))
        def inner_of(a):
            if not(isinstance(a,Ptr) and a.obj is w.no and isc(a.off) and cv(a.off)==32): raise Unsupported("another map")
        def outer_of(a):
            if not(isinstance(a,Ptr) and a.obj is w.this.obj and isc(a.off) and cv(a.off)==w.MAPO): raise Unsupported("another map")
        def find(who,want,cond,yes,no,what):
            def f(e_,st,a,ins,d):
                who(a[0]); e.prove(st,w.eq(w.text(st,a[1]),want),what); t=st.clone(); st.assume(cond); t.assume(z3.Not(cond)); return [Outcome("ret",yes(),x) for x in(st,) if e.sat(x)]+[Outcome("ret",no(),x) for x in(t,) if e.sat(x)]
            return f
        NS,NK="C28 the section asked for is looked up","C28 the key asked for is looked up"
        M(M1+r'find\(',find(inner_of,w.key[1],w.hk,lambda: Ptr(w.ni),lambda: Ptr(w.ende),NK)); M(M1+r'c?end\(\)',lambda e_,st,a,ins,d: (inner_of(a[0]),Ptr(w.ende))[1]); M(M1+r'count\(',find(inner_of,w.key[1],w.hk,lambda: bv64(1),lambda: ZERO,NK))
        M(M2+r'find\(',find(outer_of,w.sec[1],w.hs,lambda: Ptr(w.no),lambda: Ptr(w.endo),NS)); M(M2+r'c?end\(\)',lambda e_,st,a,ins,d: (outer_of(a[0]),Ptr(w.endo))[1]); M(M2+r'count\(',find(outer_of,w.sec[1],w.hs,lambda: bv64(1),lambda: ZERO,NS))
        cur=lambda st,p: e._read(st,st.mem[p.obj.id],p.off,8)
        def deref(e_,st,a,ins,d):
            x=cur(st,a[0]); e.prove(st,z3.BoolVal(isinstance(x,Ptr) and x.obj in(w.no,w.ni)),"memory-safety: the iterator denotes an entry"); return x
        M(IT+r'operator(\*|->)\(\) const$',deref)
        def cmp(neg):
            def f(e_,st,a,ins,d): x,y=cur(st,a[0]),cur(st,a[1]); return BV(1 if (x.obj is y.obj)!=neg else 0,1)
            return f
        M(r'(bool )?std::operator!=\(std::_Rb_tree_(const_)?iterator<',cmp(True)); M(r'(bool )?std::operator==\(std::_Rb_tree_(const_)?iterator<',cmp(False))
        M(IT+r'_Rb_tree_(const_)?iterator\(',lambda e_,st,a,ins,d: (e.rawcopy(st,a[0],a[1],8),None)[1])
        def num(e_,st,a,ins,d):
            if len(a)>2 and not(isc(S(a[2])) and cv(S(a[2]))==10): raise Unsupported("another base")
            p=a[0]; l=sm.cstr(e,st,p); b,o=sm.origin(e,st,st.mem[p.obj.id],p.off,S(l)); k="u" if "toul" in d else "s"
            t=w.numof(st,b,o,l,k); return S(z3.Extract(31,0,t)) if d.startswith("atoi") else t
        M(r'(atoi|atol|atoll|strtol|strtoll|strtoul|strtoull|__isoc23_strto\w+)(\(.*)?$',num); e.model_cache.clear(); e.assumptions.add("assumed contract: atoi/atol/strtol and strtoul give the number a text denotes, within the signed and the unsigned range")
    def numof(w,st,b,o,l,k):
        """the number denoted by the text up to its first zero byte"""
        if not same_node(b,w.val[0]): raise Unsupported("the number of another text")
        return w.N[k](S(o),S(l))
    def clen(w,st,off=ZERO): return None
TY=[("int",32,"su",True),("unsigned int",32,"su",False),("long",64,"s",True),("unsigned short",16,"su",False),("unsigned char",8,"su",False),("unsigned long",64,"u",False)]
def get_one(e,ty,sz,ks):
    cov=set(); w=Get(e); st=w.st
    # the C string of the value: up to its first zero byte
    z=w.val[2]
    dflt=z3.BitVec("default",sz); o=e.new_obj(st,"out",8); ref=Ptr(o)
    for q in e.run(st,"%s::getValue(%s const&, %s const&, %s&, %s)"%(C,ST,ST,ty,ty),[w.this,w.sec[0],w.key[0],ref,dflt]):
        s=q.st; e.prove(s,z3.BoolVal(q.kind=="ret"),"C28 getValue does not throw")
        if q.kind!="ret": continue
        v=e._read(s,s.mem[o.id],ZERO,sz//8); there=z3.And(w.hs,w.hk); d=e.decide(s,there); e.prove(s,z3.BoolVal(d is not None),"C28 the value depends on whether section and key are stored"); rv=q.val
        if d is None: continue
        r=z3.Extract(sz-1,0,rv) if rv.size()>sz else rv; e.prove(s,v==r,"C28 getValue returns what it stores")
        if d is False: cov.add("default"); e.prove(s,v==dflt,"C28 a missing key yields the caller's default"); continue
        cov.add("value"); L=[x[0] for k,x in s.ghost.items() if isinstance(k,tuple) and k[:2]==("nohavoc","cstr")]
        e.prove(s,z3.Or(*[v==z3.Extract(sz-1,0,w.N[k](ZERO,l)) for k in ks for l in L]) if L else FALSE,"C28 the numeric getter for %s converts the stored text"%ty)
    e.cover(cov,{"value","default"})
def u_bool(e):
    cov=set(); w=Get(e); st=w.st; dflt=z3.BitVec("default",1); o=e.new_obj(st,"out",8)
    for q in e.run(st,"%s::getValue(%s const&, %s const&, bool&, bool)"%(C,ST,ST),[w.this,w.sec[0],w.key[0],Ptr(o),dflt]):
        s=q.st; e.prove(s,z3.BoolVal(q.kind=="ret"),"C28 getValue does not throw")
        if q.kind!="ret": continue
        v=e._read(s,s.mem[o.id],ZERO,1); d=e.decide(s,z3.And(w.hs,w.hk)); e.prove(s,z3.BoolVal(d is not None),"C28 the value depends on whether section and key are stored"); e.prove(s,z3.And(z3.ULE(v,1),zx(q.val,8)==v),"C28 getValue returns what it stores")
        if d is False: cov.add("default"); e.prove(s,v==zx(dflt,8),"C28 a missing key yields the caller's default"); continue
        cov.add("value"); L=[x[0] for k,x in s.ghost.items() if isinstance(k,tuple) and k[:2]==("nohavoc","cstr")]
        e.prove(s,z3.Or(*[(v!=0)==(w.N[k](ZERO,l)!=0) for k in "su" for l in L]) if L else FALSE,"C28 the bool getter tells whether the number is not zero")
    e.cover(cov,{"value","default"})
def u_text(e):
    cov=set(); w=Get(e); st=w.st; d_,dt=w.arg("default_text"); o,_=w.arg("out_text")
    for q in e.run(st,"%s::getValue(%s const&, %s const&, %s&, %s const&)"%(C,ST,ST,ST,ST),[w.this,w.sec[0],w.key[0],o,d_]):
        s=q.st; e.prove(s,z3.BoolVal(q.kind=="ret"),"C28 getValue does not throw")
        if q.kind!="ret": continue
        d=e.decide(s,z3.And(w.hs,w.hk)); e.prove(s,z3.BoolVal(d is not None and isinstance(q.val,Ptr) and q.val.obj is o.obj),"C28 the value depends on whether section and key are stored")
        if d is True: cov.add("value"); e.prove(s,w.eq(w.text(s,o),w.val),"C28 the text getter yields the stored text")
        else: cov.add("default"); e.prove(s,w.eq(w.text(s,o),dt),"C28 a missing key yields the caller's default")
    e.cover(cov,{"value","default"})
def u_ipport(e):
    cov=set(); w=Get(e); st=w.st; d_,dt=w.arg("default_ip"); o,_=w.arg("out_ip"); dp=z3.BitVec("default_port",16); po=e.new_obj(st,"port",8); D=w.val[0].v
    for q in e.run(st,"%s::getIPAndPort(%s const&, %s const&, %s&, unsigned short&, %s const&, unsigned short)"%(C,ST,ST,ST,ST),[w.this,w.sec[0],w.key[0],o,Ptr(po),d_,dp]):
        s=q.st; e.prove(s,z3.BoolVal(q.kind=="ret"),"C28 getIPAndPort does not throw")
        if q.kind!="ret": continue
        r=q.val if z3.is_bool(q.val) else q.val!=0; p=e._read(s,s.mem[po.id],ZERO,2); d=e.decide(s,r)
        e.prove(s,z3.BoolVal(d is not None),"C28 getIPAndPort tells whether it found an address")
        if d is False: cov.add("default"); e.prove(s,z3.And(w.eq(w.text(s,o),dt),p==dp),"C28 a missing or malformed address yields the default"); continue
        cov.add("value"); t=w.text(s,o); k=t[2]; sm.inst(s,k); L=[x[0] for kk,x in s.ghost.items() if isinstance(kk,tuple) and kk[:2]==("nohavoc","cstr")]
        e.prove(s,z3.And(w.hs,w.hk,z3.BoolVal(same_node(t[0],w.val[0])),t[1]==0,z3.ULT(k,w.val[2]),z3.Select(D,k)==ord(":")),"C28 the address is the text before the colon"); e.prove(s,z3.Or(*[p==z3.Extract(15,0,w.N[x](S(k+1),l)) for x in "su" for l in L]) if L else FALSE,"C28 the port is the number behind the colon")
    e.cover(cov,{"value","default"})
UNITS=[("load",u_load),("ctor",u_ctor)]+[("get "+t[0],lambda e,t=t: get_one(e,*t[:3])) for t in TY]+[("get bool",u_bool),("get text",u_text),("ipport",u_ipport)]
