"""Contracts of lce::CHttpWriter (C19).  The response is compared, as a sequence of text segments, with the
status line, one line per header and cookie (the loops over the maps: per entry exactly its line, entries in
order, each once), the blank line and the body."""
import z3,re
from engine import *
import strmodel as sm, segs as sg, segstr
from segs import segs,same,str_segs,lines,norm,show
TU=["httpwriter.cpp","/repo/src/CHttpWriter.cpp"]
C="lce::CHttpWriter"; ST="std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
CONTRACTS=[C+"::"+f for f in("CHttpWriter","begin","end","setHead","setCookie","setStatusCode","setConnection","setContentType","setCacheControl","setBodyLen","setLocation","setLastModified","setExpires","setETag","write","operator<<(const char*)","operator<<(const string&)","data","size","getData","getDataLen","getStatusCodeDesc")]
K=z3.BitVec("K",64); GMT=z3.Function("gmt_text",sg.B64,sg.A8)
STRS=("m_sConnection","m_sContentType","m_sCacheControl","m_sLocation","m_sETag","m_sBodyContent","m_sSendData")
class Pos:
    """how far the loops have gone through the headers and the cookies"""
    def __init__(s,**v): s.v=v
    def env(s): return dict(s.v)
    def havoc(s,e,h): n={k:fresh("pos_"+k,64) for k in s.v}; return Pos(**n),list(n.values())
    def set(s,**k): v=dict(s.v); v.update(k); return Pos(**v)
class W:
    def __init__(w,e,seg=False):
        w.e=e; w.q=segstr.SegStr(e) if seg else None; w.st=st=State(); w.this=e.newc(st,C,"writer"); w.s={}; w.log=[]
        for f in STRS:
            n=z3.BitVec("len_"+f,64); st.assume(z3.ULT(n,1<<32)); D=fresh_arr(f); w.mk(st,w.p(f),D,n); w.s[f]=[("r",base_arr(D),ZERO,n)]; w.s[f+".len"]=n
        w.status=z3.BitVec("status",32); w.mod=z3.BitVec("modified",64); w.exp=z3.BitVec("expires",64); w.blen=z3.BitVec("set_length",64); e.setf(st,w.this,C,m_iStatusCode=w.status,m_dwLastModified=w.mod,m_dwExpiresTime=w.exp,m_dwSetBodyLen=w.blen)
        w.n={"H":z3.BitVec("headers",64),"C":z3.BitVec("cookies",64)}; st.assume(z3.And(z3.ULT(w.n["H"],1<<32),z3.ULT(w.n["C"],1<<32)))
        w.ent={k:e.new_obj(st,"entries "+k,bv64(1<<40)) for k in w.n}; st.abs["pos"]=Pos(H=ZERO,C=ZERO); w.memo={}; w.models()
    def p(w,f): return Ptr(w.this.obj,S(w.this.off+w.e.foff(C,f)))
    def mk(w,st,p,D,n):
        if w.q: w.q.set(st,p,[("r",base_arr(D),ZERO,n)])
        else: sm.mk(w.e,st,p,Node("st",base_arr(D),n,1,BV(0,8)),n)
    def entry(w,st,k,i):
        """the i-th (name, value) pair of a map"""
        i=S(i); m=w.memo.get((k,i.get_id()))
        if m is None:
            o=Obj("entry %s"%k,256); D={}; m=w.memo[(k,i.get_id())]=dict(obj=o,i=i,k=k,strs={},t=fresh("cookie_time",64)); V="lce::CHttpWriter::StCookieInfo"
            offs={"name":0}; offs.update({"value":32} if k=="H" else {f:32+w.e.foff(V,f) for f in("sValue","sDomain","sPath")})
            for f,x in offs.items(): m["strs"][f]=(x,fresh_arr("%s_%s"%(k,f)),fresh("len_%s_%s"%(k,f),64))
        o=m["obj"]
        if o.id not in st.mem:
            st.mem[o.id]=base_arr(fresh_arr("entry")); st.objs[o.id]=o
            for f,(x,D,n) in m["strs"].items(): st.assume(z3.ULT(n,1<<32)); w.mk(st,Ptr(o,bv64(x)),D,n)
            if k=="C": w.e.rawstore(st,Ptr(o,bv64(32+w.e.foff("lce::CHttpWriter::StCookieInfo","dwCookieTime"))),m["t"],8)
        return m
    V="lce::CHttpWriter::StCookieInfo"
    def copy(w,st,k,to,fr,new=False):
        """copy a map value"""
        fs=[0] if k=="H" else [w.e.foff(w.V,f) for f in("sValue","sDomain","sPath")]
        for x in fs:
            t,f=Ptr(to.obj,S(to.off+x)),Ptr(fr.obj,S(fr.off+x))
            if w.q: w.q.set(st,t,w.q.get(st,f)); continue
            if new: sm.mk(w.e,st,t)
            sm.put(w.e,st,t,sm.chars(w.e,st,f),ZERO,sm.slen(w.e,st,f))
        if k=="C": x=w.e.foff(w.V,"dwCookieTime"); w.e.rawcopy(st,Ptr(to.obj,S(to.off+x)),Ptr(fr.obj,S(fr.off+x)),8)
    def text(w,m,f): x,D,n=m["strs"][f]; return [("r",base_arr(D),ZERO,n)]
    def models(w):
        e=w.e; WHAT="C19 no line is cut off: the text fits its buffer"; w.q.snprintf(WHAT) if w.q else sg.snprintf(e,WHAT); e.assumptions.add("assumed contract: std::map iterates over its entries in order, each once; GetGMTDate yields the 29-byte HTTP date of its argument")
        def M(p,f): e.models.insert(0,(re.compile(p),f))
        def which(p):
            for k,f in(("H","m_mapHead"),("C","m_mapCookie")):
                if isinstance(p,Ptr) and p.obj is w.this.obj and isc(p.off) and cv(p.off)==e.foff(C,f): return k
            raise Unsupported("another map")
        MAP=r'std::map<'+re.escape(ST)+r', .*>::'; IT=r'std::_Rb_tree_(const_)?iterator<std::pair<'+re.escape(ST)+r' const, .*>>::'
        cur=lambda st,p: e._read(st,st.mem[p.obj.id],p.off,8)
        def kind(x):
            for k,o in w.ent.items():
                if isinstance(x,Ptr) and x.obj is o: return k
            raise Unsupported("an iterator of another map")
        def begin(e_,st,a,ins,d): k=which(a[0]); st.abs["pos"]=st.abs["pos"].set(**{k:ZERO}); return Ptr(w.ent[k],ZERO)
        M(MAP+r'c?begin\(\)( const)?$',begin); M(MAP+r'c?end\(\)( const)?$',lambda e_,st,a,ins,d: Ptr(w.ent[which(a[0])],w.n[which(a[0])]))
        M(MAP+r'empty\(\) const$',lambda e_,st,a,ins,d: S(z3.If(w.n[which(a[0])]==0,BV(1,1),BV(0,1)))); M(MAP+r'size\(\) const$',lambda e_,st,a,ins,d: w.n[which(a[0])])
        def step(e_,st,a,ins,d): x=cur(st,a[0]); k=kind(x); e.prove(st,x.off==st.abs["pos"].v[k],"C19 the entries are visited one after the other"); e.rawstore(st,a[0],x+1,8); st.abs["pos"]=st.abs["pos"].set(**{k:S(x.off+1)}); return a[0]
        def step_post(e_,st,a,ins,d): x=cur(st,a[0]); step(e_,st,a,ins,d); return x
        def deref(e_,st,a,ins,d): x=cur(st,a[0]); k=kind(x); e.prove(st,z3.And(x.off==st.abs["pos"].v[k],z3.ULT(x.off,w.n[k])),"memory-safety: the iterator denotes an entry"); return Ptr(w.entry(st,k,st.abs["pos"].v[k])["obj"])
        M(IT+r'operator(\*|->)\(\) const$',deref); M(IT+r'operator\+\+\(\)$',step); M(IT+r'operator\+\+\(int\)$',step_post); M(IT+r'_Rb_tree_(const_)?iterator\(',lambda e_,st,a,ins,d: (e.rawcopy(st,a[0],a[1],8),None)[1] if isinstance(a[1],Ptr) and a[1].obj not in w.ent.values() else (e.rawstore(st,a[0],a[1],8),None)[1])
        def cmp(neg): return lambda e_,st,a,ins,d: S(z3.If((cur(st,a[0]).off!=cur(st,a[1]).off) if neg else (cur(st,a[0]).off==cur(st,a[1]).off),BV(1,1),BV(0,1)))
        M(r'(bool )?std::operator!=\(std::_Rb_tree_(const_)?iterator<',cmp(True)); M(r'(bool )?std::operator==\(std::_Rb_tree_(const_)?iterator<',cmp(False))
        def key(st,p): return w.q.get(st,p) if w.q else str_segs(e,st,p)
        def clear(e_,st,a,ins,d): w.note(st,"clear",which(a[0])); return None
        M(MAP+r'clear\(\)$',clear)
        def fresh_value(st,k):
            o=e.new_obj(st,"value",256 if k=="C" else 32)
            for x in ([0] if k=="H" else [e.foff(w.V,f) for f in("sValue","sDomain","sPath")]):
                if w.q: w.q.set(st,Ptr(o,bv64(x)),[])
                else: sm.mk(e,st,Ptr(o,bv64(x)))
            return Ptr(o)
        def index(e_,st,a,ins,d):
            k=which(a[0]); v=fresh_value(st,k); w.note(st,"put",k,key(st,a[1]),v); return v
        def insert(e_,st,a,ins,d):
            """a (name, value) pair is inserted under a name that is not there yet"""
            k=which(a[0]); x=a[1]; v=fresh_value(st,k); w.note(st,"put",k,key(st,x),v); w.copy(st,k,v,Ptr(x.obj,S(x.off+32))); return [Outcome("ret",[Ptr(e.new_obj(st,"iterator",64)),BV(1,8)],st)]
        M(MAP+r'(insert|emplace)(<.*>)?\(',insert)
        def pair(e_,st,a,ins,d):
            k="C" if "StCookieInfo" in d else "H"
            if w.q: w.q.set(st,a[0],w.q.get(st,a[1]))
            else: sm.mk(e,st,a[0]); sm.put(e,st,a[0],*[sm.chars(e,st,a[1]),ZERO,sm.slen(e,st,a[1])])
            w.copy(st,k,Ptr(a[0].obj,S(a[0].off+32)),a[2],True)
        M(r'std::pair<'+re.escape(ST)+r' const, .*>::pair(<.*>)?\(',pair); M(r'std::pair<'+re.escape(ST)+r' const, .*>::~pair\(',lambda e_,st,a,ins,d: None)
        M(MAP+r'operator\[\]\(',index)
        M(r'time$',lambda e_,st,a,ins,d: w.now(st)); M(MAP+r'~?map\(',lambda e_,st,a,ins,d: None)
        def gmt(e_,st,a,ins,d):
            if w.q: w.q.set(st,a[0],[("r",base_arr(GMT(e.load(st,a[1],IntT(64)))),ZERO,bv64(29))]); return None
            t=e.load(st,a[1],IntT(64)); n=Node("st",base_arr(GMT(t)),bv64(29),1,BV(0,8)); sm.mk(e,st,a[0],n,bv64(29)); nd=sm.chars(e,st,a[0]); st.ghost[("nohavoc","cstr",id(nd),ZERO.get_id())]=(bv64(29),nd,ZERO); e._keep.append(nd); return None
        M(r'lce::GetGMTDate',gmt); e.model_cache.clear()
        def hook(e_,st0,fr,dname,hdr,body):
            if "lce::" not in dname or not w.q: return None
            box={}
            def enter(s): box["st0"]=s.clone()
            def head(h): box["pos"]=h.abs["pos"]; box["mine"]=w.q.head(box["st0"],h,h.abs["pos"])
            def back(b): w.q.back(box["mine"],b,(box["pos"],b.abs["pos"]))
            def cands(e__,s0,h,e0,eh,vs):
                out=[]; A=lambda k: ("abs","pos",k)
                for k in("H","C"):
                    out.append((("kept",k),lambda s,en,it,k=k: en[A(k)]==e0[A(k)])); out.append((("bound",k),lambda s,en,it,k=k: z3.ULE(en[A(k)],w.n[k])))
                    for v in vs:
                        if v[0]!="abs" and e0[v].size()==64: out.append((("at",k,v),lambda s,en,it,k=k,v=v: en[v]==en[A(k)]))
                for v in vs:
                    if v[0]!="abs" and e0[v].size()==64: out.append((("small",v),lambda s,en,it,v=v: z3.ULT(en[v],1<<40)))
                return out
            return {"enter":enter,"head":head,"back":back,"cands":cands,"nocand":lambda k: k[0]=="abs" or k[0]=="cell" and w.q.isstr(k[1],k[2])}
        e.loop_hooks=[hook]
    def reason(w):
        """contract of getStatusCodeDesc (its own unit proves it): a short text without line breaks, by the status alone"""
        n=z3.BitVec("len_phrase",64); w.st.assume(z3.And(z3.UGT(n,0),z3.ULT(n,64))); D=fresh_arr("phrase"); w.phrase=[("r",base_arr(D),ZERO,n)]
        def c(e,st,a,ins):
            e.prove(st,a[-1]==w.status,"C19 the reason phrase is that of the status"); o=e.new_obj(st,"phrase",bv64(64)); nd=base_arr(D); st.mem[o.id]=nd; w.q.buf(st,nd,w.phrase); return Ptr(o)
        w.e.contracts[C+"::getStatusCodeDesc(int)"]=c
    def note(w,st,*x): st.ghost[("nohavoc","log")]=st.ghost.get(("nohavoc","log"),())+(x,)
    def now(w,st): t=fresh("now",64); st.ghost[("nohavoc","nows")]=st.ghost.get(("nohavoc","nows"),())+(t,); return t
    def gmts(w,st,base=ZERO):
        """the possible texts of the date base + now"""
        return [("r",base_arr(GMT(S(base+t))),ZERO,bv64(29)) for t in st.ghost.get(("nohavoc","nows"),())]
def B(x): return ("b",x if isinstance(x,bytes) else x.encode())
def match(e,st,got,want,name):
    """got: lines; want: lines, each a list of alternatives; every wanted line occurs once, and no other"""
    got=list(got)
    for alts,w in want:
        i=next((i for i,g in enumerate(got) if any(same(e,st,g,a) for a in alts)),None); e.prove(st,z3.BoolVal(i is not None),name%w)
        if i is not None: got.pop(i)
    return got
CASES=("Expires","ETag","Cache-Control")
def u_end(e,case=None):
    w=W(e,True); st=w.st; cov=set(); loops={}; w.reason()
    if case is not None:   # one of the 8 cases in which these lines are or are not written
        for c,v in zip((w.exp>0,w.s["m_sETag.len"]!=0,w.s["m_sCacheControl.len"]!=0),case): st.assume(c if v else z3.Not(c))
    for o in e.run(st,C+"::end()",[w.this]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C19 end does not throw")
        if o.kind!="ret": continue
        l=w.q.expand(w.q.get(s,w.p("m_sSendData")))
        # body behind the first blank line
        i=0; head=[]; body=None
        for j,x in enumerate(l):
            if x[0]=="b" and b"\r\n\r\n" in x[1]: a,b=x[1].split(b"\r\n\r\n",1); head=l[:j]+[B(a+b"\r\n")]; body=([B(b)] if b else [])+l[j+1:]; break
        e.prove(s,z3.BoolVal(body is not None),"C19 a blank line ends the header")
        if body is None: continue
        if e.decide(s,w.s["m_sBodyContent.len"]==0) is True: want=[]; body=[x for x in body if not(x[0]=="r" and e.valid(s,x[3]==0))]
        else: want=w.s["m_sBodyContent"]
        e.prove(s,z3.BoolVal(same(e,s,body,want)),"C19 the body is exactly the bytes written")
        # loops stand between lines
        flat=[]; toks=[]
        for j,x in enumerate(norm(head)):
            if x[0]=="loop":
                prev=norm(head)[j-1] if j else None; e.prove(s,z3.BoolVal(prev is not None and (prev[0]=="loop" or prev[0]=="b" and prev[1].endswith(b"\r\n"))),"C19 header lines are written between complete lines"); toks.append(x[2])
            else: flat.append(x)
        got,rest=lines(flat); e.prove(s,z3.BoolVal(not rest),"C19 every header line is terminated")
        st_line=[B("HTTP/1.1 "),("r",base_arr(sg.DECF(S(sx(w.status,64)))),ZERO,sg.DECL(S(sx(w.status,64)))),B(" ")]
        ok=bool(got) and same(e,s,got[0],st_line+w.phrase)
        e.prove(s,z3.BoolVal(ok),"C19 the first line is the status line"); cov.add("status")
        D=lambda c: e.decide(s,c); want=[([[B("Connection: ")]+w.s["m_sConnection"]],"Connection"),([[B("Date: "),g] for g in w.gmts(s)],"Date"),([[B("Content-Type: ")]+w.s["m_sContentType"]],"Content-Type")]
        und=[]
        def opt(cond,alts,name):
            d=D(cond)
            if d is None: und.append(name)
            elif d: want.append((alts,name)); cov.add(name)
            else: cov.add("no "+name)
        opt(w.mod>0,[[B("Last-Modified: "),("r",base_arr(GMT(w.mod)),ZERO,bv64(29))]],"Last-Modified"); opt(w.exp>0,[[B("Expires: "),("r",base_arr(GMT(w.exp)),ZERO,bv64(29))]],"Expires")
        opt(w.s["m_sCacheControl.len"]!=0,[[B("Cache-Control: ")]+w.s["m_sCacheControl"]],"Cache-Control"); opt(w.s["m_sETag.len"]!=0,[[B("ETag: ")]+w.s["m_sETag"]],"ETag"); opt(w.s["m_sLocation.len"]!=0,[[B(t)]+w.s["m_sLocation"] for t in("Location:","Location: ")],"Location")
        n=w.s["m_sBodyContent.len"]; dec=lambda v: ("r",base_arr(sg.DECF(v)),ZERO,sg.DECL(v)); none=z3.Or(z3.And(w.status>=100,w.status<200),w.status==204,w.status==304); q=D(w.blen!=0); b=D(n!=0); z=D(none)
        cl=[B("Content-Length: ")]
        if q is None: und.append("Content-Length")
        elif q: want.append(([cl+[dec(w.blen)]],"Content-Length"))
        elif b: want.append(([cl+[dec(n)]],"Content-Length")); cov.add("body")
        elif b is None or z is None: 
            if z is False: want.append(([cl+[dec(n)],cl+[dec(ZERO)]],"Content-Length"))
            else: und.append("Content-Length")
        elif not z: want.append(([cl+[dec(n)],cl+[dec(ZERO)],cl+[B("0")]],"Content-Length")); cov.add("empty")
        else: cov.add("bodiless")
        e.prove(s,z3.BoolVal(not und),"C19 optional header lines depend on their value only: "+" ".join(und))
        left=match(e,s,got[1:],want,"C19 the response has exactly one %s line")
        e.prove(s,z3.BoolVal(not left),"C19 the response has no other header line"+(": "+show(left[0]) if left else ""))
        # the loops: entry i yields its line(s)
        seen=[]
        for t in toks:
            k=loop_kind(t,e); seen.append(k)
            if k: loops.setdefault(id(t),(t,k))
        e.prove(s,z3.And(z3.BoolVal(sorted(x or "?" for x in seen)==["C","H"]),*[s.abs["pos"].v[k]==w.n[k] for k in("H","C")]),"C19 each header and each cookie is written, once")
    for t,k in loops.values():
        for b,l,(p0,p1) in t["backs"]:
            cov.add("loop "+k); m=w.entry(b,k,p0.v[k]); e.prove(b,p1.v[k]==p0.v[k]+1,"C19 the entries are visited one after the other")
            if l is None: e.prove(b,FALSE,"C19 each entry only appends"); continue
            got,rest=lines(l); e.prove(b,z3.BoolVal(not rest and len(got)==1),"C19 each entry yields one complete line")
            if rest or len(got)!=1: continue
            if k=="H": e.prove(b,z3.BoolVal(same(e,b,got[0],w.text(m,"name")+[B(": ")]+w.text(m,"value"))),"C19 each header is written as 'name: value'"); continue
            alts=[[]]; D=lambda c: e.decide(b,c); bad=False
            dom,tm,path=D(m["strs"]["sDomain"][2]!=0),D(m["t"]!=0),D(m["strs"]["sPath"][2]!=0)
            e.prove(b,z3.BoolVal(None not in(dom,tm,path)),"C19 cookie attributes depend on their value only")
            parts=[]
            if dom: parts.append([[B("; Domain=")]+w.text(m,"sDomain")])
            if tm: parts.append([[B("; Expires="),g] for g in w.gmts(b,m["t"])])
            if path: parts.append([[B("; Path=")]+w.text(m,"sPath")])
            ok=False
            import itertools
            for perm in itertools.permutations(parts):
                for ch in itertools.product(*perm):
                    for h in("Set-Cookie:","Set-Cookie: "):
                        ok=ok or same(e,b,got[0],[B(h)]+w.text(m,"name")+[B("=")]+w.text(m,"sValue")+[x for c in ch for x in c])
                if ok: break
            e.prove(b,z3.BoolVal(ok),"C19 each cookie is written with its value and attributes")
    e.cover(cov,{"status","body","empty","bodiless","loop H","loop C","Location","no Location","Last-Modified","no Last-Modified"}|{("" if v else "no ")+n for n,v in zip(CASES,case or ())})
def loop_kind(t,e):
    ks={next((k for k in("H","C") if not p0.v[k].eq(p1.v[k])),None) for b,l,(p0,p1) in t["backs"]}
    return ks.pop() if len(ks)==1 else None
def u_reason(e):
    T={200:"OK",201:"Created",204:"No Content",206:"Partial Content",301:"Moved Permanently",302:"Found",304:"Not Modified",400:"Bad Request",401:"Unauthorized",403:"Forbidden",404:"Not Found",405:"Method Not Allowed",413:"Request Entity Too Large",500:"Internal Server Error",501:"Not Implemented",502:"Bad Gateway",503:"Service Unavailable"}
    st=State(); x=z3.BitVec("code",32)
    for o in e.run(st,C+"::getStatusCodeDesc(int)",[x]):
        t=sg.literal(e,o.st,o.val) if o.kind=="ret" else None; e.prove(o.st,z3.BoolVal(t is not None and 0<len(t)<64 and all(32<=ord(c)<127 for c in t)),"C19 every reason phrase is a short text without line breaks")
    for k,v in T.items():
        for o in e.run(State(),C+"::getStatusCodeDesc(int)",[BV(k,32)]): e.prove(o.st,z3.BoolVal(o.kind=="ret" and sg.literal(e,o.st,o.val)==v),"C19 reason phrase of %d"%k)
def u_begin(e):
    w=W(e)
    for o in e.run(w.st,C+"::begin()",[w.this]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C19 begin does not throw"); log=s.ghost.get(("nohavoc","log"),())
        e.prove(s,z3.BoolVal({x[1] for x in log if x[0]=="clear"}=={"H","C"} and all(x[0]=="clear" for x in log)),"C19 begin drops the headers and cookies of the previous response")
        for f,v in(("m_sConnection",b"Close"),("m_sContentType",b"text/html"),("m_sCacheControl",b""),("m_sLocation",b""),("m_sETag",b""),("m_sBodyContent",b"")): e.prove(s,z3.BoolVal(same(e,s,str_segs(e,s,w.p(f)),[("b",v)])),"C19 begin resets %s"%f)
        g=lambda f,n: e.getf(s,w.this,C,f,n); e.prove(s,z3.And(g("m_iStatusCode",4)==200,g("m_dwLastModified",8)==0,g("m_dwExpiresTime",8)==0,g("m_dwSetBodyLen",8)==0),"C19 begin resets the status, the dates and the length")
    w=W(e); s0=w.st.clone(); x=e.newc(s0,C,"new"); s0.mem[x.obj.id]=base_arr(fresh_arr("uninit")); w.this=x
    for o in e.run(s0,C+"::CHttpWriter()",[x]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C19 construction does not throw"); g=lambda f,n: e.getf(s,x,C,f,n)
        e.prove(s,z3.And(g("m_iStatusCode",4)==200,g("m_dwLastModified",8)==0,g("m_dwExpiresTime",8)==0,g("m_dwSetBodyLen",8)==0),"C19 a new writer has a defined status, dates and length")
        for f in STRS: e.prove(s,sm.slen(e,s,w.p(f))==0,"C19 a new writer is empty")
def text(e,st,name):
    o=e.new_obj(st,name,32); n=z3.BitVec("len_"+name,64); D=fresh_arr(name); st.assume(z3.ULT(n,1<<32)); sm.mk(e,st,Ptr(o),Node("st",base_arr(D),n,1,BV(0,8)),n); return Ptr(o),[("r",base_arr(D),ZERO,n)],n,D
def u_cookie(e):
    w=W(e,True); st=w.st; T=" const&"; A={}
    for f in("name","value","domain","path"):
        o=e.new_obj(st,f,32); n=z3.BitVec("len_"+f,64); st.assume(z3.ULT(n,1<<32)); D=fresh_arr(f); w.mk(st,Ptr(o),D,n); A[f]=(Ptr(o),[("r",base_arr(D),ZERO,n)])
    t=z3.BitVec("cookie_time",64); num=z3.BitVec("number",32); dec=lambda v: [("r",base_arr(sg.DECF(v)),ZERO,sg.DECL(v))]
    for fn,kind in(("setCookie({0}, {0}, {0}, {0}, long)",0),("setCookie<int>({0}, int const&, {0}, {0}, long)",1)):
        b=st.clone(); v=A["value"][0]; want=A["value"][1]
        if kind: o=e.new_obj(b,"number",4); e.rawstore(b,Ptr(o),num,4); v=Ptr(o); want=dec(S(sx(num,64)))
        for o in e.run(b,("void " if kind else "")+C+"::"+fn.format(ST+T),[w.this,A["name"][0],v,A["domain"][0],A["path"][0],t]):
            s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C19 setCookie does not throw")
            if o.kind!="ret": continue
            g=s.ghost.get(("nohavoc","log"),()); ok=len(g)==1 and g[0][:2]==("put","C"); e.prove(s,z3.BoolVal(ok and same(e,s,g[0][2],A["name"][1])),"C19 setCookie stores one cookie under the name")
            if not ok: continue
            p=lambda f: Ptr(g[0][3].obj,S(g[0][3].off+e.foff(w.V,f)))
            for f,x in(("sValue",want),("sDomain",A["domain"][1]),("sPath",A["path"][1])): e.prove(s,z3.BoolVal(same(e,s,w.q.get(s,p(f)),x)),"C19 setCookie stores %s"%f)
            e.prove(s,e._read(s,s.mem[g[0][3].obj.id],p("dwCookieTime").off,8)==t,"C19 setCookie stores the lifetime")
            for f in STRS: e.prove(s,z3.BoolVal(same(e,s,w.q.get(s,w.p(f)),w.s[f])),"C19 setCookie changes nothing else")
    for ty,n in(("int",4),("unsigned long",8)):
        b=st.clone(); x=z3.BitVec("value_"+ty.replace(" ","_"),8*n); o=e.new_obj(b,"number",n); e.rawstore(b,Ptr(o),x,n)
        for r in e.run(b,"lce::CHttpWriter& "+C+"::operator<<<%s>(%s const&)"%(ty,ty),[w.this,Ptr(o)]):
            s=r.st; e.prove(s,z3.BoolVal(r.kind=="ret" and same(e,s,w.q.get(s,w.p("m_sBodyContent")),w.s["m_sBodyContent"]+dec(S(x if n==8 else sx(x,64))))),"C19 operator<< appends the text of the number to the body")
            for f in STRS:
                if f!="m_sBodyContent": e.prove(s,z3.BoolVal(same(e,s,w.q.get(s,w.p(f)),w.s[f])),"C19 operator<< changes nothing else")
def u_set(e):
    w=W(e); STA=ST+" const&"
    def others(s,but,name):
        for f in STRS:
            if f!=but: e.prove(s,z3.BoolVal(same(e,s,str_segs(e,s,w.p(f)),w.s[f])),"C19 %s changes nothing else"%name)
        g=lambda f,n: e.getf(s,w.this,C,f,n)
        for f,n,v in(("m_iStatusCode",4,w.status),("m_dwLastModified",8,w.mod),("m_dwExpiresTime",8,w.exp),("m_dwSetBodyLen",8,w.blen)):
            if f!=but: e.prove(s,g(f,n)==v,"C19 %s changes nothing else"%name)
    for fn,f in(("setConnection","m_sConnection"),("setContentType","m_sContentType"),("setCacheControl","m_sCacheControl"),("setLocation","m_sLocation"),("setETag","m_sETag")):
        b=w.st.clone(); p,l,n,D=text(e,b,"arg")
        for o in e.run(b,"%s::%s(%s)"%(C,fn,STA),[w.this,p]): e.prove(o.st,z3.BoolVal(o.kind=="ret" and same(e,o.st,str_segs(e,o.st,w.p(f)),l)),"C19 %s stores the text"%fn); others(o.st,f,fn)
    v=z3.BitVec("v",64)
    for fn,f,t in(("setBodyLen(unsigned long)","m_dwSetBodyLen",64),("setLastModified(long)","m_dwLastModified",64),("setExpires(long)","m_dwExpiresTime",64),("setStatusCode(int)","m_iStatusCode",32)):
        x=v if t==64 else z3.Extract(31,0,v)
        for o in e.run(w.st.clone(),C+"::"+fn,[w.this,x]): e.prove(o.st,z3.And(z3.BoolVal(o.kind=="ret"),e.getf(o.st,w.this,C,f,t//8)==x),"C19 %s stores the value"%fn); others(o.st,f,fn)
    body=w.s["m_sBodyContent"]
    b=w.st.clone(); p,l,n,D=text(e,b,"arg")
    for fn,a in(("operator<<(%s)"%STA,[p]),("write(char const*, unsigned long)",None)):
        t=b.clone()
        if a is None: ob=e.new_obj(t,"data",n,base_arr(D)); a=[Ptr(ob),n]
        for o in e.run(t,C+"::"+fn,[w.this]+a):
            if o.kind=="throw": continue
            e.prove(o.st,z3.BoolVal(same(e,o.st,str_segs(e,o.st,w.p("m_sBodyContent")),body+l)),"C19 %s appends exactly its bytes to the body"%fn.split("(")[0]); others(o.st,"m_sBodyContent",fn.split("(")[0])
    t=w.st.clone(); D=fresh_arr("cstr"); n=z3.BitVec("len_cstr",64); t.assume(z3.ULT(n,1<<32)); nd=Node("st",base_arr(D),n,1,BV(0,8)); ob=e.new_obj(t,"cstr",S(n+1),nd); t.ghost[("nohavoc","cstr",id(nd),ZERO.get_id())]=(n,nd,ZERO)
    for o in e.run(t,C+"::operator<<(char const*)",[w.this,Ptr(ob)]):
        if o.kind=="throw": continue
        e.prove(o.st,z3.BoolVal(same(e,o.st,str_segs(e,o.st,w.p("m_sBodyContent")),body+[("r",base_arr(D),ZERO,n)])),"C19 operator<< appends exactly its bytes to the body"); others(o.st,"m_sBodyContent","operator<<")
    b=w.st.clone(); p,l,n,D=text(e,b,"name"); p2,l2,n2,D2=text(e,b,"val")
    for o in e.run(b,"%s::setHead(%s, %s)"%(C,STA,STA),[w.this,p,p2]):
        s=o.st; g=s.ghost.get(("nohavoc","log"),()); ok=o.kind=="ret" and len(g)==1 and g[0][:2]==("put","H"); e.prove(s,z3.BoolVal(ok and same(e,s,g[0][2],l) and same(e,s,str_segs(e,s,g[0][3]),l2)),"C19 setHead stores the value under the name"); others(s,None,"setHead")
    for fn in("data","getData"):
        for o in e.run(w.st.clone(),C+"::%s() const"%fn,[w.this]): e.prove(o.st,z3.BoolVal(o.kind=="ret" and isinstance(o.val,Ptr) and o.val.obj is sm.sget(e,o.st,w.p("m_sSendData"))[0] and isc(o.val.off) and cv(o.val.off)==0),"C19 %s is the response"%fn)
    for fn,t in(("size",64),("getDataLen",32)):
        for o in e.run(w.st.clone(),C+"::%s() const"%fn,[w.this]): e.prove(o.st,zx(o.val,64)==w.s["m_sSendData.len"],"C19 %s is the length of the response"%fn)
import itertools
UNITS=[("end "+"".join(str(x) for x in c),lambda e,c=c: u_end(e,c)) for c in itertools.product((0,1),repeat=3)]+[("reason",u_reason),("begin",u_begin),("set",u_set),("cookie",u_cookie)]
