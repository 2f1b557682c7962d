"""Text as a sequence of segments: the content of a string, decomposed along the copies it was built from."""
import z3,re
from engine import *
import strmodel as sm
A8=z3.ArraySort(z3.BitVecSort(64),z3.BitVecSort(8)); B64=z3.BitVecSort(64)
DECF=z3.Function("decimal_text",B64,A8); DECL=z3.Function("decimal_length",B64,B64)
def dec_node(st,v):
    L=DECL(v); st.assume(z3.And(z3.UGE(L,1),z3.ULE(L,20))); return base_arr(DECF(v)),L
def segs(e,st,node,off,n,d=0):
    """[(b, bytes) | (r, node, offset, length)] of the n bytes of node at off"""
    off,n=S(off),S(n)
    if isc(n) and cv(n)==0: return []
    if d>400: raise Unsupported("text is built too deep")
    if isc(n) and isc(off) and cv(n)<=4096:
        bs=[S(e._read(st,node,bv64(cv(off)+i),1)) for i in range(cv(n))]
        if all(isc(b) for b in bs): return [("b",bytes(cv(b) for b in bs))]
    while True:
        k=node.k
        if k=="cp":
            x=S(node.off+node.n-off-n)
            if isc(x) and cv(x)==0:
                y=S(node.off-off)
                if not(isc(y) and cv(y)>>63): return segs(e,st,node.p,off,y,d+1)+segs(e,st,node.v,node.soff,node.n,d+1)
        elif k=="st":
            x=S(node.off+node.n-off-n); 
            if isc(x) and cv(x)==0 and node.n==1 and z3.is_expr(node.v):
                v=S(node.v); return segs(e,st,node.p,off,S(n-1),d+1)+[("b",bytes([cv(v)])) if isc(v) else ("c",v)]
            y=S(node.off-off-n)
            if isc(y) and cv(y)<(1<<62): node=node.p; continue
        break
    b,o=sm.origin(e,st,node,off,n)
    if b is not node: return segs(e,st,b,o,n,d+1)
    return [("r",node,off,n)]
def norm(l):
    out=[]
    for x in l:
        if x[0]=="b" and out and out[-1][0]=="b": out[-1]=("b",out[-1][1]+x[1])
        elif x[0]!="b" or x[1]: out.append(x)
    return out
def str_segs(e,st,p): return segs(e,st,sm.chars(e,st,p),ZERO,sm.slen(e,st,p))
def same_node(x,y): return x is y or (x.k=="arr" and y.k=="arr" and x.v.eq(y.v))
def isdec(n): return n.k=="arr" and z3.is_app(n.v) and n.v.decl().eq(DECF)
def same(e,st,a,b):
    """the two segment lists are the same text"""
    a,b=norm(a),norm(b)
    if len(a)!=len(b): return False
    for x,y in zip(a,b):
        if x[0]!=y[0]: return False
        if x[0]=="r":
            if isdec(x[1]) and isdec(y[1]): c=x[1].v.arg(0)==y[1].v.arg(0)
            elif not same_node(x[1],y[1]): return False
            else: c=z3.And(x[2]==y[2],x[3]==y[3])
            if not e.valid(st,c): return False
        elif x[0]=="c":
            if not e.valid(st,x[1]==y[1]): return False
        elif x[1:]!=y[1:]: return False
    return True
def show(l):
    r=[]
    for x in norm(l): r.append(repr(x[1])[1:] if x[0]=="b" else "<%s>"%(str(x[1].v)[:30] if x[0]=="r" and x[1].k=="arr" else x[0]))
    return " ".join(r)
def lines(l):
    """cut a segment list at CRLF: lines and the rest"""
    out=[]; cur=[]
    for x in norm(l):
        if x[0]!="b": cur.append(x); continue
        p=x[1].split(b"\r\n")
        for i,y in enumerate(p):
            if y: cur.append(("b",y))
            if i<len(p)-1: out.append(cur); cur=[]
    return out,cur
def literal(e,st,p):
    n=sm.cstr(e,st,p)
    if not isc(n): return None
    b=[S(e._read(st,st.mem[p.obj.id],S(p.off+i),1)) for i in range(cv(n))]
    return bytes(cv(x) for x in b).decode("latin1") if all(isc(x) for x in b) else None
def snprintf(e,what):
    """contract of snprintf for %d %u %lu %ld %s %c: obligation that the text fits"""
    e.assumptions.add("assumed contract: snprintf writes the text its constant format describes; decimal texts are at most 20 bytes")
    def sn(e_,st,a,ins,d):
        f=literal(e,st,a[2]); v=list(a[3:]); parts=[]
        if f is None: raise Unsupported("snprintf with a computed format")
        for m in re.finditer(r'%%|%(l{0,2}|z)([duisc])|([^%]+)',f):
            if m.group(0)=="%%": parts.append(("b",b"%"))
            elif m.group(3): parts.append(("b",m.group(3).encode("latin1")))
            else:
                x=v.pop(0); k=m.group(2)
                if k=="s":
                    L=sm.cstr(e,st,x); parts.append(("r",st.mem[x.obj.id],x.off,L))
                elif k=="c": parts.append(("c",z3.Extract(7,0,x)))
                else:
                    x=z3.Extract(31,0,x) if m.group(1)=="" and x.size()>32 else x; x=S(x if x.size()==64 else (zx(x,64) if k=="u" else sx(x,64))); nd,L=dec_node(st,x); parts.append(("r",nd,ZERO,L))
        if "".join(m.group(0) for m in re.finditer(r'%%|%(l{0,2}|z)([duisc])|([^%]+)',f))!=f: raise Unsupported("snprintf format %r"%f)
        node=base_fill(BV(0,8)); pos=ZERO
        for p in parts:
            if p[0]=="b":
                for c in p[1]: node=Node("st",node,pos,1,BV(c,8)); pos=S(pos+1)
            elif p[0]=="c": node=Node("st",node,pos,1,p[1]); pos=S(pos+1)
            else: node=Node("cp",node,pos,p[3],p[1],p[2]); pos=S(pos+p[3])
        size=zx(a[1],64) if a[1].size()<64 else a[1]; e.access(st,a[0],size,"w","snprintf target"); e.prove(st,z3.ULT(pos,size),what)
        if not(isc(a[0].off) and cv(a[0].off)==0): raise Unsupported("snprintf into the middle of an object")
        node=Node("st",node,pos,1,BV(0,8)); st.mem[a[0].obj.id]=node; st.ghost[("nohavoc","cstr",id(node),ZERO.get_id())]=(pos,node,ZERO); e._keep.append(node); return z3.Extract(31,0,pos)
    e.models.insert(0,(re.compile(r'snprintf$'),sn))
    def ts(e_,st,a,ins,d):
        x=a[1]; x=S(x if x.size()==64 else (zx(x,64) if "unsigned" in d else sx(x,64))); nd,L=dec_node(st,x); sm.mk(e,st,a[0]); sm.put(e,st,a[0],nd,ZERO,L); return None
    e.models.insert(0,(re.compile(r'std::__cxx11::to_string\('),ts)); e.model_cache.clear()
class Accumulators:
    """strings that a loop extends: at the loop head such a string is a token; when used later the token
    stands for its text before the loop followed by what the iterations append"""
    def __init__(s,e): s.e=e; s.tok={}; s._keep=[]
    def bufs(s,st): return {oid:o.ghost["owner"] for oid,o in st.objs.items() if o.kind=="strbuf" and oid in st.mem and oid not in st.dead and "owner" in o.ghost}
    def head(s,st0,h,pos):
        """called at a cut loop head; returns the tokens of this loop"""
        mine=[]; 
        for oid,own in s.bufs(h).items():
            n=h.mem[oid]
            if oid in st0.mem and st0.mem[oid] is n: continue
            if n.k!="arr": continue
            p=Ptr(own[0],own[1]) if not isinstance(own,Ptr) else own
            try: before=str_segs(s.e,st0,p); L=sm.slen(s.e,h,p)
            except (Unsupported,KeyError): continue
            t=dict(base=n,owner=p,before=before,backs=[],len=L,pos=pos); s.tok[n.v.get_id()]=t; s._keep.append(n); mine.append(t)
        return mine
    def back(s,mine,bs,pos):
        for t in mine:
            try: l=str_segs(s.e,bs,t["owner"])
            except (Unsupported,KeyError): l=None
            if l and l[0][0]=="r" and same_node(l[0][1],t["base"]) and s.e.valid(bs,z3.And(l[0][2]==0,l[0][3]==t["len"])): t["backs"].append((bs.clone(),norm(l[1:]),pos))
            else: t["backs"].append((bs.clone(),None,pos))
    def expand(s,l):
        out=[]
        for x in l:
            t=s.tok.get(x[1].v.get_id()) if x[0]=="r" and x[1].k=="arr" else None
            if t is None: out.append(x); continue
            out+=s.expand(t["before"])+[("loop",id(t),t)]
        return norm(out)
