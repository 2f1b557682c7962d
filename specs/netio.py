"""Contracts of the connection handling of lce::CNetWorker and lce::CCommMgr: outgoing bytes (C25) and incoming
packages (C26).  CSocketBuf is used through its C03 contract (a queue of bytes with bounded size), the reactor
through its registration contract (C24), the socket calls as assumed contracts.  The incoming stream and the bytes
given to write are sequences numbered from 0; a buffer holds the range [c,c+n) of them."""
import z3,re
from engine import *
TU=["net.cpp","/repo/src/CNetWorker.cpp","/repo/src/CCommMgr.cpp","/repo/src/Utils.cpp"]
B="lce::CSocketBuf"; CL="lce::StClientInfo"; SV="lce::StServerInfo"; SE="lce::StSession"; EV="lce::CEvent"
CLS={"net":"lce::CNetWorker","comm":"lce::CCommMgr"}
CONTRACTS=[c+"::"+f for c in CLS.values() for f in("onTcpRead","write(session)","write(fd)","onWrite","close","isClose")]
EAGAIN,EINTR=11,4
class Buf:
    """a CSocketBuf: holds n bytes, numbers c.. of its stream; f free bytes behind them; m the maximum"""
    F=(("c",64),("n",32),("f",32))
    def __init__(s,m,**k): s.m=m; s.v=k
    def set(s,**k): v=dict(s.v); v.update(k); return Buf(s.m,**v)
    def __getattr__(s,k):
        if k in("v","m"): raise AttributeError
        return s.v[k]
    def env(s): return dict(s.v)
    def havoc(s,e,st): n=dict((k,fresh(k,w)) for k,w in Buf.F); return Buf(s.m,**n),list(n.values())
class Conn:
    """open: 1 the connection stands, 0 it was closed, 2 its descriptor belongs to a newer connection; ev: events registered;
    R bytes received, D bytes handed to the handler, pend bytes received but not committed to the buffer;
    s bytes sent, why: 1 the last send or recv failed for good, 2 end of stream"""
    F=(("open",8),("ev",32),("R",64),("D",64),("pend",32),("sn",64),("why",8),("told",8))
    def __init__(s,**k): s.v=k
    def set(s,**k): v=dict(s.v); v.update(k); return Conn(**v)
    def __getattr__(s,k):
        if k=="v": raise AttributeError
        return s.v[k]
    def env(s): return dict(s.v)
    def havoc(s,e,st): n=dict((k,fresh(k,w)) for k,w in Conn.F); return Conn(**n),list(n.values())
FIL=z3.Function("filter",z3.BitVecSort(64),z3.BitVecSort(32),z3.BitVecSort(32)); PKL=z3.Function("package_length",z3.BitVecSort(64),z3.BitVecSort(32),z3.BitVecSort(32))
class N:
    def __init__(t,e,kind,P,recv=None,send=None,flt=True):
        t.e=e; t.kind=kind; t.P=P; t.C=C=CLS[kind]; t.st=st=State(); t.fd=z3.BitVec("fd",32); t.sid=z3.BitVec("server",32); ns=z3.BitVec("clients",64); nv=z3.BitVec("servers",64)
        st.assume(z3.And(t.fd>0,z3.ULT(sx(t.fd,64),ns),z3.ULE(ns,1<<31),t.sid>=0,z3.ULT(sx(t.sid,64),nv),z3.ULE(nv,1<<31)))
        t.this=e.newc(st,"LW" if kind=="net" else C,"manager"); t.srv=e.newc(st,SV,"server"); t.srv.obj.kind="heap"
        if kind=="net": e.rawstore(st,t.this,Ptr(e.gobj(st,"_ZTV2LW"),bv64(16)),8)
        t.instream=e.new_obj(st,"stream",bv64(1<<62)); t.outstream=e.new_obj(st,"queued",bv64(1<<62)); t.wr=None; t.free=e.new_obj(st,"free",bv64(1<<31)); t.W0=bv64(0)
        t.lim={}
        for k in("dwInitRecvBufLen","dwMaxRecvBufLen","dwInitSendBufLen","dwMaxSendBufLen"): v=z3.BitVec(k,32); t.lim[k]=v; e.setf(st,t.srv,SV,**{k:v}); st.assume(z3.And(v>=1,z3.ULT(v,1<<30)))
        st.assume(z3.And(t.lim["dwInitRecvBufLen"]<=t.lim["dwMaxRecvBufLen"],t.lim["dwInitSendBufLen"]<=t.lim["dwMaxSendBufLen"]))
        t.ty=z3.BitVec("server_type",32); st.assume(z3.Or(t.ty==1,t.ty==3)); t.flt=e.newc(st,"LF","filter"); e.rawstore(st,t.flt,Ptr(e.gobj(st,"_ZTV2LF"),bv64(16)),8); t.proc=e.newc(st,"LP","processor"); e.rawstore(st,t.proc,Ptr(e.gobj(st,"_ZTV2LP"),bv64(16)),8)
        e.setf(st,t.srv,SV,pPackageFilter=t.flt if flt else NULL,iSrvId=t.sid,iType=t.ty,pProcessor=t.proc)
        t.R0=z3.BitVec("received_before",64); t.s0=z3.BitVec("sent_before",64); st.assume(z3.And(z3.ULT(t.R0,1<<60),z3.ULT(t.s0,1<<60)))
        g=dict(open=BV(1,8),ev=z3.BitVec("events",32),R=t.R0,D=t.R0,pend=BV(0,32),sn=t.s0,why=BV(0,8),told=BV(0,8)); st.assume(z3.And((g["ev"]&1)==1,z3.ULE(g["ev"],3)))
        rb=t.mkbuf(st,"Recv") if recv else NULL; sb=t.mkbuf(st,"Send") if send else NULL
        t.need0=z3.BitVec("need_close",8); st.assume(z3.ULE(t.need0,1)); sz=e.csize(CL)
        if kind=="net": t.client=e.newc(st,CL,"client"); t.client.obj.kind="heap"; t.slots=e.new_obj(st,"slots",S(ns*8)); t.slot=Ptr(t.slots,S(sx(t.fd,64)*8)); e.rawstore(st,t.slot,t.client,8); e.setf(st,t.client,CL,pstServerInfo=t.srv)
        else:
            t.slots=e.new_obj(st,"slots",S(ns*sz)); t.slot=t.client=Ptr(t.slots,S(sx(t.fd,64)*sz)); t.servers=e.new_obj(st,"servers",S(nv*8)); e.rawstore(st,Ptr(t.servers,S(sx(t.sid,64)*8)),t.srv,8); e.setf(st,t.client,CL,iSrvId=t.sid)
            v=t.this+e.foff(C,"m_vecServers"); e.rawstore(st,v,Ptr(t.servers),8); e.rawstore(st,v+8,Ptr(t.servers,S(nv*8)),8)
        e.setf(st,t.client,CL,iFd=t.fd,pSocketRecvBuf=rb,pSocketSendBuf=sb,bNeedClose=t.need0)
        v=t.this+e.foff(C,"m_vecClients"); e.rawstore(st,v,Ptr(t.slots),8); e.rawstore(st,v+8,Ptr(t.slots,S(ns*(8 if kind=="net" else sz))),8)
        if recv: b=t.buf(st,rb); st.assume(z3.And(z3.Implies(b.n!=0,b.c+zx(b.n,64)==t.R0),z3.ULE(zx(b.n,64),t.R0))); g["D"]=S(t.R0-zx(b.n,64))
        if send: b=t.buf(st,sb); st.assume(z3.Implies(b.n!=0,b.c==t.s0)); t.W0=S(t.s0+zx(b.n,64)); st.assume(z3.Implies(b.n!=0,(g["ev"]&2)==2))
        else: t.W0=t.s0
        t.ev0=g["ev"]; st.abs["conn"]=Conn(**g); t.errno=e.new_obj(st,"errno",4); st.ghost[("nohavoc","errnoobj")]=t.errno; t.session=e.newc(st,SE,"session",iFd=t.fd,iSvrId=t.sid); t.models()
        e.loop_hooks=[lambda e_,st_,fr,dname,hdr,body: {"cands":t.cands}]
    def cands(t,e,st0,h,e0,eh,vs):
        out=[]; A=lambda k: ("abs","conn",k); bk=[k for k in st0.abs if isinstance(k,tuple) and k[0]=="buf"]
        for k,_ in Conn.F:
            if A(k) in e0: out.append((("kept",k),lambda s,en,it,k=k: en[A(k)]==e0[A(k)]))
        for b in bk:
            X=lambda k,b=b: ("abs",b,k)
            if X("c") in e0: out.append((("range",b),lambda s,en,it,X=X: z3.And(s.abs["conn"].D==s.abs[b].c,s.abs[b].c+zx(s.abs[b].n,64)==s.abs["conn"].R,s.abs[b].n>=0,z3.ULE(s.abs[b].c,s.abs["conn"].R),s.abs[b].n<=s.abs[b].m,s.abs[b].f>=0,s.abs[b].f<=s.abs[b].m-s.abs[b].n)))
        return out
    def mkbuf(t,st,w):
        e=t.e; o=e.newc(st,B,w.lower()+"buf"); o.obj.kind="heap"; m=t.lim["dwMax%sBufLen"%w]; b=Buf(m,c=z3.BitVec("start_"+w,64),n=z3.BitVec("size_"+w,32),f=z3.BitVec("free_"+w,32)); st.abs[("buf",o.obj.id)]=b
        st.assume(z3.And(b.n>=0,b.n<=m,b.f>=0,b.f<=m-b.n,z3.ULT(b.c,1<<60))); st.ghost[("nohavoc","kind",o.obj.id)]=w; return o
    def conn(t,s): return s.abs["conn"]
    def buf(t,s,p):
        k=("buf",p.obj.id)
        if k not in s.abs: raise Unsupported("a buffer not under contract")
        return s.abs[k]
    def where(t,s,p): return t.e.getf(s,t.client,CL,p,8)
    def pos(t,p):
        if t.wr is not None and p.obj is t.wr: return S(t.W0+p.off)
        return None
    def models(t):
        e=t.e; P=t.P; e.assumptions.add("assumed contract: recv delivers 1..n bytes, 0 at the end or -1 with errno; send takes 1..n bytes or fails with errno; handlers do not change the session they are given and, called for the end of a connection, do not reuse its descriptor; package filters are functions of the bytes and accept 1..n of them")
        e.assumptions.add("CSocketBuf by its C03 contract, CEvent::addFdEvent/delFdEvent by their registration contract")
        def M(p,f): e.models.insert(0,(re.compile(p),lambda e_,st,a,ins,d: f(st,*a))); e.model_cache.clear()
        def live(f):
            def g(e_,st,a,ins):
                p=a[0]
                if isinstance(p,UndefPtr) or p.obj.kind=="null": e.fail(st,"memory-safety: a missing buffer is used"); raise PathEnd()
                if p.obj.id in st.dead: e.fail(st,"memory-safety: a deleted buffer is used"); raise PathEnd()
                return f(st,p,("buf",p.obj.id),t.buf(st,p),*a[1:])
            return g
        R=lambda v,st: Outcome("ret",v,st)
        def ctor(e_,st,a,ins):
            e.prove(st,z3.And(a[1]>=1,a[1]<=a[2]),P+" a buffer is made with 1 <= initial size <= maximum"); st.abs[("buf",a[0].obj.id)]=Buf(a[2],c=fresh("c",64),n=BV(0,32),f=a[1]); st.ghost[("nohavoc","new")]=st.ghost.get(("nohavoc","new"),())+(a[0].obj.id,); return R(None,st)
        e.contracts[B+"::CSocketBuf(int, int)"]=ctor
        def dtor(st,p,k,b): return R(None,st)
        e.contracts[B+"::~CSocketBuf()"]=live(dtor)
        e.contracts[B+"::getSize() const"]=live(lambda st,p,k,b: R(b.n,st)); e.contracts[B+"::getFreeSize() const"]=live(lambda st,p,k,b: R(b.f,st))
        def stream(st,p): return t.instream if p.obj.id==t.rid(st) else t.outstream
        e.contracts[B+"::getData() const"]=live(lambda st,p,k,b: R(Ptr(stream(st,p),b.c),st)); e.contracts[B+"::getFreeBuf()"]=live(lambda st,p,k,b: R(Ptr(t.free,ZERO),st))
        def addfree(st,p,k,b): f=fresh("free",32); st.assume(z3.And(f>=b.f,f<=b.m-b.n,z3.Implies(b.n<b.m,f>0))); st.abs[k]=b.set(f=f); return R(None,st)
        e.contracts[B+"::addFreeBuf()"]=live(addfree)
        def commit(st,p,k,b,n):
            g=t.conn(st); e.prove(st,z3.And(n>=0,n<=b.f),P+" only bytes that fit are committed"); e.prove(st,n==g.pend,P+" exactly the bytes received are committed"); c=S(z3.If(b.n==0,g.R-zx(n,64),b.c)); e.prove(st,c+zx(b.n,64)+zx(n,64)==g.R,P+" received bytes follow those kept before"); st.abs["conn"]=g.set(pend=BV(0,32)); st.abs[k]=b.set(c=c,n=S(b.n+n),f=S(b.f-n)); return R(BV(1,1),st)
        e.contracts[B+"::addData(int)"]=live(commit)
        def append(st,p,k,b,q,n):
            e.prove(st,n>=0,P+" no negative size is queued"); out=[]
            for c,s in e.split(st,b.m-b.n>=n):
                if c is None: out.append(R(BV(0,1),s)); continue
                e.access(s,q,sx(n,64),"r","bytes queued"); w=t.pos(q)
                if w is None: e.fail(s,P+" only the bytes given are queued"); raise PathEnd()
                g=t.conn(s); e.prove(s,z3.Implies(n!=0,w==z3.If(b.n==0,g.sn,b.c+zx(b.n,64))),P+" bytes are queued directly behind those sent or queued before"); f=fresh("free",32); s.assume(z3.And(f>=0,f<=b.m-b.n-n)); s.abs[k]=b.set(c=S(z3.If(b.n==0,w,b.c)),n=S(b.n+n),f=f); out.append(R(BV(1,1),s))
            return out
        e.contracts[B+"::addData(char const*, int)"]=live(append)
        def remove(st,p,k,b,n):
            e.prove(st,z3.And(n>=0,n<=b.n),P+" at most the bytes held are removed"); st.assume(z3.And(n>=0,n<=b.n)); f=fresh("free",32); st.assume(z3.And(f>=0,f<=b.m-b.n+n)); st.abs[k]=b.set(c=S(b.c+zx(n,64)),n=S(b.n-n),f=f); return R(None,st)
        e.contracts[B+"::removeData(int)"]=live(remove)
        def reset(st,p,k,b): f=fresh("free",32); st.assume(z3.And(f>=0,f<=b.m)); st.abs[k]=b.set(c=S(b.c+zx(b.n,64)),n=BV(0,32),f=f); return R(None,st)
        e.contracts[B+"::reset()"]=live(reset)
        e.contracts["lce::GetTickCount()"]=lambda e_,st,a,ins: R(fresh("tick",64),st)
        def err(st): x=fresh("errno",32); st.assume(x>0); e.rawstore(st,Ptr(t.errno),x,4); return x
        M(r'strerror$',lambda st,n: Ptr(e.new_obj(st,"strerror",64),ZERO))
        def addev(e_,st,a,ins):
            g=t.conn(st); e.prove(st,a[1]==t.fd,P+" events are asked for on this connection's descriptor"); e.prove(st,g.open==1,P+" events are only asked for while the connection stands"); t.handler(st,a[2],a[3]); bad=st.clone(); bad.ghost[("nohavoc","nowatch")]=True; st.abs["conn"]=g.set(ev=S(g.ev|a[2])); x=fresh("addFdEvent",32); bad.assume(x!=0); return [R(BV(0,32),st),R(x,bad)]
        def at(st,v,i):
            b=e._read(st,st.mem[v.obj.id],v.off,8); en=e._read(st,st.mem[v.obj.id],S(v.off+8),8)
            if not isinstance(b,Ptr): raise Unsupported("vector without storage")
            sz=8 if b.obj is not t.slots or t.kind=="net" else e.csize(CL); e.prove(st,z3.ULT(S(i*sz),S(en.off-b.off)),"memory-safety: element of a table inside its bounds"); return Ptr(b.obj,S(b.off+i*sz))
        M(r'std::vector<lce::St(Client|Server)Info\*?, .*>::(operator\[\]|at)\(unsigned long\)( const)?$',at)
        rd=lambda st,p,o: e._read(st,st.mem[p.obj.id],S(p.off+o),8)
        def bind(st,r,f,o,*a): e.rawstore(st,r,rd(st,f,0),8); e.rawstore(st,r+16,rd(st,o,0),8); return None
        M(r'std::_Bind_helper<.*>::type std::bind<void \(lce::',bind)
        def func(st,r,b): e.rawstore(st,r,rd(st,b,0),8); e.rawstore(st,r+16,rd(st,b,16),8); return None
        M(r'std::function<void \(int, void\*\)>::function<std::_Bind<',func)
        M(r'std::function<void \(int, void\*\)>::~function\(\)',lambda st,a: None)
        e.contracts[EV+"::addFdEvent(int, int, std::function<void (int, void*)> const&, void*)"]=addev
        def delev(e_,st,a,ins):
            g=t.conn(st); e.prove(st,a[1]==t.fd,P+" events are cancelled on this connection's descriptor"); e.prove(st,g.open!=2,P+" a newer connection on the descriptor is left alone"); st.abs["conn"]=g.set(ev=S(g.ev&~a[2])); return R(fresh("delFdEvent",32),st)
        e.contracts[EV+"::delFdEvent(int, int)"]=delev
        def m_close(st,fd):
            g=t.conn(st); e.prove(st,fd==t.fd,P+" only this connection's descriptor is closed"); e.prove(st,g.open==1,P+" a connection is closed once, and never a newer one"); e.prove(st,g.ev==0,P+" a closed connection is no longer watched"); st.abs["conn"]=g.set(open=BV(0,8)); return fresh("close",32)
        M(r'close$',m_close)
        def m_send(st,fd,p,n,fl):
            g=t.conn(st); e.prove(st,fd==t.fd,P+" bytes are sent on this connection"); e.prove(st,g.open==1,P+" bytes are sent only while the connection stands"); e.prove(st,n>=0,P+" no negative size is sent"); q=t.sendbuf(st)
            if p.obj is t.outstream:
                if q is None: e.fail(st,P+" only queued bytes are sent from the queue"); raise PathEnd()
                e.prove(st,z3.And(p.off==q.c,n<=zx(q.n,64),n>0,q.c==g.sn),P+" queued bytes are sent in order, each once")
            else:
                e.access(st,p,n,"r","bytes sent"); w=t.pos(p)
                if w is None: e.fail(st,P+" only the bytes given are sent"); raise PathEnd()
                e.prove(st,z3.Implies(n!=0,w==g.sn),P+" new bytes are sent only behind everything accepted before"); e.prove(st,z3.Implies(n!=0,z3.BoolVal(True) if q is None else q.n==0),P+" new bytes are sent only when nothing older is queued")
            bad=st.clone(); x=err(bad); bad.abs["conn"]=g.set(why=S(z3.If(z3.Or(x==EAGAIN,x==EINTR),BV(0,8),BV(1,8)))); k=fresh("taken",64); st.assume(z3.And(k>=0,k<=n,z3.Implies(n!=0,k!=0))); st.abs["conn"]=g.set(sn=S(g.sn+k)); return [R(k,st),R(bv64(-1),bad)]
        M(r'send$',m_send)
        def m_recv(st,fd,p,n,fl):
            g=t.conn(st); b=t.buf(st,t.where(st,"pSocketRecvBuf")); e.prove(st,fd==t.fd,P+" bytes are received from this connection"); e.prove(st,g.open==1,P+" bytes are received only while the connection stands")
            if p.obj is not t.free: e.fail(st,P+" bytes are received into the free area of the buffer"); raise PathEnd()
            e.prove(st,z3.And(p.off==0,z3.ULE(n,sx(b.f,64)),n>0,g.pend==0),P+" bytes are received into the free area of the buffer, at most what fits and at least one"); fl=S(fl)
            if not isc(fl) or cv(fl)&2: raise Unsupported("recv flags")
            bad=st.clone(); x=err(bad); bad.abs["conn"]=g.set(why=S(z3.If(z3.Or(x==EAGAIN,x==EINTR),BV(0,8),BV(1,8)))); z=st.clone(); z.abs["conn"]=g.set(why=BV(2,8)); k=fresh("got",64); st.assume(z3.And(k>0,k<=n)); st.abs["conn"]=g.set(R=S(g.R+k),pend=S(z3.Extract(31,0,k))); return [R(k,st),R(bv64(0),z),R(bv64(-1),bad)]
        M(r'recv$',m_recv)
        def whole(st,p,n,real,ln):
            g=t.conn(st); b=t.buf(st,t.where(st,"pSocketRecvBuf")); e.prove(st,z3.BoolVal(p.obj is t.instream),P+" the filter looks at the received bytes"); e.prove(st,z3.And(p.off==b.c,n==b.n,b.c==g.D),P+" the filter looks at exactly the bytes received and not yet handed over"); e.prove(st,b.c+zx(b.n,64)==g.R,P+" the filter sees everything received")
            f=FIL(g.D,b.n); l=PKL(g.D,b.n); st.assume(z3.Implies(f==0,z3.And(l>0,l<=n))); e.rawstore(st,ln,S(z3.If(f==0,l,fresh("len",32))),4); e.rawstore(st,real,fresh("reallen",32),4); return f
        M(r'lv_whole$',whole)
        def onread(st,fd,ses,p,n):
            g=t.conn(st); b=t.buf(st,t.where(st,"pSocketRecvBuf")); e.prove(st,g.open==1,P+" the handler is called only while the connection stands"); e.prove(st,fd==t.fd,P+" the handler is told the right connection"); e.prove(st,z3.BoolVal(p.obj is t.instream),P+" the handler gets received bytes")
            e.prove(st,z3.And(p.off==g.D,b.c==g.D,b.c+zx(b.n,64)==g.R,FIL(g.D,b.n)==0,n==PKL(g.D,b.n)),P+" the handler gets exactly the next complete package"); g2=g.set(D=S(g.D+sx(n,64)),told=BV(1,8)); st.abs["conn"]=g2; cl=st.clone(); t.closed(cl,0); a=st.clone(); t.closed(a,1); out=[R(None,st),R(None,cl),R(None,a)]
            if t.kind=="net": c=st.clone(); t.closed(c,2); out.append(R(None,c))
            return out
        M(r'lv_onRead$',onread)
        def other(st,fd,*a): e.prove(st,fd==t.fd,P+" the handler is told the right connection"); return None
        M(r'lv_onError$',other)
        def onclose(st,fd,*a):
            other(st,fd); g=t.conn(st); e.prove(st,g.open==1,P+" the end of a connection is told while its record stands"); c=st.clone(); t.closed(c,0); return [R(None,st),R(None,c)]
        M(r'lv_onClose$',onclose)
    def closed(t,s,how):
        """the handler closed the connection; how 0: only that, 1: and opened another on the same descriptor, whose record is at the same place, 2: at another place"""
        e=t.e; g=t.conn(s); s.abs["conn"]=g.set(open=BV(0 if how==0 else 2,8),ev=BV(0 if how==0 else 1,32))
        for f in("pSocketRecvBuf","pSocketSendBuf"):
            p=t.where(s,f)
            if isinstance(p,Ptr) and p.obj.kind=="heap": s.dead[p.obj.id]="deleted"
        if how==1 or t.kind=="comm": e.setf(s,t.client,CL,pSocketRecvBuf=NULL,pSocketSendBuf=NULL)
        if t.kind=="comm":
            if how==0: e.setf(s,t.client,CL,iFd=BV(0,32))
        elif how==0: e.rawstore(s,t.slot,NULL,8); s.dead[t.client.obj.id]="deleted"
        elif how==2: c=e.newc(s,CL,"newer",iFd=t.fd,pSocketRecvBuf=NULL,pSocketSendBuf=NULL,pstServerInfo=t.srv); c.obj.kind="heap"; e.rawstore(s,t.slot,c,8); s.dead[t.client.obj.id]="deleted"
    def rid(t,st):
        p=t.where(st,"pSocketRecvBuf") if t.client.obj.id not in st.dead else None
        return p.obj.id if isinstance(p,Ptr) else -1
    def sendbuf(t,st):
        p=t.where(st,"pSocketSendBuf"); return None if not isinstance(p,Ptr) or p.obj.kind=="null" else t.buf(st,p)
    def handler(t,st,ty,f):
        e=t.e; ty=S(ty)
        if not isc(ty): raise Unsupported("event kind")
        q=e._read(st,st.mem[f.obj.id],f.off,8); w=e._read(st,st.mem[f.obj.id],S(f.off+16),8)
        want=t.C+"::"+{1:"onTcpRead",2:"onWrite"}.get(cv(ty),"?")+"(int, void*)"; fn=[m for m,d in e.m.demangled.items() if d==want]
        num=lambda v: e.ptrtoint(st,v) if isinstance(v,Ptr) else v
        e.prove(st,num(q)==e.ptrtoint(st,Ptr(e.fobj(fn[0]))) if fn else FALSE,t.P+" the event is handled by the manager's own handler"); e.prove(st,num(w)==num(t.this),t.P+" the event is handled by this manager")
    def isclosed(t,s):
        if t.kind=="comm": return t.e.getf(s,t.client,CL,"iFd",4)==0
        p=t.e._read(s,s.mem[t.slots.id],t.slot.off,8); return z3.BoolVal(isinstance(p,Ptr) and p.obj.kind=="null")
def u_read(kind,recv,flt):
    def u(e):
        t=N(e,kind,"C26",recv=recv,flt=flt); st=t.st; cov=set(); lg={}
        if not recv: e.setf(st,t.client,CL,pSocketRecvBuf=NULL)
        b0=t.buf(st,t.where(st,"pSocketRecvBuf")) if recv else None
        for o in e.run(st,t.C+"::onTcpRead(int, void*)",[t.this,t.fd,t.client]):
            s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C26 reading does not throw")
            if o.kind!="ret": continue
            g=t.conn(s); op=S(g.open); e.prove(s,(op==0)==t.isclosed(s),"C26 a closed connection is forgotten, an open one is not")
            for want,name in((1,"open"),(0,"closed"),(2,"newer")):
                for c,r in e.split(s.clone(),g.open==want):
                    if c is None: continue
                    cov.add(name); g=t.conn(r)
                    if want==1:
                        p=t.where(r,"pSocketRecvBuf")
                        if not isinstance(p,Ptr) or p.obj.kind=="null": e.prove(r,g.R==t.R0,"C26 received bytes are kept"); continue
                        b=t.buf(r,p); e.prove(r,z3.And(z3.Implies(b.n!=0,b.c==g.D),g.D+zx(b.n,64)==g.R,g.pend==0),"C26 exactly the bytes received and not handed over are kept"); f=FIL(g.D,b.n)
                        e.prove(r,z3.Implies(g.R!=t.R0,z3.And(f!=0,f!=-2)),"C26 every complete package is handed over, and an invalid one closes the connection"); e.prove(r,z3.Implies(g.R!=t.R0,z3.BoolVal(flt)),"C26 without a filter nothing is kept"); e.prove(r,g.why!=2,"C26 the end of the stream closes the connection"); e.prove(r,(g.ev&1)==1,"C26 an open connection stays watched")
                    elif want==0:
                        # closed only for a reason
                        full=z3.BoolVal(False) if b0 is None else b0.n==b0.m
                        n=S(g.R-g.D); inv=FIL(g.D,z3.Extract(31,0,n))==-2
                        e.prove(r,z3.Or(g.why!=0,full,z3.BoolVal(not flt),g.told==1,inv),"C26 the connection is closed only at its end, on an error, an invalid package, a full buffer or by the handler")
        e.cover(cov,{"open","closed","newer"} if flt else {"open","closed"})
    return u
def outside(t,s,w):
    """the queue and the connection agree"""
    e=t.e; g=t.conn(s); q=t.sendbuf(s); P="C25 "+w
    if q is None: return g,BV(0,32),None
    e.prove(s,z3.Implies(q.n!=0,q.c==g.sn),P+": the queue starts behind the last byte sent"); e.prove(s,z3.Implies(q.n!=0,(g.ev&2)==2),P+": waiting bytes are sent when the connection becomes writable"); return g,q.n,q
def u_write(kind,send):
    def u(e):
        t=N(e,kind,"C25",recv=True,send=send); st=t.st; cov=set(); n=z3.BitVec("size",32); st.assume(n>=0); t.wr=e.new_obj(st,"given",zx(n,64)); bc=z3.BitVec("close_after",1)
        if not send: e.setf(st,t.client,CL,pSocketSendBuf=NULL)
        W=S(t.W0+zx(n,64))
        for o in e.run(st,t.C+"::write(lce::StSession const&, char const*, int, bool)",[t.this,t.session,Ptr(t.wr),n,bc]):
            s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C25 write does not throw")
            if o.kind!="ret": continue
            for want in(1,0):
                for c,r in e.split(s.clone(),t.conn(s).open==want):
                    if c is None: continue
                    e.prove(r,z3.Or(o.val==0,o.val==-1),"C25 write returns 0 or -1")
                    for ok,r in e.split(r,o.val==0):
                        ok=ok is not None; g=t.conn(r); e.prove(r,t.isclosed(r)==z3.BoolVal(want==0),"C25 a closed connection is forgotten, an open one is not")
                        if want==0:
                            if ok: e.prove(r,z3.And(bc==1,g.sn==W),"C25 a write that closes the connection has sent everything"); cov.add("sent and closed")
                            else: cov.add("closed on refusal"); q0=z3.BoolVal(True); e.prove(r,z3.Or(z3.UGT(g.sn,t.W0),g.why==1,z3.BoolVal(bool(r.ghost.get(("nohavoc","nowatch"))))),"C25 a refused write that sent nothing leaves the connection standing")
                            continue
                        g,m,q=outside(t,r,"write"); need=e.getf(r,t.client,CL,"bNeedClose",1)
                        if ok:
                            e.prove(r,g.sn+zx(m,64)==W,"C25 an accepted write is sent or queued completely"); e.prove(r,z3.Implies(z3.And(m==0,n!=0),(g.ev&2)==0),"C25 with nothing queued the connection is not watched for writing"); e.prove(r,z3.Implies(bc==1,z3.And((g.ev&2)!=0,need!=0)),"C25 a connection asked to close after the write closes when everything is sent"); e.prove(r,z3.Implies(need!=0,z3.Or(bc==1,t.need0!=0)),"C25 a connection is closed after a write only when asked for"); cov.add("queued"); 
                            for c2,r2 in e.split(r,m==0): cov.add("queued" if c2 is None else "sent")
                        else: e.prove(r,g.sn+zx(m,64)==t.W0,"C25 a refused write leaves no byte of it in the stream"); cov.add("refused")
        e.cover(cov,{"sent","queued","refused","sent and closed","closed on refusal"})
    return u
def u_shut(kind):
    def u(e):
        t=N(e,kind,"C25",recv=True,send=False); st=t.st; e.setf(st,t.client,CL,pSocketSendBuf=NULL); t.closed(st,0); st.abs["conn"]=t.conn(st); t.wr=e.new_obj(st,"given",bv64(8))
        for o in e.run(st.clone(),t.C+"::write(lce::StSession const&, char const*, int, bool)",[t.this,t.session,Ptr(t.wr),BV(8,32),BV(1,1)]):
            e.prove(o.st,z3.BoolVal(o.kind=="ret") if o.kind!="ret" else o.val!=0,"C25 a write to a closed connection is refused"); e.prove(o.st,t.conn(o.st).sn==t.s0,"C25 nothing is sent on a closed connection")
        for o in e.run(st.clone(),t.C+"::onWrite(int, void*)",[t.this,t.fd,NULL]): e.prove(o.st,z3.BoolVal(o.kind=="ret"),"C25 a late write event does not throw"); e.prove(o.st,t.conn(o.st).sn==t.s0,"C25 nothing is sent on a closed connection")
        for o in e.run(st.clone(),t.C+"::close(lce::StSession const&)",[t.this,t.session]): e.prove(o.st,z3.BoolVal(o.kind=="ret"),"C25 closing twice does not throw"); e.prove(o.st,t.isclosed(o.st),"C25 a closed connection stays closed")
        t=N(e,kind,"C25",recv=True,send=True)
        for o in e.run(t.st,t.C+"::close(lce::StSession const&)",[t.this,t.session]): e.prove(o.st,z3.BoolVal(o.kind=="ret"),"C25 close does not throw"); e.prove(o.st,z3.And(t.conn(o.st).open==0,t.isclosed(o.st)),"C25 close closes the connection and forgets it")
    return u
def u_onwrite(kind):
    def u(e):
        t=N(e,kind,"C25",recv=True,send=True); st=t.st; cov=set(); st.assume((t.ev0&2)==2)
        for o in e.run(st,t.C+"::onWrite(int, void*)",[t.this,t.fd,NULL]):
            s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C25 onWrite does not throw")
            if o.kind!="ret": continue
            for c,r in e.split(s,t.conn(s).open==1):
                g=t.conn(r); e.prove(r,t.isclosed(r)==z3.BoolVal(c is None),"C25 a closed connection is forgotten, an open one is not")
                if c is None: e.prove(r,z3.Or(g.why==1,z3.And(t.need0!=0,g.sn==t.W0)),"C25 onWrite closes only on an error, or when asked to and everything is sent"); cov.add("closed"); continue
                g,m,q=outside(t,r,"onWrite"); e.prove(r,g.sn+zx(m,64)==t.W0,"C25 onWrite keeps every unsent byte queued"); e.prove(r,z3.Implies(m==0,t.need0==0),"C25 a connection asked to close closes once everything is sent"); e.prove(r,z3.Implies(m==0,(g.ev&2)==0),"C25 with nothing queued the connection is not watched for writing"); e.prove(r,e.getf(r,t.client,CL,"bNeedClose",1)==t.need0,"C25 the request to close is kept until everything is sent"); e.prove(r,g.why==0,"C25 a failed connection is closed")
                for c2,r2 in e.split(r,m==0): cov.add("rest" if c2 is None else "all")
        e.cover(cov,{"closed","all","rest"})
    return u
UNITS=[("read %s%s%s"%(k," first" if not r else ""," unfiltered" if not f else ""),u_read(k,r,f)) for k in("net","comm") for r in(True,False) for f in(True,False)]
UNITS+=[("write %s%s"%(k,"" if b else " first"),u_write(k,b)) for k in("net","comm") for b in(True,False)]+[("onwrite "+k,u_onwrite(k)) for k in("net","comm")]+[("close "+k,u_shut(k)) for k in("net","comm")]
