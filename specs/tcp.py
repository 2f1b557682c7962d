"""Contracts of lce::CTcpConnector (C27) over an assumed contract of the socket calls: the connected
descriptor carries one outgoing and one incoming byte stream; send takes any non-empty prefix of what it is
given, recv delivers any non-empty part of what comes next, both may be interrupted, fail or (recv) report
the end.  wire = the bytes taken by send, stream = the bytes that arrive."""
import z3,re
from engine import *
import strmodel as sm
TU=["tcp.cpp","/repo/src/CTcpConnector.cpp"]
C="lce::CTcpConnector"
CONTRACTS=[C+"::"+f for f in("CTcpConnector","~CTcpConnector","connect","write","read(char*)","read(string&)","readn","close","getErrMsg")]
K=z3.BitVec("K",64); STRT="std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
EINTR,EBADF,EINPROGRESS=4,9,115
class Sock:
    """conn: the connected descriptor or -1; open: the descriptor the object holds open or -1; W/R: bytes taken by
    send / delivered by recv; why: 0 the last transfer made progress or was interrupted, 1 it failed, 2 end of stream"""
    F=(("conn",32),("open",32),("pend",32),("W",64),("R",64),("why",8),("ss",64),("su",64),("rs",64),("ru",64))
    def __init__(s,**k): s.v=k
    def set(s,**k): v=dict(s.v); v.update(k); return Sock(**v)
    def __getattr__(s,k):
        if k=="v": raise AttributeError
        return s.v[k]
    def env(s): return dict(s.v)
    def havoc(s,e,st): n=dict((k,fresh(k,w)) for k,w in Sock.F); return Sock(**n),list(n.values())
class T:
    def __init__(t,e,connected=None):
        t.e=e; t.st=st=State(); t.this=e.newc(st,C,"connector"); t.fd=z3.BitVec("fd",32); t.bc=z3.BitVec("connected",8); t.len=z3.BitVec("len_ip",64); st.assume(z3.ULT(t.len,1<<20))
        st.assume(z3.And(z3.ULE(t.bc,1),z3.If(t.bc!=0,t.fd>=0,t.fd==-1)))
        if connected is not None: st.assume((t.bc!=0)==connected)
        t.port=z3.BitVec("port",16); t.to0=z3.BitVec("connect_timeout",64)
        e.setf(st,t.this,C,m_iFd=t.fd,m_bConnect=t.bc,m_wSvrPort=t.port,m_dwTimeout=t.to0)
        t.ipD=fresh_arr("ip"); t.ip=e.fptr(t.this,C,"m_sSvrIp") if hasattr(e,"fptr") else Ptr(t.this.obj,S(t.this.off+e.foff(C,"m_sSvrIp")))
        sm.mk(e,st,t.ip,Node("st",base_arr(t.ipD),t.len,1,BV(0,8)),t.len)
        z=bv64(0); st.abs["sock"]=Sock(conn=t.fd,open=t.fd,pend=BV(-1,32),W=z,R=z,why=BV(0,8),ss=z,su=z,rs=z,ru=z)
        t.errno=e.new_obj(st,"errno",4); st.ghost[("nohavoc","errnoobj")]=t.errno
        t.S=fresh_arr("stream"); t.stream=e.new_obj(st,"stream",bv64(1<<62),base_arr(t.S)); t.wire=e.new_obj(st,"wire",bv64(1<<62)); t.to=z3.BitVec("timeout",64); t.models()
        e.loop_hooks=[lambda e_,st_,fr,dname,hdr,body: {"cands":t.cands}]; t.extra=[]
    def cands(t,e,st0,h,e0,eh,vs):
        out=[]; A=lambda k: ("abs","sock",k)
        for k in("conn","open","pend","why","ss","su","rs","ru","W","R"):
            if A(k) in e0: out.append((("kept",k),lambda s,en,it,k=k: en[A(k)]==e0[A(k)]))
        for v in vs:
            if v[0]=="abs" or e0[v].size() not in(32,64): continue
            for k in("W","R"):
                if A(k) not in e0: continue
                out.append((("moved",v,k),lambda s,en,it,v=v,k=k: sx(en[v]-e0[v],64)==en[A(k)]-e0[A(k)]))
                out.append((("left",v,k),lambda s,en,it,v=v,k=k: sx(e0[v]-en[v],64)==en[A(k)]-e0[A(k)]))
        for f in t.extra: out+=f(e0)
        return out
    def sock(t,s): return s.abs["sock"]
    def err(t,s,x=None):
        x=fresh("errno",32) if x is None else x; s.assume(x>0); t.e.rawstore(s,Ptr(t.errno),x,4); return x
    def models(t):
        e=t.e; e.assumptions.add("assumed contract: socket/connect/poll/getsockopt/setsockopt/fcntl/close (a descriptor or -1 with errno), send takes 1..n bytes, recv delivers 1..n bytes, 0 at the end of the stream, or -1 with errno; one thread uses the connector")
        def M(p,f): e.models.insert(0,(re.compile(p),lambda e_,st,a,ins,d: f(st,*a))); e.model_cache.clear()
        def fails(st,errno=None): s=st.clone(); t.err(s,errno); return s
        def m_socket(st,*a):
            g=t.sock(st); e.prove(st,g.open==-1,"C27 no descriptor is lost"); f=fails(st); fd=fresh("fd",32); st.assume(fd>=0); st.abs["sock"]=g.set(open=fd); return [Outcome("ret",BV(-1,32),f),Outcome("ret",fd,st)]
        M(r'socket$',m_socket)
        def m_close(st,fd):
            g=t.sock(st); out=[]
            for c,s in e.split(st,z3.And(fd==g.open,g.open!=-1)):
                if c is None: out.append(Outcome("ret",BV(-1,32),s)); t.err(s)
                else: s.abs["sock"]=g.set(open=BV(-1,32),conn=BV(-1,32),pend=BV(-1,32)); out.append(Outcome("ret",fresh("close",32),s))
            return out
        M(r'close$',m_close)
        def m_connect(st,fd,p,n):
            g=t.sock(st); e.prove(st,z3.And(fd==g.open,g.open!=-1),"C27 connect uses the descriptor just made"); e.access(st,p,zx(n,64),"r","connect address"); e.prove(st,n==16,"C27 the address has its full size")
            r=lambda o,k: e._read(st,st.mem[p.obj.id],S(p.off+o),k); po=r(2,2); e.prove(st,z3.And(r(0,2)==2,z3.Concat(z3.Extract(7,0,po),z3.Extract(15,8,po))==t.port,r(4,4)==t.addr),"C27 the connection goes to the address and port asked for")
            f=fails(st); f.abs["sock"]=g.set(pend=fd); st.abs["sock"]=g.set(conn=fd); return [Outcome("ret",BV(-1,32),f),Outcome("ret",BV(0,32),st)]
        M(r'connect$',m_connect)
        t.addr=z3.BitVec("inet_addr",32)
        def m_inet(st,p):
            r=lambda i: e._read(st,st.mem[p.obj.id],S(p.off+i),1); e.prove(st,z3.And(z3.Implies(z3.ULT(K,t.len),r(K)==z3.Select(t.ipD,K)),r(t.len)==0),"C27 the connection goes to the address asked for"); return t.addr
        M(r'inet_addr$',m_inet)
        M(r'fcntl(64)?$',lambda st,*a: fresh("fcntl",32))
        def m_poll(st,p,n,to):
            e.access(st,p,bv64(8),"rw","poll set"); e.prove(st,n==1,"C27 poll looks at one descriptor"); fd=e._read(st,st.mem[p.obj.id],p.off,4); g=t.sock(st)
            e.rawstore(st,Ptr(p.obj,S(p.off+6)),fresh("revents",16),2); r=fresh("poll",32); st.assume(z3.And(r>=-1,r<=1)); t.err(st); st.assume(z3.Implies(fd!=g.open,r!=1)); return r
        M(r'poll$',m_poll)
        def m_select(st,*a): r=fresh("select",32); st.assume(z3.And(r>=-1,r<=2)); t.err(st); return r
        M(r'select$',m_select)
        def m_getsockopt(st,fd,lv,op,p,l):
            g=t.sock(st); x=fresh("so_error",32); e.access(st,p,bv64(4),"w","getsockopt value"); e.rawstore(st,p,x,4); ok=z3.And(fd==g.pend,g.pend!=-1,x==0,op==4,lv==1); st.abs["sock"]=g.set(conn=S(z3.If(ok,fd,g.conn))); return fresh("getsockopt",32)
        M(r'getsockopt$',m_getsockopt)
        def m_setsockopt(st,fd,lv,op,p,l):
            e.access(st,p,zx(l,64),"r","setsockopt value"); g=t.sock(st); op=S(op)
            if isc(op) and cv(op) in(20,21):
                e.prove(st,l==16,"C27 the time limit has its full size"); x,y=(e._read(st,st.mem[p.obj.id],S(p.off+o),8) for o in(0,8)); here=fd==g.open
                w=("rs","ru") if cv(op)==20 else("ss","su"); st.abs["sock"]=g.set(**{w[0]:S(z3.If(here,x,g.v[w[0]])),w[1]:S(z3.If(here,y,g.v[w[1]]))})
            return fresh("setsockopt",32)
        M(r'setsockopt$',m_setsockopt)
        def limit(st,a,b,w): e.prove(st,z3.And(a==t.to/bv64(1000),b==z3.SRem(t.to,bv64(1000))*1000),"C27 "+w+" waits at most the time given")
        def m_send(st,fd,p,n,fl):
            g=t.sock(st); out=[]; e.prove(st,(fl&0x4000)==0x4000,"C27 sending to a closed peer reports failure instead of raising SIGPIPE")
            for c,s in e.split(st,z3.And(fd==g.conn,g.conn!=-1)):
                if c is None: t.err(s,BV(EBADF,32)); s.abs["sock"]=g.set(why=BV(1,8)); out.append(Outcome("ret",bv64(-1),s)); continue
                e.access(s,p,n,"r","bytes to send"); limit(s,g.ss,g.su,"write"); f=fails(s); x=e._read(f,f.mem[t.errno.id],ZERO,4); f.abs["sock"]=g.set(why=S(z3.If(x==EINTR,BV(0,8),BV(1,8)))); out.append(Outcome("ret",bv64(-1),f))
                k=fresh("sent",64); s.assume(z3.And(z3.ULE(k,n),z3.Implies(n!=0,k!=0))); s.assume(z3.ULT(g.W,1<<60)); e.suppress+=1; e.copy(s,Ptr(t.wire,g.W),p,k); e.suppress-=1; s.abs["sock"]=g.set(W=S(g.W+k),why=BV(0,8)); out.append(Outcome("ret",k,s))
            return out
        M(r'send$',m_send)
        def m_recv(st,fd,p,n,fl):
            g=t.sock(st); out=[]; fl=S(fl)
            if not isc(fl) or cv(fl)&0x2: raise Unsupported("recv flags")
            for c,s in e.split(st,z3.And(fd==g.conn,g.conn!=-1)):
                if c is None: t.err(s,BV(EBADF,32)); s.abs["sock"]=g.set(why=BV(1,8)); out.append(Outcome("ret",bv64(-1),s)); continue
                e.access(s,p,n,"w","receive buffer"); limit(s,g.rs,g.ru,"read"); f=fails(s); x=e._read(f,f.mem[t.errno.id],ZERO,4); f.abs["sock"]=g.set(why=S(z3.If(x==EINTR,BV(0,8),BV(1,8)))); out.append(Outcome("ret",bv64(-1),f))
                z=s.clone(); z.abs["sock"]=g.set(why=BV(2,8)); out.append(Outcome("ret",bv64(0),z))
                k=fresh("got",64); s.assume(z3.And(z3.ULE(k,n),k!=0)); s.assume(z3.ULT(g.R,1<<60)); e.suppress+=1; e.copy(s,p,Ptr(t.stream,g.R),k); e.suppress-=1; s.abs["sock"]=g.set(R=S(g.R+k),why=BV(0,8)); out.append(Outcome("ret",k,s))
            return out
        M(r'recv$',m_recv)
        M(r'strerror$',lambda st,n: Ptr(e.new_obj(st,"strerror",64),ZERO))
    def inv(t,s,w):
        e=t.e; g=t.sock(s); fd=e.getf(s,t.this,C,"m_iFd",4); bc=e.getf(s,t.this,C,"m_bConnect",1)
        e.prove(s,z3.And(z3.ULE(bc,1),z3.If(bc!=0,z3.And(fd>=0,fd==g.conn,fd==g.open),z3.And(fd==-1,g.open==-1))),"C27 %s: connected exactly while the object holds a connected descriptor"%w)
def u_connect(e):
    t=T(e); st=t.st; cov=set(); n=z3.BitVec("len_asked",64); st.assume(z3.ULT(n,1<<20)); a=Ptr(e.new_obj(st,"ip",32)); D=fresh_arr("askedip"); sm.mk(e,st,a,Node("st",base_arr(D),n,1,BV(0,8)),n); t.port=z3.BitVec("asked_port",16); t.ipD=D; t.len=n
    for o in e.run(st,C+"::connect(%s const&, unsigned short, long)"%STRT,[t.this,a,t.port,z3.BitVec("asked_timeout",64)]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C27 connect does not throw")
        if o.kind!="ret": continue
        g=t.sock(s); t.inv(s,"connect"); e.prove(s,(o.val==BV(1,1))==(g.conn!=-1),"C27 connect reports success exactly when the connection stands"); e.prove(s,(e.getf(s,t.this,C,"m_bConnect",1)!=0)==(o.val==BV(1,1)),"C27 a connection that stands is remembered")
        l=sm.slen(e,s,t.ip); ch=sm.chars(e,s,t.ip); e.prove(s,z3.And(l==n,z3.Implies(z3.ULT(K,n),e._read(s,ch,K,1)==z3.Select(D,K))) if z3.is_expr(l) else FALSE,"C27 connect keeps the address for reconnecting"); e.prove(s,e.getf(s,t.this,C,"m_wSvrPort",2)==t.port,"C27 connect keeps the port for reconnecting")
        for c,r in e.split(s,o.val==BV(1,1)): cov.add("failed" if c is None else "connected")
    e.cover(cov,{"connected","failed"})
def u_write(e):
    for conn in(True,False):
        t=T(e,conn); st=t.st; n=z3.BitVec("size",32); st.assume(n>=0); D=fresh_arr("given"); src=e.new_obj(st,"given",zx(n,64),base_arr(D)); cov=set()
        rw=lambda s,i: e._read(s,s.mem[t.wire.id],i,1)
        t.extra=[lambda e0: [("wire",lambda s,en,it: z3.And(z3.ULE(en[("abs","sock","W")],zx(n,64)),z3.Implies(z3.ULT(K,en[("abs","sock","W")]),rw(s,K)==z3.Select(D,K))))]]
        for o in e.run(st,C+"::write(char const*, int, long)",[t.this,Ptr(src),n,t.to]):
            s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C27 write does not throw")
            if o.kind!="ret": continue
            g=t.sock(s); t.inv(s,"write"); e.prove(s,z3.And(z3.ULE(g.W,zx(n,64)),z3.Implies(z3.ULT(K,g.W),rw(s,K)==z3.Select(D,K))),"C27 write hands the socket exactly the given bytes in order")
            e.prove(s,z3.Or(o.val==n,o.val==-1),"C27 write returns the size or -1"); e.prove(s,z3.Implies(o.val==n,g.W==zx(n,64)),"C27 write reports success only when every byte was taken")
            e.prove(s,z3.Implies(o.val!=n,z3.Or(g.why!=0,g.open==-1)),"C27 write gives up only on an error, a time-out or a failed connection, not on a partial or interrupted send")
            if conn: e.prove(s,z3.Implies(o.val!=n,g.why!=0),"C27 write on a connection gives up only when sending failed")
            for c,r in e.split(s,o.val==n): cov.add("failed" if c is None else "sent")
        e.cover(cov,{"sent","failed"})
def got(e,t,s,buf,n,v,w):
    g=t.sock(s); e.prove(s,z3.Implies(v>=0,g.R==zx(v,64)),"C27 %s takes from the connection exactly what it reports"%w); e.prove(s,z3.Implies(z3.And(v>0,z3.ULT(K,g.R)),e._read(s,s.mem[buf.id],K,1)==z3.Select(t.S,K)),"C27 %s stores the arriving bytes in order from the start of the buffer"%w); e.prove(s,v<=n,"C27 %s reports at most the size asked"%w)
def u_readn(e):
    t=T(e); st=t.st; n=z3.BitVec("size",32); st.assume(n>=0); buf=e.new_obj(st,"buffer",zx(n,64)); cov=set()
    t.extra=[lambda e0: [("buf",lambda s,en,it: z3.And(z3.ULE(en[("abs","sock","R")],zx(n,64)),z3.Implies(z3.ULT(K,en[("abs","sock","R")]),e._read(s,s.mem[buf.id],K,1)==z3.Select(t.S,K))))]]
    for o in e.run(st,C+"::readn(char*, int, long)",[t.this,Ptr(buf),n,t.to]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C27 readn does not throw")
        if o.kind!="ret": continue
        g=t.sock(s); v=o.val; t.inv(s,"readn"); got(e,t,s,buf,n,v,"readn"); e.prove(s,z3.Implies(v==n,g.R==zx(n,64)),"C27 readn reports success only when the exact count arrived")
        e.prove(s,z3.Implies(v!=n,z3.Or(t.bc==0,g.why!=0)),"C27 readn gives up only on an error, a time-out or the end of the stream, not on a partial or interrupted receive"); e.prove(s,z3.Implies(z3.And(t.bc!=0,v!=n,g.why==1),v==-1),"C27 readn reports a failed receive as -1"); e.prove(s,z3.Implies(t.bc==0,v==-1),"C27 readn without a connection fails"); e.prove(s,z3.Implies(g.why==2,g.open==-1),"C27 a connection closed by the peer is closed")
        for c,r in e.split(s,v==n): cov.add("failed" if c is None else "all")
    e.cover(cov,{"all","failed"})
def u_read(e):
    t=T(e); st=t.st; n=z3.BitVec("size",32); st.assume(n>0); buf=e.new_obj(st,"buffer",zx(n,64)); cov=set()
    for o in e.run(st,C+"::read(char*, int, long)",[t.this,Ptr(buf),n,t.to]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C27 read does not throw")
        if o.kind!="ret": continue
        g=t.sock(s); v=o.val; t.inv(s,"read"); got(e,t,s,buf,n,v,"read"); e.prove(s,z3.And((v==0)==z3.And(t.bc!=0,g.why==2),z3.Implies(t.bc==0,v==-1),z3.Implies(z3.And(t.bc!=0,g.why==1),v==-1)),"C27 read reports 0 exactly at the end of the stream and -1 on failure"); e.prove(s,z3.Implies(v==0,g.open==-1),"C27 a connection closed by the peer is closed"); cov.add("x")
    e.cover(cov,{"x"})
def u_reads(e):
    t=T(e); st=t.st; n0=z3.BitVec("len_out",64); st.assume(z3.ULT(n0,1<<20)); b=Ptr(e.new_obj(st,"out",32)); sm.mk(e,st,b,Node("st",base_arr(fresh_arr("out")),n0,1,BV(0,8)),n0); cov=set()
    for o in e.run(st,C+"::read(%s&, long)"%STRT,[t.this,b,t.to]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C27 read does not throw")
        if o.kind!="ret": continue
        g=t.sock(s); v=o.val; t.inv(s,"read"); l=sm.slen(e,s,b); ch=sm.chars(e,s,b); e.prove(s,z3.Implies(v>=0,z3.And(g.R==zx(v,64),l==zx(v,64))),"C27 read yields a text of exactly the bytes received"); e.prove(s,z3.Implies(z3.And(v>0,z3.ULT(K,g.R)),e._read(s,ch,K,1)==z3.Select(t.S,K)),"C27 read yields the received bytes in order")
        e.prove(s,z3.And((v==0)==z3.And(t.bc!=0,g.why==2),z3.Implies(t.bc==0,v==-1),z3.Implies(z3.And(t.bc!=0,g.why==1),v==-1)),"C27 read reports 0 exactly at the end of the stream and -1 on failure"); cov.add("x")
    e.cover(cov,{"x"})
def u_life(e):
    t=T(e)
    for o in e.run(t.st.clone(),C+"::close()",[t.this]): t.inv(o.st,"close"); e.prove(o.st,t.sock(o.st).open==-1,"C27 close closes the descriptor")
    for o in e.run(t.st.clone(),C+"::~CTcpConnector()",[t.this]): e.prove(o.st,t.sock(o.st).open==-1,"C27 destruction closes the descriptor")
    st=t.st.clone(); this=e.newc(st,C,"new"); t.this=this; st.abs["sock"]=t.sock(st).set(open=BV(-1,32),conn=BV(-1,32))
    for o in e.run(st,C+"::CTcpConnector()",[this]): t.inv(o.st,"a new connector"); e.prove(o.st,e._read(o.st,o.st.mem[this.obj.id],S(this.off+e.foff(C,"m_szErrMsg")),1)==0,"C27 a new connector has an empty message")
UNITS=[("connect",u_connect),("write",u_write),("readn",u_readn),("read",u_read),("reads",u_reads),("lifetime",u_life)]
