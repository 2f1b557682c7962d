"""Monitor contract of lce::CBlockQueue<long> (C05).

Protected: m_dwSize, m_dwFront, m_dwBack and the slots.  Abstract queue: slot((front+1+i) mod max) for
0 <= i < size.  Every release finds either the state of the last acquisition or exactly the
operation's one transition of it."""
import z3
from engine import *
import locklib
TU=["blockqueue.cpp"]
C="lce::CBlockQueue<long>"
CONTRACTS=[C+"::"+f for f in("CBlockQueue","~CBlockQueue","clear","full","empty","front","back","size","max_size","push","pop(T&)","pop(T&,int)")]
F=("m_dwSize","m_dwFront","m_dwBack")
class Q:
    def __init__(q,e):
        q.e=e; q.st=st=State(); q.max=z3.BitVec("capacity",32); st.assume(z3.And(q.max>=1,q.max<(1<<30))); q.mx=e.new_obj(st,"mutex",40); q.cd=e.new_obj(st,"cond",48)
        q.data=e.new_obj(st,"slots",S(zx(q.max,64)*8)); q.data.kind="heap"; q.mx.kind=q.cd.kind="heap"
        q.this=e.newc(st,C,"queue",m_mutex=Ptr(q.mx),m_cond=Ptr(q.cd),m_pData=Ptr(q.data),m_dwMaxSize=q.max)
        q.off={k:e.foff(C,k) for k in F}; q.item=Ptr(e.new_obj(st,"item",8)); q.mon=locklib.Monitor(e,"C05",lambda s,p: p.obj is q.mx,q.fresh,q.inv,q.prot,q.released,q.cells,q.frozen); q.mon.unchanged=q.unchanged
        q.done=lambda s: s.ghost.get(("nohavoc","done")); q.allow=None; q.fresh(st); q.mon.start(st)
    def fresh(q,s):
        sz,fr,bk=[fresh(k,32) for k in("size","front","back")]; q.e.setf(s,q.this,C,m_dwSize=sz,m_dwFront=fr,m_dwBack=bk); s.mem[q.data.id]=base_arr(fresh_arr("slots")); s.assume(q.invv(sz,fr,bk))
    def rd(q,s,mem=None):
        m=(mem or s.mem)[q.this.obj.id]; return [S(q.e._read(s,m,bv64(q.off[k]),4)) for k in F]
    def nxt(q,x): y=x+1; return z3.If(y==q.max,BV(0,32),y)
    def invv(q,sz,fr,bk):
        a,b=q.nxt(fr),q.nxt(bk); t=a+sz; return z3.And(sz>=0,sz<=q.max,fr>=-1,fr<q.max,bk>=-1,bk<q.max,z3.Implies(sz>0,bk>=0),z3.If(t>=q.max,t-q.max,t)==b)
    def inv(q,s): return q.invv(*q.rd(s))
    def slot(q,s,i,mem=None): return q.e._read(s,(mem or s.mem)[q.data.id],S(sx(i,64)*8),8)
    def nth(q,fr,i): t=q.nxt(fr)+i; return z3.If(t>=q.max,t-q.max,t)
    def prot(q,s,p):
        if p.obj is q.data: return True
        if p.obj is q.this.obj: return isc(p.off) and cv(p.off) in q.off.values()
        return False
    def cells(q,c): return c[0]==q.data.id or (c[0]==q.this.obj.id and c[1] in q.off.values())
    def frozen(q,s,p): return p.obj is q.this.obj
    def same(q,s,goal_name=None):
        """the queue is the one found at the last acquisition (a fresh index K stands for every position)"""
        m0=q.mon.old(s)[0]; a,b=q.rd(s,m0),q.rd(s); K=z3.BitVec("K",32)
        return z3.And(a[0]==b[0],z3.Implies(z3.And(K>=0,K<a[0]),q.slot(s,q.nth(a[1],K),m0)==q.slot(s,q.nth(b[1],K))))
    def unchanged(q,s): return q.same(s)
    def released(q,s,k):
        m0=q.mon.old(s)[0]; e=q.e; a,b=q.rd(s,m0),q.rd(s)
        if all(x.eq(y) for x,y in zip(a,b)) and m0[q.data.id] is s.mem[q.data.id]: s.ghost[("nohavoc","seen")]=a[0]; s.ghost[("nohavoc","m0")]=m0; 
        else:
            e.prove(s,z3.BoolVal(q.allow is not None and not q.done(s)),"C05 one call changes the queue at most once, and only in push, pop and clear")
            if q.allow: q.allow(s,m0,a,b)
            s.ghost[("nohavoc","done")]=True
        if k!="unlock" and q.waits is not None: e.prove(s,q.waits(b),"C05 an operation waits only while it cannot proceed")
        elif k!="unlock": e.fail(s,"C05 this operation does not wait")
    waits=None
    def run(q,f,args): return q.e.run(q.st,C+"::"+f,[q.this]+args)
    def end(q,o,announce=False):
        e=q.e; s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C05 the operation does not throw"); e.prove(s,q.mon.held(s)==0,"C05 every path releases the lock"); ev=q.mon.events(s)
        if q.done(s) and announce: e.prove(s,z3.BoolVal(("broadcast",) in ev),"C05 a change that may let others proceed is announced to every waiter")
        return s
KB=lambda: z3.BitVec("K",32)
def u_push(e):
    q=Q(e); v=z3.BitVec("value",64); e.rawstore(q.st,q.item,v,8); cov=set()
    def allow(s,m0,a,b):
        K=KB(); e.prove(s,z3.And(a[0]<q.max,b[0]==a[0]+1),"C05 push adds one element and only below the capacity"); e.prove(s,z3.Implies(z3.And(K>=0,K<a[0]),q.slot(s,q.nth(a[1],K),m0)==q.slot(s,q.nth(b[1],K))),"C05 push keeps the elements that were held, in order"); e.prove(s,q.slot(s,q.nth(b[1],a[0]))==v,"C05 push appends the element given"); cov.add("pushed")
    q.allow=allow; q.waits=lambda b: b[0]>=q.max
    for o in q.run("push(long const&)",[q.item]): s=q.end(o,True); e.prove(s,z3.BoolVal(bool(q.done(s))),"C05 push returns only after adding the element"); e.prove(s,o.val==BV(1,1),"C05 push reports success")
    e.cover(cov,{"pushed"})
def u_pop(e,timed):
    q=Q(e); cov=set(); T=z3.BitVec("timeout",32); q.st.assume(T>=0)
    def allow(s,m0,a,b):
        K=KB(); e.prove(s,z3.And(a[0]>0,b[0]==a[0]-1),"C05 pop removes one element"); e.prove(s,z3.Implies(z3.And(K>=0,K<b[0]),q.slot(s,q.nth(a[1],K+1),m0)==q.slot(s,q.nth(b[1],K))),"C05 pop keeps the other elements in order"); s.ghost[("nohavoc","oldest")]=q.slot(s,q.nth(a[1],BV(0,32)),m0); cov.add("popped")
    q.allow=allow; q.waits=lambda b: b[0]==0
    for o in q.run("pop(long&, int)" if timed else "pop(long&)",[q.item]+([T] if timed else [])):
        s=q.end(o,True)
        if q.done(s): e.prove(s,o.val==BV(1,1),"C05 pop reports success"); e.prove(s,e.peek(s,q.item,8)==s.ghost[("nohavoc","oldest")],"C05 pop yields the oldest element")
        elif not timed: e.fail(s,"C05 pop returns only with an element")
        else:
            cov.add("timeout"); e.prove(s,o.val==BV(0,1),"C05 a pop without an element reports failure"); e.prove(s,s.ghost[("nohavoc","seen")]==0,"C05 the timed pop fails only when the queue is empty")
            tw=[x for x in q.mon.events(s) if x[0]=="timedwait"]; now=s.ghost.get(("nohavoc","now"))
            e.prove(s,z3.BoolVal(bool(tw) and now is not None),"C05 the timed pop waits before it fails")
            if tw and now: e.prove(s,tw[-1][3]!=0,"C05 the timed pop fails only after its time is over")
        for x in q.mon.events(s):
            if x[0]=="timedwait":
                sec,ns=s.ghost[("nohavoc","now")]; e.prove(s,z3.And(x[2]>=0,x[2]<1000000000),"C05 the deadline is a valid time"); e.prove(s,locklib.deadline(x[1],x[2],sec,ns,T),"C05 the deadline is the requested number of milliseconds from now")
    e.cover(cov,{"popped","timeout"} if timed else {"popped"})
def u_obs(e):
    for f,val in(("full() const",lambda n,q: z3.If(n>=q.max,BV(1,1),BV(0,1))),("empty() const",lambda n,q: z3.If(n==0,BV(1,1),BV(0,1))),("size() const",lambda n,q: n)):
        q=Q(e)
        for o in q.run(f,[]): s=q.end(o); e.prove(s,o.val==val(s.ghost[("nohavoc","seen")],q),"C05 %s reports the state under the lock"%f[:-8])
    q=Q(e)
    for o in q.run("max_size() const",[]): s=q.end(o); e.prove(s,o.val==q.max,"C05 max_size is the capacity")
    for f in("front","back"):
        q=Q(e); v=z3.BitVec("before",64); e.rawstore(q.st,q.item,v,8)
        for o in q.run(f+"(long&) const",[q.item]):
            s=q.end(o); m0=s.ghost[("nohavoc","m0")]; a=q.rd(s,m0); got=e.peek(s,q.item,8)
            e.prove(s,o.val==z3.If(a[0]>0,BV(1,1),BV(0,1)),"C05 %s reports whether there is an element"%f); e.prove(s,z3.If(a[0]>0,got==q.slot(s,q.nth(a[1],BV(0,32) if f=="front" else a[0]-1),m0),got==v),"C05 %s yields the %s element and only then writes"%(f,"oldest" if f=="front" else "newest"))
def u_clear(e):
    q=Q(e); q.allow=lambda s,m0,a,b: e.prove(s,b[0]==0,"C05 clear empties the queue")
    for o in q.run("clear()",[]):
        s=q.end(o)
        if not q.done(s): e.prove(s,s.ghost[("nohavoc","seen")]==0,"C05 clear empties the queue")
def u_ctor(e):
    q=Q(e); q.mon.exclusive=True; q.mon.is_lock=lambda s,p: p.obj.kind=="heap"; q.mon.fresh=lambda s: None; q.mon.inv=lambda s: TRUE; q.mon.released=lambda s,k: None; n=z3.BitVec("asked",32); q.st.assume(n<(1<<30)); st=q.st; this=e.newc(st,C,"newqueue"); ok=set()
    for o in e.run(st,C+"::CBlockQueue(int)",[this,n]):
        s=o.st
        if o.kind=="throw": continue
        g=lambda k,w: e.getf(s,this,C,k,w); mx=g("m_dwMaxSize",4); e.prove(s,mx==z3.If(n<=0,BV(1000,32),n),"C05 a non-positive capacity means 1000"); d=g("m_pData",8); ok.add("made")
        e.prove(s,z3.And(d.off==0,d.obj.size==sx(mx,64)*8),"C05 there is one slot per element of capacity"); q.max=mx; e.prove(s,z3.And(q.invv(*[g(k,4) for k in F]),g("m_dwSize",4)==0),"C05 a new queue is empty and consistent"); m,c=g("m_mutex",8),g("m_cond",8); e.prove(s,z3.BoolVal(m.obj is not c.obj and m.obj.kind=="heap" and c.obj.kind=="heap"),"C05 a new queue has a lock and a condition of its own")
        for t in e.run(s,C+"::~CBlockQueue()",[this]): e.prove(t.st,z3.BoolVal(t.kind=="ret" and all(x.obj.id in t.st.dead for x in(d,m,c))),"C05 destruction frees the slots, the lock and the condition")
    e.cover(ok,{"made"})
UNITS=[("push",u_push),("pop",lambda e:u_pop(e,False)),("timed_pop",lambda e:u_pop(e,True)),("observers",u_obs),("clear",u_clear),("lifetime",u_ctor)]
