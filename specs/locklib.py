"""Monitor contracts: a lock protects a piece of state with an invariant.  Acquiring the lock yields an
arbitrary state satisfying the invariant (other threads may have run); every release must find the
invariant and an allowed change of the state since the last acquisition; the state may only be
accessed while the lock is held.  pthread calls are assumed to succeed and to behave as POSIX states."""
import z3
from engine import *
NOTE="assumed contract: pthread mutex, rwlock, spin lock and condition functions as POSIX states them, without failure (timedwait may time out)"
class Held:
    def __init__(s,v): s.v=v
    def env(s): return {"held":s.v}
    def havoc(s,e,h): x=fresh("held",8); return Held(x),[x]
def deadline(sec,ns,nsec0,ns0,ms):
    """(sec,ns) is ms milliseconds after (nsec0,ns0), both with 0 <= ns < 10^9 and ms >= 0"""
    q=zx(z3.UDiv(ms,BV(1000,32)),64); r=zx(z3.URem(ms,BV(1000,32)),64)*1000000; d=sec-nsec0
    return z3.Or(z3.And(d==q,ns==ns0+r),z3.And(d==q+1,ns==ns0+r-1000000000))
class Monitor:
    """fresh_state(st): havoc the protected state and assume the invariant; inv(st): the invariant;
    protected(st,ptr): does the pointer denote protected state; released(st,kind): obligations at a release"""
    def __init__(s,e,prop,is_lock,fresh_state,inv,protected,released=None,cells=None,frozen=None):
        s.e=e; s.prop=prop; s.is_lock=is_lock; s.fresh=fresh_state; s.inv=inv; s.protected=protected; s.released=released or (lambda st,k: None); s.cells=cells or (lambda c: False); s.frozen=frozen
        s.exclusive=False
        if not hasattr(e,"monitor"):
            def w(f):
                def m(e_,st,a,ins,d): e_.assumptions.add(NOTE); return getattr(e_.monitor,f)(st,a,d)
                return m
            for pat,f in((r'pthread_(mutex|spin|rwlock|mutexattr|cond|condattr)_(init|settype|setclock|setpshared)$',"m_init"),(r'pthread_(mutex|spin|rwlock|cond|mutexattr|condattr)_destroy$',"m_destroy"),(r'pthread_(mutex_lock|spin_lock|rwlock_wrlock)$',"m_lock"),(r'pthread_(mutex_unlock|spin_unlock|rwlock_unlock)$',"m_unlock"),(r'pthread_cond_wait$',"m_wait"),(r'pthread_cond_(timed|clock)wait$',"m_timed"),(r'pthread_cond_(signal|broadcast)$',"m_wake"),(r'gettimeofday$',"m_tod"),(r'clock_gettime$',"m_clock")): e.model(pat,w(f))
            e.access_hook=lambda *a: e.monitor.hook(*a); e.loop_hooks.append(lambda *a: e.monitor.loop(*a))
        e.monitor=s
    def start(s,st,held=0): st.abs["lock"]=Held(BV(held,8)); s.snap(st)
    def held(s,st): return st.abs["lock"].v
    def snap(s,st): st.ghost[("nohavoc","snap")]=(dict(st.mem),dict(st.abs))
    def old(s,st): return st.ghost[("nohavoc","snap")]
    def note(s,st,x): st.ghost[("nohavoc","events")]=st.ghost.get(("nohavoc","events"),())+(x,)
    def events(s,st): return st.ghost.get(("nohavoc","events"),())
    def ok(s,st,p):
        if isinstance(p,Ptr) and s.is_lock(st,p): return True
        return False
    def m_init(s,st,a,d): return BV(0,32)
    def m_destroy(s,st,a,d):
        if "mutex_" in d or "spin" in d: s.e.prove(st,s.held(st)==0,s.prop+" the lock is not destroyed while held")
        s.note(st,("destroy",d)); return BV(0,32)
    def acquire(s,st): s.fresh(st); st.abs["lock"]=Held(BV(1,8)); s.snap(st)
    def m_lock(s,st,a,d):
        if not s.ok(st,a[0]): raise Unsupported("another lock")
        s.e.prove(st,s.held(st)==0,s.prop+" the lock is not taken twice"); s.acquire(st); return BV(0,32)
    def release(s,st,k):
        s.e.prove(st,s.held(st)==1,s.prop+" only a held lock is released"); s.e.prove(st,s.inv(st),s.prop+" the state is consistent whenever the lock is free"); s.released(st,k); st.abs["lock"]=Held(BV(0,8))
    def m_unlock(s,st,a,d):
        if not s.ok(st,a[0]): raise Unsupported("another lock")
        s.release(st,"unlock"); return BV(0,32)
    def m_wait(s,st,a,d):
        if not s.ok(st,a[1]): raise Unsupported("another lock")
        s.cond(st,a[0]); s.release(st,"wait"); s.acquire(st); s.note(st,("wait",)); return BV(0,32)
    def m_timed(s,st,a,d):
        if not s.ok(st,a[1]): raise Unsupported("another lock")
        s.cond(st,a[0]); sec=s.e.peek(st,a[2],8); ns=s.e.peek(st,a[2]+8,8); s.release(st,"timedwait"); s.acquire(st); r=fresh("timedwait",32); st.assume(z3.Or(r==0,r==110)); st.ghost[("nohavoc","timed")]=r; s.note(st,("timedwait",sec,ns,r)); return r
    is_cond=None; on_wake=None
    def is_held(s,st): return bool(s.e.decide(st,s.held(st)==1))
    def cond(s,st,p):
        if s.is_cond and not(isinstance(p,Ptr) and s.is_cond(st,p)): raise Unsupported("another condition variable")
    def m_wake(s,st,a,d):
        s.cond(st,a[0])
        if s.on_wake: s.on_wake(st)
        s.note(st,("broadcast" if "broadcast" in d else "signal",)); return BV(0,32)
    def m_tod(s,st,a,d):
        x=fresh("now_sec",64); u=fresh("now_usec",64); st.assume(z3.And(x>=0,x<(1<<40),u>=0,u<1000000)); s.e.store(st,a[0],x,IntT(64)); s.e.store(st,a[0]+8,u,IntT(64)); st.ghost[("nohavoc","now")]=(x,S(u*1000)); return BV(0,32)
    def m_clock(s,st,a,d):
        x=fresh("now_sec",64); u=fresh("now_nsec",64); st.assume(z3.And(x>=0,x<(1<<40),u>=0,u<1000000000)); s.e.store(st,a[1],x,IntT(64)); s.e.store(st,a[1]+8,u,IntT(64))
        st.ghost[("nohavoc","now")]=(x,u); st.ghost[("nohavoc","clock")]=a[0]; return BV(0,32)
    def hook(s,e,st,p,n,rw):
        if s.exclusive or rw=="free": return
        if s.protected(st,p):
            if not z3.is_true(S(s.held(st)==1)): e.prove(st,s.held(st)==1,s.prop+" shared state is only touched while its lock is held",assume=True)
        elif rw=="w" and s.frozen and s.frozen(st,p): e.fail(st,s.prop+" what other threads read without the lock is not written")
    def loop(s,e,st,f,dname,hdr,body):
        if "lock" not in st.abs: return None
        held=e.decide(st,s.held(st)==1)
        if not held: return {"skip":s.cells}
        if not e.suppress: e.prove(st,s.inv(st),s.prop+" the state is consistent when a loop under the lock starts")
        def same(t,name):
            if t.ghost.get(("nohavoc","snap")) is None: return
            e.prove(t,s.unchanged(t) if s.unchanged else TRUE,name)
        same(st,s.prop+" the state is unchanged when a waiting loop starts")
        def havoc(h): s.fresh(h); s.snap(h); return []
        def back(b): e.prove(b,s.held(b)==1,s.prop+" a loop entered with the lock held keeps it"); e.prove(b,s.inv(b),s.prop+" the state is consistent at every iteration"); same(b,s.prop+" a waiting loop does not change the state")
        return {"skip":s.cells,"skipabs":s.skipabs,"havoc":havoc,"back":back}
    skipabs=staticmethod(lambda k: False); unchanged=None
