"""Contracts of CAnyValue's constructors, conversions, copying and container accessors (C14).

std::deque and std::map are assumed to behave as the standard says; every operation the code makes on
them is recorded with its operands, and the contract is that exactly the right operation is made."""
import z3
from engine import *
import strmodel as sm, anylib
from anylib import Any,KIND,NAME
TU=["any.cpp"]
A=anylib.A; STR="std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"; KS=tuple(KIND); ASSIGN=A+"::operator=(%s const&)"%A
CONTRACTS=[]
def fn(n): CONTRACTS.append(A+"::"+n); return A+"::"+n
J=z3.BitVec("j",64); V64=z3.BitVecSort(64); B8=z3.BitVecSort(8)
def text(e,st,name,lim=1<<32):
    n=z3.BitVec(name+"_len",64); st.assume(z3.ULT(n,lim)); D=z3.Array(name,V64,B8); o=e.new_obj(st,name,32); sm.mk(e,st,Ptr(o),base_arr(D),n); return Ptr(o),n,D
def ctext(e,st,name):
    n=z3.BitVec(name+"_len",64); st.assume(z3.ULT(n,1<<32)); D=z3.Array(name,V64,B8); o=e.new_obj(st,name,n+1,base_arr(D),const=True); o.ghost["nul"]=n; st.assume(z3.Select(D,n)==0); return Ptr(o),n,D
def owned(e,s,a,p,fresh_from,name):
    """nothing allocated here is left without an owner"""
    x=a.get(s,p,"val"); live=[o for o in s.objs.values() if o.kind=="heap" and o.id>fresh_from and o.id not in s.dead and o.name=="heap" and not(isinstance(x,Ptr) and x.obj is o)]
    e.prove(s,z3.BoolVal(not live),name+": nothing allocated is left without an owner")
def alive(e,s,o,name): e.prove(s,z3.BoolVal(o.id not in s.dead),name)
def same_scalar(e,s,a,p,k,word,name): e.prove(s,z3.BoolVal(a.inv(s,p,name)==k),name+": type"); x=a.get(s,p,"val"); e.prove(s,x==word if not isinstance(x,Ptr) else FALSE,name+": value")
def same_text(e,s,q,n,rd,name):
    e.prove(s,sm.slen(e,s,q)==n,name+": length"); t=s.clone(); t.assume(z3.ULT(J,n)); e.prove(t,sm.at(e,t,q,J)==rd(t),name+": bytes")
# ---------------------------------------------------------------- constructors
NUM=[("char",8,1),("unsigned char",8,0),("unsigned short",16,0),("short",16,1),("int",32,1),("unsigned int",32,0),("long",64,1),("unsigned long",64,0),("long long",64,1),("unsigned long long",64,0)]
def u_ctor(e):
    e.contracts={}
    def mk(T,args,then):
        st=State(); a=Any(e); p=Ptr(e.new_obj(st,"value",a.size)); av=args(st); n=0
        for q in e.run(st,fn("CAnyValue(%s)"%T),[p]+av): n+=1; e.prove(q.st,z3.BoolVal(q.kind=="ret"),"C14 construction from %s does not throw"%(T or "nothing")); then(q.st,a,p,av)
        e.cover({n>0},{True})
    mk("",lambda st: [],lambda s,a,p,v: e.prove(s,z3.BoolVal(a.inv(s,p,"C14 default value")=="Null"),"C14 a default value is null"))
    for T,w,sg in NUM:
        def then(s,a,p,v,T=T,w=w,sg=sg):
            word=sx(v[0],64) if sg else zx(v[0],64)
            for c,k in((v[0]<0,"SInteger"),(v[0]>=0,"Integer")) if sg else((TRUE,"Integer"),):
                t=s.clone(); t.assume(c)
                if e.sat(t): same_scalar(e,t,a,p,k,word,"C14 constructed from %s"%T)
        mk(T,lambda st,w=w: [z3.BitVec("given",w)],then)
    mk("bool",lambda st: [z3.BitVec("given",1)],lambda s,a,p,v: same_scalar(e,s,a,p,"Bool",zx(v[0],64),"C14 constructed from bool"))
    mk("double",lambda st: [z3.BitVec("given",64)],lambda s,a,p,v: same_scalar(e,s,a,p,"Float",v[0],"C14 constructed from double"))
    F=z3.Function("fpext_32_64",z3.BitVecSort(32),z3.BitVecSort(64)); mk("float",lambda st: [z3.BitVec("given",32)],lambda s,a,p,v: same_scalar(e,s,a,p,"Float",F(v[0]),"C14 constructed from float"))
    for T,f in(("char const*",ctext),("%s const&"%STR,text)):
        st=State(); a=Any(e); p=Ptr(e.new_obj(st,"value",a.size)); q,n,D=f(e,st,"given"); c=0; mx=Obj.n
        for z in e.run(st,fn("CAnyValue(%s)"%T),[p,q]):
            s=z.st; w="C14 constructed from "+("a C string" if T[0]=="c" else "a string"); e.prove(s,z3.BoolVal(z.kind=="ret" and a.inv(s,p,w)=="String"),w+": type"); c+=1; d=Ptr(a.get(s,p,"val").obj); owned(e,s,a,p,mx,w)
            if T[0]=="c":
                k=sm.slen(e,s,d); e.prove(s,z3.And(z3.ULE(k,n),z3.Select(D,k)==0),w+": up to its terminator"); t=s.clone(); t.assume(z3.ULT(J,k)); sm.inst(t,J); e.prove(t,sm.at(e,t,d,J)==z3.Select(D,J),w+": bytes"); e.prove(t,z3.Select(D,J)!=0,w+": the first terminator")
            else: same_text(e,s,d,n,lambda t: z3.Select(D,J),w)
        e.cover({c>0},{True})
# ---------------------------------------------------------------- conversions
CONV=[("asInt() const",32),("asInt64() const",64),("asUInt() const",32),("asUInt64() const",64)]+[("operator %s() const"%T,w) for T,w,_ in NUM]
PREDS={"isObject":"Map","isArray":"Vector","isString":"String","isBool":"Bool","isNull":"Null","isUInt":"Integer","isInt":"SInteger","isFloat":"Float"}
def snap(e,s,p): return s.mem[p.obj.id]
def value(e,k,name="value"):
    st=State(); a=Any(e); p,pl=a.make(st,k,name); return st,a,p,pl
def kept(e,s,a,p,k,pl,w):
    kk=a.inv(s,p,"C14 "+w); x=a.get(s,p,"val"); ok=kk==k and ((isinstance(x,Ptr) and x.obj is pl and pl.id not in s.dead) if isinstance(pl,Obj) else not isinstance(x,Ptr))
    e.prove(s,z3.BoolVal(ok),"C14 %s leaves the value unchanged"%w)
    if ok and not isinstance(pl,Obj): e.prove(s,x==pl,"C14 %s leaves the value unchanged"%w)
def u_conv(e):
    e.contracts={}
    for k in KS:
        num=k in("Integer","SInteger","Bool")
        for f,w in CONV:
            st,a,p,pl=value(e,k); c=0
            for q in e.run(st,fn(f),[p]): c+=1; e.prove(q.st,z3.BoolVal(q.kind=="ret"),"C14 conversion does not throw"); e.prove(q.st,q.val==(z3.Extract(w-1,0,pl) if num else BV(0,w)),"C14 %s of a %s"%(f.replace(" const",""),k)); kept(e,q.st,a,p,k,pl,"conversion")
            e.cover({c>0},{True})
        for f in("asBool() const","operator bool() const"):
            st,a,p,pl=value(e,k)
            for q in e.run(st,fn(f),[p]): v=q.val; v=v if z3.is_bv(v) else z3.If(v,BV(1,1),BV(0,1)); e.prove(q.st,(v!=0)==((pl!=0) if num else FALSE),"C14 %s of a %s"%(f.replace(" const",""),k)); kept(e,q.st,a,p,k,pl,"conversion")
        st,a,p,pl=value(e,k)
        for q in e.run(st,fn("operator double() const"),[p]): e.prove(q.st,q.val==(pl if k=="Float" else BV(0,64)),"C14 conversion to double of a %s"%k); kept(e,q.st,a,p,k,pl,"conversion")
        for f in("asString[abi:cxx11]() const","_ZNK3lce9CAnyValuecvNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEEv"):
            st,a,p,pl=value(e,k); r=Ptr(e.new_obj(st,"result",32)); c=0
            if k=="String": N,C=sm.slen(e,st,Ptr(pl)),sm.chars(e,st,Ptr(pl))
            for q in e.run(st,fn(f) if f[0]!="_" else f,[r,p]):
                s=q.st; c+=1; e.prove(s,z3.BoolVal(q.kind=="ret"),"C14 conversion to string does not throw"); kept(e,s,a,p,k,pl,"conversion")
                if k=="String": same_text(e,s,r,N,lambda t: e._read(t,C,J,1),"C14 conversion of a string to a string")
                else: e.prove(s,sm.slen(e,s,r)==0,"C14 conversion of a %s to a string is empty"%k)
            e.cover({c>0},{True})
        st,a,p,pl=value(e,k)
        for q in e.run(st,fn("data() const"),[p]): v=q.val; e.prove(q.st,(z3.And(z3.BoolVal(isinstance(v,Ptr) and v.obj is sm.sget(e,q.st,Ptr(pl))[0]),v.off==0) if k=="String" else z3.BoolVal(isinstance(v,Ptr) and v.obj is NULLOBJ)),"C14 data() of a %s"%k); kept(e,q.st,a,p,k,pl,"data()")
        st,a,p,pl=value(e,k); want=sm.slen(e,st,Ptr(pl)) if k=="String" else a.count(st,pl) if k=="Vector" else a.mapsize(st,pl) if k=="Map" else ZERO
        for q in e.run(st,fn("size() const"),[p]): e.prove(q.st,q.val==want,"C14 size() of a %s"%k); kept(e,q.st,a,p,k,pl,"size()")
        for f,t in PREDS.items():
            st,a,p,pl=value(e,k)
            for q in e.run(st,fn(f+"()"),[p]): v=q.val; v=v if z3.is_bv(v) else z3.If(v,BV(1,1),BV(0,1)); e.prove(q.st,(v!=0)==z3.BoolVal(k==t),"C14 %s() of a %s"%(f,k)); kept(e,q.st,a,p,k,pl,f)
# ---------------------------------------------------------------- copying, destruction
def equal(e,s,a,p,k,pl,src,w,contents):
    """p is an independent value equal to what src (kind k, payload pl) was"""
    kk=a.inv(s,p,"C14 "+w); e.prove(s,z3.BoolVal(kk==k),"C14 %s: same type"%w)
    if kk!=k: return
    x=a.get(s,p,"val")
    if k=="String": e.prove(s,z3.BoolVal(x.obj is not pl),"C14 %s: independent"%w); same_text(e,s,Ptr(x.obj),contents[0],lambda t: e._read(t,contents[1],J,1),"C14 %s: same string"%w)
    elif k in("Vector","Map"):
        e.prove(s,z3.BoolVal(x.obj is not pl and any(ev[1] is x.obj and ev[2] is pl for ev in a.events(s,"copy")) and not [ev for ev in a.events(s) if ev[0] not in("copy","destroyed") and ev[1] is x.obj]),"C14 %s: an independent copy of the elements"%w)
        if k=="Vector": e.prove(s,a.count(s,x.obj)==contents[0],"C14 %s: same elements"%w)
    else: e.prove(s,x==pl,"C14 %s: same value"%w)
def contents(e,st,a,k,pl): return (sm.slen(e,st,Ptr(pl)),sm.chars(e,st,Ptr(pl))) if k=="String" else (a.count(st,pl),) if k=="Vector" else ()
def u_copy(e):
    e.contracts={}
    for k in KS:
        st=State(); a=Any(e); src,pl=a.make(st,k,"source"); c=contents(e,st,a,k,pl); p=Ptr(e.new_obj(st,"copy",a.size)); n=0; mx=Obj.n
        for q in e.run(st,fn("CAnyValue(%s const&)"%A),[p,src]): n+=1; e.prove(q.st,z3.BoolVal(q.kind=="ret" ),"C14 copying does not throw"); equal(e,q.st,a,p,k,pl,src,"copy of a %s"%k,c); kept(e,q.st,a,src,k,pl,"copying"); owned(e,q.st,a,p,mx,"C14 copy")
        e.cover({n>0},{True})
        st,a,p,pl=value(e,k)
        for f in("~CAnyValue()","clear()"):
            for q in e.run(st.clone(),fn(f),[p]):
                s=q.st; e.prove(s,z3.BoolVal(q.kind=="ret"),"C14 %s does not throw"%f)
                if isinstance(pl,Obj): e.prove(s,z3.BoolVal(pl.id in s.dead),"C14 %s frees what the value owns"%f)
                if f=="clear()": e.prove(s,z3.BoolVal(a.inv(s,p,"C14 clear")=="Null"),"C14 clear leaves a null value")
def nested(e,st,a,outer,opl,k):
    """a value of kind k held inside the container opl"""
    if outer=="Vector": o=a.elems(st,opl); p=Ptr(o,bv64(anylib.ESZ)); st.assume(z3.UGE(a.count(st,opl),2))
    else: o=a.node(st,opl); p=Ptr(o,bv64(32))
    pl=a.fill(st,p,k,"element")
    if isinstance(pl,Obj): o.ghost.setdefault("children",[]).append(pl)
    return p,pl
def u_assign(part):
    def u(e):
        e.contracts={}
        for k in KS:
            for src_k in(KS if part=="plain" else [x for x in KS] if k in("Vector","Map") else ()):
                st=State(); a=Any(e); p,pl=a.make(st,k,"target")
                if part=="plain": src,spl=a.make(st,src_k,"source")
                else: src,spl=nested(e,st,a,k,pl,src_k)
                c=contents(e,st,a,src_k,spl); n=0; mx=Obj.n; w="assignment of a %s to a %s%s"%(src_k,k,"" if part=="plain" else " that holds it")
                for q in e.run(st,fn("operator=(%s const&)"%A),[p,src]):
                    s=q.st; n+=1; e.prove(s,z3.BoolVal(q.kind=="ret" and isinstance(q.val,Ptr) and q.val.obj is p.obj),"C14 assignment returns the value"); equal(e,s,a,p,src_k,spl,src,w,c); owned(e,s,a,p,mx,"C14 "+w)
                    if part=="plain": kept(e,s,a,src,src_k,spl,"assignment")
                    if isinstance(pl,Obj): e.prove(s,z3.BoolVal(pl.id in s.dead),"C14 %s frees what was held"%w)
                e.cover({n>0},{True})
            st=State(); a=Any(e); p,pl=a.make(st,k,"target")
            for q in e.run(st,fn("operator=(%s const&)"%A),[p,p]): kept(e,q.st,a,p,k,pl,"self-assignment")
    return u
# ---------------------------------------------------------------- containers
def err(q): return q.kind=="throw" and q.val[1]=="_ZTISt13runtime_error"
def statics(e,st,a,first):
    """function-local static values: before the first use they are raw, afterwards they hold what the first use left (a null value, shown by the first-use runs)"""
    import re
    if not any(r.pattern=="__cxa_guard_acquire$" and f.__name__=="acq" for r,f in e.models):
        def acq(e_,st,a,ins,d): return BV(1,32)
        e.models.insert(0,(re.compile("__cxa_guard_acquire$"),acq))
    for n in list(e.m.globals):
        g="_ZGV"+n[2:]
        if g in e.m.globals and e.gobj(st,n).size is not None and cv(S(e.gobj(st,n).size))==a.size:
            e.rawstore(st,Ptr(e.gobj(st,g)),BV(0 if first else 1,64),8)
            if first: e.rawstore(st,Ptr(e.gobj(st,n)),ZERO,8)
            else: a.fill(st,Ptr(e.gobj(st,n)),"Null","static")
def u_index(e):
    e.contracts={}
    for f in("operator[](int) const","operator[](int)"):
        for k in KS:
            st,a,p,pl=value(e,k); i=z3.BitVec("index",32); cov=set()
            if k=="Vector": st.assume(z3.ULT(a.count(st,pl),1<<31)); n=a.count(st,pl); els=a.elems(st,pl)
            for q in e.run(st,fn(f),[p,i]):
                s=q.st; kept(e,s,a,p,k,pl,"indexing"); cov.add(q.kind)
                if q.kind=="throw": e.prove(s,z3.BoolVal(err(q)),"C14 a bad index throws the class's error"); e.prove(s,z3.Or(i<0,z3.UGE(zx(i,64),n)) if k=="Vector" else TRUE,"C14 only an index outside the vector throws"); continue
                e.prove(s,z3.And(i>=0,z3.ULT(zx(i,64),n)) if k=="Vector" else FALSE,"C14 indexing outside a vector throws")
                if k=="Vector": e.prove(s,z3.And(z3.BoolVal(isinstance(q.val,Ptr) and q.val.obj is els),q.val.off==zx(i,64)*anylib.ESZ),"C14 indexing yields the element asked for")
            e.cover(cov,{"throw","ret"} if k=="Vector" else {"throw"})
def keyed(e,st,ct): return ctext(e,st,"key") if ct else text(e,st,"key")
def keyis(e,s,key,n,D,ct,w):
    """the key used is the first 255 bytes of the key given"""
    node,kn=key
    if ct:
        # the C string ends at its first zero byte
        L=z3.BitVec("strlen",64); t=s.clone(); t.assume(z3.And(z3.ULE(L,n),z3.Select(D,L)==0)); t.assume(z3.Implies(z3.ULT(kn,L),z3.Select(D,kn)!=0)); sm.inst(t,L,kn,J); sm.inst(t,bv64(254))
        t.assume(z3.Implies(z3.ULT(J,L),z3.Select(D,J)!=0)); t.assume(z3.Implies(z3.ULT(bv64(254),L),z3.Select(D,254)!=0))
        st=s
    else: L=n; t=s.clone()
    e.prove(t,kn==z3.If(z3.ULT(L,255),L,bv64(255)),"C14 %s: keys are cut to 255 bytes"%w); t.assume(z3.ULT(J,kn)); e.prove(t,e._read(t,node,J,1)==z3.Select(D,J),"C14 %s: the key is the one given"%w)
def u_lookup(e):
    e.contracts={}
    for f,ct in(("operator[](%s const&) const"%STR,0),("operator[](char const*) const",1),("hasKey(%s const&) const"%STR,0)):
        for k,first in [(k,b) for k in KS for b in(True,False)]:
            st,a,p,pl=value(e,k); statics(e,st,a,first); q0,n,D=keyed(e,st,ct); cov=set(); w=f.split("(")[0] if "hasKey" in f else "lookup"
            for q in e.run(st,fn(f),[p,q0]):
                s=q.st; kept(e,s,a,p,k,pl,w); e.prove(s,z3.BoolVal(q.kind=="ret"),"C14 %s does not throw"%w); ev=a.events(s,"find"); e.prove(s,z3.BoolVal(len(ev)==(1 if k=="Map" else 0) and not a.events(s,"index") and not a.events(s,"erase")),"C14 %s looks the key up once and changes nothing"%w)
                hit=None
                if k=="Map" and len(ev)==1: keyis(e,s,ev[0][2],n,D,ct,w); hit=ev[0][3]
                cov.add("hit" if hit is not None else "miss")
                if "hasKey" in f: v=q.val; v=v if z3.is_bv(v) else z3.If(v,BV(1,1),BV(0,1)); e.prove(s,(v!=0)==z3.BoolVal(hit is not None),"C14 hasKey tells whether the key is there")
                elif hit is not None: e.prove(s,z3.And(z3.BoolVal(isinstance(q.val,Ptr) and q.val.obj is hit),q.val.off==32) if isinstance(q.val,Ptr) else FALSE,"C14 lookup yields the entry's value")
                else: e.prove(s,z3.BoolVal(isinstance(q.val,Ptr) and a.inv(s,q.val,"C14 missing key")=="Null"),"C14 lookup of a missing key yields a null value")
            e.cover(cov,{"hit","miss"} if k=="Map" else {"miss"})
def became(e,s,a,p,k,want,pl,w):
    """a null value becomes an empty container, a container stays the same one; returns it"""
    kk=a.inv(s,p,"C14 "+w); e.prove(s,z3.BoolVal(kk==want),"C14 %s works on a %s"%(w,want.lower()))
    if kk!=want: raise PathEnd()
    o=a.get(s,p,"val").obj
    if k==want: e.prove(s,z3.BoolVal(o is pl),"C14 %s keeps the container"%w)
    return o
def u_insert(e):
    log=[]
    def assign(e_,s,a_,ins): s.ghost[("nohavoc","as")]=s.ghost.get(("nohavoc","as"),())+((a_[0],a_[1]),); return a_[0]
    e.contracts={ASSIGN:assign}
    for f,ct,ins_ in(("operator[](%s const&)"%STR,0,0),("operator[](char const*)",1,0),("insert(%s const&, %s const&)"%(STR,A),0,1)):
        for k in KS:
            st,a,p,pl=value(e,k); q0,n,D=keyed(e,st,ct); cov=set(); w="insert" if ins_ else "operator[]"; args=[p,q0]
            if ins_: v,vp=a.make(st,"Integer","new value"); args.append(v)
            for q in e.run(st,fn(f),args):
                s=q.st; cov.add(q.kind)
                if q.kind=="throw": e.prove(s,z3.BoolVal(err(q) and k not in("Map","Null")),"C14 %s throws only on a value of another type"%w); kept(e,s,a,p,k,pl,w+" on another type"); continue
                e.prove(s,z3.BoolVal(k in("Map","Null")),"C14 %s on a value of another type throws"%w); o=became(e,s,a,p,k,"Map",pl,w); ev=[x for x in a.events(s) if x[1] is o]
                e.prove(s,z3.BoolVal(len(ev)==1 and ev[0][0]=="index"),"C14 %s touches exactly the entry of its key"%w)
                if len(ev)!=1 or ev[0][0]!="index": continue
                keyis(e,s,ev[0][2],n,D,ct,w); x=ev[0][3]; asg=s.ghost.get(("nohavoc","as"),())
                if ins_: e.prove(s,z3.And(z3.BoolVal(len(asg)==1 and asg[0][0].obj is x and asg[0][1].obj is v.obj),asg[0][0].off==32) if asg else FALSE,"C14 insert assigns the value given to the entry")
                else: e.prove(s,z3.And(z3.BoolVal(isinstance(q.val,Ptr) and q.val.obj is x and not asg),q.val.off==32) if isinstance(q.val,Ptr) else FALSE,"C14 operator[] yields the entry's value")
            e.cover(cov,{"ret"} if k in("Map","Null") else {"throw"})
def u_erase(e):
    e.contracts={}
    for k in KS:
        st,a,p,pl=value(e,k); q0,n,D=text(e,st,"key"); c=0
        for q in e.run(st,fn("erase(%s const&)"%STR),[p,q0]):
            s=q.st; c+=1; e.prove(s,z3.BoolVal(q.kind=="ret"),"C14 erase does not throw"); kept(e,s,a,p,k,pl,"erase") if k!="Map" else e.prove(s,z3.BoolVal(a.inv(s,p,"C14 erase")=="Map"),"C14 erase keeps the map"); ev=[x for x in a.events(s) if x[0] not in("find",)]
            e.prove(s,z3.BoolVal([x[0] for x in ev]==(["erase"] if k=="Map" else [])),"C14 erase removes exactly the key given")
            if k=="Map" and ev: keyis(e,s,ev[0][2],n,D,0,"erase")
        e.cover({c>0},{True})
def u_pushpop(e):
    e.contracts={}
    for f in("push_back","push_front","pop_back","pop_front"):
        push=f.startswith("push")
        for k in KS:
            st,a,p,pl=value(e,k); cov=set(); args=[p]; n=a.count(st,pl) if k=="Vector" else ZERO
            if push: v,vp=a.make(st,"Integer","pushed"); args.append(v)
            for q in e.run(st,fn(f+("(%s const&)"%A if push else "()")),args):
                s=q.st; cov.add(q.kind)
                if q.kind=="throw":
                    e.prove(s,z3.BoolVal(err(q)),"C14 misuse throws the class's error"); e.prove(s,FALSE if push and k in("Vector","Null") else (n==0 if k in("Vector","Null") else TRUE),"C14 %s throws only on another type or an empty vector"%f); kk=a.inv(s,p,"C14 "+f)
                    if k!="Null": kept(e,s,a,p,k,pl,f+" refused")
                    e.prove(s,z3.BoolVal(not [x for x in a.events(s) if x[0] in("push_back","push_front","pop_back","pop_front","clear","resize")]),"C14 a refused %s changes nothing"%f); continue
                e.prove(s,z3.BoolVal(k in("Vector","Null")),"C14 %s on a value of another type throws"%f); o=became(e,s,a,p,k,"Vector",pl,f); ev=[x for x in a.events(s) if x[1] is o]
                e.prove(s,z3.BoolVal(len(ev)==1 and ev[0][0]==f and (not push or ev[0][2].obj is v.obj)),"C14 %s does exactly that to the vector"%f)
                if not push: e.prove(s,n!=0,"C14 %s on an empty vector throws"%f)
            e.cover(cov,({"ret"} if push else {"ret","throw"}) if k=="Vector" else ({"ret"} if push else {"throw"}) if k=="Null" else {"throw"})
UNITS=[("ctor",u_ctor),("conv",u_conv),("copy",u_copy),("assign",u_assign("plain")),("assign_inner",u_assign("inner")),("index",u_index),("lookup",u_lookup),("insert",u_insert),("erase",u_erase),("pushpop",u_pushpop)]
