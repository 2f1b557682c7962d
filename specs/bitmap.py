"""Contracts of lce::CBitmap<w>, w in 1,2,3,4,5,6,8 (C07)."""
import z3
from engine import *
import shmlib
TU=["bitmap.cpp"]
WID=(1,2,3,4,5,6,8)
def C(w): return "lce::CBitmap<%dul>"%w
CONTRACTS=[C(w)+"::"+f for w in WID for f in("CBitmap","init","get","set","clear","size")]
def made(e,w,create,ro=False):
    """states after a successful constructor + init(key, n, create): (state, this, n, segment)"""
    shmlib.install(e); st=State(); n=z3.BitVec("cells",64); st.assume(z3.ULE(n,1<<60)); out=[]
    this=e.newc(st,"lce::CBitmap<%d>"%w,"bitmap"); kinds=set()
    for o in e.run(st,C(w)+"::CBitmap()",[this]):
        for q in e.run(o.st,C(w)+"::init(int, unsigned long, bool, bool)",[this,z3.BitVec("key",32),n,BV(int(create),1),BV(int(ro),1)]):
            e.prove(q.st,z3.BoolVal(q.kind=="ret"),"C07 init does not throw"); r=tobool(q.val)
            for c,t in e.split(q.st,r):
                if c is None: kinds.add("refused"); continue
                s=shmlib.seg_of(t); kinds.add("new" if s[2] else "existing"); out.append((t,this,n,s[1],s[2]))
    return out,kinds
def idx(nm,a,st,n):
    g=z3.BitVec(nm,61); return S(z3.Concat(g,BV(a,3)))
def getv(e,st,w,this,i):
    """value of get(i) on a throw-away copy; it must not change anything"""
    res=[]
    for o in e.run(st.clone(),C(w)+"::get(unsigned long) const",[this,i]):
        e.prove(o.st,z3.BoolVal(o.kind=="ret"),"C07 get does not throw"); v=o.val
        res.append((o.st,zx(v,32)))
    return res
def u_cells(e,w,residues):
    sts,kinds=made(e,w,True); T="bool" if w==1 else "unsigned char"
    e.cover(kinds,{"new","existing","refused"},"init")
    cov=set(); v=z3.BitVec("value",8)
    for st,this,n,seg,new in sts:
        if new: continue      # the existing segment has arbitrary content: covers both
        hdr=e._read(st,st.mem[seg.id],ZERO,8)
        st.mem[seg.id]=base_arr(z3.Array("cells_bytes",z3.BitVecSort(64),z3.BitVecSort(8)))
        for a in residues:
            for b in range(8):
                s0=st.clone(); i=idx("gi",a,s0,n); j=idx("gj",b,s0,n); s0.assume(z3.ULT(v,BV(1<<w,9)) if w<8 and False else (z3.ULT(v,1<<w) if w<8 else TRUE))
                s0.assume(z3.And(z3.ULT(i,n),z3.ULT(j,n))); arg=v if w>1 else z3.Extract(0,0,v)
                if a==b:
                    for o in e.run(s0.clone(),C(w)+"::set(unsigned long, %s)"%T,[this,i,arg]):
                        e.prove(o.st,z3.BoolVal(o.kind=="ret") if o.kind!="ret" else tobool(o.val),"C07 set of a cell below the size succeeds")
                        for s1,got in getv(e,o.st,w,this,i): cov.add("same"); e.prove(s1,got==zx(v,32),"C07 get after set returns the value stored")
                s0.assume(j!=i)
                for s1,before in getv(e,s0,w,this,j):
                    e.prove(s1,z3.ULE(before,(1<<w)-1),"C07 get returns a value of the cell's width")
                    for o in e.run(s1,C(w)+"::set(unsigned long, %s)"%T,[this,i,arg]):
                        for s2,after in getv(e,o.st,w,this,j): cov.add("other"); e.prove(s2,after==before,"C07 set changes no other cell")
    e.cover(cov,{"other"}|{"same"})
def u_edges(e,w):
    T="bool" if w==1 else "unsigned char"
    for create in(True,False):
        sts,kinds=made(e,w,create); e.cover(kinds,{"existing","refused"}|({"new"} if create else set()))
        v=z3.BitVec("value",8); i=z3.BitVec("i",64); k=z3.BitVec("k",64)
        for st,this,n,seg,new in sts:
            e.prove(st,z3.UGE(seg.size,zx(n,64)*0+1),"C07 segment is not empty")
            for o in e.run(st.clone(),C(w)+"::size() const",[this]): e.prove(o.st,o.val==n,"C07 size is the number of cells")
            s=st.clone(); a=z3.Array("cells_bytes",z3.BitVecSort(64),z3.BitVecSort(8)); s.mem[seg.id]=base_arr(a); s.assume(z3.UGE(i,n)); m0=s.mem[seg.id]
            for o in e.run(s.clone(),C(w)+"::get(unsigned long) const",[this,i]):
                e.prove(o.st,zx(o.val,32)==BV(0,32),"C07 get beyond the size reports 0"); e.prove(o.st,e.peek(o.st,Ptr(seg,k),1)==z3.Select(a,k),"C07 get changes nothing")
            for o in e.run(s.clone(),C(w)+"::set(unsigned long, %s)"%T,[this,i,v if w>1 else z3.Extract(0,0,v)]):
                e.prove(o.st,z3.Not(tobool(o.val)),"C07 set beyond the size reports false"); e.prove(o.st,e.peek(o.st,Ptr(seg,k),1)==z3.Select(a,k),"C07 set beyond the size changes nothing")
            if new:
                for b in range(8):
                    t=st.clone(); t.assume(z3.ULT(idx("gj",b,t,n),n))
                    for s1,got in getv(e,t,w,this,idx("gj",b,t,n)): e.prove(s1,got==BV(0,32),"C07 cells of a new bitmap are 0")
                s=st.clone(); hd=e._read(s,s.mem[seg.id],ZERO,8); s.mem[seg.id]=Node("st",base_arr(a),ZERO,8,hd)
                for o in e.run(s,C(w)+"::clear()",[this]):
                    for b in range(8):
                        t=o.st.clone(); j=idx("gj",b,t,n); t.assume(z3.ULT(j,n))
                        for s1,got in getv(e,t,w,this,j): e.prove(s1,got==BV(0,32),"C07 clear sets every cell to 0")
UNITS=[]
for w in WID:
    for h in (range(0,4),range(4,8)): UNITS.append(("cells%d:%d"%(w,h[0]),lambda e,w=w,h=h:u_cells(e,w,h)))
    UNITS.append(("edges%d"%w,lambda e,w=w:u_edges(e,w)))
