"""Contracts of the binary package filters (C10)."""
import z3
from engine import *
TU=["filters.cpp"]
F={"CH2ShortT3PackageFilter":(2,4),"CH2T3PackageFilter":(4,6),"CRawPackageFilter":(0,0)}
CONTRACTS=["lce::%s::%s"%(c,f) for c in F for f in("isWholePkg","getRealPkgData")]
def u(e,cls):
    w,ov=F[cls]; st=State(); n=z3.BitVec("size",32); D=z3.Array("data",z3.BitVecSort(64),z3.BitVecSort(8))
    d=e.new_obj(st,"received",z3.If(n<0,bv64(0),sx(n,64)),base_arr(D)); C="lce::"+cls
    this=e.new_obj(st,"filter",8); a=e.new_obj(st,"real",4); b=e.new_obj(st,"pkg",4); a0,b0=z3.BitVec("real0",32),z3.BitVec("pkg0",32); e.rawstore(st,Ptr(a),a0,4); e.rawstore(st,Ptr(b),b0,4)
    B=lambda i: z3.Select(D,bv64(i)); cov=set()
    if w: L=zx(z3.Concat(*[B(1+i) for i in range(w)]),64); last=z3.Select(D,L-1)
    n64=sx(n,64)
    def hook(e_,s,p,k,rw):
        if rw=="w" and p.obj is d and not e_.suppress: e_.prove(s,FALSE,"C10 the filter only reads the received bytes")
    e.access_hook=hook
    for o in e.run(st,C+"::isWholePkg(char const*, int, int&, int&)",[Ptr(this),Ptr(d),n,Ptr(a),Ptr(b)]):
        s=o.st; e.prove(s,z3.BoolVal(o.kind=="ret"),"C10 isWholePkg does not throw"); r=o.val; e.prove(s,z3.Or(r==0,r==-1,r==-2),"C10 isWholePkg returns 0, -1 or -2")
        tot=e.peek(s,Ptr(b),4); real=e.peek(s,Ptr(a),4)
        if w:
            some=n>0; start=B(0)==2; head=n>=ov; whole=z3.And(some,start,head,z3.UGE(L,bv64(ov)),z3.ULE(L,n64),last==3)
            bad=z3.Or(z3.And(some,z3.Not(start)),z3.And(head,z3.ULT(L,bv64(ov))),z3.And(head,z3.ULE(L,n64),last!=3),z3.And(head,z3.UGT(L,bv64(0x7fffffff))))
        else: whole=n>0; bad=FALSE
        for k,c,nm in((0,whole,"whole"),(-2,bad,"invalid"),(-1,z3.And(z3.Not(whole),z3.Not(bad)),"incomplete")):
            t=s.clone(); t.assume(r==k)
            if not e.sat(t): continue
            cov.add(nm); e.prove(t,c,"C10 %d is returned only for a frame that is %s"%(k,nm))
            if k==0:
                e.prove(t,zx(tot,64)==(L if w else n64),"C10 total length is the frame's declared length"); e.prove(t,zx(real,64)==(L-ov if w else n64),"C10 payload length is the frame without its framing")
                e.prove(t,z3.And(tot>0,tot<=n,real>=0,real<=tot),"C10 an accepted frame is non-empty and within the received bytes")
                for q in e.run(t,C+"::getRealPkgData(char const*, int)",[Ptr(this),Ptr(d),n]):
                    ok=isinstance(q.val,Ptr) and q.val.obj is d; e.prove(q.st,z3.BoolVal(False) if not ok else q.val.off==bv64(w+1 if w else 0),"C10 getRealPkgData points at the payload")
    e.access_hook=None; e.cover(cov,{"whole","incomplete"}|({"invalid"} if w else set()))
UNITS=[(c,lambda e,c=c:u(e,c)) for c in F]
