"""Bit-vector formulas over-approximated (usually exactly) by linear integer arithmetic.

Every w-bit term becomes an integer in [0,2^w); modular wrap-around is kept, by an explicit quotient
variable per sum.  Terms outside the fragment become unconstrained integers of their range, so
`unsat` of the image implies `unsat` of the original.  `sat` is never taken from here: a model is
replayed on the bit-vector formula by the caller."""
import z3
class LIA:
    def __init__(s):
        s.ti={}; s.tb={}; s.side=[]; s.keep=[]; s.n=0; s.fun={}; s.consts={}; s.rng={}
        s.exact=True; s.sidx={}; s.pending=None
    def var(s,name,lo,hi):
        s.n+=1; v=z3.Int("%s~%d"%(name,s.n)); s.pending.append(v>=lo); s.pending.append(v<=hi); return v
    # each translated term: (expr, lo, hi)
    def lin(s,e,w,c,acc):
        """accumulate c*e into acc: dict id->(term,coef), const under None"""
        M=1<<w; k=e.decl().kind()
        if z3.is_bv_value(e): acc[None]=acc.get(None,0)+c*e.as_long(); return
        if k==z3.Z3_OP_BADD:
            for x in e.children(): s.lin(x,w,c,acc)
            return
        if k==z3.Z3_OP_BSUB:
            ch=e.children(); s.lin(ch[0],w,c,acc)
            for x in ch[1:]: s.lin(x,w,-c,acc)
            return
        if k==z3.Z3_OP_BNEG: s.lin(e.children()[0],w,-c,acc); return
        if k==z3.Z3_OP_BNOT: acc[None]=acc.get(None,0)-c; s.lin(e.children()[0],w,-c,acc); return
        if k==z3.Z3_OP_BMUL:
            cc=1; rest=[]
            for x in e.children():
                if z3.is_bv_value(x): cc=cc*x.as_long()
                else: rest.append(x)
            cc%=M
            if cc>=M//2: cc-=M
            if len(rest)==1: s.lin(rest[0],w,c*cc,acc); return
            if not rest: acc[None]=acc.get(None,0)+c*cc; return
        if k==z3.Z3_OP_BSHL and z3.is_bv_value(e.children()[1]):
            sh=e.children()[1].as_long()
            if sh<w: s.lin(e.children()[0],w,c<<sh,acc)
            return
        i=e.get_id(); t=acc.get(i)
        acc[i]=(e,(t[1] if t else 0)+c)
    def i(s,e):
        """integer image (expr,lo,hi)"""
        r=s.ti.get(e.get_id())
        if r is None:
            r=s._i(e); s.ti[e.get_id()]=r; s.keep.append(e)
        return r
    def _i(s,e):
        w=e.size(); M=1<<w
        if z3.is_bv_value(e): v=e.as_long(); return (z3.IntVal(v),v,v)
        k=e.decl().kind(); ch=e.children()
        if k in(z3.Z3_OP_BADD,z3.Z3_OP_BSUB,z3.Z3_OP_BNEG,z3.Z3_OP_BNOT,z3.Z3_OP_BMUL,z3.Z3_OP_BSHL):
            acc={}; s.lin(e,w,1,acc)
            if not(len(acc)==1 and e.get_id() in acc):
                c0=acc.pop(None,0)%M
                if c0>=M//2: c0-=M
                tot=[];lo=hi=c0
                for (x,c) in acc.values():
                    c=c%M
                    if c>=M//2: c-=M
                    if c==0: continue
                    t,l,h=s.i(x); tot.append(t*c if c!=1 else t)
                    if c>0: lo+=c*l; hi+=c*h
                    else: lo+=c*h; hi+=c*l
                ex=z3.Sum([z3.IntVal(c0)]+tot) if c0 else (z3.Sum(tot) if len(tot)!=1 else tot[0]) if tot else z3.IntVal(0)
                if lo>=0 and hi<M: return (ex,lo,hi)
                klo=lo//M; khi=hi//M
                r=s.var("s",0,M-1)
                if khi-klo==1:
                    s.n+=1; b=z3.Bool("ov~%d"%s.n)
                    s.pending.append(z3.If(b,r==ex-khi*M,r==ex-klo*M))
                else:
                    q=s.var("q",klo,khi); s.pending.append(r==ex-q*M)
                return (r,0,M-1)
            # non-linear product etc.
            s.exact=False; return (s.var("o",0,M-1),0,M-1)
        if k==z3.Z3_OP_ITE:
            c=s.b(ch[0]); a,l1,h1=s.i(ch[1]); b,l2,h2=s.i(ch[2])
            return (z3.If(c,a,b),min(l1,l2),max(h1,h2))
        if k==z3.Z3_OP_CONCAT:
            # n-ary: most significant first
            tot=[];sh=0;lo=hi=0
            for x in reversed(ch):
                t,l,h=s.i(x)
                if h>0: tot.append(t*(1<<sh) if sh else t)
                lo+=l<<sh; hi+=h<<sh; sh+=x.size()
            return (z3.Sum(tot) if len(tot)>1 else (tot[0] if tot else z3.IntVal(0)),lo,hi)
        if k==z3.Z3_OP_ZERO_EXT: return s.i(ch[0])
        if k==z3.Z3_OP_SIGN_EXT:
            t,l,h=s.i(ch[0]); n=ch[0].size(); H=1<<(n-1)
            if h<H: return (t,l,h)
            return (z3.If(t<H,t,t+(M-(1<<n))),0,M-1)
        if k==z3.Z3_OP_EXTRACT:
            hi,lo=e.params(); return s.extract(ch[0],hi,lo)
        if k==z3.Z3_OP_BAND and len(ch)==2:
            for a,b in((ch[0],ch[1]),(ch[1],ch[0])):
                if z3.is_bv_value(b):
                    m=b.as_long()
                    if (m&(m+1))==0 and m: 
                        t=s.extract(a,m.bit_length()-1,0); return t
                    inv=(~m)&(M-1)
                    if (inv&(inv+1))==0 and inv:
                        t,l,h=s.i(a); u=s.extract(a,inv.bit_length()-1,0); return (t-u[0],0,M-1)
        if k==z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            sh=ch[1].as_long()
            if sh>=w: return (z3.IntVal(0),0,0)
            return s.extract(ch[0],w-1,sh)
        if k in(z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I,z3.Z3_OP_BUREM,z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            c=ch[1].as_long(); t,l,h=s.i(ch[0])
            key=("div",ch[0].get_id(),c)
            if key not in s.fun:
                q=s.var("q",l//c,h//c); r=s.var("r",0,c-1); s.pending.append(t==q*c+r); s.fun[key]=(q,r)
            q,r=s.fun[key]
            return (q,l//c,h//c) if k in(z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I) else (r,0,c-1)
        if k in(z3.Z3_OP_BUREM,z3.Z3_OP_BUREM_I):
            t,l,h=s.i(ch[0]); u,l2,h2=s.i(ch[1]); s.exact=False
            r=s.var("r",0,M-1); s.pending.append(z3.Implies(u>0,z3.And(r<u,r<=t)))
            s.pending.append(z3.Implies(t<u,r==t)); s.pending.append(z3.Implies(z3.And(t>=u,t<2*u),r==t-u))
            return (r,0,M-1)
        if k==z3.Z3_OP_SELECT and z3.is_const(ch[0]):
            a=ch[0]; f=s.fun.get(("a",a.get_id()))
            if f is None:
                f=s.fun[("a",a.get_id())]=z3.Function("A_%d"%len(s.fun),z3.IntSort(),z3.IntSort()); s.keep.append(a)
            t,l,h=s.i(ch[1]); r=f(t); s.pending.append(r>=0); s.pending.append(r<M); return (r,0,M-1)
        if k==z3.Z3_OP_UNINTERPRETED and len(ch)==0:
            v=s.var(e.decl().name(),0,M-1); s.consts[e.get_id()]=(e,v); return (v,0,M-1)
        if k==z3.Z3_OP_UNINTERPRETED and all(z3.is_bv(x) for x in ch):
            d=e.decl(); f=s.fun.get(("f",d.get_id()))
            if f is None: f=s.fun[("f",d.get_id())]=z3.Function("F_%d"%len(s.fun),*([z3.IntSort()]*(len(ch)+1))); s.keep.append(d)
            r=f(*[s.i(x)[0] for x in ch]); s.pending.append(r>=0); s.pending.append(r<M); return (r,0,M-1)
        s.exact=False
        return (s.var("o",0,M-1),0,M-1)
    def extract(s,x,hi,lo):
        w=x.size()
        t,l,h=s.i(x)
        if lo==0 and h<(1<<(hi+1)): return (t,l,h)
        key=("ex",x.get_id(),hi,lo)
        if key in s.fun: return s.fun[key]
        s.keep.append(x)
        n=hi-lo+1
        r=s.var("x",0,(1<<n)-1)
        ex=r*(1<<lo) if lo else r
        if lo: ex=ex+s.var("xl",0,(1<<lo)-1)
        H=h>>(hi+1)
        if H>0: ex=ex+s.var("xh",0,H)*(1<<(hi+1))
        s.pending.append(t==ex)
        s.fun[key]=(r,0,(1<<n)-1); return s.fun[key]
    def sg(s,x):
        t,l,h=s.i(x); w=x.size(); H=1<<(w-1)
        if h<H: return t
        if l>=H: return t-(1<<w)
        return z3.If(t<H,t,t-(1<<w))
    def b(s,e):
        r=s.tb.get(e.get_id())
        if r is None:
            r=s._b(e); s.tb[e.get_id()]=r; s.keep.append(e)
        return r
    def _b(s,e):
        k=e.decl().kind(); ch=e.children()
        if k==z3.Z3_OP_TRUE or k==z3.Z3_OP_FALSE: return e
        if k==z3.Z3_OP_AND: return z3.And(*[s.b(c) for c in ch])
        if k==z3.Z3_OP_OR: return z3.Or(*[s.b(c) for c in ch])
        if k==z3.Z3_OP_NOT: return z3.Not(s.b(ch[0]))
        if k==z3.Z3_OP_IMPLIES: return z3.Implies(s.b(ch[0]),s.b(ch[1]))
        if k==z3.Z3_OP_XOR: return z3.Xor(s.b(ch[0]),s.b(ch[1]))
        if k==z3.Z3_OP_ITE: return z3.If(s.b(ch[0]),s.b(ch[1]),s.b(ch[2]))
        if k in(z3.Z3_OP_EQ,z3.Z3_OP_DISTINCT) and len(ch)==2:
            if z3.is_bool(ch[0]): r=s.b(ch[0])==s.b(ch[1])
            elif z3.is_bv(ch[0]): r=s.i(ch[0])[0]==s.i(ch[1])[0]
            else: s.exact=False; s.n+=1; return z3.Bool("ob~%d"%s.n)
            return r if k==z3.Z3_OP_EQ else z3.Not(r)
        if k==z3.Z3_OP_ULEQ: return s.i(ch[0])[0]<=s.i(ch[1])[0]
        if k==z3.Z3_OP_ULT: return s.i(ch[0])[0]<s.i(ch[1])[0]
        if k==z3.Z3_OP_UGEQ: return s.i(ch[0])[0]>=s.i(ch[1])[0]
        if k==z3.Z3_OP_UGT: return s.i(ch[0])[0]>s.i(ch[1])[0]
        if k==z3.Z3_OP_SLEQ: return s.sg(ch[0])<=s.sg(ch[1])
        if k==z3.Z3_OP_SLT: return s.sg(ch[0])<s.sg(ch[1])
        if k==z3.Z3_OP_SGEQ: return s.sg(ch[0])>=s.sg(ch[1])
        if k==z3.Z3_OP_SGT: return s.sg(ch[0])>s.sg(ch[1])
        if k==z3.Z3_OP_UNINTERPRETED and not ch: return e
        if k==z3.Z3_OP_UNINTERPRETED and all(z3.is_bv(x) for x in ch):
            d=e.decl(); f=s.fun.get(("p",d.get_id()))
            if f is None: f=s.fun[("p",d.get_id())]=z3.Function("P_%d"%len(s.fun),*([z3.IntSort()]*len(ch)+[z3.BoolSort()])); s.keep.append(d)
            return f(*[s.i(x)[0] for x in ch])
        s.exact=False; s.n+=1
        return z3.Bool("ob~%d"%s.n)
    def clause(s,c):
        """image of a top-level constraint, with the side conditions it introduced (first use)"""
        s.pending=[]; r=s.b(c); p=s.pending; s.pending=None
        return [r]+p
class Solver:
    """LIA images of constraint lists; every query re-translates only new terms.  Side conditions of
    shared subterms are tracked per constraint that first introduced them, so a fresh solver is
    given all side conditions of every term translated so far that it may need."""
    def __init__(s): s.last=""
    def check(s,cs,timeout):
        L=LIA(); so=z3.SolverFor("QF_UFLIA") if False else z3.Solver(); so.set("timeout",timeout)
        for c in cs:
            for x in L.clause(c): so.add(x)
        r=str(so.check()); s.last=r+(" exact" if L.exact else " approx")
        eqs=None
        if r=="sat":
            m=so.model(); eqs=[]
            for e,v in L.consts.values():
                x=m.eval(v,model_completion=True)
                if z3.is_int_value(x): eqs.append(e==z3.BitVecVal(x.as_long(),e.size()))
        return r,eqs,L.exact
