"""Assumed contracts of functions outside /repo: libc, allocator, C++ ABI, pthread, std::string.
Every model that is used is reported as an assumption in the evidence."""
import z3, re
from engine import *

def install_std(e):
    import strmodel; strmodel.install(e)
def simple(fn):
    """model without forking: fn(e,st,args)->value"""
    def m(e,st,a,ins,d): 
        return [Outcome("ret",fn(e,st,a),st)]
    return m

def install_base(e):
    M=e.model
    def note(e,d): e.assumptions.add("assumed contract: "+short(d))
    # ---- allocation
    def m_new(e,st,a,ins,d):
        note(e,"operator new returns a fresh block of the size asked, or throws bad_alloc above 2^47 bytes")
        if not e.valid(st,z3.ULE(a[0],bv64(1<<47))):
            t=st.clone(); t.assume(z3.UGT(a[0],bv64(1<<47))); st.assume(z3.ULE(a[0],bv64(1<<47)))
            x=e.new_obj(t,"exc",8); out=[Outcome("throw",(Ptr(x,ZERO),"_ZTISt9bad_alloc"),t)]
            if not e.sat(st): return out
            o=e.new_obj(st,"heap",a[0]); o.kind="heap"
            return out+[Outcome("ret",Ptr(o,ZERO),st)]
        o=e.new_obj(st,"heap",a[0]); o.kind="heap"
        st.ghost[("nohavoc","alloc")]=st.ghost.get(("nohavoc","alloc"),())+(o.id,)
        return Ptr(o,ZERO)
    M(r'operator new(\[\])?\(unsigned long\)$',m_new)
    def m_delete(e,st,a,ins,d):
        note(e,"operator delete")
        p=a[0]
        if isinstance(p,UndefPtr): e.fail(st,"memory-safety: delete of an undefined pointer"); raise PathEnd()
        if p.obj.kind=="null": return None
        if p.obj.kind!="heap": e.fail(st,"memory-safety: delete of non-heap object %s"%p.obj.name); raise PathEnd()
        if p.obj.id in st.dead: e.fail(st,"memory-safety: double delete of %s"%p.obj.name); raise PathEnd()
        e.prove(st,p.off==ZERO,"memory-safety: delete of the start of the block")
        st.dead[p.obj.id]="deleted"
        if p.obj.guard: p.obj.guard(e,st,p,ZERO,"free")
    M(r'operator delete(\[\])?\(void\*(, unsigned long)?\)$|free$',m_delete)
    # ---- assertions and termination
    def m_assert(e,st,a,ins,d):
        msg="?"
        p=a[0]
        g=p.obj.ghost.get("init")
        if g is not None and g.init and g.init[0]=="bytes": msg=g.init[1].rstrip(b"\0").decode("latin-1")
        e.fail(st,"internal assertion holds: "+msg); raise PathEnd()
    M(r'__assert_fail$',m_assert)
    def m_abort(e,st,a,ins,d):
        e.fail(st,"control flow: %s is not reached"%d); raise PathEnd()
    M(r'abort$|std::terminate\(\)$|__cxa_call_unexpected$|__cxa_pure_virtual$|__clang_call_terminate$|std::__throw_bad_function_call|__stack_chk_fail$|exit$',m_abort)
    # ---- exceptions
    def m_allocexc(e,st,a,ins,d):
        o=e.new_obj(st,"exc",a[0]); o.kind="heap"; return Ptr(o,ZERO)
    M(r'__cxa_allocate_exception$',m_allocexc)
    M(r'__cxa_free_exception$|__cxa_end_catch$|__cxa_guard_release$|__cxa_guard_abort$|__cxa_atexit$',lambda e,st,a,ins,d:[Outcome("ret",BV(0,32),st)])
    M(r'std::(runtime_error|logic_error|out_of_range|length_error|invalid_argument|overflow_error)::\1\(',lambda e,st,a,ins,d:None)
    M(r'std::(runtime_error|logic_error|out_of_range|length_error|invalid_argument|overflow_error|exception)::~\1\(',lambda e,st,a,ins,d:None)
    def m_throw(e,st,a,ins,d):
        return [Outcome("throw",(a[0],a[1].obj.name),st)]
    M(r'__cxa_throw$',m_throw)
    def m_begin(e,st,a,ins,d): return a[0]
    M(r'__cxa_begin_catch$',m_begin)
    def m_rethrow(e,st,a,ins,d): return [Outcome("throw",st.exc,st)]
    M(r'__cxa_rethrow$',m_rethrow)
    def m_throwstd(kind):
        def m(e,st,a,ins,d):
            o=e.new_obj(st,"exc",8); return [Outcome("throw",(Ptr(o,ZERO),kind),st)]
        return m
    M(r'__cxa_throw_bad_array_new_length$',m_throwstd("_ZTISt9bad_alloc"))
    M(r'std::__throw_length_error',m_throwstd("_ZTISt12length_error"))
    M(r'std::__throw_out_of_range',m_throwstd("_ZTISt12out_of_range"))
    M(r'std::__throw_logic_error',m_throwstd("_ZTISt11logic_error"))
    M(r'__cxa_guard_acquire$',lambda e,st,a,ins,d: [Outcome("ret",BV(0,32),st)])
    # ---- byte order
    M(r'(htonl|ntohl|htons|ntohs|__bswap_16|__bswap_32|__bswap_64)(\(.*\))?$',lambda e,st,a,ins,d: S(bswap(a[0])))
    # ---- libc strings
    def m_memcpy(e,st,a,ins,d): e.copy(st,a[0],a[1],a[2],move="move" in d); return a[0]
    M(r'(memcpy|memmove)$',m_memcpy)
    def m_memset(e,st,a,ins,d): e.fill(st,a[0],z3.Extract(7,0,a[1]),a[2]); return a[0]
    M(r'memset$',m_memset)
    def m_snprintf(e,st,a,ins,d):
        note(e,"snprintf/vsnprintf write at most the given size, NUL-terminated, formatted text unspecified")
        n=a[1]; p=a[0]
        if e.access(st,p,n,"w","snprintf target"):
            arr=fresh_arr("fmt"); st.mem[p.obj.id]=Node("cp",st.mem[p.obj.id],p.off,n,base_arr(arr),ZERO)
        return fresh("snprintf_ret",32)
    M(r'v?snprintf$',m_snprintf)
    M(r'(printf|puts|fprintf|perror|fflush|putchar)$',lambda e,st,a,ins,d: fresh("ret",32))
    def m_time(e,st,a,ins,d):
        t=fresh("time",64); st.assume(z3.And(t>=0,t<(1<<40)))
        st.ghost[("nohavoc","time")]=t
        if isinstance(a[0],Ptr) and a[0].obj.kind!="null": e.store(st,a[0],t,IntT(64))
        return t
    M(r'time$',m_time)
    rng=lambda c,a,b: z3.And(z3.UGE(c,ord(a)),z3.ULE(c,ord(b)))
    def ctype(f):
        def m(e,st,a,ins,d):
            note(e,"ctype.h classification in the C locale"); e.prove(st,z3.And(a[0]>=-1,a[0]<=255),"memory-safety: ctype argument is an unsigned char"); return S(z3.If(f(a[0]),BV(1,32),BV(0,32)))
        return m
    M(r'isxdigit$',ctype(lambda c: z3.Or(rng(c,"0","9"),rng(c,"a","f"),rng(c,"A","F"))))
    M(r'isdigit$',ctype(lambda c: rng(c,"0","9")))
    M(r'isspace$',ctype(lambda c: z3.Or(c==32,z3.And(z3.UGE(c,9),z3.ULE(c,13)))))
    M(r'isalpha$',ctype(lambda c: z3.Or(rng(c,"a","z"),rng(c,"A","Z"))))
    M(r'isalnum$',ctype(lambda c: z3.Or(rng(c,"a","z"),rng(c,"A","Z"),rng(c,"0","9"))))
    M(r'tolower$',lambda e,st,a,ins,d: S(z3.If(rng(a[0],"A","Z"),a[0]+32,a[0])))
    M(r'toupper$',lambda e,st,a,ins,d: S(z3.If(rng(a[0],"a","z"),a[0]-32,a[0])))
    M(r'__errno_location$',m_errno)
def m_errno(e,st,a,ins,d):
    k=("nohavoc","errnoobj")
    if k not in st.ghost:
        st.ghost[k]=e.new_obj(st,"errno",4)
    return Ptr(st.ghost[k],ZERO)

def short(d): return d if len(d)<110 else d[:107]+"..."
