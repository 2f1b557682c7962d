"""Parser for the textual LLVM IR that clang-18 emits from /repo's sources.

Nothing here knows about lce: it turns .ll text into Module/Function/Block/Instr objects with
x86-64 type layout.  Anything it does not understand raises IRError (never silently skipped).
"""
import re, subprocess, struct

class IRError(Exception): pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__=("k","a","b","_s","_al")
    def __init__(s,k,a=None,b=None): s.k=k; s.a=a; s.b=b; s._s=None; s._al=None
    def __repr__(s):
        if s.k=="int": return "i%d"%s.a
        if s.k=="arr": return "[%d x %r]"%(s.a,s.b)
        if s.k=="struct": return "{%s}"%",".join(map(repr,s.a))
        if s.k=="named": return "%"+s.a
        return s.k
INT={}
def IntT(n):
    if n not in INT: INT[n]=Ty("int",n)
    return INT[n]
PTR=Ty("ptr"); VOID=Ty("void"); FLOAT=Ty("float"); DOUBLE=Ty("double"); X86FP=Ty("x86_fp80"); LABEL=Ty("label"); META=Ty("metadata")

TOK=re.compile(r'''\s*(?:
 (?P<cstr>c"(?:[^"\\]|\\.)*")|
 (?P<str>"(?:[^"\\]|\\.)*")|
 (?P<name>[%@](?:"[^"]*"|[-\w$.]+))|
 (?P<comdat>\$(?:"[^"]*"|[-\w$.]+))|
 (?P<meta>![-\w.]*)|
 (?P<attr>\#\d+)|
 (?P<fp>-?\d+\.\d+(?:e[+-]?\d+)?)|
 (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
 (?P<num>-?\d+)|
 (?P<dots>\.\.\.)|
 (?P<word>[A-Za-z_][\w.]*)|
 (?P<p>[\[\](){}<>,=*:|])
)''',re.X)

def tokenize(line):
    out=[];i=0;n=len(line)
    while i<n:
        if line[i] in ' \t': i+=1; continue
        if line[i]==';': break
        m=TOK.match(line,i)
        if not m: raise IRError("lex %r"%line[i:i+40])
        out.append(m.group().strip()); i=m.end()
    return out

ATTRW=set('''noundef nonnull zeroext signext inreg noalias nocapture readonly readnone returned immarg nofree writeonly
 swiftself nest allocalign allocptr dead_on_unwind writable noext'''.split())
ATTRP=set('''align dereferenceable dereferenceable_or_null byval sret byref inalloca preallocated elementtype range memory captures nofpclass initializes'''.split())
LINKAGE=set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr external
 dso_local dso_preemptable default hidden protected dllimport dllexport thread_local unnamed_addr local_unnamed_addr externally_initialized
 fastcc ccc coldcc tailcc'''.split())
FLAGS=set("nuw nsw exact inbounds fast nnan ninf nsz arcp contract afn reassoc disjoint nneg samesign nusw".split())

class Instr:
    __slots__=("op","res","ty","a","line","dbg","fn","flags")
    def __init__(s,op,res,ty,a,flags=()): s.op=op;s.res=res;s.ty=ty;s.a=a;s.dbg=None;s.fn=None;s.flags=flags;s.line=None
class Func:
    def __init__(s): s.blocks={}; s.order=[]; s.params=[]; s.name=None; s.ret=None; s.vararg=False; s.defined=False; s.dbg=None
class Glob:
    def __init__(s): s.name=None; s.ty=None; s.init=None; s.const=False

class Parser:
    def __init__(s,mod,toks): s.m=mod; s.t=toks; s.i=0
    def peek(s,k=0): return s.t[s.i+k] if s.i+k<len(s.t) else None
    def next(s):
        x=s.t[s.i]; s.i+=1; return x
    def eat(s,x):
        if s.peek()==x: s.i+=1; return True
        return False
    def exp(s,x):
        if s.peek()!=x: raise IRError("expected %s got %s in %s"%(x,s.peek()," ".join(s.t)))
        s.i+=1
    def ty(s):
        x=s.next()
        if x[0]=='i' and x[1:].isdigit(): t=IntT(int(x[1:]))
        elif x=="ptr":
            t=PTR
            if s.peek()=="addrspace": s.next(); s.exp("("); s.next(); s.exp(")")
        elif x=="void": t=VOID
        elif x=="float": t=FLOAT
        elif x=="double": t=DOUBLE
        elif x=="x86_fp80": t=X86FP
        elif x=="label": t=LABEL
        elif x=="metadata": t=META
        elif x=="[":
            n=int(s.next()); s.exp("x"); e=s.ty(); s.exp("]"); t=Ty("arr",n,e)
        elif x=="{":
            l=[]
            if not s.eat("}"):
                while True:
                    l.append(s.ty())
                    if s.eat("}"): break
                    s.exp(",")
            t=Ty("struct",l,False)
        elif x=="<":
            if s.eat("{"):
                l=[]
                if not s.eat("}"):
                    while True:
                        l.append(s.ty())
                        if s.eat("}"): break
                        s.exp(",")
                s.exp(">"); t=Ty("struct",l,True)
            else:
                n=int(s.next()); s.exp("x"); e=s.ty(); s.exp(">"); t=Ty("vec",n,e)
        elif x[0]=="%": t=Ty("named",unq(x))
        elif x=="opaque": t=Ty("opaque")
        else: raise IRError("type %s in %s"%(x," ".join(s.t)))
        # function type suffix
        while s.peek()=="(" and s.m.fnty_ok:
            j=s.i; s.next(); l=[]; va=False
            try:
                if not s.eat(")"):
                    while True:
                        if s.eat("..."): va=True
                        else: l.append(s.ty())
                        if s.eat(")"): break
                        s.exp(",")
                t=Ty("fn",t,(l,va))
            except IRError:
                s.i=j; break
        return t
    def skipattrs(s):
        while True:
            x=s.peek()
            if x in ATTRW: s.next()
            elif x in ATTRP:
                s.next()
                if s.peek()=="(":
                    d=0
                    while True:
                        y=s.next()
                        if y=="(": d+=1
                        if y==")":
                            d-=1
                            if d==0: break
                elif x=="align": s.next()
            else: return
    def val(s,ty):
        x=s.next()
        if x[0]=="%": return ("r",unq(x))
        if x[0]=="@": return ("g",unq(x))
        if x=="true": return ("i",1)
        if x=="false": return ("i",0)
        if x in("null",): return ("null",)
        if x in("undef","poison"): return ("undef",ty)
        if x=="zeroinitializer": return ("zero",ty)
        if x=="none": return ("undef",ty)
        if x.startswith('c"'): return ("bytes",cstr(x[2:-1]))
        if x in("getelementptr",):
            fl=[]
            while s.peek() in FLAGS: fl.append(s.next())
            s.exp("("); t=s.ty(); s.exp(","); pt=s.ty(); p=s.val(pt); idx=[]
            while s.eat(","):
                while s.peek() in("inrange",): s.next()
                it=s.ty(); idx.append((it,s.val(it)))
            s.exp(")"); return ("cgep",t,p,idx)
        if x in("ptrtoint","inttoptr","bitcast","trunc","zext","sext","addrspacecast"):
            s.exp("("); t=s.ty(); v=s.val(t); s.exp("to"); t2=s.ty(); s.exp(")"); return ("ccast",x,t,v,t2)
        if x in("add","sub","mul","and","or","xor","shl","lshr","ashr"):
            while s.peek() in FLAGS: s.next()
            s.exp("("); t=s.ty(); v=s.val(t); s.exp(","); t2=s.ty(); v2=s.val(t2); s.exp(")"); return ("cbin",x,t,v,v2)
        if x=="[" or x=="{" or x=="<":
            close={"[":"]","{":"}","<":">"}[x]; packed=False
            if x=="<" and s.eat("{"): packed=True; close="}"
            l=[]
            if not s.eat(close):
                while True:
                    t=s.ty(); l.append((t,s.val(t)))
                    if s.eat(close): break
                    s.exp(",")
            if packed: s.exp(">")
            return ("agg",l)
        if ty.k=="int" and re.match(r'-?\d+$',x): return ("i",int(x))
        if ty.k in("float","double","x86_fp80"):
            if x.startswith("0x"):
                return ("f",x)
            return ("f",x)
        if x=="asm":
            while s.peek() and not s.peek().startswith('"'): s.next()
            a=s.next(); s.exp(","); b=s.next(); return ("asm",a,b)
        raise IRError("value %s (%r) in %s"%(x,ty," ".join(s.t)))

def unq(x):
    x=x[1:]
    if x.startswith('"'): x=x[1:-1]
    return x
def cstr(x):
    out=bytearray();i=0
    while i<len(x):
        if x[i]=="\\":
            if x[i+1]=="\\": out.append(0x5c); i+=2
            else: out.append(int(x[i+1:i+3],16)); i+=3
        else: out.append(ord(x[i])); i+=1
    return bytes(out)

BIN="add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem".split()
CAST="trunc zext sext fptoui fptosi uitofp sitofp fptrunc fpext ptrtoint inttoptr bitcast addrspacecast".split()

class Module:
    def __init__(s): s.types={}; s.globals={}; s.funcs={}; s.fnty_ok=True; s.meta={}; s.demangled={}; s.byname={}
    # ---- layout
    def resolve(s,t):
        while t.k=="named":
            t=s.types[t.a]
        return t
    def align(s,t):
        t=s.resolve(t)
        if t.k=="int": return min(16 if t.a>64 else 8, max(1,1<<((t.a+7)//8-1).bit_length())) if t.a>8 else 1
        if t.k=="ptr": return 8
        if t.k=="float": return 4
        if t.k=="double": return 8
        if t.k=="x86_fp80": return 16
        if t.k=="arr": return s.align(t.b)
        if t.k=="vec": return s.size(t)
        if t.k=="struct":
            if t.b or not t.a: return 1
            return max(s.align(x) for x in t.a)
        raise IRError("align %r"%t)
    def size(s,t):
        t=s.resolve(t)
        if t._s is not None: return t._s
        if t.k=="int": r=(t.a+7)//8; al=s.align(t); r=(r+al-1)//al*al
        elif t.k=="ptr": r=8
        elif t.k=="float": r=4
        elif t.k=="double": r=8
        elif t.k=="x86_fp80": r=16
        elif t.k in("arr","vec"): r=t.a*s.size(t.b)
        elif t.k=="struct":
            o=0;m=1
            for x in t.a:
                al=1 if t.b else s.align(x); m=max(m,al)
                o=(o+al-1)//al*al+s.size(x)
            r=(o+m-1)//m*m
        else: raise IRError("size %r"%t)
        t._s=r; return r
    def fieldoff(s,t,i):
        t=s.resolve(t); o=0
        for k,x in enumerate(t.a):
            al=1 if t.b else s.align(x)
            o=(o+al-1)//al*al
            if k==i: return o
            o+=s.size(x)
        raise IRError("field")
    # ---- parse
    @staticmethod
    def parse(path):
        m=Module(); cur=None; blk=None
        lines=open(path,encoding="latin-1").read().split("\n"); i=0
        deferred=[]
        while i<len(lines):
            ln=lines[i]; i+=1
            if cur is None:
                if not ln or ln[0]==';' : continue
                if ln.startswith("%"):
                    p=Parser(m,tokenize(ln)); n=unq(p.next()); p.exp("="); p.exp("type"); m.types[n]=p.ty()
                elif ln.startswith("@"): deferred.append(ln)
                elif ln.startswith("define") or ln.startswith("declare"):
                    f=m.parse_head(ln)
                    if ln.startswith("define"):
                        cur=f; f.defined=True; blk=None; first=True
                elif ln.startswith("!"):
                    mm=re.match(r'!(\d+) = (?:distinct )?(.*)$',ln)
                    if mm: m.meta[mm.group(1)]=mm.group(2)
                continue
            if ln.startswith("}"):
                cur=None; continue
            st=ln.strip()
            if not st or st[0]==';': continue
            mm=re.match(r'^("(?:[^"]*)"|[-\w$.]+):',ln)
            if mm and not ln.startswith(" "):
                nm=mm.group(1).strip('"'); blk=[]; cur.blocks[nm]=blk; cur.order.append(nm); continue
            if blk is None:
                # implicit entry label: number of unnamed params
                k=sum(1 for p in cur.params if p[1].isdigit())
                nm=str(k); blk=[]; cur.blocks[nm]=blk; cur.order.append(nm)
            # continuation lines
            if re.match(r'\s*(%\S+ = )?(invoke|landingpad|switch)\b',ln):
                if "invoke" in ln and " to label " not in ln and " unwind label " not in ln:
                    ln+=" "+lines[i].strip(); i+=1
                elif re.match(r'\s*(%\S+ = )?landingpad',ln):
                    while re.match(r'\s+(cleanup|catch|filter)\b',lines[i]): ln+=" "+lines[i].strip(); i+=1
                elif st.startswith("switch") and not st.rstrip().split(", !")[0].endswith("]"):
                    while True:
                        ln+=" "+lines[i].strip(); i+=1
                        if lines[i-1].strip().startswith("]"): break
            ins=m.parse_instr(ln,cur)
            if ins is not None: ins.fn=cur; blk.append(ins)
        for ln in deferred: m.parse_global(ln)
        m.demangle()
        return m
    def demangle(s):
        names=[n for n in s.funcs]
        try:
            out=subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"],input="\n".join(names),capture_output=True,text=True).stdout.split("\n")
        except OSError:
            out=subprocess.run(["c++filt"],input="\n".join(names),capture_output=True,text=True).stdout.split("\n")
        for n,d in zip(names,out):
            s.demangled[n]=d; s.byname.setdefault(d,n)
            f=s.funcs[n]
    def parse_head(s,ln):
        p=Parser(s,tokenize(ln)); p.next(); f=Func()
        while True:
            x=p.peek()
            if x in LINKAGE or x in ATTRW: p.next()
            elif x in ATTRP: p.skipattrs()
            elif x.startswith("!"): p.next(); p.next()
            else: break
        s.fnty_ok=False; f.ret=p.ty(); s.fnty_ok=True
        f.name=unq(p.next()); p.exp("(")
        n=0
        if not p.eat(")"):
            while True:
                if p.eat("..."): f.vararg=True
                else:
                    t=p.ty(); byval=None
                    while p.peek() not in(",",")") and not p.peek().startswith("%"):
                        if p.peek()=="byval": p.next(); p.exp("("); byval=p.ty(); p.exp(")")
                        else:
                            j=p.i; p.skipattrs()
                            if p.i==j: raise IRError("attr %s"%p.peek())
                    nm=str(n)
                    if p.peek().startswith("%"): nm=unq(p.next())
                    f.params.append((t,nm,byval)); n+=1
                if p.eat(")"): break
                p.exp(",")
        mm=re.search(r'!dbg !(\d+)',ln)
        if mm: f.dbg=mm.group(1)
        old=s.funcs.get(f.name)
        if old is None or not old.defined: s.funcs[f.name]=f
        return f
    def parse_global(s,ln):
        t=tokenize(re.sub(r', (?:comdat|align|section|!dbg).*$','',ln) if not re.search(r'c"',ln) else ln)
        p=Parser(s,t); g=Glob(); g.name=unq(p.next()); p.exp("=")
        ext=False
        while p.peek() in LINKAGE or p.peek() in("thread_local",):
            x=p.next()
            if x in("external","extern_weak"): ext=True
            if p.peek()=="(":
                while p.next()!=")": pass
        k=p.next()
        if k=="alias":
            return
        if k not in("global","constant"):
            raise IRError("global %s"%ln[:120])
        g.const=(k=="constant"); g.ty=p.ty(); g.init=None
        if not ext and p.peek() is not None and p.peek()!=",":
            g.init=p.val(g.ty)
        s.globals[g.name]=g
    def parse_instr(s,ln,fn):
        dbg=None
        mm=re.search(r', !dbg !(\d+)',ln)
        if mm: dbg=mm.group(1)
        ln2=re.sub(r'(, ![\w.]+ !\d+)+\s*$','',ln)
        if "llvm.dbg." in ln2: return None
        p=Parser(s,tokenize(ln2)); res=None
        if p.peek().startswith("%") and p.peek(1)=="=":
            res=unq(p.next()); p.next()
        op=p.next(); I=None
        while op in("tail","musttail","notail"): op=p.next()
        if op in BIN:
            fl=[]
            while p.peek() in FLAGS: fl.append(p.next())
            t=p.ty(); a=p.val(t); p.exp(","); b=p.val(t); I=Instr("bin",res,t,(op,a,b),tuple(fl))
        elif op=="fneg":
            while p.peek() in FLAGS: p.next()
            t=p.ty(); I=Instr("fneg",res,t,(p.val(t),))
        elif op in CAST:
            fl=[]
            while p.peek() in FLAGS: fl.append(p.next())
            t=p.ty(); a=p.val(t); p.exp("to"); t2=p.ty(); I=Instr("cast",res,t2,(op,t,a),tuple(fl))
        elif op in("icmp","fcmp"):
            while p.peek() in FLAGS: p.next()
            pr=p.next(); t=p.ty(); a=p.val(t); p.exp(","); b=p.val(t); I=Instr(op,res,IntT(1),(pr,t,a,b))
        elif op=="alloca":
            p.eat("inalloca"); t=p.ty(); n=("i",1); 
            if p.eat(","):
                if p.peek()!="align":
                    nt=p.ty(); n=p.val(nt); n=(nt,n)
            I=Instr("alloca",res,PTR,(t,n))
        elif op=="load":
            at=p.eat("atomic"); vol=p.eat("volatile"); t=p.ty(); p.exp(","); pt=p.ty(); I=Instr("load",res,t,(p.val(pt),vol,at))
        elif op=="store":
            at=p.eat("atomic"); vol=p.eat("volatile"); t=p.ty(); v=p.val(t); p.exp(","); pt=p.ty(); I=Instr("store",None,t,(v,p.val(pt),vol,at))
        elif op=="getelementptr":
            fl=[]
            while p.peek() in FLAGS: fl.append(p.next())
            t=p.ty(); p.exp(","); pt=p.ty(); b=p.val(pt); idx=[]
            while p.eat(","):
                it=p.ty(); idx.append((it,p.val(it)))
            I=Instr("gep",res,PTR,(t,b,idx),tuple(fl))
        elif op=="phi":
            while p.peek() in FLAGS: p.next()
            t=p.ty(); inc=[]
            while True:
                p.exp("["); v=p.val(t); p.exp(","); b=unq(p.next()); p.exp("]"); inc.append((v,b))
                if not p.eat(","): break
            I=Instr("phi",res,t,(inc,))
        elif op=="select":
            while p.peek() in FLAGS: p.next()
            ct=p.ty(); c=p.val(ct); p.exp(","); t=p.ty(); a=p.val(t); p.exp(","); t2=p.ty(); b=p.val(t2); I=Instr("select",res,t,(c,a,b))
        elif op=="br":
            if p.peek()=="label": p.next(); I=Instr("br",None,VOID,(unq(p.next()),))
            else:
                t=p.ty(); c=p.val(t); p.exp(","); p.exp("label"); a=unq(p.next()); p.exp(","); p.exp("label"); b=unq(p.next()); I=Instr("cbr",None,VOID,(c,a,b))
        elif op=="switch":
            t=p.ty(); v=p.val(t); p.exp(","); p.exp("label"); d=unq(p.next()); p.exp("["); cs=[]
            while not p.eat("]"):
                t2=p.ty(); c=p.val(t2); p.exp(","); p.exp("label"); cs.append((c,unq(p.next())))
            I=Instr("switch",None,t,(v,d,cs))
        elif op=="ret":
            t=p.ty(); I=Instr("ret",None,t,(None if t is VOID else p.val(t),))
        elif op=="unreachable": I=Instr("unreachable",None,VOID,())
        elif op=="resume":
            t=p.ty(); I=Instr("resume",None,t,(p.val(t),))
        elif op=="extractvalue":
            t=p.ty(); v=p.val(t); ix=[]
            while p.eat(","): ix.append(int(p.next()))
            I=Instr("extractvalue",res,None,(t,v,ix))
        elif op=="insertvalue":
            t=p.ty(); v=p.val(t); p.exp(","); t2=p.ty(); w=p.val(t2); ix=[]
            while p.eat(","): ix.append(int(p.next()))
            I=Instr("insertvalue",res,t,(v,t2,w,ix))
        elif op=="freeze":
            t=p.ty(); I=Instr("freeze",res,t,(p.val(t),))
        elif op=="landingpad":
            t=p.ty(); cl=False; cs=[]
            while p.peek():
                x=p.next()
                if x=="cleanup": cl=True
                elif x=="catch": ct=p.ty(); cs.append(("catch",p.val(ct)))
                elif x=="filter": ct=p.ty(); cs.append(("filter",p.val(ct)))
                else: raise IRError("landingpad "+ln)
            I=Instr("landingpad",res,t,(cl,cs))
        elif op in("call","invoke"):
            while p.peek() in FLAGS or p.peek() in LINKAGE or p.peek() in ATTRW: p.next()
            p.skipattrs()
            s.fnty_ok=True
            # return type possibly followed by a parenthesised function type
            j=p.i; s.fnty_ok=False; rt=p.ty(); s.fnty_ok=True
            if p.peek()=="(":
                p.i=j; ft=p.ty(); rt=ft.a
            callee=p.val(PTR); p.exp("("); args=[]
            if not p.eat(")"):
                while True:
                    t=p.ty(); byval=None
                    while True:
                        if p.peek()=="byval": p.next(); p.exp("("); byval=p.ty(); p.exp(")"); continue
                        j=p.i; p.skipattrs()
                        if p.i==j: break
                    if t is META:
                        while p.peek() not in(",",")"): p.next()
                        args.append((t,("undef",t),None))
                    else: args.append((t,p.val(t),byval))
                    if p.eat(")"): break
                    p.exp(",")
            norm=unw=None
            if op=="invoke":
                while p.peek()!="to": p.next()
                p.next(); p.exp("label"); norm=unq(p.next()); p.exp("unwind"); p.exp("label"); unw=unq(p.next())
            I=Instr("call",res,rt,(callee,args,norm,unw))
        elif op=="fence": I=Instr("fence",None,VOID,())
        elif op=="atomicrmw":
            p.eat("volatile"); o=p.next(); pt=p.ty(); a=p.val(pt); p.exp(","); t=p.ty(); v=p.val(t); I=Instr("atomicrmw",res,t,(o,a,v))
        elif op=="cmpxchg":
            p.eat("weak"); p.eat("volatile"); pt=p.ty(); a=p.val(pt); p.exp(","); t=p.ty(); c=p.val(t); p.exp(","); t2=p.ty(); n=p.val(t2); I=Instr("cmpxchg",res,t,(a,c,n))
        else: I=Instr("unsupported",res,None,(ln.strip(),))
        I.dbg=dbg; I.line=ln2.strip(); return I
    def loc(s,dbg):
        """source line of a !dbg id: 'file:line'"""
        if dbg is None: return "?"
        t=s.meta.get(dbg,"")
        m=re.search(r'line: (\d+)',t)
        line=m.group(1) if m else "?"
        sc=re.search(r'scope: !(\d+)',t); f=""
        k=0
        while sc and k<20:
            k+=1; d=s.meta.get(sc.group(1),"")
            ff=re.search(r'file: !(\d+)',d)
            if ff:
                fm=re.search(r'filename: "([^"]*)"',s.meta.get(ff.group(1),"")); 
                if fm: f=fm.group(1).split("/")[-1]
                break
            sc=re.search(r'scope: !(\d+)',d)
        return "%s:%s"%(f,line)
