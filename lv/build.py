"""Compile harness translation units against /repo's current sources to LLVM IR."""
import os, re, json, subprocess, hashlib, tempfile, shutil, atexit
from ir import Module
REPO=os.environ.get("LV_REPO","/repo")
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
BIN="/usr/lib/llvm-18/bin/"
CXX=BIN+"clang++"
SCR=None
def scratch():
    global SCR
    if SCR is None:
        SCR=tempfile.mkdtemp(prefix="lv_"); atexit.register(shutil.rmtree,SCR,True)
    return SCR
class CompileError(Exception): pass
FLAGS=["-std=c++11","-w","-I"+REPO+"/include","-I/usr/include/mariadb","-I/usr/include/mysql"]
def parse_layouts(txt):
    """clang's record layouts: {class: {"": size, field path: offset}}"""
    out={}
    for blk in txt.split("*** Dumping AST Record Layout")[1:]:
        cur={}; stack=[]; name=None
        for l in blk.splitlines():
            m=re.match(r"\s*(\d+)(?::\d+-\d+)? \|( +)(.*)$",l)
            if m:
                off=int(m.group(1)); ind=len(m.group(2))//2; txt_=m.group(3)
                txt_=re.sub(r" \((base|primary base|virtual base|empty)\)","",txt_).strip()
                if ind==0: name=re.sub(r"^(class|struct|union) ","",txt_); continue
                f=txt_.rsplit(" ",1)[-1]
                if "(base)" in m.group(3) or "(primary base)" in m.group(3): f="<"+re.sub(r"^(class|struct|union) ","",txt_)+">"
                stack=stack[:ind-1]+[f]; cur[".".join(stack)]=off
            m=re.search(r"\[sizeof=(\d+)",l)
            if m and name: cur[""]=int(m.group(1))
        if name: out[name]=cur
    return out
def compile_ll(tus,extra=(),opt="function(sroa)",tag="m",cdefs=()):
    """tus: list of paths (harness TU under /verif/tu or /repo source); returns path of the linked IR"""
    d=scratch(); lls=[]; lay={}; tag=tag or "m"
    for t in tus:
        o=os.path.join(d,"%s_%s_%d.ll"%(tag,os.path.basename(t).replace(".","_"),len(lls)))
        r=subprocess.run([CXX]+FLAGS+list(extra)+list(cdefs)+["-O0","-Xclang","-disable-O0-optnone","-gline-tables-only","-fno-discard-value-names","-Xclang","-fdump-record-layouts","-S","-emit-llvm",t,"-o",o],capture_output=True,text=True,errors="replace")
        if r.returncode: raise CompileError(r.stderr[-3000:])
        lls.append(o); lay.update(parse_layouts(r.stdout))
    if len(lls)>1:
        o=os.path.join(d,tag+"_linked.ll")
        r=subprocess.run([BIN+"llvm-link","-S","-o",o]+lls,capture_output=True,text=True)
        if r.returncode: raise CompileError(r.stderr[-3000:])
    else: o=lls[0]
    o2=o[:-3]+".opt.ll"
    r=subprocess.run([BIN+"opt","-passes="+opt,"-S",o,"-o",o2],capture_output=True,text=True)
    if r.returncode: raise CompileError(r.stderr[-3000:])
    json.dump(lay,open(o2+".lay","w"))
    return o2
def compile_ir(tus,**k): return load(compile_ll(tus,**k))
def load(p):
    m=Module.parse(p); m.lay=json.load(open(p+".lay")) if os.path.exists(p+".lay") else {}
    return m
