#!/usr/bin/env python3
"""mkseed.py SPEC.py: plant one bug: SPEC defines id, prop, needs, breaks, edits=[(file,old,new)], demo (C++ text), srcs, flags.
Writes /verif/seeded/<id>; confirms in a scratch copy: demo passes clean, patch builds, demo fails patched."""
import sys,os,subprocess,json,shutil,runpy,tempfile
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
for f in sys.argv[1:]:
    S=runpy.run_path(f); D="/verif/seeded/"+S["id"]; os.makedirs(D,exist_ok=True)
    W=tempfile.mkdtemp(prefix="seedw"); sh("git -C /repo archive HEAD | tar x -C %s"%W); sh("cd %s && git init -q && git config core.autocrlf false && git add -A && git -c user.name=a -c user.email=a commit -qm x"%W)
    open(D+"/demo.cpp","w").write(S["demo"])
    open(D+"/demo.sh","w").write('#!/bin/bash\n# run with cwd /repo\nD=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ng++ -std=c++11 -g -O1 %s -w -I include -o "$T/d" "$D/demo.cpp" %s -lpthread || exit 9\ncd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./d\n'%(S.get("flags",""),S.get("srcs","")))
    os.chmod(D+"/demo.sh",0o755)
    json.dump({"property":S["prop"],"needs":S["needs"],"what_it_breaks":S["breaks"]},open(D+"/meta.json","w"),indent=1)
    r=sh("bash %s/demo.sh"%D,cwd=W); ok=r.returncode==0
    if not ok: print(S["id"],"DEMO FAILS ON CLEAN",r.stdout[-800:],r.stderr[-800:])
    for fn,a,b in S["edits"]:
        p=W+"/"+fn; t=open(p,"rb").read(); a=a.encode();b=b.encode()
        if b"\r\n" in t: a=a.replace(b"\n",b"\r\n"); b=b.replace(b"\n",b"\r\n")
        if t.count(a)!=S.get("count",1): print(S["id"],"edit matches",t.count(a),a[:60]); ok=False
        n=S.get("nth"); 
        if n is not None:
            parts=t.split(a); t=a.join(parts[:n+1])+b+a.join(parts[n+1:])
        else: t=t.replace(a,b)
        open(p,"wb").write(t)
    open(D+"/patch.diff","wb").write(subprocess.run("git diff --no-color",shell=True,cwd=W,capture_output=True).stdout)
    r=sh("git -C /repo apply --check %s/patch.diff"%D)
    if r.returncode: print(S["id"],"APPLY",r.stderr[-300:]); ok=False
    r=sh("bash %s/demo.sh"%D,cwd=W)
    c=sh("for f in src/*.cpp; do case $f in *Mysql*) continue;; esac; g++ -std=c++11 -w -fsyntax-only -Iinclude $f || exit 1; done",cwd=W)
    print(S["id"],"demo-patched rc",r.returncode,(r.stdout+r.stderr).strip()[-160:],"| srcs compile" if c.returncode==0 else c.stderr[-400:], "OK" if ok and r.returncode else "BAD")
    shutil.rmtree(W)
