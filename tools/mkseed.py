#!/usr/bin/env python3
"""mkseed.py ID PROP FILE <<< old|||new ; edits the file, writes patch.diff, reverts. demo.cpp is read from tools arg."""
import sys,subprocess,os,json
R=os.environ.get("SEED_REPO","/repo")
def mk(id,prop,edits,demo,needs,breaks):
    d="/verif/seeded/"+id; os.makedirs(d,exist_ok=True)
    for f,old,new in edits:
        p=R+"/"+f; s=open(p).read(); assert s.count(old)==1,(id,f,s.count(old)); open(p,"w").write(s.replace(old,new))
    diff=subprocess.run(["git","-C",R,"diff"],stdout=subprocess.PIPE,text=True).stdout
    open(d+"/patch.diff","w").write(diff)
    subprocess.run(["git","-C",R,"checkout","--","."],check=True)
    open(d+"/demo.cpp","w").write(demo)
    open(d+"/demo.sh","w").write('''#!/bin/bash
# exit 0 when the library behaves, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
trap 'rm -r "$out"' EXIT
g++ -std=c++17 -O1 -w -I/repo/include -I/usr/include/eigen3 "$here/demo.cpp" -o "$out/demo" -L/repo/_build -lgsplines -Wl,-rpath,/repo/_build || exit 3
"$out/demo" >/dev/null
''')
    os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
