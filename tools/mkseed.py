#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE.go < spec : spec is python with OLD/NEW edits, see usage in DESIGN."""
import sys,os,subprocess,json,shutil,tempfile
def seed(id,prop,needs,breaks,edits,test,pkg="protocol",race=False):
    d=f"/verif/seeded/{id}"; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix="mkseed"); shutil.rmtree(w); shutil.copytree("/repo",w,symlinks=True)
    for f,old,new in edits:
        p=os.path.join(w,f); s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(p,"w").write(s.replace(old,new))
    subprocess.run(["gofmt","-l"]+[os.path.join(w,f) for f,_,_ in edits])
    diff=subprocess.run(["git","-C",w,"diff"],capture_output=True,text=True).stdout
    open(d+"/patch.diff","w").write(diff)
    shutil.rmtree(w)
    name="demo_test.go.txt"
    open(f"{d}/{name}","w").write(test)
    rel={"protocol":"protocol","root":".","extra":"protocol/extra"}[pkg]
    open(d+"/demo.sh","w").write(f'''#!/bin/bash
# exit 0 when the property holds for the demonstrated case
d="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
t="$(mktemp -d)"
trap 'rm -r "$t"' EXIT
printf '{{"Replace": {{"%s": "%s"}}}}' "$PWD/{rel}/zzdemo_test.go" "$d/{name}" >"$t/overlay.json"
TMPDIR="$t" go test -vet=off -count=1 -timeout 120s{" -race" if race else ""} -overlay "$t/overlay.json" -run TestDemo ./{rel}
''')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
