import os,subprocess,json,shutil
def seed(id,prop,edits,pkg,demo,needs,breaks,pkgname=None):
    m='/tmp/ms'
    shutil.rmtree(m,ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',m])
    for f,old,new in edits:
        s=open(m+'/'+f).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(m+'/'+f,'w').write(s.replace(old,new))
    diff=subprocess.check_output(['git','-C',m,'diff'])
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','wb').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo_test.go','w').write(demo.strip()+'\n')
    open(d+'/demo.sh','w').write('''#!/bin/bash
# Runs demo_test.go as an in-package test of %s.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%s/zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run TestSeededDemo ./%s
'''%(pkg,pkg,pkg))
    shutil.rmtree(m,ignore_errors=True)
