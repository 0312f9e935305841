#!/usr/bin/env python3
"""Plant a bug: python3 tools/bug.py SPEC.py
SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], PKG, DEMO (go test source with TestDemo)
or DIFF.  Confirms in a scratch copy and writes seeded/<ID>/."""
import sys,os,subprocess,json,shutil,tempfile
spec={}
exec(open(sys.argv[1]).read(),spec)
out=f"/verif/seeded/{spec['ID']}"
scratch=tempfile.mkdtemp(prefix="bug.",dir="/tmp")
repo=scratch+"/repo"
def run(cmd,cwd=None,**k):
    return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,**k)
run(f"git -C /repo worktree prune; cp -a /repo {repo}")
DEMO='''#!/bin/bash
# exit 0: behaviour as documented; exit 1: the property is broken
dir="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "PKGDIR" "$dir" >"$tmp/overlay.json"
go test FLAGS -count=1 -vet=off -timeout 200s -overlay "$tmp/overlay.json" -run '^TestDemo$' "./PKGDIR" || exit 1
'''
try:
    for f,old,new in spec['EDITS']:
        p=repo+"/"+f; s=open(p).read()
        assert s.count(old)==1,(f,old,s.count(old))
        open(p,"w").write(s.replace(old,new))
    diff=run("git diff",cwd=repo).stdout
    run("gofmt -l .",cwd=repo)
    tmpout=scratch+"/out"; os.makedirs(tmpout)
    open(tmpout+"/patch.diff","w").write(diff)
    open(tmpout+"/demo_test.go","w").write(spec['DEMO'])
    open(tmpout+"/demo.sh","w").write(DEMO.replace("PKGDIR",spec['PKG']).replace("FLAGS ",(spec.get('FLAGS','')+" ").lstrip())); os.chmod(tmpout+"/demo.sh",0o755)
    json.dump({"property":spec['PROPERTY'],"needs":spec['NEEDS'],"what_it_breaks":spec['BREAKS']},open(tmpout+"/meta.json","w"),indent=1)
    env=". /opt/vp/env.sh; "
    r=run(env+"gofmt -l $(git diff --name-only); go build ./... && go vet ./... 2>&1 | head -3; go test ./... 2>&1 | grep -v '^ok\\|no test files' | head -20",cwd=repo)
    if r.stdout.strip() or r.stderr.strip(): print("BUILD/TESTS:",r.stdout,r.stderr)
    a=run(tmpout+"/demo.sh",cwd="/repo"); b=run(tmpout+"/demo.sh",cwd=repo)
    print("clean:",a.returncode,"patched:",b.returncode)
    if a.returncode!=0: print(a.stdout[-1500:],a.stderr[-800:])
    print(b.stdout[-500:],b.stderr[-300:])
    if a.returncode==0 and b.returncode!=0 and not r.stdout.strip() and not r.stderr.strip():
        if os.path.exists(out): shutil.rmtree(out)
        shutil.copytree(tmpout,out); print("KEPT",out)
    else: print("REJECTED")
finally:
    shutil.rmtree(scratch)
