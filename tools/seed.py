#!/usr/bin/env python3
"""seed.py ID PROP FILE OLD NEW NEEDS BREAKS DEMO.go: plants a change in a scratch copy, confirms it, and keeps it under /verif/seeded."""
import sys,os,subprocess,json,shutil,tempfile
def plant(id,prop,edits,needs,breaks,demo):
    wt=tempfile.mkdtemp(prefix='seedwt')
    try:
        subprocess.check_call(['cp','-a','/repo',wt+'/repo'])
        r=wt+'/repo'
        for f,old,new in edits:
            s=open(r+'/'+f).read()
            if s.count(old)!=1: print(id,'edit does not fit',f,s.count(old)); return False
            open(r+'/'+f,'w').write(s.replace(old,new))
        diff=subprocess.run(['git','-C',r,'diff'],capture_output=True,text=True).stdout
        d='/verif/seeded/'+id
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.go','w').write(demo)
        open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go"}}' "$PWD" "$here" > "$t/o.json"
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -overlay "$t/o.json" -o "$t/demo" ./zz_demo || exit 3
timeout 60 "$t/demo"
''')
        os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
        def demo_run(): return subprocess.run(['bash',d+'/demo.sh'],cwd=r,capture_output=True,text=True)
        bad=demo_run()
        t=subprocess.run('go build ./... && go vet ./parser ./lexer/... . >/dev/null 2>&1; go test ./... 2>&1 | grep -v "^ok\\|no test files"',shell=True,cwd=r,capture_output=True,text=True)
        subprocess.check_call(['git','-C',r,'checkout','-q','--','.'])
        good=demo_run()
        ok=good.returncode==0 and bad.returncode not in(0,3) and t.stdout.strip()==''
        print(id,'OK' if ok else 'BAD','good',good.returncode,good.stdout[-200:],good.stderr[-200:],'bad',bad.returncode,bad.stdout[-200:].strip(),bad.stderr[-200:].strip() if bad.returncode==3 else '','tests',t.stdout[-300:])
        if not ok: shutil.rmtree(d)
        return ok
    finally:
        shutil.rmtree(wt)
