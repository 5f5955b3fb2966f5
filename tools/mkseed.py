#!/usr/bin/env python3
"""mkseed.py FILE: makes /verif/seeded/<id>/ from a description of planted bugs.

FILE is Python with a list SEEDS of dicts: id, prop, needs, breaks,
edits [(file, old, new)...], demo (body of a Go func main; prints and exits 1 if
the bug shows). Each is confirmed in a scratch copy of /repo: it builds, the
stable tests pass, the demo passes without and fails with it."""
import json,os,shutil,subprocess,sys,tempfile
src={}
exec(open(sys.argv[1]).read(),src)
only=sys.argv[2:]
def sh(cmd,cwd,**k):
    return subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
HEAD='''package main

import (
%s
)

func fail(f string, a ...any) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

'''
RUN='''#!/bin/bash
# Fails (exit 1) if the bug is there. Run with cwd /repo.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
cp "$here/main.go" "$t/main.go"
cat > "$t/go.mod" <<EOF
module demo

go 1.21

require github.com/qjebbs/go-sqlf/v2 v2.0.0

replace github.com/qjebbs/go-sqlf/v2 => $repo
EOF
cd "$t"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
go build -o demo . || exit 1
timeout 60 ./demo
'''
IMP={'fmt':'fmt','context':'context','os':'os','sqlf':'github.com/qjebbs/go-sqlf/v2','syntax':'github.com/qjebbs/go-sqlf/v2/syntax','sqlb':'github.com/qjebbs/go-sqlf/v2/sqlb','util':'github.com/qjebbs/go-sqlf/v2/util','errors':'errors','strings':'strings','reflect':'reflect','time':'time','sql':'database/sql','driver':'database/sql/driver','io':'io','math':'math','strconv':'strconv','sync':'sync'}
import re
bad=0
for s in src['SEEDS']:
    if only and s['id'] not in only: continue
    d='/verif/seeded/'+s['id']
    w=tempfile.mkdtemp(prefix='seed.')
    try:
        repo=w+'/repo'
        subprocess.check_call(['cp','-a','/repo',repo])
        for f,o,n in s['edits']:
            p=repo+'/'+f
            t=open(p).read()
            if t.count(o)!=1:
                raise SystemExit('%s: %r occurs %d times in %s'%(s['id'],o,t.count(o),f))
            open(p,'w').write(t.replace(o,n))
        sh('gofmt -l . ',repo)
        g=sh('gofmt -l .',repo).stdout
        if g.strip(): print(s['id'],'gofmt:',g)
        b=sh('go build ./... && go test -vet=off -run XXX ./... >/dev/null',repo,env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off'))
        if b.returncode: print(s['id'],'DOES NOT BUILD',b.stdout); bad+=1; continue
        t=sh('go test -vet=off ./... 2>&1',repo,env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off'))
        base=sh('go test -vet=off ./... 2>&1','/repo',env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off'))
        f1=set(l for l in t.stdout.split('\n') if '--- FAIL' in l); f0=set(l for l in base.stdout.split('\n') if '--- FAIL' in l)
        n=lambda x:set(re.sub(r' \(.*','',l).strip() for l in x)
        if n(f1)-n(f0) or 'panic:' in t.stdout: print(s['id'],'TESTS FAIL',n(f1)-n(f0), t.stdout[-800:] if 'panic' in t.stdout else ''); bad+=1; continue
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(sh('git diff',repo).stdout)
        body=s['demo']
        pre=s.get('pre','')
        used=['fmt','os']+[k for k in IMP if k not in('fmt','os') and re.search(r'\b%s\.'%k,pre+body)]
        code=HEAD%'\n'.join('\t"%s"'%IMP[k] for k in used)+pre+'\nfunc main() {\n'+body+'\n}\n'
        open(d+'/main.go','w').write(code)
        sh('gofmt -w main.go',d)
        open(d+'/demo.sh','w').write(RUN)
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
        r0=sh('bash %s/demo.sh'%d,'/repo'); r1=sh('bash %s/demo.sh'%d,repo)
        if r0.returncode!=0 or r1.returncode==0:
            print(s['id'],'DEMO WRONG clean=%d patched=%d'%(r0.returncode,r1.returncode),r0.stdout[-500:],r1.stdout[-500:]); bad+=1
            shutil.rmtree(d)
        else:
            print(s['id'],'ok:',r1.stdout.strip()[:200])
    finally:
        shutil.rmtree(w)
sys.exit(bad>0)
