#!/usr/bin/env python3
"""Library + CLI for planted bugs.
  from mkseed import seed; seed(id, prop, [(file, old, new)...], needs, breaks, demo_go)   writes seeded/<id>/
  mkseed.py check [ID...]: applies each seeded patch to /repo, builds, runs stable tests, the demo (both ways) and the
  property's quick check, and reverts; prints a table."""
import json,os,subprocess,sys,shutil,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import os as _o; REPO=_o.environ.get('VERIF_REPO','/repo')
DEMO='''#!/bin/bash
# run with cwd = repository; exit 0 iff the property's demonstration holds
D="$(cd "$(dirname "$0")" && pwd)"; T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
echo "{\\"Replace\\":{\\"$PWD/internal/zzdemo/main.go\\":\\"$D/main.go\\"%s}}" > "$T/o.json"
go build %s -overlay "$T/o.json" -o "$T/demo" ./internal/zzdemo || exit 3
timeout 200 "$T/demo"
'''
def sh(cmd,**k): return subprocess.run(cmd,shell=True,capture_output=True,text=True,**k)
def seed(id,prop,edits,needs,breaks,demo,flags='',shims={}):
    d=os.path.join(V,'seeded',id); os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='mkseed.',dir='/tmp')
    try:
        sh(f'git -C {REPO} worktree prune'); 
        r=sh(f'git clone -q {REPO} {w}/r'); assert r.returncode==0,r.stderr
        for f,old,new in edits:
            p=os.path.join(w,'r',f); s=open(p).read()
            assert s.count(old)==1,(id,f,s.count(old))
            open(p,'w').write(s.replace(old,new))
        diff=sh(f'git -C {w}/r diff').stdout; assert diff
        open(d+'/patch.diff','w').write(diff)
    finally: shutil.rmtree(w)
    ov=''
    for k,(dst,src) in enumerate(shims.items()):
        open(f'{d}/shim{k}.go','w').write(src); ov+=f',\\"$PWD/{dst}\\":\\"$D/shim{k}.go\\"'
    open(d+'/demo.sh','w').write(DEMO%(ov,flags)); os.chmod(d+'/demo.sh',0o755)
    demo=demo.lstrip()
    open(d+'/main.go','w').write(demo)
    g=sh(f'/opt/veriftools/go1.27.3/bin/gofmt -l -w {d}/main.go'); 
    if g.returncode: print(id,g.stderr)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
def check(ids,tier='quick',skip_stable=False):
    ok=True
    for i in ids:
        d=f'{V}/seeded/{i}'; m=json.load(open(d+'/meta.json')); res=[]
        assert not sh(f'git -C {REPO} status --porcelain').stdout, 'repo dirty'
        a=sh(f'cd {REPO} && bash {d}/demo.sh'); res.append('demo0=%d'%a.returncode)
        if a.returncode: res.append((a.stdout+a.stderr)[-500:])
        r=sh(f'git -C {REPO} apply {d}/patch.diff')
        if r.returncode: print(i,'PATCH',r.stderr); ok=False; continue
        try:
            if not skip_stable:
                s=sh(f'bash {V}/tools/stable.sh'); res.append(s.stdout.strip().split('\n')[-1])
            b=sh(f'cd {REPO} && bash {d}/demo.sh'); res.append('demo1=%d'%b.returncode)
            if b.returncode==3: res.append(b.stderr[-400:])
            else: res.append(repr((b.stdout+b.stderr)[:150]))
            c=sh(f'{V}/run.sh {m["property"]} {tier}')
            res.append('check=%d'%c.returncode)
            caught=c.returncode==1 and f'VIOLATION property={m["property"]}' in c.stdout
            res.append('CAUGHT' if caught else 'MISSED '+(c.stdout+c.stderr)[-300:])
        finally: sh(f'git -C {REPO} checkout -- .')
        print(i,m['property'],*res,flush=True)
if __name__=='__main__':
    a=sys.argv[1:]
    if a and a[0]=='check':
        ids=[x for x in a[1:] if not x.startswith('-')] or sorted(os.listdir(V+'/seeded'))
        check(ids,skip_stable='--nostable' in a)
