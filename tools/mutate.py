#!/usr/bin/env python3
"""Mutation testing of the checks (development tool; works on a scratch copy of /repo, never on /repo).
mutate.py OUT.jsonl FRACTION WORKERS ID,ID,... FILE...   FILE relative to /repo; a mutant survives if no listed check reports it."""
import json,os,subprocess,sys,shutil,hashlib,threading,time,queue
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out,frac,workers,ids,files=sys.argv[1],float(sys.argv[2]),int(sys.argv[3]),sys.argv[4].split(','),sys.argv[5:]
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'])
W='/tmp/w/mut.%d'%os.getpid(); os.makedirs(W)
try:
    shutil.copytree('/repo',W+'/orig')
    subprocess.run(['go','build','-o',W+'/mutate',V+'/tools/mutate/main.go'],check=True,env=env)
    ms=[json.loads(l) for l in subprocess.run([W+'/mutate']+['/repo/'+f for f in files],check=True,capture_output=True,text=True).stdout.splitlines()]
    done=set()
    key=lambda m:'%s:%d:%d:%s:%s'%(m['File'],m['Off'],m['End'],m['Kind'],m['New'])
    if os.path.exists(out):
        for l in open(out): done.add(json.loads(l)['key'])
    ms=[m for m in ms if int(hashlib.md5(key(m).encode()).hexdigest()[:8],16)/2**32<frac and key(m) not in done]
    print(len(ms),'mutants',flush=True)
    q=queue.Queue(); [q.put(m) for m in ms]
    mp=dict(l.split() for l in open(V+'/harness/MAP') if l.strip())
    lock=threading.Lock(); f=open(out,'a'); stat={}
    def work(w):
        d='%s/%d'%(W,w); shutil.copytree(W+'/orig',d+'/r'); os.makedirs(d+'/v')
        shutil.copy(V+'/known-findings.txt',d+'/v/')
        e=dict(env,VERIF_DIR=d+'/v',VK_FAILFAST='1',VK_CASE_LIMIT='20',VERIF_SEED='1',GOMAXPROCS=str(max(1,8//workers)))
        while True:
            try: m=q.get_nowait()
            except queue.Empty: return
            p=m['File'].replace('/repo',d+'/r'); src=open(m['File'].replace('/repo',W+'/orig'),'rb').read()
            open(p,'wb').write(src[:m['Off']]+m['New'].encode()+src[m['End']:])
            res='SURVIVED'; built={}
            for i in ids:
                h=mp[i]
                if h not in built:
                    o=d+'/o.'+h; os.makedirs(o,exist_ok=True)
                    r=subprocess.run(['python3',V+'/tools/build_harness.py',d+'/r',h,o],capture_output=True,text=True,env=e)
                    built[h]=r.returncode
                    if r.returncode: res='NOBUILD'; break
                try: r=subprocess.run([d+'/o.'+h+'/h',i,'quick'],capture_output=True,text=True,env=e,timeout=600)
                except subprocess.TimeoutExpired: res='TIMEOUT '+i; break
                if r.returncode==1: res='killed '+i; break
                if r.returncode!=0: res='NOANSWER %s %d %s'%(i,r.returncode,(r.stdout+r.stderr)[-300:]); break
            open(p,'wb').write(src)
            with lock:
                line=src[:m['Off']].split(b'\n')[-1].decode()+'⟦'+src[m['Off']:m['End']].decode()+'→'+m['New']+'⟧'+src[m['End']:].split(b'\n')[0].decode()
                f.write(json.dumps(dict(key=key(m),res=res,file=m['File'][6:],line=m['Line'],kind=m['Kind'],func=m['Func'],text=line))+'\n'); f.flush()
                stat[res.split()[0]]=stat.get(res.split()[0],0)+1
    ts=[threading.Thread(target=work,args=(w,)) for w in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(stat)
finally: shutil.rmtree(W)
