"""stage1.py OUT WORKERS SEED MAX FILES... : compile + run stable tests for each sampled mutant; append survivors to OUT (jsonl)."""
import json, os, random, subprocess, sys, shutil, queue, threading, time
out, nw, seed, mx = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]); files=sys.argv[5:]
M=[m for m in json.load(open('/tmp/mut/all.json')) if not files or m['file'] in files]
done=set()
for f in (out, out+'.killed'):
    if os.path.exists(f): done|={json.loads(l)['id'] for l in open(f)}
random.Random(seed).shuffle(M)
# at most 2 per line
cnt={}; S=[]
for m in M:
    k=(m['file'],m['line']); cnt[k]=cnt.get(k,0)+1
    if cnt[k]<=2: S.append(m)
S=[m for m in S[:mx] if m['id'] not in done]
print(len(S),'to run',flush=True)
q=queue.Queue(); [q.put(m) for m in S]; lock=threading.Lock()
def sh(cmd,cwd,t,env): 
    try:
        p=subprocess.run(cmd,cwd=cwd,timeout=t,env=env,capture_output=True,text=True,start_new_session=True); return p.returncode,p.stdout+p.stderr
    except subprocess.TimeoutExpired:
        return 99,''
def worker(i):
    w=f'/tmp/mut/w{i}'; repo=w+'/repo'
    if not os.path.exists(repo):
        os.makedirs(w,exist_ok=True)
        subprocess.run(['bash','-c',f'mkdir -p {repo}; cd /repo; cp -a Cargo.toml Cargo.lock src tests tools examples README.md {repo}/ 2>/dev/null'],check=False)
    for d in ('src','tools'): subprocess.run(['rsync','-a',f'/repo/{d}/',f'{repo}/{d}/']) if shutil.which('rsync') else subprocess.run(['cp','-a',f'/repo/{d}',repo+'/'])
    env=dict(os.environ,CARGO_NET_OFFLINE='true',CARGO_TARGET_DIR=w+'/target',CARGO_BUILD_JOBS='2',RUSTFLAGS='-Cdebuginfo=0 -Awarnings')
    sh(['cargo','test','--workspace','--all-features','--no-run','--offline'],repo,900,env)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        p=f"{repo}/{m['file']}"; src=open(f"/repo/{m['file']}").read(); ls=src.split('\n')
        assert ls[m['line']-1]==m['old']; ls[m['line']-1]=m['new']
        open(p,'w').write('\n'.join(ls))
        st='?'
        rc,o=sh(['cargo','test','--workspace','--all-features','--no-run','--offline'],repo,300,env)
        if rc: st='nobuild'
        else:
            rc,o=sh(['timeout','-s','KILL','60','cargo','test','--workspace','--all-features','--offline','--lib','--tests','--bins','--','--test-threads','4'],repo,100,env)
            if rc: st='killed'
            else:
                rc,o=sh(['timeout','-s','KILL','90','cargo','test','--workspace','--all-features','--offline','--doc','--','--test-threads','4'],repo,120,env)
                st='killed' if rc else 'survived'
        open(p,'w').write(src)
        with lock:
            m['st']=st
            with open(out if st=='survived' else out+'.killed','a') as f: f.write(json.dumps(m)+'\n')
ts=[threading.Thread(target=worker,args=(i,)) for i in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
