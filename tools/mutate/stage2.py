"""stage2.py IN OUT WORKERS JOBS SCALE [FILES]: run the checks against surviving mutants."""
import json, os, subprocess, sys, queue, threading, time, shutil
inp,out,nw,jobs,scale=sys.argv[1],sys.argv[2],int(sys.argv[3]),sys.argv[4],sys.argv[5]; files=sys.argv[6:]
P='C05 C01 C03 C02 C04 C09 C08 C15 C06 C07'.split()
MAP={'src/v2_parser.rs':P,
 'src/node.rs':'C11 C12 C10 C13 C05 C14 C15 C16 C17 C09 C02 C06 C01 | C18 C19 C20'.split(),
 'src/document.rs':'C12 C11 C10 C13 C05 C14 C15 C16 C17 C09 C02 C01 C08 | C20 C18 C19'.split(),
 'src/entry.rs':'C12 C11 C14 C05 C13 C16 C17 C15 C10 C02 C01 C09 | C18 C19 C20'.split(),
 'src/identifier.rs':'C14 C12 C05 C16 C17 C11 C01 C09 | C18 C19 C20'.split(),
 'src/value.rs':'C14 C17 C12 C10 C11 C13 | C18 C19'.split(),
 'src/fmt.rs':'C15 C14 C12 C16 C06 | C18 C19'.split(),
 'src/error.rs':'C08 C01 C20'.split(),
 'src/de.rs':'/ C21 C22 C23'.split(), 'src/se.rs':'/ C21 C22 C23'.split(),
 'tools/kdl-lsp/src/main.rs':'| C25'.split()}
done={json.loads(l)['id'] for l in open(out)} if os.path.exists(out) else set()
S=[json.loads(l) for l in open(inp)]; S=[m for m in S if m['id'] not in done and (not files or m['file'] in files)]
print(len(S),'to check',flush=True)
q=queue.Queue(); [q.put(m) for m in S]; lock=threading.Lock()
def run(cmd,cwd,t,env):
    try:
        p=subprocess.run(['timeout','-s','KILL',str(t)]+cmd,cwd=cwd,env=env,capture_output=True,text=True); return p.returncode,p.stdout+p.stderr
    except Exception as e: return 98,str(e)
def worker(i):
    w=f'/tmp/mut/c{i}'; repo=w+'/repo'; v=w+'/verif'
    if not os.path.exists(v):
        os.makedirs(repo,exist_ok=True)
        subprocess.run(['bash','-c',f'cd /repo; cp -a Cargo.toml Cargo.lock src tests tools examples README.md {repo}/ 2>/dev/null; mkdir -p {v}; cd /verif; cp -a run.sh lib.sh checks.d harness corpus known_findings.jsonl properties.jsonl MANIFEST.json probe {v}/; grep -rl "/repo" {v} --include=*.rs --include=*.toml --include=*.sh --include=*.py --include=*.lock | xargs sed -i "s#/repo\\b#{repo}#g"; sed -i "s#/verif/#{v}/#g; s#incremental = false#incremental = true#" {v}/harness/Cargo.toml; mkdir -p {v}/evidence'])
    subprocess.run(['bash','-c',f'cp -a /tmp/mut/base/src /tmp/mut/base/tools {repo}/; find {repo}/src {repo}/tools -name "*.rs" | xargs touch'])
    env=dict(os.environ,VERIF_JOBS=jobs,VERIF_SCALE=scale,VERIF_SEED='1',VERIF_TIER='quick',CARGO_BUILD_JOBS='4')
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        p=f"{repo}/{m['file']}"; src=open(f"/tmp/mut/base/{m['file']}").read(); ls=src.split('\n')
        assert ls[m['line']-1]==m['old']; ls[m['line']-1]=m['new']
        open(p,'w').write('\n'.join(ls))
        res='MISSED'; odd=[]; t0=time.time()
        for c in MAP[m['file']]:
            if c in '|/': continue
            rc,o=run(['bash','run.sh',c],v,1500 if c=='C07' else 900,env)
            if rc==1 and f'VIOLATION property={c}' in o:
                res=c; m['why']=o[o.index('VIOLATION'):][:400]; break
            if rc!=0: odd.append((c,rc,o[-300:]))
        open(p,'w').write(src)
        with lock:
            m['res']=res; m['odd']=odd; m['t']=round(time.time()-t0)
            with open(out,'a') as f: f.write(json.dumps(m)+'\n')
ts=[threading.Thread(target=worker,args=(i,)) for i in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
