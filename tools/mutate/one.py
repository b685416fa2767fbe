"""one.py ID SCALE check.. : run one mutant in copy c9 with the current checks."""
import json,os,subprocess,sys
i,scale,checks=sys.argv[1],sys.argv[2],sys.argv[3:]
w='/tmp/mut/c9'; repo=w+'/repo'; v=w+'/verif'
os.makedirs(repo,exist_ok=True)
subprocess.run(['bash','-c',f'''cd /repo; rsync -a --checksum Cargo.toml Cargo.lock src tests tools examples README.md {repo}/ --exclude target 2>/dev/null
mkdir -p {v}/evidence; cd /verif; rm -rf /tmp/mut/c9s; mkdir /tmp/mut/c9s; cp -a run.sh lib.sh checks.d corpus known_findings.jsonl properties.jsonl MANIFEST.json /tmp/mut/c9s/; rsync -a --exclude target harness probe /tmp/mut/c9s/
grep -rl "/repo" /tmp/mut/c9s --include=*.rs --include=*.toml --include=*.sh --include=*.py --include=*.lock | xargs sed -i "s#/repo\\b#{repo}#g"
grep -rl "/verif/" /tmp/mut/c9s --include=*.rs --include=*.toml --include=*.sh --include=*.py --include=*.lock | xargs sed -i "s#/verif/#{v}/#g"
sed -i "s#incremental = false#incremental = true#" /tmp/mut/c9s/harness/Cargo.toml
rsync -a --checksum /tmp/mut/c9s/ {v}/'''])
ms={}
for f in ('all.json',):
    pass
for f in ('s1.jsonl',):
    for l in open('/tmp/mut/'+f):
        d=json.loads(l); ms[d['id']]=d
        ms.setdefault(d['file']+':'+str(d['line']),d)
if i!='none':
    m=ms[i]; p=f"{repo}/{m['file']}"; src=open(p).read(); ls=src.split('\n')
    if ls[m['line']-1]!=m['old']:
        k=[n for n,l in enumerate(ls) if l==m['old']]; assert len(k)==1,(k,m); m['line']=k[0]+1
    ls[m['line']-1]=m['new']; open(p,'w').write('\n'.join(ls))
    print(m['file'],m['line'],m['old'].strip(),'→',m['new'].strip())
env=dict(os.environ,VERIF_SCALE=scale,VERIF_SEED='1',VERIF_TIER='quick',VERIF_JOBS=os.environ.get('VERIF_JOBS','4'))
for c in checks:
    p=subprocess.run(['timeout','900','bash','run.sh',c],cwd=v,env=env,capture_output=True,text=True)
    o=p.stdout+p.stderr; print(c,p.returncode,o[o.index('VIOLATION'):][:300] if 'VIOLATION' in o else o[-200:])
if i!='none': open(p_:=f"{repo}/{m['file']}",'w').write(src)
