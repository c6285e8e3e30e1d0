#!/usr/bin/env python3
"""mkseed.py SPEC.py: builds /verif/seeded/<id>/ from a spec (dict SEEDS in the file) and confirms it:
patch applies, builds, stable tests pass, demo passes without and fails with the patch.
spec: id -> dict(property, pkg, edits=[(file,old,new)], test=go test source, needs, breaks)"""
import sys,os,subprocess,json,shutil,tempfile,runpy
ENV=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOPATH='/root/go',HOME='/root',GOCACHE='/root/.cache/go-build')
DEMO='''#!/bin/bash
# run in the repository root; exit 0 when the property holds on the demonstrated history
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOCACHE=/root/.cache/go-build
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/o.json"
timeout 250 go test -vet=off -count=1 -timeout 60s -overlay "$t/o.json" -run 'TestZZDemo' ./%s
'''
def sh(c,cwd,**k): return subprocess.run(c,shell=True,cwd=cwd,env=ENV,capture_output=True,text=True,**k)
specs=runpy.run_path(sys.argv[1])['SEEDS']
only=sys.argv[2:]
for sid,s in specs.items():
    if only and sid not in only: continue
    w='/tmp/seedwork'; shutil.rmtree(w,ignore_errors=True); shutil.copytree('/repo',w,symlinks=True)
    d='/verif/seeded/'+sid; os.makedirs(d,exist_ok=True)
    if 'imports' in s or 'package' not in s['test'][:40]:
        s['test']='package %s\n\nimport (\n\t"testing"\n%s)\n\n'%(s['pkg'].split('/')[-1],''.join('\t"%s"\n'%i for i in s.get('imports',[])))+s['test']
    open(d+'/demo_test.go','w').write(s['test'].lstrip('\n'))
    open(d+'/demo.sh','w').write(DEMO%(s['pkg'],s['pkg'])); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    r0=sh('bash '+d+'/demo.sh',w)
    bad=[]
    if r0.returncode!=0: bad.append('demo fails on clean tree:\n'+r0.stdout[-1500:]+r0.stderr[-1500:])
    for f,o,n in s['edits']:
        p=w+'/'+f; t=open(p,newline='').read()
        if '\r\n' in t: o,n=o.replace('\n','\r\n'),n.replace('\n','\r\n')
        if t.count(o)!=1: bad.append('edit matches %d times in %s: %r'%(t.count(o),f,o[:60])); continue
        open(p,'w',newline='').write(t.replace(o,n))
    df=subprocess.run('git diff',shell=True,cwd=w,env=ENV,capture_output=True).stdout; open(d+'/patch.diff','wb').write(df)
    b=sh('go build -buildvcs=false ./...',w)
    if b.returncode: bad.append('build: '+b.stderr[-1500:])
    else:
        r1=sh('bash '+d+'/demo.sh',w)
        if r1.returncode==0: bad.append('demo passes with the patch')
        else: tail=(r1.stdout+r1.stderr)[-300:]
        log='/tmp/seedwork.log'
        sh('rm -rf /tmp/seedwork/analysis/testData; go test -json -vet=off -count=1 -timeout 5m ./... > '+log,w)
        out='/tmp/seedwork.json'
        sh('python3 /opt/vp/results.py %s gojson:%s'%(out,log),w)
        base=json.load(open('/opt/vp/BASELINE.json')); res=json.load(open(out))
        def passed(x):
            for k in ('passed','passes','pass','stable'):
                if k in x: return set(x[k])
            return None
        B=passed(base);R=passed(res)
        if B is None or R is None: bad.append('keys %s %s'%(list(base)[:5],list(res)[:5]))
        else:
            miss=B-R
            if miss: bad.append('stable tests broken: %s'%sorted(miss)[:5])
    print(sid,'OK' if not bad else 'BAD\n  '+'\n  '.join(bad))
    if not bad: print('   demo says:',tail.strip().replace('\n',' | ')[:250])
    shutil.rmtree(w,ignore_errors=True)
