#!/bin/bash
# Run only the bounded search of a property: tools/harness.sh PROP [dir]
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod VC_TRACE=1 VERIF_SEED=${VERIF_SEED:-1}
p=$1; d=${2:-$(python3 -c "import json;print(json.load(open('${VERIF_DIR:-/verif}/checks/$p.json'))['tests'][0])")}
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
python3 - "$p" "$d" "$w" <<'P'
import json,sys,os,glob
V=os.environ.get('VERIF_DIR','/verif'); R=os.environ.get('VC_REPO','/repo')
p,d,w=sys.argv[1:]
cfg=json.load(open(V+f'/checks/{p}.json'))
pre=[p.lower()]+cfg.get('with',[])
rep={}
for pk in cfg['pkgs']+[d]:
    dst=R+'/'+pk
    rt=False
    for f in glob.glob(V+f'/contracts/{pk}/*.go'):
        b=os.path.basename(f)
        if b.split('_')[0] in pre and not (b.endswith('_test.go') and (pk!=d or b.split('_')[0]!=p.lower())):
            rep[dst+'/'+b]=f; rt=True
    pkg=os.path.basename(pk)
    for t in ['vc_rt.go','vc_rt_test.go']:
        if t.endswith('_test.go') and pk!=d: continue
        s=open(V+'/govc/rt/'+t+'.tmpl').read().replace('PKGNAME',pkg)
        o=f'{w}/{pkg}_{t}'; open(o,'w').write(s); rep[dst+'/'+t]=o
json.dump({'Replace':rep},open(w+'/o.json','w'))
P
cd ${VC_REPO:-/repo} && go test -tags=verif -vet=off -count=1 -overlay "$w/o.json" -run "^TestVC_${p}(_|\$)" -v -timeout 600s ./$d
