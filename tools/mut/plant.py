#!/usr/bin/env python3
"""Developer tool: make /verif/seeded/<id>/ from a planted-bug file and confirm it.
usage: plant.py BUGS.py [id-substring]   BUGS.py defines B = [dict(id, property, needs, breaks, edits=[(file,old,new)], pkg='schema', test='Go test source', [extra={name:text}], [demo='shell'])]"""
import sys,os,subprocess,shutil,json
ns={'B':[]}; exec(open(sys.argv[1]).read(),ns)
sub=sys.argv[2] if len(sys.argv)>2 else ''
DEMO='''#!/bin/bash
# Runs demo_test.go inside package %s of the tree in the current directory (through an overlay).
here=$(cd "$(dirname "$0")" && pwd)
[ -d /opt/veriftools/go1.25.14/bin ] && export PATH=/opt/veriftools/go1.25.14/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%s/zz_planted_test.go" "$here/demo_test.go" >"$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -count=1 -vet=off -timeout 120s -run '^TestPlanted$' ./%s
'''
GEN='''#!/bin/bash
# Runs demo_test.go inside package %s of the tree in the current directory (through an overlay).
# The template modules that are missing from the module cache are replaced by stubs.
here=$(cd "$(dirname "$0")" && pwd)
[ -d /opt/veriftools/go1.25.14/bin ] && export PATH=/opt/veriftools/go1.25.14/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp go.mod go.sum "$tmp/" || exit 2
for m in golang typescript; do
	mkdir "$tmp/gen-$m" || exit 2
	printf 'module github.com/webrpc/gen-%%s\n\ngo 1.20\n' $m >"$tmp/gen-$m/go.mod"
	printf 'package %%s\n\nimport "embed"\n\n//go:embed *.go.tmpl\nvar FS embed.FS\n' $m >"$tmp/gen-$m/embed.go"
	printf '{{define "main"}}package x\n{{end}}' >"$tmp/gen-$m/main.go.tmpl"
	printf '\nreplace github.com/webrpc/gen-%%s => %%s\n' $m "$tmp/gen-$m" >>"$tmp/go.mod"
done
mkdir "$tmp/tmp" || exit 2
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%s/zz_planted_test.go" "$here/demo_test.go" >"$tmp/overlay.json"
TMPDIR="$tmp/tmp" go test -modfile="$tmp/go.mod" -overlay "$tmp/overlay.json" -count=1 -vet=off -timeout 120s -run '^TestPlanted$' ./%s
'''
def sh(c,cwd): 
    r=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True); return r.returncode,(r.stdout+r.stderr)
for b in ns['B']:
    if sub not in b['id']: continue
    d='/verif/seeded/'+b['id']; os.makedirs(d,exist_ok=True)
    w='/tmp/plant'; shutil.rmtree(w,ignore_errors=True)
    shutil.copytree('/repo',w,symlinks=True)
    sh('git checkout -q -- .',w)
    ok=True
    for f,o,n in b['edits']:
        s=open(f'{w}/{f}').read()
        if s.count(o)!=1: print(b['id'],f'!! edit matches {s.count(o)} times: {o[:60]!r}'); ok=False; break
        open(f'{w}/{f}','w').write(s.replace(o,n))
    if not ok: continue
    open(d+'/patch.diff','w').write(sh('git diff',w)[1])
    pkg=b.get('pkg','schema')
    if 'test' in b: open(d+'/demo_test.go','w').write(b['test'].lstrip())
    for k,v in b.get('extra',{}).items():
        os.makedirs(os.path.dirname(d+'/'+k),exist_ok=True); open(d+'/'+k,'w').write(v.lstrip())
    open(d+'/demo.sh','w').write(b.get('demo') or (GEN if b.get('gen') else DEMO)%(pkg,pkg,pkg)); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
    rb,ob=sh('. /opt/vp/env.sh; cd /tmp/plant; p=$(packages); go build $p && gofmt -e gen cmd/webrpc-gen >/dev/null',w)
    rt,ot=sh('. /opt/vp/env.sh; cd /tmp/plant; go test -vet=off -count=1 $(packages) 2>&1 | grep -v "^ok\\|no test files\\|downloading"',w)
    ot='\n'.join(l for l in ot.splitlines() if 'downloading' not in l)
    r1,o1=sh(f'bash {d}/demo.sh',w)
    sh('git checkout -q -- .',w)
    r0,o0=sh(f'bash {d}/demo.sh',w)
    good=rb==0 and not ot.strip() and r0==0 and r1!=0
    print('ok' if good else 'XX',b['id'],f'build={rb} tests={ot.strip()[:300]!r} demo-clean={r0} demo-bug={r1}')
    if r0: print('   clean:',o0[-600:])
    print('   bug:',' | '.join(l.strip() for l in o1.splitlines() if l.strip() and not l.startswith(('ok','FAIL','---')))[:260])
    shutil.rmtree(w,ignore_errors=True)
