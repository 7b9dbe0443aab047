#!/usr/bin/env python3
"""Developer tool: apply the edits of a mutation file to scratch copies of /repo and run checks on them.
usage: run.py FILE.py [name-substring] [-p C01,C02]   (each file defines M = [(name, kind, props, [(file, old, new)...])])"""
import sys,os,subprocess,shutil,concurrent.futures as cf
args=sys.argv[1:]
props=None
if '-p' in args:
    i=args.index('-p'); props=args[i+1].split(','); del args[i:i+2]
notest='-n' in args
if notest: args.remove('-n')
ns={'M':[]}; exec(open(args[0]).read(),ns)
sub=args[1] if len(args)>1 else ''
env=dict(os.environ,PATH='/opt/veriftools/go1.25.14/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off')
subprocess.run('cd /verif/checker && GOFLAGS=-mod=vendor go build -o /tmp/wvm .',shell=True,check=True,env=env)
def one(m):
    name,kind,ps,edits=m
    d=f'/tmp/mut/{name}'
    if os.path.exists(d): shutil.rmtree(d)
    shutil.copytree('/repo',d,symlinks=True,ignore=shutil.ignore_patterns('.git','_examples','node_modules'))
    out=[f'[{kind}] {name}']
    for f,o,n in edits:
        s=open(f'{d}/{f}').read()
        if s.count(o)!=1: 
            out.append(f'  !! edit matches {s.count(o)} times in {f}: {o[:50]!r}'); return '\n'.join(out)
        open(f'{d}/{f}','w').write(s.replace(o,n))
    if not notest:
        r=subprocess.run(r'go build ./schema/... . && go test ./schema/... . 2>&1 | grep "^ *--- FAIL\\|^FAIL\\|^panic\\|\.go:[0-9]*:[0-9]*: " | head -5',shell=True,cwd=d,env=env,capture_output=True,text=True)
        t=(r.stdout+r.stderr).strip()
        if t: out.append('  TESTS: '+t[:600])
    v=f'/tmp/mut/{name}.v'; os.makedirs(v+'/evidence',exist_ok=True)
    for p in (props or ps):
        try: r=subprocess.run(['/tmp/wvm','-prop',p,'-repo',d,'-verif',v],capture_output=True,text=True,env=dict(env,GOFLAGS=''),timeout=900)
        except subprocess.TimeoutExpired: out.append(f'  {p} TIMEOUT'); continue
        bad=(r.returncode==0)==(kind=='bug') or r.returncode not in(0,1)
        ls=[l[:230] for l in r.stdout.splitlines() if l.startswith('undecided') or ': ' in l and not l.startswith(p)]
        out.append(f'  {"XX" if bad else "ok"} {p} rc={r.returncode} '+(['','']+r.stdout.splitlines())[-1 if r.returncode==0 else -2][:150]+r.stderr[-300:])
        out += ['       '+l for l in ls[:4]]
    shutil.rmtree(d,ignore_errors=True); shutil.rmtree(v,ignore_errors=True)
    return '\n'.join(out)
ms=[m for m in ns['M'] if any(x in m[0] for x in sub.split(','))]
with cf.ThreadPoolExecutor(2) as ex:
    for s in ex.map(one,ms): print(s,flush=True)
