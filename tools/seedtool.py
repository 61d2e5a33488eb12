#!/usr/bin/env python3
"""seedtool.py [ID...]: makes /verif/seeded/<id>/ from seeds/*.py and confirms each planted change (build, tests, demonstration)."""
import sys,os,json,subprocess,shutil,glob,tempfile
here=os.path.dirname(os.path.abspath(__file__))
SEEDS=[]
def seed(id,property,edits,pkg,demo,needs,breaks,race=False,script=None):
    SEEDS.append(dict(id=id,property=property,edits=edits,pkg=pkg,demo=demo,needs=needs,breaks=breaks,race=race,script=script))
for f in sorted(glob.glob(here+'/seeds/*.py')):
    exec(compile(open(f).read(),f,'exec'),{'seed':seed})
env=dict(os.environ,GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off')
def sh(cmd,cwd,timeout=400):
    p=subprocess.run(cmd,cwd=cwd,env=env,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout)
    return p.returncode,p.stdout.decode(errors='replace')
def tests(cwd):
    _,out=sh('go test -json -vet=off -count=1 ./... ',cwd)
    ok=set()
    for l in out.splitlines():
        try: d=json.loads(l)
        except Exception: continue
        if d.get('Action')=='pass' and d.get('Test'): ok.add((d['Package'],d['Test']))
    return ok
base=None
want=sys.argv[1:]
ids=set()
for s in SEEDS:
    assert s['id'] not in ids,s['id']; ids.add(s['id'])
    if want and s['id'] not in want: continue
    out='/verif/seeded/'+s['id']
    if not want and os.path.exists(out+'/meta.json'): continue
    tmp=tempfile.mkdtemp(prefix='seed')
    r=tmp+'/r'
    shutil.copytree('/repo',r,symlinks=True)
    if base is None: base=tests(r)
    for f,old,new in s['edits']:
        t=open(r+'/'+f).read()
        assert t.count(old)==1,(s['id'],f,old,t.count(old))
        open(r+'/'+f,'w').write(t.replace(old,new))
    rc,o=sh('gofmt -l $(git diff --name-only | grep "\\.go$")',r)
    if o.strip(): print(s['id'],'gofmt',o)
    _,diff=sh('git diff',r)
    rc,o=sh('go build ./...',r)
    bad=None
    if rc: bad='does not build: '+o
    if not bad:
        lost=base-tests(r)
        if lost: bad='breaks tests '+str(lost)
    os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','w').write(diff)
    mine=False
    import re
    for m in re.finditer(r'^--- a/(\S+)\n\+\+\+.*\n((?:[@ +\-\\].*\n|\n)*)',diff,re.M):
        f=m.group(1)
        blame=subprocess.run(['git','blame','-s','--abbrev=7','b7cf0e2..HEAD','--',f],cwd='/repo',stdout=subprocess.PIPE).stdout.decode().splitlines()
        ln=0
        for l in m.group(2).split('\n'):
            h=re.match(r'@@ -(\d+)',l)
            if h: ln=int(h.group(1)); continue
            if l.startswith('-') and not blame[ln-1].startswith('^'): mine=True
            if not l.startswith('+'): ln+=1
    if mine: print(s['id'],'WARNING: removes lines of own commits')
    if s['script']:
        open(out+'/demo.sh','w').write(s['script'])
        if s['demo']: open(out+'/demo_test.go','w').write(s['demo'])
    else:
        open(out+'/demo_test.go','w').write(s['demo'])
        open(out+'/demo.sh','w').write('''#!/bin/bash
# runs demo_test.go inside ./%s; it is laid over the repository, nothing is written there
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
o=$(mktemp); trap 'rm -f "$o"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$o"
go test -vet=off -overlay "$o" -count=1 %s-run '^TestZZDemo$' ./%s
'''%(s['pkg'],s['pkg'],'-race ' if s['race'] else '',s['pkg']))
    os.chmod(out+'/demo.sh',0o755)
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(out+'/meta.json','w'),indent=1)
    if not bad:
        rc1,o1=sh('bash %s/demo.sh'%out,'/repo')
        rc2,o2=sh('bash %s/demo.sh'%out,r)
        if rc1: bad='demo fails on the unchanged tree: '+o1[-1500:]
        elif not rc2: bad='demo passes with the change: '+o2[-1500:]
        elif 'build failed' in o2 or 'setup failed' in o2: bad='demo does not build: '+o2[-1500:]
    print(s['id'],'FAILED '+bad if bad else 'ok')
    if bad: shutil.rmtree(out)
    shutil.rmtree(tmp)
