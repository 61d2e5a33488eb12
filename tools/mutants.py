#!/usr/bin/env python3
"""mutants.py [ID-prefix...]: applies each behaviour-breaking edit of tools/mutants/*.py to a copy of /repo (it must
build and pass the tests) and runs the check of the property it breaks, listing which are caught."""
import glob,os,subprocess,sys,tempfile,shutil,time
os.chdir('/verif/analyzer')
W=tempfile.mkdtemp(prefix='/tmp/mu.')
JV=W+'/jv'
subprocess.check_call(['go','build','-mod=vendor','-o',JV,'.'])
M=[]
def mut(id,prop,*reps):
    M.append((id,prop,reps))
for f in sorted(glob.glob('/verif/tools/mutants/*.py')): exec(open(f).read())
want=sys.argv[1:]
count={}
for id,prop,reps in M:
    if want and not any(id.startswith(w) for w in want): continue
    r=W+'/r'; v=W+'/v'
    for d in (r,v): shutil.rmtree(d,ignore_errors=True)
    shutil.copytree('/repo',r); os.mkdir(v); shutil.copy('/verif/known-findings.txt',v)
    bad=None
    for f,old,new in reps:
        s=open(r+'/'+f).read()
        if s.count(old)!=1: bad='%s: %d of %r'%(f,s.count(old),old[:60]); break
        open(r+'/'+f,'w').write(s.replace(old,new))
    if bad: print(id,'NOT APPLICABLE',bad,flush=True); continue
    o=subprocess.run('gofmt -w . ; go build ./... 2>&1 && go test ./... 2>&1 | grep -v "no test files"',shell=True,cwd=r,capture_output=True,text=True)
    if 'FAIL' in o.stdout or o.returncode: print(id,'DOES NOT PASS:',o.stdout[-700:],flush=True); continue
    t=time.time()
    o=subprocess.run([JV,'check',prop],env=dict(os.environ,JVREPO=r,JVVERIF=v,JVHARNESS='/verif/analyzer/harness'),capture_output=True,text=True)
    L=o.stdout.splitlines()
    vio=[l for l in L if 'INCONCL' not in l]; inc=[l for l in L if 'INCONCL' in l]
    res='CAUGHT' if o.returncode==1 else ('MISSED' if not inc else 'INCONCLUSIVE')
    count[res]=count.get(res,0)+1
    print('%-28s %s %s rc=%d %ds %s'%(id,prop,res,o.returncode,time.time()-t,(vio[:1] or inc[:1] or [''])[0][:230] if res!='MISSED' else ''),flush=True)
shutil.rmtree(W)
print(count)
