#!/usr/bin/env python3
"""benign.py [ID...]: applies each behaviour-preserving edit of tools/benign/*.py to a copy of /repo, and lists the
analyses that report something (a false alarm) or give no answer (inconclusive)."""
import re,glob,json,os,subprocess,sys,tempfile,shutil,time
from concurrent.futures import ThreadPoolExecutor
os.chdir('/verif/analyzer')
W=tempfile.mkdtemp(prefix='/tmp/bn.')
JV=W+'/jv'
subprocess.check_call(['go','build','-mod=vendor','-o',JV,'.'])
EDITS=[]
def edit(id,*reps):
    """reps: (file, old, new)..."""
    EDITS.append((id,reps))
for f in sorted(glob.glob('/verif/tools/benign/*.py')): exec(open(f).read())
want=sys.argv[1:]
if want[:1]==['--from']:
    ids=[e[0] for e in EDITS]; EDITS=EDITS[ids.index(want[1]):]; want=[]
def one(repo,h):
    t=time.time()
    env=dict(os.environ,JVREPO=repo,JVHARNESS='/verif/analyzer/harness')
    o=subprocess.run([JV,'one',h,''],env=env,capture_output=True,text=True)
    try: r=json.loads(o.stdout)
    except Exception: r=dict(Reports=[dict(Msg='undecided: no result '+o.stderr[-300:],Undecided=True)],Functions=[])
    r['wall']=time.time()-t
    return h,r
hs=subprocess.check_output([JV,'list'],text=True,env=dict(os.environ,JVHARNESS='/verif/analyzer/harness')).split()
ex=ThreadPoolExecutor(7)
cache='/tmp/bn.base.json'
if os.path.exists(cache): base=json.load(open(cache))
else:
    base={h:r.get('Functions') or [] for h,r in ex.map(lambda h:one('/repo',h),hs)}
    json.dump(base,open(cache,'w'))
MOD='github.com/clipperhouse/jargon'
alarms=[]
for id,reps in EDITS:
    if want and not any(id.startswith(w) for w in want): continue
    r=W+'/r'
    shutil.rmtree(r,ignore_errors=True); shutil.copytree('/repo',r)
    bad=False
    files=set()
    for f,old,new in reps:
        s=open(r+'/'+f).read()
        if s.count(old)!=1: print(id,'NOT APPLICABLE:',f,s.count(old),repr(old[:60])); bad=True; break
        open(r+'/'+f,'w').write(s.replace(old,new)); files.add(f)
    if bad: continue
    o=subprocess.run('gofmt -l . ; go vet '+' '.join(sorted({'./'+(os.path.dirname(f) or '.') for f in files}))+' && go test ./... 2>&1 | grep -v "no test files"',shell=True,cwd=r,capture_output=True,text=True)
    if 'FAIL' in o.stdout or o.returncode>1 or ': ' in o.stderr: print(id,'DOES NOT PASS:',o.stdout[-1500:],o.stderr[-1500:]); continue
    pk={MOD+('/'+os.path.dirname(f) if os.path.dirname(f) else '') for f in files}
    # the functions of the files (short names), to select the analyses that reach them
    names={}
    for f in files:
        p=MOD+('/'+os.path.dirname(f) if os.path.dirname(f) else '')
        names.setdefault(p,set()).update(m.group(1) for m in re.finditer(r'^func (?:\([^)]*\) )?(\w+)',open('/repo/'+f).read(),re.M))
    def touches(fn):
        fn=fn.replace('(*','').replace('(','').replace(')','').split('$')[0]
        p,_,n=fn.rpartition('.')
        q=p if p in names else p.rpartition('.')[0]
        return q in names and (n in names[q])
    sel=[h for h in hs if any(touches(fn) for fn in base.get(h,[])) or h not in base or not base[h]]
    t=time.time(); n=0
    for h,res in ex.map(lambda h:one(r,h),sel):
        for rep in res.get('Reports') or []:
            n+=1
            print('  %s %s %s %s: %s'%(id,'INCONCLUSIVE' if rep.get('Undecided') else 'ALARM',h,rep.get('Pos'),rep.get('Msg')[:220]))
            if not rep.get('Undecided'): alarms.append(id)
        if res['wall']>120: print('  %s SLOW %s %.0fs'%(id,h,res['wall']))
    print('%s: %d analyses, %d reports, %.0f s'%(id,len(sel),n,time.time()-t),flush=True)
shutil.rmtree(W)
print('false alarms:',sorted(set(alarms)))
