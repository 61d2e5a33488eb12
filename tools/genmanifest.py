#!/usr/bin/env python3
"""Writes MANIFEST.json from the //jv:props directives of the harnesses and the lints, and the notes below."""
import json,re,glob,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
props=[json.loads(l) for l in open('properties.jsonl')]
NA={
 'C28':"Running time is a runtime quantity: no static argument in reach bounds the time of the segmenter, the HTML parser and the regular expressions the repository calls; C11 (bounded lookahead) covers the part that is visible in the source.",
 'C29':"The boundaries are computed by the generated state tables of github.com/clipperhouse/uax29, a dependency outside of the repository; deciding that those tables implement UAX #29 is a matter of comparing table-driven runs, not of analysing this source. That the repository passes the segments on unchanged and in order is C01.",
}
TODO="The analysis of this property is not finished."
EXTRA={}   # id -> note
exec(open('tools/claims.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIM:
        t,n=CLAIM[i]
        checks.append(dict(property=i,quick_cmd=f'./check.sh {i}',thorough_cmd=f'./check.sh {i}',evidence_file=f'evidence/{i}.json',technique=t,level='other',level_note=n))
    else:
        na.append(dict(property=i,reason=NA.get(i,TODO)))
m=dict(version=1,setup_cmd='cd analyzer && GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off go build -o ../bin/jv .',checks=checks,not_applicable=na,
 notes='Static analysis only: the Go source of /repo is loaded, type-checked and brought to SSA form on every run, and interpreted abstractly to a fixpoint; nothing of it is executed. No hooks are needed in /repo.')
open('MANIFEST.json','w').write(json.dumps(m,indent=1)+'\n')
