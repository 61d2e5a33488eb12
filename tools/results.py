#!/usr/bin/env python3
"""results.py LOG...: takes the output of trybugs.sh into tools/results.json"""
import sys,re,json,os
os.chdir('/verif')
f='tools/results.json'
R=json.load(open(f)) if os.path.exists(f) else {}
for a in sys.argv[1:]:
    for l in open(a):
        m=re.match(r'(\S+) (C\d\d) rc=(\d+) \d+s (.*)',l)
        if m:
            rep=m.group(4); by=re.search(r' \[(\w[\w:]*)\]',rep)
            R[m.group(1)]={'by':(m.group(2) if m.group(3)=='1' else 'MISSED'),'report':rep[:140]}
json.dump(R,open(f,'w'),indent=1,sort_keys=True)
