#!/usr/bin/env python3
"""hsplit.py: split the working tree diff of /repo into commits by hunk keyword.
usage: hsplit.py 'regex' 'commit message' ['regex' 'message' ...]; first match wins, last regex may be '.'"""
import re,subprocess,sys
def sh(*a,inp=None): return subprocess.run(a,cwd='/repo',input=inp,text=True,capture_output=True)
d=sh('git','diff','-U1').stdout
pairs=list(zip(sys.argv[1::2],sys.argv[2::2]))
groups=[[] for _ in pairs]
for f in re.split(r'(?=^diff --git)',d,flags=re.M):
    if not f.strip(): continue
    h=re.split(r'(?=^@@)',f,flags=re.M)
    sel=[[] for _ in pairs]
    for x in h[1:]:
        body='\n'.join(l for l in x.split('\n') if l[:1] in '+-')
        for i,(r,_) in enumerate(pairs):
            if re.search(r,body): sel[i].append(x); break
        else: raise SystemExit('unmatched hunk\n'+x)
    for i in range(len(pairs)):
        if sel[i]: groups[i].append(h[0]+''.join(sel[i]))
full=d
for g,(r,m) in zip(groups,pairs):
    p=''.join(g)
    if not p: print('empty',m); continue
    o=sh('git','apply','--cached','--recount','--unidiff-zero',inp=p)
    if o.returncode: print('FAIL',m,o.stderr); sys.exit(1)
    print(sh('git','commit','-qm',m).stderr)
print(sh('git','status','--short').stdout)
