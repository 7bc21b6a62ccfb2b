#!/usr/bin/env python3
"""Lists seeded changes whose changed lines (or, for pure insertions, neighbours) all come from our own commits in /repo."""
import subprocess, re, os, sys
base='ff4a212'
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','seeded')
blame={}
def own(f):
    if f not in blame:
        out=subprocess.run(['git','-C','/repo','blame','-s','--abbrev=7',f'{base}..HEAD','--',f],capture_output=True,text=True).stdout
        blame[f]=[not l.startswith('^') for l in out.splitlines()]
    return blame[f]
for d in sorted(os.listdir(root)):
    f=None; orig=0; mine=0; ins=[]
    for l in open(os.path.join(root,d,'patch.diff')):
        if l.startswith('--- a/'): f=l[6:].strip(); continue
        if l.startswith('+++'): continue
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m[1])-1; continue
        if f is None or l.startswith('diff'): continue
        if l.startswith('-'):
            if own(f)[n]: mine+=1
            else: orig+=1
            n+=1
        elif l.startswith('+'):
            o=own(f); ins.append((n>0 and o[n-1], n<len(o) and o[n]))
        elif l.startswith(' ') or l=='\n': n+=1
    if orig==0: print(d,'removed own',mine,'insertions next to (before own, after own)',sorted(set(ins)))
