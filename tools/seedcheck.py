#!/usr/bin/env python3
"""Says which planted bugs no longer apply to /repo's HEAD or change no line of the pinned commit"""
import subprocess,os
base='2f153b5'
def git(*a,**k): return subprocess.run(['git','-C','/repo',*a],capture_output=True,text=True,**k)
def base_lines(f): return {l.strip() for l in git('show',f'{base}:{f}').stdout.splitlines()}
for d in sorted(os.listdir('/verif/seeded')):
    p=f'/verif/seeded/{d}/patch.diff'
    r=git('apply','--check',p)
    if r.returncode: print(d,'does not apply:',r.stderr.strip().splitlines()[0]); continue
    removed=original=0
    for l in open(p):
        if l.startswith('+++ b/'): lines=base_lines(l[6:].strip())
        elif l.startswith('-') and not l.startswith('--- ') and l[1:].strip() and not l[1:].strip().startswith('//'):
            removed+=1
            original+=l[1:].strip() in lines
    if removed and not original: print(d,'changes no original line')
