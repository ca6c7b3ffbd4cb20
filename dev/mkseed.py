#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<< 'old ==> new [;;; FILE2 old ==> new]' : writes seeded/ID/patch.diff from an edit of the scratch copy /tmp/sc/repo."""
import sys,subprocess,os,re
sid=sys.argv[1]; R='/tmp/sc/repo'
spec=sys.stdin.read()
subprocess.run(['git','-C',R,'checkout','-q','--','.'],check=True)
for blk in re.split(r'^;;;.*\n',spec,flags=re.M):
    if not blk.strip(): continue
    f,rest=blk.split('\n',1)
    m=re.match(r'(\S+)(?: #(\d+))?',f); f=m.group(1); occ=int(m.group(2) or 1)
    old,new=rest.split('\n==>\n',1); old=old.strip('\n'); new=new.strip('\n')
    t=open(f'{R}/{f}').read()
    assert t.count(old)>=occ,(f,old)
    if not m.group(2): assert t.count(old)==1,(f,t.count(old))
    p=-1
    for _ in range(occ): p=t.index(old,p+1)
    open(f'{R}/{f}','w').write(t[:p]+new+t[p+len(old):])
d=f'/verif/seeded/{sid}'; os.makedirs(d,exist_ok=True)
open(d+'/patch.diff','w').write(subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout)
subprocess.run(['git','-C',R,'checkout','-q','--','.'],check=True)
print(open(d+'/patch.diff').read())
