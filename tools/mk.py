"""mk.py ID PROP FILE 'old' 'new' — write patch.diff for a replacement in a copy of the repo"""
import sys, subprocess, json, os, shutil
bid, prop, f, old, new = sys.argv[1:6]
n = int(sys.argv[6]) if len(sys.argv) > 6 else None
w='/tmp/w/mkrepo'
shutil.rmtree(w, ignore_errors=True); subprocess.check_call(['git','clone','-q','/repo',w])
p=os.path.join(w,f); s=open(p).read()
c=s.count(old)
assert c>=1, 'not found'
if n is None:
    assert c==1, c
    s=s.replace(old,new)
else:
    i=-1
    for _ in range(n+1): i=s.index(old,i+1)
    s=s[:i]+new+s[i+len(old):]
open(p,'w').write(s)
d='/verif/seeded/'+bid; os.makedirs(d,exist_ok=True)
open(d+'/patch.diff','a').write(subprocess.check_output(['git','-C',w,'diff'],text=True)) if os.environ.get('APPEND') else open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',w,'diff'],text=True))
shutil.rmtree(w)
