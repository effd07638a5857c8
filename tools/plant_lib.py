"""helpers for planting: sub(file, old, new) edits /repo, plant(id) confirms it as seeded/id"""
import subprocess
def sub(f,a,b,n=1):
    p='/repo/macroslib/src/'+f; s=open(p).read(); assert s.count(a)>=1,(f,a); open(p,'w').write(s.replace(a,b,n))
def plant(i,*o):
    q=subprocess.run(["python3","/verif/tools/plant.py",i,*o],capture_output=True,text=True); print(q.stdout[-1500:],q.stderr[-500:],flush=True)
