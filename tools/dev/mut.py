import sys,os,subprocess,shutil
# mut.py spec:LIST file old new [n]
spec,f,old,new=sys.argv[1:5]
R='/tmp/w/mrepo'
if os.path.exists(R): shutil.rmtree(R)
shutil.copytree('/repo',R,ignore=shutil.ignore_patterns('.git'))
p=R+'/'+f
s=open(p).read()
if not os.environ.get('RAW'): old=old.encode().decode('unicode_escape'); new=new.encode().decode('unicode_escape')
assert s.count(old)>=1,'not found'
s=s.replace(old,new,1) if len(sys.argv)<6 else new.join(s.split(old)[:int(sys.argv[5])])+new+old.join(s.split(old)[int(sys.argv[5]):])
open(p,'w').write(s)
env=dict(os.environ,VERIF_REPO=R)
o=subprocess.run(['timeout','300','python3-vt','/verif/tools/rt.py',spec],capture_output=True,text=True,env=env,cwd='/verif').stdout
import re
ref=set(re.findall(r'   refuted \S+ (.*?) \[',o)); err=re.findall(r'ERROR (.*)',o)
print('refuted',list(ref)[:4],'errors',[x[:90] for x in err[:3]])
