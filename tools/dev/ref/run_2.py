import sys,os,subprocess,shutil,json,re
sys.path.insert(0,'/tmp/w/ref')
import refs2 as refs
from concurrent.futures import ThreadPoolExecutor
ids=sys.argv[1:]
refs.R=refs.R[refs.N0:]
def one(item):
    id,props,edits=item
    d='/tmp/w/ref/c/'+id
    shutil.rmtree(d,ignore_errors=True)
    shutil.copytree('/repo',d,symlinks=True)
    out=[]
    for f,o,n in edits:
        p=os.path.join(d,f); s=open(p).read()
        if s.count(o)!=1: return id,['EDIT FAILS %s %d %r'%(f,s.count(o),o[:60])]
        open(p,'w').write(s.replace(o,n))
        r=subprocess.run(['/opt/venv/bin/python','-m','py_compile',p],capture_output=True,text=True)
        if r.returncode: return id,[r.stderr[-300:]]
    pl=props.split() if isinstance(props,str) else props
    for p in pl:
        vd='/tmp/w/ref/v/'+id+p
        shutil.rmtree(vd,ignore_errors=True)
        subprocess.run(['cp','-a','/tmp/w/vv',vd])
        r=subprocess.run(['python3-vt','run_check.py',p],cwd=vd,env=dict(os.environ,VERIF_REPO=d,VERIF_SEED='1',VERIF_TIER='quick'),capture_output=True,text=True)
        o=r.stdout
        try:
            ev=json.load(open(vd+'/evidence/%s.json'%p))
        except Exception as e: ev={}
        vio=[l for l in o.splitlines() if 'VIOLATION' in l]
        out.append('%s rc=%d %s | %s'%(p,r.returncode,' '.join(vio)[:150],' '.join(l for l in o.splitlines()[-1:])[:160]))
        if r.returncode not in (0,): out.append(o[-600:]+r.stderr[-400:])
        os.makedirs('/tmp/w/ref/log',exist_ok=True)
        open('/tmp/w/ref/log/%s_%s.txt'%(id,p),'w').write(o+'\n--\n'+r.stderr)
        shutil.rmtree(vd,ignore_errors=True)
    shutil.rmtree(d,ignore_errors=True)
    return id,out
L=[x for x in refs.R if not ids or x[0] in ids]
with ThreadPoolExecutor(int(os.environ.get('J','2'))) as ex:
    for id,out in ex.map(one,L):
        print(id); 
        for l in out: print('   ',l)
        sys.stdout.flush()
