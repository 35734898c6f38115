import sys,os,shutil
sys.path.insert(0,'/tmp/w/ref'); import refs2 as refs
id=sys.argv[1]; d=sys.argv[2] if len(sys.argv)>2 else '/tmp/w/crepo'
for i,p,edits in refs.R:
    if i==id:
        for f,o,n in edits:
            q=d+'/'+f; s=open(q).read(); assert s.count(o)==1; open(q,'w').write(s.replace(o,n))
