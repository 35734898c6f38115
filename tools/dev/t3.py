import sys,os
V='/tmp/w/vv'
sys.path[:0]=['/repo',V+'/oracles',V]
os.makedirs('/tmp/w/scr',exist_ok=True); os.chdir('/tmp/w/scr')
import lib
lib.stub_modules()
import rewrite_o as R
meta={'t1':{'anonymous':'ta','columns':{'e':{'enc-cols':{'symmetric':'es','order-preserving':'eo'},'plaintext':False,'type':'int','key':'k'},'p':{'enc-cols':{},'plaintext':True,'type':'int','key':''},'e2':{'enc-cols':{'symmetric':'es2'},'plaintext':False,'type':'varchar','key':'k'}}},
 't2':{'anonymous':'tb','columns':{'q':{'enc-cols':{},'plaintext':True,'type':'int','key':''}}}}
for s in sys.argv[1:]:
    try:
        r,o=R.rewrite(meta,s); print(s,'=>',o[0])
    except Exception as ex: print(s,'=> refused',repr(ex)[:90])
