import sys; sys.path.insert(0,'/verif')
import traceback, importlib
from pyded.task import Ctx
import time
sys.setrecursionlimit(3000)
mod,name,task=sys.argv[1:4]
m=importlib.import_module('specs.'+mod)
fn=dict((t[0],t[1]) for t in getattr(m,name))[task]
c=Ctx(task,time.time()+200,'quick')
try: fn(c)
except BaseException as ex:
    tb=traceback.format_exc().splitlines()
    print('\n'.join(tb[:int(sys.argv[4])]+['...']+tb[-int(sys.argv[5]):]))
