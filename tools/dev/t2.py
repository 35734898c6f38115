import sys
sys.path[:0]=['/repo','/verif/oracles','/verif']
from oracles import lib
lib.stub_modules()
from sql_parsing import parse_mysql, format
import json
for s in sys.argv[1:]:
    try:
        j=parse_mysql(s); print(json.dumps(j))
        t=format(j); print('  ',t)
        j2=parse_mysql(t)
        if j2!=j: print('   DIFF',json.dumps(j2))
    except Exception as e: print('ERR',type(e),str(e)[:100])
