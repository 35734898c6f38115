import sys,os
sys.path[:0]=[os.environ.get('R','/repo'),'/verif/oracles','/verif']
from oracles import lib
lib.stub_modules()
from sql_parsing import parse_mysql, format
import json
for s in sys.argv[1:]:
    try:
        print('==',s)
        j=parse_mysql(s); print(json.dumps(j)[:200])
        t=format(j,ansi_quotes=False); print('  ',t[:200])
        j2=parse_mysql(t)
        if j2!=j: print('   DIFF',json.dumps(j2)[:200])
    except Exception as e: print('ERR',type(e),str(e)[:100])
