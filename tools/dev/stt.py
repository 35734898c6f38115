import sys, re, random
sys.path[:0]=['/repo','/tmp/w/vv/oracles','/tmp/w/vv','/tmp/w']
from oracles import lib
lib.stub_modules()
from sql_parsing import parse_mysql, format
import stgen
class O: rng=random.Random(int(sys.argv[1]))
import time
def toks(s):
    t=re.findall(r"'(?:[^']|'')*'|`[^`]*`|[A-Za-z_][\w.*]*|\d[\d.]*|[<>=!|]+|\S", s.upper())
    return [x for x in t if x not in '()' and x not in('AS',)]
def one(s):
    try: j=parse_mysql(s)
    except Exception as e: return 'REJ '+str(e)[:60]
    try: t=format(j)
    except Exception as e: return 'FMT '+repr(e)[:80]
    try: j2=parse_mysql(t)
    except Exception as e: return 'REREJ '+t
    if j2!=j: return 'DIFF '+t
    if s.startswith('INSERT') : return
    a,b=toks(s),toks(t)
    a=' '.join(a).replace('<=> NULL','IS NULL').replace('NULL <=> ','').split()
    b=' '.join(b).replace('<=> NULL','IS NULL').split()
    if a!=b: return 'TOK %s'%t
n=int(sys.argv[2]); t0=time.time()
for s in stgen.STMTS if n==0 else [stgen.rand_stmt(O) for _ in range(n)]:
    r=one(s)
    if r: print(r[:int(sys.argv[3])],'\n     ',s[:int(sys.argv[3])])
print(time.time()-t0)
