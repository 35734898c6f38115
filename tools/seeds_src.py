SEEDS = []
def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

seed('ope-range-guard', 'C01', 'an integer just above the input range (same bit length as the range size)',
     'integers outside the input range are encrypted (to a ciphertext another integer already has) instead of refused',
     [('scheduler/crypto/ope/ope.py', "        if not self.in_range.contains(plaintext):\n",
       "        if (plaintext - self.in_range.start).bit_length() > self.in_range.size().bit_length():\n")],
     '''from scheduler.crypto.ope.ope import OPE, ValueRange
from scheduler.crypto.ope.errors import OutOfRangeError
o = OPE(b'k' * 32, ValueRange(0, 99), ValueRange(0, 9999))
assert all(o.encrypt(a) < o.encrypt(a + 1) for a in range(0, 99))
for x in (100, 120, -1, 5000):
    try:
        r = o.encrypt(x)
    except OutOfRangeError:
        continue
    raise SystemExit('encrypt(%d) = %r' % (x, r))
''')

seed('ope-dec-rounding', 'C02', 'a range whose output size becomes odd with an even half during the recursion (never the default ranges)',
     'decryption splits the output range elsewhere than encryption, so some ciphertexts are refused or give another integer',
     [('scheduler/crypto/ope/ope.py', """        mid = out_edge + int(math.ceil(out_size / 2.0))  # y
        assert in_size <= out_size
        if in_range.size() == 1:
            in_range_min""", """        mid = out_edge + max(1, int(round(out_size / 2.0)))  # y
        assert in_size <= out_size
        if in_range.size() == 1:
            in_range_min""")],
     '''from scheduler.crypto.ope.ope import OPE, ValueRange
for out in (100, 101, 1000, 1003):
    o = OPE(b'k' * 32, ValueRange(0, 40), ValueRange(0, out))
    for x in range(41):
        try:
            c = o.encrypt(x)
        except AssertionError:
            continue
        r = o.decrypt(c)
        assert r == x, (out, x, c, r)
''')

seed('aes-pad-chars', 'C04', 'a text with multi-byte characters whose encoded length is not a multiple of 16',
     'texts with non-ASCII characters are refused or padded to the wrong length',
     [('scheduler/crypto/encrypt.py', """        raw = self.pad(raw.encode('utf8'))
        aes = Cipher(algorithms.AES(self.key), modes.ECB())
        cipher = aes.encryptor()
        c = cipher.update(raw) + cipher.finalize()
        return b64encode(c).decode('utf8')""", """        data = raw.encode('utf8')
        raw = data + b"\\0" * (len(self.pad(b" " * len(raw))) - len(raw)) if len(raw) % BLOCK_SIZE else self.pad(data)
        aes = Cipher(algorithms.AES(self.key), modes.ECB())
        cipher = aes.encryptor()
        c = cipher.update(raw) + cipher.finalize()
        return b64encode(c).decode('utf8')""")],
     '''from scheduler.crypto.encrypt import AESCipher
c = AESCipher('key')
for t in ['abc', '', 'x' * 16, 'caf\\u00e9', '\\u4e2d\\u6587', 'a' * 15 + '\\u00e9']:
    assert c.decrypt(c.encrypt(t)) == t, t
''')

seed('fuzzy-repeated-piece', 'C05', 'a value in which the same three characters occur twice, searched for a word that contains the second occurrence',
     'a piece that already occurred is left out of the fuzzy ciphertext, so the ciphertext of a contained word is not contained',
     [('scheduler/crypto/encrypt.py', "                    result = result + self.cipher.encrypt(str(raw)[i: i+3])\n",
       "                    piece = self.cipher.encrypt(str(raw)[i: i+3])\n                    if piece not in result or len(raw) == 3:\n                        result = result + piece\n")],
     '''from scheduler.crypto.encrypt import FuzzyCipher
f = FuzzyCipher('key')
for value, word in [('abcdef', 'bcd'), ('abcXabcd', 'abcd'), ('aaaaa', 'aaa'), ('12312399', '12399'), ('xyz', 'xyz')]:
    assert f.encrypt(word) in f.encrypt(value), (value, word)
''')

seed('paillier-one-modulus', 'C06', 'a table with two homomorphic columns under different keys, aggregating one that is not the first',
     'every homomorphic column of a table is aggregated modulo the n^2 of the first one, so SUM and AVG decrypt to garbage',
     [('scheduler/schema/metadata.py', "        homo_enc_dict = {}\n", "        homo_enc_dict = {}\n        n_square = None\n"),
      ('scheduler/schema/metadata.py', "                n_square = (col_info['homomorphic_key'][0] * col_info['homomorphic_key'][1])**2\n",
       "                n_square = n_square or (col_info['homomorphic_key'][0] * col_info['homomorphic_key'][1])**2\n")],
     '''from demo_env import *
k1, k2 = [787659527, 1023624989], [1000000007, 998244353]
m = tables(t={'a': column('int', 'k1', k1, symmetric='sa', arithmetic='xa'), 'b': column('int', 'k2', k2, symmetric='sb', arithmetic='xb')})
for col, k in (('xa', k1), ('xb', k2)):
    s = m.Delta.get_paillier_procedure_info('SELECT SUM(%s) FROM table_t' % col, 'd', 't', {'select': {'value': {'sum': col}}, 'from': 'table_t'})[0]
    assert s == [(col, (k[0] * k[1]) ** 2)], (col, s)
''')

seed('insert-cipher-cache', 'C07', 'two tables (or two requests) that have an encrypted column of the same name with different keys',
     'values are encrypted under the key of the column of that name that was inserted into first',
     [('scheduler/handers/clause/sql_values.py', "class SQLValues(Rewriter):\n", "class SQLValues(Rewriter):\n    ciphers = {}\n\n"),
      ('scheduler/handers/clause/sql_values.py', "            return {'value': {'literal': encrypt.AESCipher(key).encrypt(str(value))}}\n",
       "            cipher = self.ciphers.setdefault(col, encrypt.AESCipher(key))\n            return {'value': {'literal': cipher.encrypt(str(value))}}\n")],
     '''from demo_env import *
m = tables(t={'a': column('varchar', 'k1', symmetric='sa')}, u={'a': column('varchar', 'k2', symmetric='sb')})
from scheduler.crypto.encrypt import AESCipher
for t, k in (('t', 'k1'), ('u', 'k2'), ('t', 'k1')):
    sql, r = rewrite("insert into %s (a) values ('hello')" % t)
    assert AESCipher(k).encrypt('hello') in sql, (t, sql)
''')

seed('update-short-fuzzy', 'C08', 'an UPDATE of a fuzzy column to a text of fewer than three characters',
     'the fuzzy column keeps the ciphertext of the old value, so LIKE still finds it there',
     [('scheduler/handers/clause/sql_set.py', "                for k1, v1 in enc_table_meta['columns'][k]['enc-cols'].items():\n",
       "                short = isinstance(v, dict) and len(str(v.get('literal', '---'))) < 3\n"
       "                for k1, v1 in [x for x in enc_table_meta['columns'][k]['enc-cols'].items() if not (short and x[0] == 'fuzzy')]:\n")],
     '''from demo_env import *
m = tables(t={'id': column('int'), 'a': column('varchar', 'k1', symmetric='sa', fuzzy='fa')})
for text in ('hello', 'abc', 'no', 'x'):
    sql, r = rewrite("update t set a = '%s' where id = 1" % text)
    assert 'sa' in sql and 'fa' in sql, (text, sql)
''')

seed('where-three-way', 'C09', 'an AND or OR of three or more conditions',
     'only the first and the last condition of a chain are kept',
     [('scheduler/handers/clause/sql_where.py', "                    return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in v]}\n",
       "                    return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in (v[0], v[-1])]}\n")],
     '''from demo_env import *
m = tables(t={'a': column('int'), 'b': column('int'), 'c': column('varchar', 'k', symmetric='sc')})
from scheduler.crypto.encrypt import AESCipher
for n, sql in ((2, "select a from t where a = 1 and c = 'x'"), (3, "select a from t where a = 1 and c = 'x' and b > 5"), (3, "select a from t where a = 1 or b = 7 or c = 'x'")):
    out, r = rewrite(sql)
    assert AESCipher('k').encrypt('x') in out and out.count('=') + out.count('>') - AESCipher('k').encrypt('x').count('=') == n, out
''')

seed('select-repeated-column', 'C10', 'a SELECT list that names the same column twice',
     'the second mention gets no output column name, so every later value is decrypted as another column and the last is lost',
     [('scheduler/handers/clause/sql_select.py', "        if isinstance(select_val, str):\n            self.select_columns.append(select_val)\n",
       "        if isinstance(select_val, str):\n            if select_val not in self.select_columns:\n                self.select_columns.append(select_val)\n")],
     '''from demo_env import *
m = tables(t={'a': column('int'), 'b': column('int', 'k', order_preserving='ob', symmetric='sb')})
for sql, names in (("select a, b from t", ['a', 'b']), ("select max(b), min(b), a from t", ['b', 'b', 'a'])):
    out, r = rewrite(sql)
    assert r.select.select_columns == names and len(r.select.select_state) == len(names), (sql, r.select.select_columns)
''')

seed('decrypt-by-state-cache', 'C11', 'a result with two encrypted columns of different keys under the same cipher',
     'the second column is decrypted with the key of the first',
     [('scheduler/handers/decrypt_handler.py', """        decrypter = {"symmetric": encrypt.AESCipher(key),
                     "order-preserving": encrypt.OPECipher(key),
                     "arithmetic": encrypt.HomomorphicCipher(homo_key)}
""", """        decrypter = self.__dict__.setdefault('decrypters', {})
        if state not in decrypter:
            decrypter[state] = {"symmetric": encrypt.AESCipher,
                                "order-preserving": encrypt.OPECipher,
                                "arithmetic": encrypt.HomomorphicCipher}[state](homo_key if state == "arithmetic" else key)
""")],
     '''from demo_env import *
m = tables(t={'a': column('varchar', 'k1', symmetric='sa'), 'b': column('varchar', 'k2', symmetric='sb')})
from scheduler.handers.decrypt_handler import DecryptHandler
from scheduler.crypto.encrypt import AESCipher
rows = [[AESCipher('k1').encrypt('x'), AESCipher('k2').encrypt('y')], [None, AESCipher('k2').encrypt('z')]]
r = DecryptHandler(None).decrypt1({'rows': rows}, ['a', 'b'], m.Delta.meta['d'], 't', ['symmetric', 'symmetric'])
assert r == {'columns': ['a', 'b'], 'rows': [['x', 'y'], [None, 'z']]}, r
''')

seed('varchar-width', 'C12', 'a varchar(n) whose padded size is a multiple of three blocks (n from 32 to 47, 80 to 95 ...) and a value as long as allowed',
     'the ciphertext column of some sizes is narrower than the ciphertext of a value that fits',
     [('scheduler/schema/metadata.py', "        n = (((t_v // 16 + 1) * 16) // 3 + i) * 4\n", "        n = (((t_v // 16 + 1) * 16 - 1) // 3 + i) * 4\n")],
     '''from demo_env import *
m = install()
from scheduler.crypto.encrypt import AESCipher
for n in range(1, 400):
    for kind in ('char', 'varchar'):
        t, w = m.get_type_and_len(kind, n)
        assert len(AESCipher('k').encrypt('a' * n)) <= w, (kind, n, w)
''')

seed('meta-second-database', 'C13', 'a table name recorded in two databases, reloaded from the store',
     'after a restart the second database gets the physical name of the table of the first',
     [('scheduler/schema/metadata.py', "        meta = {}\n        cu = cls.db_conn.cursor()\n", "        meta, anonymous = {}, {}\n        cu = cls.db_conn.cursor()\n"),
      ('scheduler/schema/metadata.py', "                meta[db_name][table_name]['anonymous'] = table_anonymous\n",
       "                meta[db_name][table_name]['anonymous'] = anonymous.setdefault(table_name, table_anonymous)\n")],
     '''from demo_env import *
m = install()
d = m.Delta()
col = {'a': column('int')}
for db in ('d1', 'd2'):
    for t in ('t', 'u'):
        d.update_delta(db, {t: {'anonymous': 'table_%s_%s' % (db, t), 'columns': dict(col)}})
r = m.Delta.load_delta()
for db in ('d1', 'd2'):
    for t in ('t', 'u'):
        assert r[db][t] == {'anonymous': 'table_%s_%s' % (db, t), 'columns': col}, (db, t, r)
''')

seed('drop-before-execute', 'C14', 'a DROP that the database rejects',
     'the metadata (and keys) of a table are deleted although its DROP was rejected',
     [('scheduler/backend/executors/remote_executor.py', "            if query_type == QueryType.CREATE:\n", "            if query_type in (QueryType.CREATE, QueryType.DROP):\n")],
     '''from demo_env import *
m = tables(t={'a': column('int', 'k', symmetric='sa')})
from scheduler.backend.executors import remote_executor as x
from scheduler.compile.parser import Parser
class Cursor:
    def execute(self, *a): raise ValueError('rejected')
class Conn:
    def cursor(self): return Cursor()
    def commit(self): pass
    def close(self): pass
x.RemoteExecutor.connect_db = staticmethod(lambda info: Conn())
e = x.RemoteExecutor({'db': 'd'})
try:
    e.call('drop table t', Parser('drop table t'), None)
except ValueError:
    pass
else:
    raise SystemExit('no error')
assert 't' in m.Delta.meta['d'], 'metadata dropped'
''')

seed('pool-share-transaction', 'C15', 'a pool with sharing and maxconnections reached while every shared connection is in a transaction',
     'a connection in the middle of a transaction is lent to a second user',
     [('dbutils/pooled_db.py', "                    while con.con._transaction:\n", "                    while con.con._transaction and con.shared > 1:\n")],
     '''import types
class Con:
    def cursor(self): return self
    def close(self): pass
    def commit(self): pass
    def rollback(self): pass
class E(Exception): pass
mod = types.SimpleNamespace(threadsafety=2, connect=lambda *a, **k: Con(), OperationalError=E, InterfaceError=E, InternalError=E)
from dbutils.pooled_db import PooledDB, TooManyConnections
p = PooledDB(mod, maxshared=1, maxconnections=1)
a = p.connection()
b = p.connection()
assert a._con is b._con
b.close()
a.begin()
try:
    c = p.connection()
except TooManyConnections:
    c = None
assert c is None or c._con is not a._con, 'a connection in a transaction was shared'
''')

seed('pool-cached-edge', 'C15', 'a pool with maxcached, as many connections idle as allowed, and one more returned',
     'the idle cache grows beyond maxcached',
     [('dbutils/pooled_db.py', """            if not self._maxcached or len(self._idle_cache) < self._maxcached:
                con._reset(""", """            if not self._maxcached or len(self._idle_cache) <= self._maxcached:
                con._reset(""")],
     '''import types
class E(Exception): pass
class Con:
    def cursor(self): return self
    def close(self): pass
    def commit(self): pass
    def rollback(self): pass
mod = types.SimpleNamespace(threadsafety=2, connect=lambda *a, **k: Con(), OperationalError=E, InterfaceError=E, InternalError=E)
from dbutils.pooled_db import PooledDB
p = PooledDB(mod, maxcached=2)
l = [p.dedicated_connection() for i in range(5)]
for c in l:
    c.close()
    assert len(p._idle_cache) <= 2, len(p._idle_cache)
''')

seed('alter-reference-case', 'C23', 'ADD FOREIGN KEY that references a table (or columns) whose name has capital letters',
     'the statement written back references another table',
     [('sql_parsing/__init__.py', "                'reference_table': add_foreign_key.group(5),\n",
       "                'reference_table': add_foreign_key.group(5).lower(),\n")],
     '''from sql_parsing import parse_alter_key, format_alter_key
for t in ('orders', 'Orders', 'T1'):
    s = 'ALTER TABLE a ADD CONSTRAINT fk FOREIGN KEY (c) REFERENCES %s (d);' % t
    r = format_alter_key(parse_alter_key(s))
    assert r.split()[-1].startswith(t + '('), (s, r)
''')

seed('alter-drop-index-prefix', 'C23', 'DROP INDEX of an index whose name starts with an underscore',
     'another index is dropped',
     [('sql_parsing/__init__.py', "'drop index': drop_index.group(3)}", "'drop index': drop_index.group(3).strip(' _')}")],
     '''from sql_parsing import parse_alter_key, format_alter_key
for t in ('i', 'idx_a', '_idx', 'idx_'):
    r = format_alter_key(parse_alter_key('alter table a drop index %s' % t))
    assert r.rstrip(';').split()[-1] == t, (t, r)
''')

seed('steady-cursor-retry', 'C16', 'the connection is lost when a cursor is opened inside a transaction',
     'the cursor is opened on a new session and the transaction goes on there silently',
     [('dbutils/steady_db.py', """                    if transaction:
                        raise error  # re-raise the original error again
                    return cursor
""", """                    if transaction and self._usage:
                        raise error  # re-raise the original error again
                    return cursor
""")],
     '''import types
class E(Exception): pass
class Con:
    lost = False
    def cursor(self):
        if self.lost: raise E('lost')
        return types.SimpleNamespace(execute=lambda *a: None, close=lambda: None)
    def close(self): self.lost = True
    def commit(self): pass
    def rollback(self): pass
    def begin(self): pass
mod = types.SimpleNamespace(threadsafety=2, connect=lambda *a, **k: Con(), OperationalError=E, InterfaceError=E, InternalError=E)
from dbutils.steady_db import connect
c = connect(mod)
for use in (True, False):
    if use:
        c.cursor().execute('x')
    c.begin()
    c._con.lost = True
    try:
        c.cursor().execute('y')
    except E:
        continue
    raise SystemExit('the transaction went on in another session (used before: %s)' % use)
''')

seed('format-concat-prec', 'C17', 'a concatenation inside a product or sum',
     'an operand of || moves across the operator boundary when the text is read back',
     [('sql_parsing/keywords.py', '    "add": 3,\n', '    "add": 2,\n')],
     '''from sql_parsing import parse_mysql as parse, format
for e in ('a + b * c', '(a + b) * c', 'a * (b + c)', 'a / (b + c) + d', '(a + b) % c', 'a - (b + c)'):
    j = parse('select ' + e + ' from t')
    s = format(j, ansi_quotes=False)
    assert parse(s) == j, (e, s)
''')

seed('quote-backtick-pairs', 'C18', 'an identifier that contains a back quote',
     'the back quote inside a quoted identifier is not doubled and ends the identifier early',
     [('sql_parsing/formatting.py', "        identifier = identifier.replace(quote, 2 * quote)\n",
       "        if ansi_quotes or quote not in identifier[1:-1]:\n            identifier = identifier.replace(quote, 2 * quote)\n")],
     '''from sql_parsing.formatting import Formatter
for n in ('a b', 'a`b', '`', '``', 'x`', 'a"b'):
    q = Formatter(ansi_quotes=False).dispatch(n)
    assert q == '`' + n.replace('`', '``') + '`', (n, q)
''')

seed('lexer-consume-error', 'C19', 'a token that is longer than 4096 characters',
     'the characters of a very long token beyond the limit are tokenised again',
     [('scheduler/compile/parse/lexer.py', "                consume(iterable, m.end() - pos - 1)\n", "                consume(iterable, min(m.end() - pos - 1, 4095))\n")],
     '''from scheduler.compile.parse.lexer import tokenize
for n in (1, 100, 4095, 4096, 5000):
    for t in ("'" + 'x' * n + "'", 'a' * n, '/*' + ' ' * n + '*/ select 1'):
        assert ''.join(v for _, v in tokenize(t)) == t, n
''')

seed('splitter-blank-tail', 'C19', 'a comment after the last semicolon',
     'a comment after the last statement is dropped with the white space',
     [('scheduler/compile/parse/engine/statement_splitter.py', "        if self.tokens and not all(t.is_whitespace for t in self.tokens):\n",
       "        if self.tokens and not all(t.is_whitespace or t.value.startswith('--') for t in self.tokens):\n")],
     '''from scheduler.compile.parse.engine.statement_splitter import StatementSplitter
from scheduler.compile.parse.lexer import tokenize
for t in ('select 1; select 2', 'select 1;\\nselect 2; -- end', '-- only a comment\\n', 'select 1;\\n\\n-- a\\n-- b\\n'):
    s = ''.join(str(x) for x in StatementSplitter().process(tokenize(t)))
    assert s.rstrip() == t.rstrip(), (t, s)
''')

seed('split-escaped-dot', 'C20', 'a path of one name that ends in a dot',
     'a path of one name that contains a dot comes back as another name',
     [('dots/__init__.py', '    elif is_text(field) and ("." in field or "\\b" in field):\n',
       '    elif is_text(field) and ("." in field[1:-1] or "\\b" in field[1:-1]):\n')],
     '''from dots import join_field, split_field
for names in (['a'], ['a', 'b'], ['a.b'], ['a.b', 'c'], ['a', 'b.c', 'd'], ['a.'], ['.'], ['.a', '.b']):
    assert split_field(join_field(names)) == names, names
''')

seed('orderby-first-column', 'C21', 'ORDER BY an encrypted column that is not ordered ascending',
     'an encrypted column is sorted without its direction',
     [('scheduler/handers/clause/function.py', "        if col['plaintext']:\n            return orderby_val\n",
       "        if col['plaintext'] or 'order-preserving' not in col['enc-cols']:\n            return orderby_val\n")],
     '''from demo_env import *
m = tables(t={'a': column('int', 'k', order_preserving='oa', symmetric='sa'), 'b': column('varchar', 'k', symmetric='sb'), 'c': column('int')})
assert rewrite('select c from t order by a desc')[0].endswith('ORDER BY oa DESC')
assert rewrite('select c from t order by c desc')[0].endswith('ORDER BY c DESC')
try:
    r = rewrite('select c from t order by b')
except Exception:
    r = None
assert r is None, r[0]
''')

seed('pool-per-host', 'C22', 'two requests to the same server with different databases, the second while the pool of the first exists',
     'a request is served on a connection to the database of another request',
     [('scheduler/backend/executors/remote_executor.py', "        if db_key not in connection_pool:\n", "        db_key = next((k for k in connection_pool if k[:2] == db_key[:2] and k[3:] == db_key[3:]), db_key)\n        if db_key not in connection_pool:\n")],
     '''from demo_env import *
install()
from scheduler.backend.executors import remote_executor as x
class Pool:
    def __init__(self, *a, **k): self.k = k
    def connection(self): return self.k
x.PooledDB = Pool
base = {'host': 'h', 'port': 1, 'db': 'd', 'user': 'u', 'password': 'p'}
for change in ({}, {'db': 'e'}, {'user': 'v'}, {'password': 'q'}, {'port': 2}, {'host': 'i'}):
    info = dict(base, **change)
    c = x.RemoteExecutor.connect_db(info)
    assert (c['host'], c['port'], c['db'], c['user'], c['passwd']) == (info['host'], info['port'], info['db'], info['user'], info['password']), (info, c)
''')

seed('double-sign', 'C03', 'a double between 10^15 and 10^42 with the sign minus',
     'encoding of large negative doubles goes through the positive branch of the compression wrongly, so order is lost',
     [('scheduler/crypto/encrypt.py', "    if val < 0:\n        return -stretch(-val)\n", "    if val < 0:\n        return -stretch(-val) if val > -10**15 else stretch(-val)\n")],
     '''from scheduler.crypto.encrypt import encode, decode
xs = [-1e60, -1e50, -1e30, -1e16, -1e15, -5.5, 0.0, 5.5, 1e15, 1e16, 1e30, 1e60]
es = [encode(x, 'double') for x in xs]
assert es == sorted(es)
for x, e in zip(xs, es):
    d = decode(e, 'double')
    assert (d < 0) == (x < 0), (x, d)
''')

seed('parse-outside-lock', 'C24', 'a second request parsing a statement while the first one is between parsing a NULL and replacing it',
     'the parser keeps the NULLs it has met in a module variable; a second request empties it and the first statement keeps an object in place of its NULL',
     [('sql_parsing/__init__.py', "            mysql_parser = sql_parser.mysql_parser()\n        return _parse(mysql_parser, sql, null, calls)\n",
       "            mysql_parser = sql_parser.mysql_parser()\n    return _parse(mysql_parser, sql, null, calls)\n")],
     '''import threading
import sql_parsing
from sql_parsing import parse_mysql
alone = parse_mysql("insert into t (a, b) values (1, null)")
parse_mysql("select a from t")
real, inside, go = sql_parsing.scrub, threading.Event(), threading.Event()
def scrub(x):
    r = real(x)
    if threading.current_thread() is a:
        inside.set()
        go.wait(5)
    return r
sql_parsing.scrub = scrub
out = []
a = threading.Thread(target=lambda: out.append(parse_mysql("insert into t (a, b) values (1, null)")))
b = threading.Thread(target=lambda: parse_mysql("select a from t where b = 'x'"))
a.start()
inside.wait(5)
b.start()
b.join(1)          # with the lock it waits for the first one
go.set()
a.join()
b.join()
assert str(out[0]) == str(alone), (out, alone)
''')

seed('select-record-shared', 'C24', 'a second request rewritten between the rewriting of a SELECT and the decryption of its result',
     'the record of what is selected is kept on the class: a result is decrypted with the columns of another request',
     [('scheduler/handers/clause/sql_select.py', "        self.select_columns = []\n        self.select_types = []\n        self.select_state = []\n",
       "        # a statement starts with nothing selected\n        SQLSelect.select_columns = []\n        SQLSelect.select_types = []\n        SQLSelect.select_state = []\n")],
     '''from demo_env import *
m = tables(t={'a': column('int', 'k', order_preserving='oa', symmetric='sa'), 'b': column('varchar', 'l', symmetric='sb'), 'c': column('int')})
q, r = rewrite('select a, c from t')
assert (r.select.select_columns, r.select.select_state) == (['a', 'c'], ['symmetric', 'plaintext'])
q2, r2 = rewrite('select b from t')
assert (r2.select.select_columns, r2.select.select_state) == (['b'], ['symmetric'])
assert (r.select.select_columns, r.select.select_state) == (['a', 'c'], ['symmetric', 'plaintext']), r.select.select_columns
''')

seed('aes-last-key', 'C24', 'a second request encrypting under another key between the choice and the use of the cipher',
     'the cipher set up last is kept for all requests; a text is encrypted under the key of another request',
     [('scheduler/crypto/encrypt.py', "        raw = self.pad(raw.encode('utf8'))\n        aes = Cipher(algorithms.AES(self.key), modes.ECB())\n        cipher = aes.encryptor()\n        c = cipher.update(raw) + cipher.finalize()\n        return b64encode(c).decode('utf8')\n\n    def decrypt(self, enc):\n        enc = b64decode(enc)\n        aes = Cipher(algorithms.AES(self.key), modes.ECB())\n        cipher = aes.decryptor()\n        m = self.unpad(",
       "        raw = self.pad(raw.encode('utf8'))\n        # setting up a key is costly, the values of a column come one after another\n        if AESCipher.last is None or AESCipher.last[0] != self.key:\n            AESCipher.last = (self.key, Cipher(algorithms.AES(self.key), modes.ECB()))\n        cipher = AESCipher.last[1].encryptor()\n        c = cipher.update(raw) + cipher.finalize()\n        return b64encode(c).decode('utf8')\n\n    last = None\n\n    def decrypt(self, enc):\n        enc = b64decode(enc)\n        aes = Cipher(algorithms.AES(self.key), modes.ECB())\n        cipher = aes.decryptor()\n        m = self.unpad(")],
     '''import sys
import threading
from scheduler.crypto.encrypt import AESCipher
alone, other = AESCipher('k1').encrypt('Anna'), AESCipher('k2').encrypt('Berg')
for stop in range(40):
    seen = [0]
    def trace(frame, event, arg):
        if frame.f_code.co_filename.endswith('encrypt.py'):
            seen[0] += 1
            if seen[0] == stop + 1:
                b = threading.Thread(target=lambda: AESCipher('k2').encrypt('Berg'))
                b.start()
                b.join(1)
        return trace
    sys.settrace(trace)
    try:
        got = AESCipher('k1').encrypt('Anna')
    finally:
        sys.settrace(None)
    assert got == alone, (stop, got, alone, other)
''')
