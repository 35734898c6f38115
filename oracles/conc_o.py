"""C24: two requests at the same time against the real code.  Request A is stopped at a chosen line of the proxy's own code, request B runs (to its end, or
until it waits for a lock that A holds), A goes on.  Both have to end as they do alone."""
import copy
import json
import linecache
import logging
import os
import re
import sqlite3
import sys
import threading
import time

import dbenv
import lib
from lib import SKIP

logging.disable(logging.CRITICAL)
HK1, HK2 = [787659527, 1023624989], [1000003, 999983]
META = {'d': {'t': {'anonymous': 'table_aa', 'columns': {
    'id': {'enc-cols': {}, 'plaintext': True, 'type': 'int', 'key': ''},
    'name': {'enc-cols': {'symmetric': 'c1', 'fuzzy': 'c2'}, 'plaintext': False, 'type': 'varchar', 'key': 'k1'},
    'age': {'enc-cols': {'order-preserving': 'c3', 'symmetric': 'c4', 'arithmetic': 'c5'}, 'plaintext': False, 'type': 'int', 'key': 'k2', 'homomorphic_key': HK1}}},
    'u': {'anonymous': 'table_bb', 'columns': {
        'name': {'enc-cols': {'symmetric': 'c6', 'fuzzy': 'c7'}, 'plaintext': False, 'type': 'varchar', 'key': 'k3'},
        'age': {'enc-cols': {'order-preserving': 'c8', 'symmetric': 'c9', 'arithmetic': 'c10'}, 'plaintext': False, 'type': 'int', 'key': 'k4', 'homomorphic_key': HK2}}},
    'v': {'anonymous': 'table_cc', 'columns': {'x': {'enc-cols': {}, 'plaintext': True, 'type': 'int', 'key': ''}}},
    'w': {'anonymous': 'table_dd', 'columns': {'x': {'enc-cols': {'symmetric': 'c11'}, 'plaintext': False, 'type': 'varchar', 'key': 'k5'}}}},
    'e': {'u': {'anonymous': 'table_ee', 'columns': {
        'name': {'enc-cols': {'symmetric': 'c12', 'fuzzy': 'c13'}, 'plaintext': False, 'type': 'varchar', 'key': 'k6'},
        'age': {'enc-cols': {'order-preserving': 'c14', 'symmetric': 'c15'}, 'plaintext': False, 'type': 'int', 'key': 'k7'}}}}}
VALUES = {'name': 'Anna Berg', 'age': 42, 'id': 7, 'x': 'xx'}
ENC = {'b': {'key': 'kb', 'fuzzy': True}}
# (kind, database, statement, encrypted columns)
REQ = {
    'sum': ('sql', 'd', 'select sum(age) from t', None), 'sum where': ('sql', 'd', 'select sum(age) from u where age > 3', None),
    'avg': ('sql', 'd', 'select avg(age) from u', None), 'sums': ('sql', 'd', "select sum(age), avg(age) from t where name = 'Anna Berg'", None),
    'star': ('sql', 'd', 'select * from t', None), 'names': ('sql', 'd', 'select name, age from u', None), 'other db': ('sql', 'e', 'select name, age from u', None),
    'distinct': ('sql', 'd', 'select distinct name from t where age > 3 and age < 10', None), 'like': ('sql', 'd', "select id from t where name like '%Anna%'", None),
    'order': ('sql', 'd', 'select name from t order by age desc limit 2', None), 'null': ('sql', 'd', 'select id from t where name is null', None),
    'join': ('sql', 'd', 'select t.name, u.age from t join u on t.id = u.age', None), 'nested': ('sql', 'd', 'select a.name from (select name from u) as a', None),
    'in': ('sql', 'd', 'select id from t where age in (1, 2, 3)', None), 'max': ('sql', 'd', 'select max(age) from t', None), 'count': ('sql', 'd', 'select count(*) from u', None),
    'joined': ('sql', 'd', 'select t.id from t join u on t.id = u.age where t.id <> 3', None),
    'insert': ('sql', 'd', "insert into t(id, name, age) values(1, 'Carla', 2)", None), 'insert null': ('sql', 'd', "insert into t(id, name) values(2, null)", None),
    'rows': ('sql', 'd', "insert into u(name, age) values('one', 1), ('two', 2)", None), 'update': ('sql', 'd', "update u set age = 4, name = 'Dora' where age = 1", None),
    'delete': ('sql', 'd', 'delete from t where age = 3', None), 'drop': ('sql', 'd', 'drop table w', None), 'drop v': ('sql', 'd', 'drop table v', None), 'drop u': ('sql', 'd', 'drop table u', None), 'drop t': ('sql', 'd', 'drop table t', None),
    'create': ('create', 'd', 'create table n (a int, b varchar(20))', ENC), 'create 2': ('create', 'd', 'create table n2 (b varchar(30))', ENC),
    'create w': ('create', 'd', 'create table w (a int, b varchar(20))', ENC), 'create new db': ('create', 'new', 'create table n (a int, b varchar(20))', ENC), 'create new db 2': ('create', 'new', 'create table m (b int)', ENC),
    'rewrite': ('rewrite', 'd', "select name from t where age = 42", None), 'proxy': ('proxy', 'd', 'select name, age from t', None), 'proxy u': ('proxy', 'd', 'select age, name from u', None),
    'convert': ('convert', 'd', "select id from t where name = 'Anna Berg'", None), 'alter': ('sql', 'd', 'alter table v add index i (x)', None),
    'parse error': ('sql', 'd', 'select from where', None), 'no table': ('sql', 'd', 'select a from missing', None),
}
rule_C24 = ('pairs of requests (every statement kind, on the same and on other tables and databases, first requests of a process included), the first one stopped at the first or last time it '
            'reaches a line (a loop in a line: some of its steps) of the proxy\'s own code while the second runs; distinct = distinct (pair, line)')
_S = {}


def world():
    """the modules, once; PooledDB gives connections to a stand-in server that records what it is sent"""
    if _S:
        return _S
    lib.stub_modules()
    m, path = dbenv.install('mysql')
    _S['m'], _S['path'] = m, path
    _S['fresh'] = {k: v for k, v in vars(m.Delta).items() if not callable(v) and not isinstance(v, (staticmethod, classmethod)) and not k.startswith('__')}
    _S['db_conn'] = m.db_conn
    from scheduler.backend.executors import remote_executor as RE
    from scheduler.backend import execution_context as EC
    import controller.rewriter as CR
    _S['RE'], _S['EC'], _S['CR'] = RE, EC, CR
    RE.PooledDB = Pool
    from phe import paillier
    paillier.PaillierPublicKey.get_random_lt_n = lambda self: 123457      # the blinding factor: any value does, here one that both runs share
    return _S


class Pool:
    def __init__(self, *a, **k):
        self.k = k

    def connection(self, *a, **k):
        return Back()


class Back:
    """a lent connection of the database server"""

    def cursor(self, *a, **k):
        return Cur()

    def commit(self):
        sent('commit')

    def rollback(self):
        sent('rollback')

    def close(self):
        sent('close')


LOCAL = threading.local()


def sent(s):
    LOCAL.sent.append(s)


class Cur:
    rows = ()

    def execute(self, s, *a, **k):
        sent(s)
        cols = re.match(r'SELECT (?:DISTINCT )?(.*?) FROM', s)
        self.rows = []
        if cols:
            row = [cell(c.strip()) for c in cols.group(1).split(',')]
            self.rows = [tuple(row)] if None not in row else []

    def fetchall(self):
        return list(self.rows)

    def close(self):
        pass


def cell(c):
    """what the database holds in a ciphertext column"""
    if 'cells' not in _S:
        from scheduler.crypto import encrypt
        _S['cells'] = {}
        for db in META.values():
            for t in db.values():
                for n, i in t['columns'].items():
                    for k, e in i['enc-cols'].items():
                        if k == 'symmetric':
                            _S['cells'][e] = encrypt.AESCipher(i['key']).encrypt(str(VALUES[n]))
                        if k == 'order-preserving':
                            _S['cells'][e] = encrypt.OPECipher(i['key']).encrypt(VALUES[n])
                    if i['plaintext']:
                        _S['cells'][n] = 7
    return _S['cells'].get(re.sub(r'^.*\.|`', '', c.split(' AS ')[0]))


class Store(dbenv.FakeConn):
    """the connection to the metadata store: one statement or transaction at a time"""

    def __init__(self, db):
        dbenv.FakeConn.__init__(self, db)
        self.owner = None
        self.mixed = None

    def ping(self, *a, **k):
        if self.owner not in (None, threading.current_thread().name):
            self.mixed = 'ping by %s in a transaction of %s' % (threading.current_thread().name, self.owner)
        return True

    def use(self, what, end=False):
        me = threading.current_thread().name
        if self.owner not in (None, me):
            self.mixed = '%s by %s in a transaction of %s' % (what, me, self.owner)
        self.owner = None if end else me

    def cursor(self, *a, **k):
        return StoreCur(self)

    def commit(self):
        self.use('commit', True)
        self.db.commit()


class StoreCur(dbenv.FakeCursor):
    def execute(self, s, args=()):
        if not s.lower().startswith('select'):
            self.conn.use(s)
        return dbenv.FakeCursor.execute(self, s, args)

    def executemany(self, s, rows):
        rows = list(rows)
        self.conn.use(s)
        return dbenv.FakeCursor.executemany(self, s, rows)


def reset(case):
    w = world()
    m = w['m']
    db = sqlite3.connect(w['path'])
    db.execute('delete from p_db_meta')
    if case['meta'] == 'full':
        for d, ts in META.items():
            for t, v in ts.items():
                for c, i in v['columns'].items():
                    db.execute('insert into p_db_meta values (?,?,?,?,?,?)', (d, 'mysql', t, v['anonymous'], json.dumps({c: i}), ''))
    db.commit()
    db.close()
    old = w.get('store')
    if old is not None:
        old.db.close()
    w['store'] = Store(sqlite3.connect(w['path'], check_same_thread=False))
    m.db_conn = w['store']
    for k in list(vars(m.Delta)):
        if k not in w['fresh'] and not callable(vars(m.Delta)[k]) and not isinstance(vars(m.Delta)[k], (staticmethod, classmethod)) and not k.startswith('__'):
            delattr(m.Delta, k)
    for k, v in w['fresh'].items():
        setattr(m.Delta, k, v)
    w['RE'].connection_pool.clear()
    w['EC'].id_sql_map.clear()
    if not case.get('cold'):
        m.Delta()
    w['store'].owner = w['store'].mixed = None


def request(name):
    """runs a request as the handlers do; what the user sees and the database is sent"""
    kind, db, sql, enc = REQ[name]
    w = world()
    LOCAL.sent = []
    info = {'host': 'h', 'port': 3306, 'db': db, 'user': 'u', 'password': 'p', 'query': sql}
    try:
        if kind == 'sql':
            r = w['CR'].ControllerDatabase(info).do_query()
        elif kind == 'create':
            r = w['CR'].ControllerDatabase(dict(info, encrypted_columns=enc)).do_create()
        elif kind == 'rewrite':
            r = w['CR'].ControllerEncryptSql(info).do_convert()
        elif kind == 'convert':
            r = w['CR'].ControllerEncryptSql1({'db': db, 'sql': sql}).do_convert()
        else:
            r = w['CR'].ControllerEncryptSql2({'db': db, 'sql': sql}).do_convert()
            row = [[str(cell(c.strip())) for c in re.match(r'SELECT (.*?) FROM', r['encrypt_sql']).group(1).split(',')]]
            r2 = w['CR'].ControllerDecrypt({'query_id': r.pop('id'), 'data': {'rows': row}}).do_convert()
            r2.pop('query_id', None)
            r = [r, r2]
        return plain(['answer', r, LOCAL.sent])
    except Exception as ex:
        return plain(['error', '%s: %s' % (type(ex).__name__, ex), LOCAL.sent])


def plain(x):
    s = json.dumps(x, default=repr, sort_keys=True)
    s = re.sub(r'0x[0-9a-f]+', '0x', s)
    return re.sub(r'\b(table_)?[a-zA-Z]?[0-9a-f]{32}\b', lambda m: '<%sname>' % (m.group(1) or ''), s)


def view(meta):
    return {d: {t: plain(v.get('columns')) for t, v in ts.items()} for d, ts in (meta or {}).items() if ts}


def stored():
    w = world()
    db = sqlite3.connect(w['path'])
    out = {}
    for d, _, t, a, c, _r in db.execute('select * from p_db_meta'):
        out.setdefault(d, {}).setdefault(t, []).append(plain(json.loads(c)))
    db.close()
    return {d: {t: sorted(v) for t, v in ts.items()} for d, ts in out.items()}


ORDERS = {}


def in_turn(a, b, meta):
    """what two requests end with one after the other, in both orders: [(answer of a, answer of b, tables in memory, tables stored)]"""
    k = (a, b, meta)
    if k not in ORDERS:
        out = []
        for order in ((a, b), (b, a)):
            reset({'meta': meta})
            r = [request(n) for n in order]
            out.append((r[0], r[1]) if order == (a, b) else (r[1], r[0]))
            out[-1] += (view(world()['m'].Delta().meta), stored())
        ORDERS[k] = out
    return ORDERS[k]


ROOT = os.path.realpath(lib.REPO) + '/'
OWN = ('scheduler/handers', 'scheduler/backend', 'scheduler/schema', 'scheduler/crypto/encrypt', 'controller', 'sql_parsing/__init__', 'sql_parsing/formatting', 'sql_parsing/utils', 'dbutils')


def trace(stop):
    """calls stop(file:line) at every line of the proxy's own code this thread runs (a comprehension: for each of its items)"""
    def g(fr, ev, arg):
        f = fr.f_code.co_filename
        if not f.startswith(ROOT) or not f[len(ROOT):].startswith(OWN):
            return None

        def l(fr, ev, arg):
            if ev == 'line':
                stop('%s:%s' % (fr.f_code.co_filename[len(ROOT):], fr.f_lineno), fr)
            return l
        return l
    return g


class Hush:
    def write(self, s):
        pass

    def flush(self):
        pass


def lines_of(name, meta, cold):
    """[(line, how many times)] a request runs alone"""
    reset({'meta': meta, 'cold': cold})
    seen = {}

    def stop(at, fr):
        seen[at] = seen.get(at, 0) + 1
    done = []

    def go():
        sys.settrace(trace(stop))
        try:
            done.append(request(name))
        finally:
            sys.settrace(None)
    o, sys.stdout = sys.stdout, Hush()
    try:
        t = threading.Thread(target=go)
        t.start()
        t.join()
    finally:
        sys.stdout = o
    return seen


PAIRS = [('drop', 'create w'), ('names', 'drop u'), ('proxy u', 'drop u'), ('sum', 'drop t'), ('sum', 'insert'), ('sum', 'sum where'), ('avg', 'sum'), ('sums', 'star'), ('create', 'create 2'), ('drop', 'create'), ('drop', 'drop v'), ('create', 'drop'), ('joined', 'create'), ('joined', 'drop'),
         ('proxy', 'proxy u'), ('insert', 'rows'), ('update', 'insert'), ('star', 'names'), ('names', 'other db'), ('null', 'insert null'), ('order', 'max'), ('in', 'like'), ('join', 'nested'),
         ('delete', 'distinct'), ('convert', 'rewrite'), ('alter', 'star'), ('count', 'sum'), ('rewrite', 'create'), ('proxy', 'drop'), ('insert null', 'null'), ('max', 'parse error'), ('sum', 'no table'),
         ('rows', 'update'), ('like', 'convert'), ('nested', 'avg'), ('names', 'drop'), ('avg', 'avg'), ('sum where', 'create'), ('distinct', 'in')]
CHANGE = ('create', 'create 2', 'drop', 'drop v', 'drop u', 'drop t', 'create w', 'create new db', 'create new db 2')
COLD = [('star', 'names', 'full'), ('create', 'create 2', 'full'), ('create new db', 'create new db 2', 'empty'), ('create new db', 'create new db 2', 'full'), ('sum', 'avg', 'full'), ('create', 'star', 'full')]


def gen_C24(o):
    w = world()
    del w
    jobs = [(a, b, m, True) for a, b, m in COLD] + [(a, b, 'full', False) for a, b in PAIRS] + [('create new db', 'create new db 2', 'empty', False)]
    if o.thorough:
        names = sorted(REQ)
        # (the stand-in server drops a table as often as it is told to)
        jobs += [(a, b, 'full', False) for a in names for b in names if a.startswith('create new') == b.startswith('create new') and not (a == b and a.startswith('drop'))]
    per = []
    for a, b, m, cold in jobs:
        s = lines_of(a, m, cold)
        pts, loops = [], set()
        for at, n in s.items():
            pts.append((at, 1))
            if ' for ' in linecache.getline(ROOT + at.split(':')[0], int(at.split(':')[1])):
                loops.add(at)
            pts += [(at, x) for x in (sorted({2, n // 2, n - 1, n}) if at in loops else [n]) if 1 < x <= n]
        o.rng.shuffle(pts)
        # the shared pieces of the system first
        pts.sort(key=lambda p: -1 if p[0] in loops and p[1] == 2 and b in CHANGE else 0 if p[0].startswith(('scheduler/schema', 'scheduler/backend', 'sql_parsing/__init__')) else 1 if 'rewrite_hander' in p[0] else 2)
        per.append([{'a': a, 'b': b, 'meta': m, 'cold': cold, 'at': p[0], 'n': p[1]} for p in pts])
    for i in range(max(len(p) for p in per)):
        for p in per:
            if i < len(p):
                yield p[i]


def judge_C24(case):
    w = world()
    o, sys.stdout = sys.stdout, Hush()
    try:
        orders = in_turn(case['a'], case['b'], case['meta'])
    finally:
        sys.stdout = o
    reset(case)
    out = {}
    tb = []
    count = [0]

    def second():
        out['b'] = request(case['b'])

    def stop(at, fr):
        if at == case['at'] and not tb:
            count[0] += 1
            if count[0] == case['n']:
                t = threading.Thread(target=second, name='B', daemon=True)
                tb.append(t)
                t.start()
                t.join(0.06)     # done, or waiting for A
                t0 = time.time()
                while t.is_alive() and time.time() - t0 < 2 and not waiting(t):
                    t.join(0.02)

    def first():
        sys.settrace(trace(stop))
        try:
            out['a'] = request(case['a'])
        finally:
            sys.settrace(None)
    o, sys.stdout = sys.stdout, Hush()
    try:
        ta = threading.Thread(target=first, name='A', daemon=True)
        ta.start()
        ta.join(20)
        if not tb and not ta.is_alive():
            return SKIP          # the line is not reached here
        if tb:
            tb[0].join(20)
    finally:
        sys.stdout = o
    where = '%r stopped at %s (time %d) while %r runs' % (REQ[case['a']][2], case['at'], case['n'], REQ[case['b']][2])
    if 'a' not in out or 'b' not in out:
        return '%s: no answer, both requests wait' % where
    if w['store'].mixed:
        return '%s: %s' % (where, w['store'].mixed)
    for who in 'ab':
        want = [x['ab'.index(who)] for x in orders]
        if out[who] not in want:
            return '%s: the %s request ends with %s, alone with %s' % (where, 'first' if who == 'a' else 'second', out[who][:600], want[0][:600])
    got, kept = view(w['m'].Delta().meta), stored()
    if got not in [x[2] for x in orders]:
        return '%s: tables recorded afterwards %s, one after the other %s' % (where, names(got), names(orders[0][2]))
    if kept not in [x[3] for x in orders]:
        return '%s: tables stored afterwards %s, one after the other %s' % (where, names(kept), names(orders[0][3]))
    if (out['a'], out['b'], got, kept) not in orders:
        return '%s: answers and tables %s, one after the other %s' % (where, [out['a'][:300], out['b'][:300], names(got), names(kept)], [[x[0][:300], x[1][:300], names(x[2]), names(x[3])] for x in orders])
    return None


def names(x):
    return sorted((d, t) for d in x for t in x[d])


def waiting(t):
    """whether a thread stands at a lock"""
    fr = sys._current_frames().get(t.ident)
    return fr is not None and re.search(r'\bwith\b|acquire|\.wait\(', linecache.getline(fr.f_code.co_filename, fr.f_lineno)) is not None
