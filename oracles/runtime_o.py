"""C13, C14, C15, C16, C22 against the real metadata store, executors and pool, over stand-in drivers."""
import copy
import gc
import importlib
import json
import logging
import os
import random
import sqlite3
import sys
import threading
import time
import uuid

import dbenv
import lib
from lib import SKIP

logging.disable(logging.CRITICAL)


class Quiet:
    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = open(os.devnull, 'w')

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.o


# =============================================================================================== C13
NAMES13 = ['t', 't1', 'T', 'user', "o'neil", 'a"b', '100%', '%s', 'a_b', 'a%b', 'a\\', '中文', '', ' ', 't;--', 'db.t', '`q`', '?', "' or '1'='1", 'é', 'x' * 60,
           'null', '0', "a''b", '{x}', '%(a)s']


def col13(o, i):
    t = o.rng.choice(['int', 'varchar', 'char', 'float', 'double', 'datetime', 'decimal'])
    if o.rng.random() < 0.4:
        c = {'enc-cols': {}, 'plaintext': True, 'type': t, 'key': ''}
    else:
        c = {'enc-cols': {k: o.rng.choice(['a', 'Zq%']) + '%08x' % o.rng.getrandbits(32) for k in o.rng.sample(
            ['symmetric', 'order-preserving', 'fuzzy', 'arithmetic', 'sm4'], o.rng.choice([1, 2, 3, 5]))},
            'plaintext': False, 'type': t, 'key': o.rng.choice(['k%d' % i, 'clé', "k'\"\\", '', 'x' * 100, '%s'])}
        if 'arithmetic' in c['enc-cols']:
            c['homomorphic_key'] = [787659527, 1023624989]
        if 'sm4' in c['enc-cols']:
            c['sm4_key'] = 'sm%d' % i
    if o.rng.random() < 0.2:
        c['comment'] = o.rng.choice(['c', '', 'ünï', "it's", None])
    return c


def meta13(o):
    n = o.rng.choice([1, 1, 2, 3, 6])
    names = o.rng.sample(NAMES13, n)
    return {'anonymous': o.rng.choice(['table_%08x' % o.rng.getrandbits(32), "ta'ble"]), 'columns': {nm: col13(o, i) for i, nm in enumerate(names)}, 'comment': o.rng.choice([None, 'x'])}


rule_C13 = ('histories of table recordings, deletions, restarts and lost connections over the metadata store in both modes with awkward names; '
            'distinct = distinct histories')


def gen_C13(o):
    def names():
        ns = o.rng.sample(NAMES13, o.rng.choice([2, 3, 4, 6]))
        return ns[:2], ns
    for mode in ('mysql', 'sqlite'):
        yield {'mode': mode, 'ops': [['create', 'd', 't', meta13(o)], ['reload'], ['create', 'd', 't2', meta13(o)], ['create', 'e', 't', meta13(o)],
                                     ['delete', 'd', 't'], ['reload']]}
        for nm in NAMES13:
            ot = [x for x in NAMES13 if x != nm]
            a, b = o.rng.sample(ot, 2)
            yield {'mode': mode, 'ops': [['create', nm, a, meta13(o)], ['create', a, nm, meta13(o)], ['create', nm, nm, meta13(o)], ['create', b, nm, meta13(o)], ['reload'],
                                         ['delete', nm, a], ['delete', a, nm], ['lost'], ['create', a, b, meta13(o)], ['reload'], ['delete', nm, nm], ['delete', nm, 'absent'], ['reload']]}
    for i in range(3000 if o.thorough else 150):
        dbs, tbs = names()
        ops = []
        have = set()
        for j in range(o.rng.choice([2, 4, 6, 9, 14])):
            r = o.rng.random()
            if r < 0.5 or not have:
                d, t = o.rng.choice(dbs), o.rng.choice(tbs)
                have.add(d)
                ops.append(['create', d, t, meta13(o)])
            elif r < 0.8:
                ops.append(['delete', o.rng.choice(sorted(have)), o.rng.choice(tbs)])
            elif r < 0.9:
                ops.append(['reload'])
            else:
                ops.append(['lost'])
        yield {'mode': o.rng.choice(['mysql', 'sqlite']), 'ops': ops + [['reload']]}


def view13(meta, keep_empty=True):
    out = {}
    for d, ts in (meta or {}).items():
        if ts or keep_empty:
            out[d] = {t: {'anonymous': v.get('anonymous'), 'columns': v.get('columns')} for t, v in ts.items()}
    return {d: v for d, v in out.items() if v}


def judge_C13(case):
    path = os.path.join(os.getcwd(), 'm13.db')
    if os.path.exists(path):
        os.remove(path)
    del dbenv.LIVE[:]
    m, _ = dbenv.install(case['mode'], path)
    model = {}
    known = set()
    m.Delta()
    for i, op in enumerate(case['ops']):
        if op[0] == 'create':
            d, t, v = op[1:]
            m.Delta().update_delta(d, {t: copy.deepcopy(v)})
            model.setdefault(d, {})[t] = v
            known.add(d)
        elif op[0] == 'delete':
            d, t = op[1:]
            if d not in known or d not in m.Delta().meta:
                continue
            m.Delta().delete_delta(d, t)
            model.get(d, {}).pop(t, None)
        elif op[0] == 'lost':
            if case['mode'] == 'mysql':
                for c in dbenv.LIVE:
                    c.kill()
            continue
        elif op[0] == 'reload':
            for c in dbenv.LIVE:
                c.kill()
            if case['mode'] != 'mysql':
                for c in (m.Delta.db_conn, m.db_conn):
                    try:
                        c.close()      # what was not committed is lost
                    except Exception:
                        pass
            m, _ = dbenv.install(case['mode'], path)
            m.Delta()
        want = view13(model)
        for what, got in (('Delta().meta', m.Delta().meta), ('Delta.meta', m.Delta.meta)):
            if view13(got) != want:
                return 'after step %d %s: %s is %s, recorded was %s' % (i, op[:3], what, json.dumps(view13(got))[:600], json.dumps(want)[:600])
        for d in model:
            for t in model[d]:
                x = m.Delta().meta[d][t]
                for col, info in x['columns'].items():
                    for nm, v in info.items():
                        if json.dumps(v) != json.dumps(model[d][t]['columns'][col][nm]):
                            return 'column %s.%s.%s: %s is %r' % (d, t, col, nm, v)
    return None


# =============================================================================================== C14
M = None


def env14():
    """the executors over a fake mysql.connector"""
    global M
    if M is not None:
        return M
    md = dbenv.metadata()
    import mysql.connector as mc

    class Env:
        pass
    M = Env()
    M.md = md
    M.mc = mc
    M.keep = mc.connect
    from scheduler.backend.executors import remote_executor as RE
    M.RE = RE
    from scheduler.backend import execution_context as EC
    M.EC = EC
    from scheduler.compile.parser import Parser
    M.Parser = Parser
    return M


class Back:
    """a backend server with injected faults: {(kind, n): exception name}"""

    def __init__(self, faults, rows):
        self.faults = {(k, n): e for k, n, e in faults}
        self.n = {}
        self.rows = rows
        self.raws = []
        self.executed = []
        self.committed = []
        self.last = None
        self.calls = []

    def hit(self, kind):
        n = self.n[kind] = self.n.get(kind, 0) + 1
        e = self.faults.get((kind, n)) or self.faults.get((kind, 0))
        if e:
            import mysql.connector as mc
            c = getattr(mc, e, None) or {'RuntimeError': RuntimeError, 'ValueError': ValueError, 'TimeoutError': TimeoutError,
                                         'AttributeError': AttributeError, 'TypeError': TypeError, 'IndexError': IndexError}[e]
            raise c('injected %s %d' % (kind, n))

    def connect(self, *a, **k):
        self.hit('connect')
        r = Raw14(self, a, k)
        self.raws.append(r)
        return r


class Raw14:
    def __init__(self, back, a, k):
        self.back, self.a, self.k = back, a, k
        self.closed = False
        self.pending = []

    def ping(self, *a, **k):
        self.back.hit('ping')

    def cursor(self, *a, **k):
        self.back.hit('cursor')
        return Cur14(self)

    def commit(self):
        self.back.hit('commit')
        self.back.committed += self.pending
        self.pending = []

    def rollback(self):
        self.back.hit('rollback')
        self.pending = []

    def close(self):
        self.back.hit('close')
        self.closed = True
        self.pending = []


class Cur14:
    def __init__(self, raw):
        self.raw = raw
        self.rows = None

    def execute(self, s, *a, **k):
        self.raw.back.hit('execute')
        b = self.raw.back
        b.executed.append(s)
        w = s.strip().split(None, 1)[0].lower()
        if w in ('create', 'drop', 'alter'):
            b.committed += self.raw.pending + [s]
            self.raw.pending = []
        elif w in ('insert', 'update', 'delete'):
            self.raw.pending.append(s)
        elif w == 'select':
            b.last = self.rows = [tuple(r) for r in b.rows]

    def fetchall(self):
        self.raw.back.hit('fetchall')
        return list(self.rows or [])

    def fetchone(self):
        self.raw.back.hit('fetchall')
        return self.rows.pop(0) if self.rows else None

    def close(self):
        pass

    def setinputsizes(self, *a):
        pass

    def setoutputsize(self, *a):
        pass


META14 = {'shop': {'t': {'anonymous': 'table_aa', 'columns': {
    'id': {'enc-cols': {}, 'plaintext': True, 'type': 'int', 'key': ''},
    'name': {'enc-cols': {'symmetric': 'c1', 'fuzzy': 'c2'}, 'plaintext': False, 'type': 'varchar', 'key': 'k1'},
    'age': {'enc-cols': {'order-preserving': 'c3', 'symmetric': 'c4', 'arithmetic': 'c5'}, 'plaintext': False, 'type': 'int', 'key': 'k2',
            'homomorphic_key': [787659527, 1023624989]}}},
    'keepme': {'anonymous': 'table_bb', 'columns': {'x': {'enc-cols': {'symmetric': 'c9'}, 'plaintext': False, 'type': 'varchar', 'key': 'k9'}}}},
    'other': {'t': {'anonymous': 'table_cc', 'columns': {'id': {'enc-cols': {}, 'plaintext': True, 'type': 'int', 'key': ''}}}}}
ENC14 = {'b': {'key': 'kb', 'fuzzy': True}}
STM14 = {
    'select': [["select * from t", None], ["select id from t where age > 3", None], ["select name, age from t", None], ["select sum(age) from t", None],
               ["select avg(age) from t", None], ["SELECT max(age) from t", None]],
    'insert': [["insert into t(id, name, age) values(1, 'x', 2)", None], ["INSERT INTO t (id, name) values (7, 'y')", None]],
    'update': [["update t set age = 4 where id = 1", None]],
    'delete': [["delete from t where age = 3", None], ["delete from t where id = 1", None]],
    'drop': [["drop table t", None], ["DROP TABLE keepme", None]],
    'create': [["create table n (a int, b varchar(20))", ENC14], ["CREATE TABLE n2 (b int)", ENC14], ["create table n3 (a int)", {}]],
}
POINTS = ['connect', 'cursor', 'execute', 'commit', 'ping', 'close', 'rollback', 'fetchall']
EXCS = ['OperationalError', 'InterfaceError', 'InternalError', 'ProgrammingError', 'DatabaseError', 'IntegrityError', 'RuntimeError', 'TimeoutError', 'AttributeError', 'TypeError']

rule_C14 = ('every statement kind x every backend call (connect, cursor, execute, fetchall, commit, ping, rollback, close; nth or every) failing with each '
            'exception class, on fresh and reused connections, through RemoteExecutor.call and invoke; distinct = distinct cases')


def gen_C14(o):
    for via in ('call', 'invoke'):
        for warm in (False, True):
            for kind in STM14:
                for st in STM14[kind]:
                    yield {'kind': kind, 'sql': st[0], 'enc': st[1], 'faults': [], 'warm': warm, 'via': via, 'rows': [['1', 'x'], [None, 'y']]}
                for p in POINTS:
                    for e in (EXCS if o.thorough else o.rng.sample(EXCS, 4)):
                        for n in ((0, 1, 2, 3, 6) if o.thorough else (0, 1, 2)):
                            st = o.rng.choice(STM14[kind])
                            yield {'kind': kind, 'sql': st[0], 'enc': st[1], 'faults': [[p, n, e]], 'warm': warm, 'via': via, 'rows': o.rng.choice([[], [['1']], [['1', 'x'], [None, '2']]])}
    for i in range(4000 if o.thorough else 400):
        kind = o.rng.choice(list(STM14))
        st = o.rng.choice(STM14[kind])
        yield {'kind': kind, 'sql': st[0], 'enc': st[1], 'warm': o.rng.random() < .5, 'via': o.rng.choice(['call', 'invoke']),
               'faults': [[o.rng.choice(POINTS), o.rng.choice([0, 1, 1, 2, 3]), o.rng.choice(EXCS)] for _ in range(o.rng.choice([1, 2, 3]))],
               'rows': o.rng.choice([[], [['1']], [['1', 'x'], [None, '2']]])}
    for q in ("truncate table t", "show tables", "explain select * from t", "", "grant all on t to u"):
        yield {'kind': 'other', 'sql': q, 'enc': None, 'faults': [], 'warm': False, 'via': 'call', 'rows': []}


def store14(md):
    """the rows of the metadata store, read the way a restart would"""
    md.Delta.db_conn.rollback() if hasattr(md.Delta.db_conn, 'rollback') else None
    return view13(md.Delta.load_delta())


def judge_C14(case):
    e = env14()
    md = e.md
    for d in list((md.Delta.meta or {})):
        for t in list(md.Delta.meta[d]):
            md.Delta().delete_delta(d, t)
    dbenv.set_meta({})
    for d in META14:
        md.Delta().update_delta(d, copy.deepcopy(META14[d]))
    before = view13(md.Delta().meta)
    e.RE.connection_pool.clear()
    back = Back([], case['rows'])
    e.mc.connect = back.connect
    info = {'host': 'h', 'port': 3306, 'db': 'shop', 'user': 'u', 'password': 'p', 'ciphertext': True}
    try:
        if case['warm']:
            with Quiet():
                e.EC.invoke(dict(info), 'select id from t')
        back.executed, back.committed, back.last = [], [], None
        back.n = {}
        back.faults = {(k, n): x for k, n, x in case['faults']}
        err = None
        result = None
        ex = None
        with Quiet():
            try:
                if case['via'] == 'call':
                    ex = e.RE.RemoteExecutor(dict(info))
                    ex.call(case['sql'], e.Parser(case['sql']), copy.deepcopy(case['enc']))
                    result = ex.result
                else:
                    result = e.EC.invoke(dict(info), case['sql'], copy.deepcopy(case['enc']))
            except Exception as er:
                err = er
        faulty = bool(case['faults'])
        back.faults = {}
        ex = None
        gc.collect() if False else None
        kind = case['kind']
        main = [s for s in back.executed if s.strip().split(None, 1)[0].lower() == kind]
        if kind == 'other':
            if err is None:
                return 'statement %r was accepted without an error' % case['sql']
            return 'metadata changed' if view13(md.Delta().meta) != before else None
        if err is not None and not faulty:
            return 'error with a working backend: %r' % err
        if err is None and not main:
            return 'returned normally but no %s statement was executed by the database (executed: %s)' % (kind, back.executed[:4])
        if err is None and kind in ('insert', 'update', 'delete', 'alter'):
            if len(back.committed) != 1 or back.committed != main[-1:]:
                return 'returned normally but committed statements are %s (executed %s)' % (back.committed, main)
        if err is None and kind == 'select':
            want = back.last or []
            got = [tuple(r) for r in (result or [])]
            if got != want:
                return 'returned rows %r, the database returned %r' % (got, want)
        after = view13(md.Delta().meta)
        want = copy.deepcopy(before)
        if kind == 'drop' and main:
            t = case['sql'].split()[-1]
            want['shop'].pop(t)
        if kind == 'create':
            t = case['sql'].split()[2]
            if main:
                if t not in after.get('shop', {}):
                    return 'the CREATE was executed but %s has no metadata (error: %r)' % (t, err)
                if after['shop'][t]['anonymous'] not in main[-1]:
                    return 'metadata of %s names another physical table' % t
                want['shop'][t] = after['shop'][t]
            elif err is None:
                return 'CREATE not executed and no error'
        if after != want:
            return 'metadata is %s, expected %s (error: %r, executed %s)' % (
                {d: sorted(v) for d, v in after.items()}, {d: sorted(v) for d, v in want.items()}, err, back.executed)
        st = store14(md)
        if st != want:
            return 'stored metadata is %s, expected %s (error: %r)' % ({d: sorted(v) for d, v in st.items()}, {d: sorted(v) for d, v in want.items()}, err)
        return None
    finally:
        e.mc.connect = e.keep
        back.faults = {}
        e.RE.connection_pool.clear()


# =============================================================================================== C22
rule_C22 = ('pairs and longer histories of connection parameters that differ in one part or collide when joined; histories of encrypt-for-proxy requests '
            'with a stopped or coarse clock, interleaved with metadata changes, each id decrypted later; distinct = distinct histories')


def info22(h='h', p=3306, d='shop', u='u', w='p'):
    return {'host': h, 'port': p, 'db': d, 'user': u, 'password': w}


def gen_C22(o):
    base = ['h', 3306, 'shop', 'u', 'p']
    alts = [['h2', 3307, 'other', 'u2', 'p2'], ['h', '3306', 'shop', 'u', 'p'], ['h3', 33, 'sho', 'uu', 'p ']]
    for i in range(5):
        for a in (alts[0], alts[2]):
            b = list(base)
            b[i] = a[i]
            yield {'k': 'conn', 'infos': [base, b, base, b]}
    for sep in (':', '/', '-', '_', ',', '|', '', '@', ' ', '\x00', "', '"):
        yield {'k': 'conn', 'infos': [['a' + sep + 'b', 3306, 'c', 'u', 'p'], ['a', 3306, 'b' + sep + 'c', 'u', 'p']]}
        yield {'k': 'conn', 'infos': [['h', 3306, 'd', 'u' + sep + 'x', 'p'], ['h', 3306, 'd', 'u', 'x' + sep + 'p']]}
        yield {'k': 'conn', 'infos': [['h', 3306, 'd' + sep + 'e', 'u', 'p'], ['h', 3306, 'd', 'e' + sep + 'u', 'p']]}
        yield {'k': 'conn', 'infos': [['h', 33, 'd', 'u', 'p'], ['h' + sep, 33, 'd', 'u', 'p'], ['h', '33', 'd', 'u', 'p'], ['h' + sep + '33', 33, 'd', 'u', 'p']]}
        yield {'k': 'conn', 'infos': [['h', 3306, 'd', 'u', 'p' + sep], ['h', 3306, 'd', 'u', 'p']]}
    yield {'k': 'conn', 'infos': [['H', 3306, 'D', 'U', 'P'], ['h', 3306, 'd', 'u', 'p'], ['h', 3306, 'd', 'U', 'p'], ['h', 3306, 'd', 'u', 'P'], ['h', 3306, 'D', 'u', 'p']]}
    for v in ('H', 'h ', ' h', 'h\t', 'h.', 'h/', 'é', 'e'):
        for f in (0, 2, 3, 4):
            i = ['h', 3306, 'h', 'h', 'h']
            j = list(i)
            j[f] = v
            yield {'k': 'conn', 'infos': [i, j, i]}
    yield {'k': 'conn', 'infos': [['h', 33061, 'd', 'u', 'p'], ['h', 3306, '1d', 'u', 'p'], ['h3', 306, 'd', 'u', 'p']]}
    ab = ['a', 'b', 'ab', 'a:', ':b', 'a/', '', 'aa']
    for i in range(400 if o.thorough else 60):
        yield {'k': 'conn', 'infos': [[o.rng.choice(ab), o.rng.choice([1, 11, 111, '1']), o.rng.choice(ab), o.rng.choice(ab), o.rng.choice(ab)]
                                      for _ in range(o.rng.choice([2, 3, 5]))]}
    sqls = ['select name from t', 'select id, age from t', 'select age from t where id = 1', 'select * from t', "select x from keepme", 'select max(age) from t']
    for clock in ('frozen', 'coarse', 'real', 'back'):
        for i in range(60 if o.thorough else 8):
            ops = []
            for j in range(o.rng.choice([2, 5, 12, 40])):
                ops.append(o.rng.choice([['enc', o.rng.choice(sqls)], ['enc', o.rng.choice(sqls)], ['dec', o.rng.randrange(50)], ['rekey', o.rng.randrange(100)], ['drop'],
                                         ['other', o.rng.choice(['select id from t', 'insert into t(id) values(1)'])]]))
            yield {'k': 'ctx', 'clock': clock, 'ops': ops, 'seed': o.rng.randrange(10 ** 6)}
    ints, _f, _s = o.mined('scheduler/backend/execution_context.py', 'scheduler/backend/executors/remote_executor.py', 'scheduler/backend/executors/decrypt_executor.py')
    for n in sorted({300} | {x + 2 for x in ints if 1 < x <= 4100 and x != 3306}):
        yield {'k': 'ctx', 'clock': 'frozen', 'ops': [['enc', 'select name from t']] * n + [['dec', 7]], 'seed': 5}


def judge_C22(case):
    e = env14()
    if case['k'] == 'conn':
        e.RE.connection_pool.clear()
        back = Back([], [])
        e.mc.connect = back.connect
        held = []
        try:
            for inf in case['infos']:
                i = info22(*inf)
                c = e.RE.RemoteExecutor.connect_db(dict(i))
                held.append(c)
                raw = c.cursor()._cursor.raw
                k = raw.k
                got = (k.get('host'), str(k.get('port')), k.get('db', k.get('database')), k.get('user', k.get('username')), k.get('passwd', k.get('password')))
                want = (i['host'], str(i['port']), i['db'], i['user'], i['password'])
                if got != want or raw.a:
                    return 'a request for %r got a connection opened with %r' % (want, got)
                if len(held) > 2:
                    held.pop(0).close()
            return None
        finally:
            e.mc.connect = e.keep
            e.RE.connection_pool.clear()
    from scheduler.crypto import encrypt as E
    rng = random.Random(case['seed'])
    meta = copy.deepcopy(META14)
    dbenv.set_meta(meta)
    real_time, real_uuid = time.time, uuid.uuid4
    now = [1.7e9]

    def tick():
        if case['clock'] == 'coarse':
            now[0] += rng.choice([0, 0, 0, 0.0004, 0.01])
        elif case['clock'] == 'back':
            now[0] -= rng.choice([0, 0.001])
        return now[0]
    ids = {}
    order = []
    EC = e.EC
    try:
        if case['clock'] != 'real':
            EC.time.time = tick
        EC.id_sql_map.clear()
        for op in case['ops']:
            if op[0] == 'enc':
                tb = 'keepme' if 'keepme' in op[1] else 't'
                if tb not in meta['shop']:
                    continue
                with Quiet():
                    _, table, qid = EC.encrypt_sql2('shop', op[1])
                if qid in ids:
                    return 'two requests got the same query id %r' % qid
                ids[qid] = (op[1], tb, copy.deepcopy(meta['shop'][tb]))
                order.append(qid)
            elif op[0] == 'other':
                if 't' in meta['shop']:
                    with Quiet():
                        EC.encrypt_sql1('shop', op[1])
            elif op[0] == 'rekey':
                m = copy.deepcopy(META14['shop']['t'])
                for c in m['columns'].values():
                    if not c['plaintext']:
                        c['key'] = 'new%d' % op[1]
                e.md.Delta().update_delta('shop', {'t': m})
            elif op[0] == 'drop':
                e.md.Delta().delete_delta('shop', 't')
            elif op[0] == 'dec' and order:
                r = chk22(EC, E, order[op[1] % len(order)], ids)
                if r:
                    return r
        for qid in order[:4] + order[-4:]:
            r = chk22(EC, E, qid, ids)
            if r:
                return r
        return None
    finally:
        EC.time.time = real_time
        dbenv.set_meta({})


def chk22(EC, E, qid, ids):
    sql, tb, m = ids[qid]
    cols = m['columns']
    sel = sql.split(' from ')[0][7:]
    names = list(cols) if sel == '*' else [s.strip() for s in sel.split(',')]
    row, want = [], []
    for n in names:
        if n.startswith('max('):
            c = cols[n[4:-1]]
            row.append(E.OPECipher(c['key']).encrypt(41))
            want.append(41)
        elif cols[n]['plaintext']:
            row.append(5)
            want.append(5)
        elif cols[n]['type'] == 'int':
            row.append(E.AESCipher(cols[n]['key']).encrypt('77'))
            want.append(77)
        else:
            row.append(E.AESCipher(cols[n]['key']).encrypt('hello'))
            want.append('hello')
    with Quiet():
        got = EC.decrypt_data({'rows': [row]}, qid)
    if [list(r) for r in got['rows']] != [want]:
        return 'id of %r decrypted to %r, expected %r' % (sql, got['rows'], want)
    if list(got['columns']) != [n[4:-1] if n.startswith('max(') else n for n in names]:
        return 'id of %r decrypted with columns %r' % (sql, got['columns'])
    return None
