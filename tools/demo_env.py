"""scheduler.* in a scratch directory: mysql.connector replaced by a stand-in over sqlite, pandas by an empty module"""
import sqlite3
import sys
import types

sys.modules.setdefault('pandas', types.ModuleType('pandas'))
TABLE = ("create table if not exists p_db_meta (database_name varchar(128), database_type varchar(64), table_name varchar(128), "
         "table_anonymous varchar(128), col_info text, remarks varchar(255))")
PATH = 'meta.db'


def install():
    import mysql.connector
    with open('config.yaml', 'w') as f:
        f.write("meta:\n  type: sqlite\n  sqlite: %s\n  mysql: {host: h, port: '1', db: m, user: u, passwd: p}\n" % PATH)
    db = sqlite3.connect(PATH)
    db.execute(TABLE)
    db.commit()
    db.close()

    def connect(*a, **k):
        raise mysql.connector.errors.InterfaceError('no server')
    mysql.connector.connect = connect
    import scheduler.schema.metadata as m
    return m


def column(type, key='', homomorphic_key=None, sm4_key=None, **enc):
    c = {'enc-cols': {k.replace('_', '-'): v for k, v in enc.items()}, 'plaintext': not enc, 'type': type, 'key': key}
    if homomorphic_key:
        c['homomorphic_key'] = homomorphic_key
    if sm4_key:
        c['sm4_key'] = sm4_key
    return c


def tables(**t):
    """the metadata of database 'd' set to these tables: name={column: meta}"""
    m = install()
    m.Delta()
    m.Delta.meta = {'d': {n: {'anonymous': 'table_' + n, 'columns': c, 'comment': None} for n, c in t.items()}}
    return m


def rewrite(sql):
    from scheduler.handers.rewrite_hander import Rewriter
    r = Rewriter('d')
    return r.rewrite_query(sql)[0], r
