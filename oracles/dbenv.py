"""scheduler.* imported in a scratch directory, with mysql.connector replaced by a stand-in over an in-memory sqlite database."""
import os
import sqlite3
import sys
import types

TABLE = ("create table p_db_meta (database_name varchar(128), database_type varchar(64), table_name varchar(128), "
         "table_anonymous varchar(128), col_info text, remarks varchar(255))")


class FakeCursor:
    def __init__(self, conn):
        self.conn = conn
        self.cu = conn.db.cursor()
        self.connection = conn

    def _tr(self, s):
        return s.replace('%s', '?')

    def execute(self, s, args=()):
        self.conn.log.append((s, args))
        return self.cu.execute(self._tr(s), tuple(args or ()))

    def executemany(self, s, rows):
        rows = list(rows)
        self.conn.log.append((s, rows))
        return self.cu.executemany(self._tr(s), rows)

    def fetchall(self):
        return self.cu.fetchall()

    def fetchone(self):
        return self.cu.fetchone()

    def close(self):
        pass


LIVE = []


class FakeConn:
    """a MySQL metadata connection: what is not committed is lost when the connection is (autocommit off)"""

    def __init__(self, db):
        self.db = db
        self.log = []
        self.dead = False
        LIVE.append(self)

    def kill(self):
        """the server goes away: what was not committed is lost, later use fails"""
        if not self.dead:
            self.dead = True
            self.db.rollback()
            self.db.close()

    def alive(self):
        if self.dead:
            import mysql.connector
            raise mysql.connector.errors.OperationalError('MySQL server has gone away')

    def ping(self, *a, **k):
        self.alive()
        return True

    def cursor(self, *a, **k):
        self.alive()
        return FakeCursor(self)

    def commit(self):
        self.alive()
        self.db.commit()

    def rollback(self):
        self.alive()
        self.db.rollback()

    def close(self):
        pass


CONNECTS = []


def install(mode='mysql', path=None):
    """config.yaml in the working directory and a fresh import of scheduler.schema.metadata"""
    import yaml
    path = path or os.path.join(os.getcwd(), 'meta-%d.db' % len(CONNECTS))
    cfg = {'meta': {'type': mode, 'sqlite': path, 'mysql': {'host': '127.0.0.1', 'port': '3306', 'db': 'm', 'user': 'u', 'passwd': 'p'}},
           'back_db': {'type': 'mysql', 'mysql': {'host': '127.0.0.1', 'port': '3306', 'user': 'u', 'passwd': 'p', 'db': 'm'}}}
    with open('config.yaml', 'w') as f:
        yaml.safe_dump(cfg, f)
    db = sqlite3.connect(path)
    db.execute(TABLE.replace('create table', 'create table if not exists'))
    db.commit()
    db.close()
    import mysql.connector

    def connect(*a, **k):
        CONNECTS.append((a, k))
        if mode != 'mysql':
            raise mysql.connector.errors.InterfaceError('no MySQL server here')
        return FakeConn(sqlite3.connect(path, check_same_thread=False))
    mysql.connector.connect = connect
    import hashlib
    import importlib
    sys.modules.pop('scheduler.schema.metadata', None)
    m = importlib.import_module('scheduler.schema.metadata')
    return m, path


_META = None


def metadata():
    """the metadata module, imported once, on a scratch store"""
    global _META
    if _META is None:
        _META, _ = install('mysql')
        _META.Delta()
    return _META


def set_meta(meta):
    d = metadata().Delta
    d.meta = meta
    d().__dict__.pop('meta', None)
    return meta
