"""A stand-in for psycopg2: an in-memory database with transactions, and a few forms of statement on a table t(a, b). Faults can be injected."""
import re
import types


class DatabaseError(Exception):
    pass


class Database(object):

    def __init__(self):
        self.committed = []     # rows
        self.snapshots = []     # the contents after each commit that changed something
        self.connects = []
        self.connections = []
        self.faults = {}        # kind of call -> number of the call (from 0) that fails
        self.counts = {}
        self.log = []

    def call(self, kind):
        n = self.counts.get(kind, 0)
        self.counts[kind] = n + 1
        self.log.append(kind)
        if self.faults.get(kind) == n:
            raise DatabaseError(f'injected {kind} failure {n}')

    def open(self):
        return sum(not c.closed for c in self.connections)


DB = Database()


def reset(rows=()):
    global DB
    DB = Database()
    DB.committed = list(rows)
    return DB


def interpret(statement, args, rows):
    """Returns changed rows, row count, results (None if the statement isn't a query)"""
    placeholders = statement.count('%s')
    args = tuple(args) if args else ()
    if len(args) < placeholders:
        raise IndexError('tuple index out of range')
    if len(args) > placeholders and args:
        raise TypeError('not all arguments converted during string formatting')
    for x in args:
        if not (x is None or type(x) in (int, float, str, bytes, bool)):
            raise DatabaseError(f"can't adapt type {type(x).__name__}")
    s = ' '.join(statement.lower().replace('*', ' * ').replace('(', ' ( ').replace(')', ' ) ').replace(',', ' , ').split())
    if s == 'insert into t values ( %s , %s )':
        if args[0] is None:
            raise DatabaseError('null value in column "a"')
        return rows + [args], 1, None
    if s == "insert into t values ( 7 , 'seven' )":
        return rows + [(7, 'seven')], 1, None
    if s == 'insert into t select * from t':
        return rows + rows, len(rows), None
    if s in ('select * from t', 'select ( a ) , b from t'):
        return rows, len(rows), list(rows)
    if s == 'select * from t where a = %s':
        found = [r for r in rows if r[0] == args[0]]
        return rows, len(found), found
    if s == 'select b from t where a = %s or b = %s':
        found = [(r[1],) for r in rows if r[0] == args[0] or r[1] == args[1]]
        return rows, len(found), found
    if s == 'update t set b = %s where a = %s':
        n = sum(r[0] == args[1] for r in rows)
        return [(r[0], args[0]) if r[0] == args[1] else r for r in rows], n, None
    if s == 'delete from t where a = %s':
        kept = [r for r in rows if r[0] != args[0]]
        return kept, len(rows) - len(kept), None
    if s == 'delete from t':
        return [], len(rows), None
    raise DatabaseError(f'syntax error: {s}')


class Cursor(object):

    def __init__(self, connection):
        self.connection = connection
        self.rowcount = -1
        self.results = None

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        pass

    def execute(self, statement, args=None):
        c = self.connection
        c.check()
        if c.aborted:
            raise DatabaseError('current transaction is aborted')
        try:
            c.db.call('execute')
            c.pending, self.rowcount, self.results = interpret(statement, args, c.rows())
        except Exception:
            if not c.autocommit:
                c.aborted = True
            raise
        if c.autocommit:
            c.publish()

    def fetchall(self):
        self.connection.db.call('fetch')
        if self.results is None:
            raise DatabaseError('no results to fetch')
        return list(self.results)

    def fetchone(self):
        if self.results is None:
            raise DatabaseError('no results to fetch')
        return self.results.pop(0) if self.results else None

    def fetchmany(self, size=1):
        if self.results is None:
            raise DatabaseError('no results to fetch')
        found, self.results = self.results[:size], self.results[size:]
        return found

    def __iter__(self):
        return iter(self.fetchall())

    @property
    def description(self):
        return None if self.results is None else ()


class Connection(object):

    def __init__(self, db):
        self.db = db
        self._autocommit = False
        self.pending = None     # Rows, if changed by this transaction
        self.aborted = False
        self.closed = False

    def check(self):
        if self.closed:
            raise DatabaseError('connection already closed')

    def rows(self):
        return self.db.committed if self.pending is None else self.pending

    def publish(self):
        if self.pending is not None and self.pending != self.db.committed:
            self.db.committed = self.pending
            self.db.snapshots.append(list(self.pending))
        self.pending = None

    @property
    def autocommit(self):
        return self._autocommit

    @autocommit.setter
    def autocommit(self, value):
        self.check()
        self._autocommit = bool(value)

    def set_session(self, autocommit=None, **_):
        if autocommit is not None:
            self.autocommit = autocommit

    def cursor(self, *args, **kwargs):
        self.check()
        return Cursor(self)

    def commit(self):
        self.check()
        if self.aborted:
            self.rollback()
            return
        try:
            self.db.call('commit')
        except Exception:
            self.pending = None
            raise
        self.publish()

    def rollback(self):
        self.check()
        self.db.log.append('rollback')
        self.pending = None
        self.aborted = False

    def close(self):
        self.db.log.append('close')
        self.closed = True
        self.pending = None

    def __enter__(self):
        return self

    def __exit__(self, t, *_):
        if t is None:
            self.commit()
        else:
            self.rollback()


def connect(dsn=None, **kwargs):
    DB.connects.append(kwargs)
    DB.call('connect')
    c = Connection(DB)
    DB.connections.append(c)
    return c


module = types.SimpleNamespace(connect=connect, Error=DatabaseError, DatabaseError=DatabaseError)
