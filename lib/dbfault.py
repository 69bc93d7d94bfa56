"""Database connections that can be told to fail at a chosen statement."""
import sqlite3
from contextlib import contextmanager

CONTROL = ('BEGIN', 'COMMIT', 'END', 'ROLLBACK', 'SAVEPOINT', 'RELEASE', 'PRAGMA')
real_connect = sqlite3.connect
left = None       # statements until the failure
interrupt = False # whether it is a Ctrl-C instead
hook = None       # called with every statement


def tick(sql):
    global left
    if hook is not None:
        hook(sql)
    if left is None or sql.lstrip()[:9].upper().startswith(CONTROL):
        return
    left -= 1
    if left < 0:
        left = None
        if interrupt:
            raise KeyboardInterrupt('injected')
        raise sqlite3.OperationalError('disk I/O error (injected)')


class Cursor(sqlite3.Cursor):
    def execute(self, sql, *args):
        tick(sql)
        return super().execute(sql, *args)

    def executemany(self, sql, *args):
        tick(sql)
        return super().executemany(sql, *args)

    def executescript(self, sql):
        tick(sql)
        return super().executescript(sql)


class Mixin:
    def cursor(self, factory=Cursor):
        return super().cursor(factory)

    def execute(self, sql, *args):
        return self.cursor().execute(sql, *args)

    def executemany(self, sql, *args):
        return self.cursor().executemany(sql, *args)

    def executescript(self, sql):
        return self.cursor().executescript(sql)


classes = {}


def connect(*args, **kwds):
    base = kwds.get('factory') or sqlite3.Connection
    if base not in classes:
        classes[base] = type(base.__name__, (Mixin, base), {})
    kwds['factory'] = classes[base]
    return real_connect(*args, **kwds)


@contextmanager
def installed():
    """Let new connections be of the kind that can fail."""
    sqlite3.connect = connect
    try:
        yield
    finally:
        sqlite3.connect = real_connect


class Fault:
    """Context in which the n-th statement fails (or is interrupted)."""
    def __init__(self, n, interrupt=False):
        self.n = n
        self.interrupt = interrupt
        self.fired = False

    def __enter__(self):
        global left, interrupt
        left = self.n
        interrupt = self.interrupt

    def __exit__(self, *exc):
        global left
        self.fired = left is None
        left = None

    def __repr__(self):
        return f'statement {self.n} ' + ('is interrupted' if self.interrupt else 'fails')
