"""A DB-API 2 driver for the analysis of dbutils: every call is an event, and fails where the analysis lets it."""
import saworld

threadsafety = 2
paramstyle = 'format'
apilevel = '2.0'


class Error(Exception):
    pass


class OperationalError(Error):
    pass


class InterfaceError(Error):
    pass


class InternalError(Error):
    pass


class ProgrammingError(Error):
    pass


class Base:
    def _do(self, what, *args):
        saworld.call(self, what, args)
        if saworld.lost(self, what):
            raise OperationalError(what)
        if saworld.wrong(self, what):
            raise ProgrammingError(what)
        saworld.done(self, what, args)


class Cursor(Base):
    def __init__(self, con):
        self.con = con
        saworld.cursor(self, con)

    def execute(self, *args):
        self._do('execute', *args)
        return saworld.result(self)

    def executemany(self, *args):
        self._do('executemany', *args)
        return saworld.result(self)

    def callproc(self, *args):
        self._do('callproc', *args)
        return saworld.result(self)

    def setinputsizes(self, sizes):
        self._do('setinputsizes', sizes)

    def setoutputsize(self, size, column=None):
        self._do('setoutputsize', size, column)

    def fetchall(self):
        self._do('fetchall')
        return saworld.rows(self)

    def fetchone(self):
        self._do('fetchone')
        return saworld.rows(self)

    def close(self):
        self._do('close')


class Connection(Base):
    def cursor(self, *args, **kwargs):
        self._do('cursor')
        return Cursor(self)

    def begin(self, *args):
        self._do('begin')

    def commit(self):
        self._do('commit')

    def rollback(self):
        self._do('rollback')

    def cancel(self):
        self._do('cancel')

    def ping(self, reconnect=True):
        self._do('ping', reconnect)
        return saworld.alive(self)

    def close(self):
        self._do('close')


def connect(*args, **kwargs):
    saworld.connecting(args, kwargs)
    if saworld.lost(None, 'connect'):
        raise OperationalError('connect')
    con = Connection()
    saworld.connected(con, args, kwargs)
    return con
