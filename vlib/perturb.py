"""
Perturbations and recorders installed in a hypershell process before hypershell is imported.

Only interpreter, stdlib and SQLAlchemy level hooks: nothing depends on hypershell's own structure.
"""
import json
import os
import random
import signal
import sys
import threading
import time


def append(path, record):
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    try:
        os.write(fd, (json.dumps(record) + '\n').encode())
    finally:
        os.close(fd)


def install(opts):
    if not opts:
        return
    rng = random.Random(opts.get('seed', 0))
    if 'system_config' in opts:      # stand-in for /etc/hypershell.toml
        _redirect('/etc/hypershell.toml', opts['system_config'])
    if opts.get('clock'):
        _clock(opts['clock'])
    if 'switch' in opts:
        sys.setswitchinterval(opts['switch'])
    if 'sleep_cap' in opts:
        cap, real = opts['sleep_cap'], time.sleep

        def capped(seconds):
            real(min(seconds, cap))
        time.sleep = capped
    if 'popen_log' in opts or 'popen_delay' in opts:
        _popen(opts, rng)
    if any(k in opts for k in ('kill', 'sql_delay', 'sql_log', 'hold', 'sql_slow')):
        _sql(opts, rng)
    if 'queue_log' in opts or 'queue_delay' in opts or 'hold_queue' in opts:
        _queue(opts, rng)
    if 'kill_log' in opts:
        def on_kill(event, args):
            if event == 'os.kill':
                append(opts['kill_log'], {'t': time.time(), 'pid': args[0], 'sig': int(args[1])})
        sys.addaudithook(on_kill)
    if 'kill_after' in opts:
        def die():
            _REAL_SLEEP(opts['kill_after'])
            os.killpg(0, signal.SIGKILL)
        threading.Thread(target=die, daemon=True).start()


_REAL_SLEEP = time.sleep


def _redirect(path, stand_in):
    import builtins
    import posixpath

    def wrap(fn, result=False):
        def inner(*args, **kw):
            if result:
                out = fn(*args, **kw)
                return stand_in if out == path else out
            if args and isinstance(args[0], (str, os.PathLike)) and os.fspath(args[0]) == path:
                args = (stand_in, *args[1:])
            return fn(*args, **kw)
        return inner
    os.path.join = posixpath.join = wrap(posixpath.join, True)
    os.path.exists = posixpath.exists = wrap(posixpath.exists)
    builtins.open = wrap(open)


def _clock(offset):
    """A wall clock that is off by `offset` seconds."""
    import datetime
    real = datetime.datetime

    class Skewed(real):
        @classmethod
        def now(cls, tz=None):
            t = real.now(tz) + datetime.timedelta(seconds=offset)
            return cls(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond, t.tzinfo)
    datetime.datetime = Skewed


def _popen(opts, rng):
    path, delay = opts.get('popen_log'), opts.get('popen_delay')

    def hook(event, args):
        if event == 'subprocess.Popen':
            if delay:
                _REAL_SLEEP(rng.random() * delay)
            if path:
                executable, argv, cwd, env = args
                argv = [a if isinstance(a, str) else os.fsdecode(a) for a in argv] if not isinstance(argv, str) else argv
                env = None if env is None else {os.fsdecode(k): os.fsdecode(v) for k, v in env.items()}
                append(path, {'t': time.time(), 'pid': os.getpid(), 'argv': argv,
                              'cwd': None if cwd is None else str(cwd), 'env': env if opts.get('popen_env') else None})
    sys.addaudithook(hook)


def _sql(opts, rng):
    from sqlalchemy import event
    from sqlalchemy.engine import Engine
    kill, delay, log = opts.get('kill'), opts.get('sql_delay'), opts.get('sql_log')
    lock = threading.Lock()
    seen = {}

    def at(kind):
        with lock:
            seen[kind] = n = seen.get(kind, 0) + 1
        if log:
            append(log, {'t': time.time(), 'pid': os.getpid(), 'kind': kind, 'n': n})
        if delay and rng.random() < delay[0]:
            _REAL_SLEEP(rng.random() * delay[1])
        if kill and kill['kind'] == kind and kill['n'] == n:
            if kill.get('mark'):
                append(kill['mark'], {'t': time.time(), 'killed': [kind, n]})
            os.killpg(0, signal.SIGKILL)
            _REAL_SLEEP(60)

    @event.listens_for(Engine, 'commit')
    def on_commit(conn):
        # fired before the DBAPI commit: transactions with writes only
        info = conn.connection.info if hasattr(conn, 'connection') else {}
        if info.pop('hsv_dirty', False):
            at('commit')
            info['hsv_committed'] = True
            if info.pop('hsv_insert', False):
                info['hsv_insert_committed'] = True

    @event.listens_for(Engine, 'after_cursor_execute')
    def after(conn, cursor, statement, parameters, context, executemany):
        head = statement.lstrip()[:6].upper()
        if head in ('INSERT', 'UPDATE', 'DELETE'):
            conn.connection.info['hsv_dirty'] = True
            if head == 'INSERT' and ' task ' in statement[:60]:
                conn.connection.info['hsv_insert'] = True
            at('after-' + head.lower())

    @event.listens_for(Engine, 'before_cursor_execute')
    def before(conn, cursor, statement, parameters, context, executemany):
        head = statement.lstrip()[:6].upper()
        slow = opts.get('sql_slow')     # [text, n, seconds]: the n-th statement with that text takes so long
        if slow and slow[0].lower() in statement.lower():
            with lock:
                seen['slow'] = n = seen.get('slow', 0) + 1
            if n == slow[1]:
                _REAL_SLEEP(slow[2])
        if conn.connection.info.pop('hsv_committed', False):
            at('committed')
            if conn.connection.info.pop('hsv_insert_committed', False):
                at('task-inserted')
        at('stmt')
        if head in ('INSERT', 'UPDATE', 'DELETE'):
            at('before-' + head.lower())

    @event.listens_for(Engine, 'rollback')
    def on_rollback(conn):
        try:
            conn.connection.info.pop('hsv_dirty', None)
        except Exception:
            pass


def _queue(opts, rng):
    from multiprocessing import queues, managers
    path, delay, hold = opts.get('queue_log'), opts.get('queue_delay'), opts.get('hold_queue')
    names = {}

    def describe(item):
        try:
            if isinstance(item, list):
                return [json.loads(x.decode()).get('id') for x in item]
            if isinstance(item, bytes):
                return json.loads(item.decode())
            return item
        except Exception:
            return repr(item)[:100]

    def wrap(op, name, call, args):
        if op not in ('put', 'get'):
            return call()
        if delay and rng.random() < delay[0]:
            _REAL_SLEEP(rng.random() * delay[1])
        t0 = time.time()
        if path and op == 'put' and name == 'heartbeat':
            append(path, {'t0': t0, 't': t0, 'pid': os.getpid(), 'op': 'putting', 'q': name, 'item': describe(args[0] if args else None)})
        try:
            result = call()
        except BaseException as exc:
            if path and op == 'put':
                append(path, {'t0': t0, 't': time.time(), 'pid': os.getpid(), 'op': op, 'q': name,
                              'item': describe(args[0] if args else None), 'error': type(exc).__name__})
            raise
        if path:
            append(path, {'t0': t0, 't': time.time(), 'pid': os.getpid(), 'op': op, 'q': name,
                          'item': describe(args[0] if (op == 'put' and args) else result)})
        if delay and rng.random() < delay[0]:
            _REAL_SLEEP(rng.random() * delay[1])
        return result

    real_call = managers.BaseProxy._callmethod

    def callmethod(self, methodname, args=(), kwds={}):
        if methodname not in ('put', 'get'):
            return real_call(self, methodname, args, kwds)
        return wrap(methodname, self._token.typeid.replace('_get_', ''),
                    lambda: real_call(self, methodname, args, kwds), args)
    managers.BaseProxy._callmethod = callmethod
