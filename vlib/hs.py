"""Scratch sites, processes, audit history and journals."""
import atexit
import json
import os
import pathlib
import shutil
import signal
import socket
import sqlite3
import subprocess
import sys
import tempfile
import threading
import time

# whoever starts a check in the background may have it ignore interrupts: the programs under test would inherit that
if threading.current_thread() is threading.main_thread() and signal.getsignal(signal.SIGINT) is signal.SIG_IGN:
    signal.signal(signal.SIGINT, signal.default_int_handler)

VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'

_scratch = None
_sites = []
_procs = set()
_zygote = None
_lock = threading.RLock()


def scratch():
    global _scratch
    with _lock:
        if _scratch is None:
            _scratch = tempfile.mkdtemp(prefix='hsv-')
        return _scratch


def cleanup_all():
    global _zygote
    for p in list(_procs):
        p.kill()
    z, _zygote = _zygote, None
    if z:
        z.close()
    if _scratch and os.path.isdir(_scratch) and os.path.basename(_scratch).startswith('hsv-'):
        if os.environ.get('HSV_KEEP'):
            print('kept', _scratch)
        else:
            shutil.rmtree(_scratch, ignore_errors=True)


atexit.register(cleanup_all)


def bare_env(**extra):
    env = {'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           'LANG': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'TZ': 'UTC',
           'HYPERSHELL_LOGGING_LEVEL': 'TRACE'}
    if os.environ.get('HSV_SRC'):    # development aid: judge a scratch copy of the sources instead
        env['PYTHONPATH'] = os.environ['HSV_SRC']
    env.update({k: str(v) for k, v in extra.items()})
    return env


class Zygote:
    def __init__(self):
        env = bare_env()
        del env['PYTHONDONTWRITEBYTECODE']
        env['PYTHONPYCACHEPREFIX'] = os.path.join(scratch(), 'pyc')
        self.p = subprocess.Popen([PY, str(VERIF / 'vlib' / 'zygote.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=env, cwd=scratch(), start_new_session=True)
        self.n = 0
        self.lock = threading.Lock()
        self.waiting = {}
        ready = self.p.stdout.readline()
        if not ready:
            raise RuntimeError('zygote did not start')
        threading.Thread(target=self.reader, daemon=True).start()

    def reader(self):
        for line in self.p.stdout:
            msg = json.loads(line)
            proc = self.waiting[msg['id']]
            if 'pid' in msg:
                proc.pid = msg['pid']
                proc.started.set()
            else:
                proc.status = os.waitstatus_to_exitcode(msg['status'])
                proc.t_end = time.time()
                proc.ended.set()
        for proc in list(self.waiting.values()):
            proc.started.set()
            proc.ended.set()

    def spawn(self, proc, req):
        with self.lock:
            self.n += 1
            req['id'] = self.n
            self.waiting[self.n] = proc
            self.p.stdin.write((json.dumps(req) + '\n').encode())
            self.p.stdin.flush()
        proc.started.wait(30)

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


def zygote():
    global _zygote
    with _lock:
        if _zygote is None:
            _zygote = Zygote()
        return _zygote


class Proc:
    """One process (its own session)."""

    def __init__(self, argv, env, cwd, stdin=None, perturb=None, script=None, name='p', stdout=None):
        self.argv = argv
        self.name = name
        self.started, self.ended = threading.Event(), threading.Event()
        self.pid = self.status = self.t_end = None
        base = tempfile.mkdtemp(prefix=f'{name}-', dir=os.path.join(cwd, '.io') if os.path.isdir(os.path.join(cwd, '.io')) else scratch())
        self.outpath, self.errpath = os.path.join(base, 'out'), os.path.join(base, 'err')
        for p in (self.outpath, self.errpath):
            open(p, 'w').close()
        inpath = None
        if isinstance(stdin, (str, bytes)):
            inpath = os.path.join(base, 'in')
            with open(inpath, 'wb') as f:
                f.write(stdin if isinstance(stdin, bytes) else stdin.encode('utf-8', 'surrogateescape'))
        elif isinstance(stdin, os.PathLike):
            inpath = str(stdin)
        self.t_start = time.time()
        _procs.add(self)
        zygote().spawn(self, {'argv': list(argv), 'env': env, 'cwd': cwd, 'stdin': inpath, 'stdout': stdout or self.outpath,
                              'stderr': self.errpath, 'perturb': perturb, 'script': script})

    @property
    def out(self):
        return pathlib.Path(self.outpath).read_bytes().decode('utf-8', 'replace')

    @property
    def err(self):
        return pathlib.Path(self.errpath).read_bytes().decode('utf-8', 'replace')

    def alive(self):
        return not self.ended.is_set()

    def wait(self, timeout):
        """Exit status or None if still running."""
        return self.status if self.ended.wait(timeout) else None

    def signal(self, sig):
        if self.alive():
            try:
                os.kill(self.pid, sig)
            except ProcessLookupError:
                pass

    def kill(self):
        """Kill the whole session, including orphans."""
        if self.pid and not (self.ended.is_set() and os.path.exists(f'/proc/{self.pid}')):      # once it was reaped, its number may be that of another process
            try:
                os.killpg(self.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        _procs.discard(self)

    def tail(self, n=1500):
        return f'{" ".join(map(str, self.argv))[:200]} -> {self.status}\n out: {self.out[-n:]}\n err: {self.err[-n:]}'


AUDIT = '''
CREATE TABLE IF NOT EXISTS hsv_audit (n INTEGER PRIMARY KEY AUTOINCREMENT, t REAL, tab TEXT, op TEXT, id TEXT, old TEXT, new TEXT);
'''
TASK_COLS = None


def now_sql():
    return "(julianday('now') - 2440587.5) * 86400.0"


def install_audit(path):
    """Record the committed history of both tables."""
    con = sqlite3.connect(path, timeout=60)
    con.executescript(AUDIT)
    for tab in ('task', 'client'):
        cols = [r[1] for r in con.execute(f'PRAGMA table_info("{tab}")')]
        if not cols:
            raise RuntimeError(f'no table {tab} in {path}')

        def obj(ref):
            return 'json_object(' + ', '.join(f"'{c}', {ref}.\"{c}\"" for c in cols) + ')'
        for op, old, new, key in (('INSERT', 'NULL', obj('NEW'), 'NEW'), ('UPDATE', obj('OLD'), obj('NEW'), 'NEW'),
                                  ('DELETE', obj('OLD'), 'NULL', 'OLD')):
            con.execute(f'CREATE TRIGGER IF NOT EXISTS hsv_{tab}_{op.lower()} AFTER {op} ON "{tab}" BEGIN '
                        f'INSERT INTO hsv_audit (t, tab, op, id, old, new) VALUES ({now_sql()}, \'{tab}\', \'{op}\', {key}.id, {old}, {new}); END')
    con.commit()
    con.close()


class Site:
    def __init__(self, name='site', db=True, env=None, config=None, audit=True):
        with _lock:
            self.dir = tempfile.mkdtemp(prefix=f'{name}-', dir=scratch())
        for sub in ('home', 'site', '.io', 'log'):
            os.mkdir(os.path.join(self.dir, sub))
        self.path = pathlib.Path(self.dir)
        self.db = os.path.join(self.dir, 'main.db') if db else None
        self.journal_path = os.path.join(self.dir, 'journal')
        self.extra = dict(env or {})
        cfg = ''
        if config is not None:
            cfg = os.path.join(self.dir, 'config.toml')
            pathlib.Path(cfg).write_text(config)
        self.cfg = cfg
        self.procs = []
        self.write_job_script()
        if db:
            r = self.cli('initdb')
            if r.status != 0:
                raise RuntimeError('initdb failed: ' + r.tail())
            if audit:
                install_audit(self.db)

    # -- environment
    def env(self, **extra):
        e = bare_env(HOME=os.path.join(self.dir, 'home'), HYPERSHELL_SITE=os.path.join(self.dir, 'site'),
                     HYPERSHELL_CONFIG_FILE=self.cfg)
        e['PATH'] = os.path.join(self.dir, 'bin') + ':' + e['PATH']
        if self.db:
            e['HYPERSHELL_DATABASE_FILE'] = self.db
        e.update({k: str(v) for k, v in self.extra.items()})
        for k, v in extra.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = str(v)
        return e

    def write_job_script(self):
        """
        `job TOKEN [SLEEP] [STATUS] [TEXT]`: journal the start and end of one execution.

        STATUS is a number, `sigN` (die by signal N) or `fK:S` (exit S on the first K executions, then 0; executions
        are counted in the journal, not by anything the program under test says).
        """
        os.makedirs(os.path.join(self.dir, 'bin'), exist_ok=True)
        j = os.path.join(self.dir, 'bin', 'job')
        J = self.journal_path
        pathlib.Path(j).write_text(
            '#!/bin/bash\n'
            'read -r _ _ _ _ _ sid _ < /proc/$$/stat\n'
            f'echo "S $1 ${{TASK_ID:--}} $EPOCHREALTIME $$ ${{TASK_ATTEMPT:--}} $sid -" >> {J}\n'
            '[ -n "$2" ] && [ "$2" != 0 ] && sleep $2\n'
            '[ -n "$4" ] && echo "$4"\n'
            'st=${3:-0}\n'
            f'case $st in f*:*) k=${{st#f}}; k=${{k%%:*}}; st=${{st#*:}}; n=$(grep -c "^S $1 " {J}); [ $n -gt $k ] && st=0;; esac\n'
            f'echo "E $1 ${{TASK_ID:--}} $EPOCHREALTIME $$ ${{TASK_ATTEMPT:--}} $sid $st" >> {J}\n'
            'case $st in sig*) kill -${st#sig} $$; sleep 5;; esac\n'
            'exit $st\n')
        os.chmod(j, 0o755)
        self.job = j

    # -- processes
    def spawn(self, *args, stdin=None, env=None, perturb=None, name=None, script=None, cwd=None):
        p = Proc(['hs', *map(str, args)] if not script else [script, *map(str, args)],
                 self.env(**(env or {})), cwd or self.dir, stdin=stdin, perturb=perturb,
                 script=script, name=name or str(args[0] if args else 'py').replace('/', '_'))
        self.procs.append(p)
        return p

    def cli(self, *args, stdin=None, env=None, timeout=120, perturb=None, cwd=None):
        p = self.spawn(*args, stdin=stdin, env=env, perturb=perturb, cwd=cwd)
        if p.wait(timeout) is None:
            p.kill()
            p.wait(10)
            p.status = None
        _procs.discard(p)
        return p

    def remote_exe(self, record=None, **perturb):
        """An executable to start clients with (by a launcher), with recorders and perturbations; `record` receives a JSON line per start."""
        path = self.path / 'bin' / 'hs-remote'
        note = (f'import json, os, time\nwith open({str(record)!r}, "ab", 0) as f:\n'
                '    f.write((json.dumps({"t": time.time(), "pid": os.getpid(), "argv": sys.argv, "env": dict(os.environ)}) + "\\n").encode())\n') if record else ''
        path.write_text(f'#!{PY}\nimport sys\n{note}sys.path[:0] = {[p for p in (os.environ.get("HSV_SRC"), str(VERIF)) if p]!r}\n'
                        f'from vlib import perturb\nperturb.install({perturb!r})\nsys.argv[0] = "hs"\nfrom hypershell import main\nsys.exit(main())\n')
        path.chmod(0o755)
        return str(path)

    def script(self, path, *args, **kw):
        timeout = kw.pop('timeout', 300)
        p = self.spawn(*args, script=str(path), **kw)
        p.wait(timeout)
        return p

    def server(self, *args, port=None, sleep_cap=0.15, perturb=None, stdin=None, env=None, source=None, auth='hsvkey', **kw):
        port = port or free_port()
        opts = dict(perturb or {})
        if sleep_cap:
            opts.setdefault('sleep_cap', sleep_cap)
        p = self.spawn('server', *(['-'] if False else []), *args, '-p', port, '-k', auth, stdin=stdin, env=env, perturb=opts, name='server', **kw)
        p.port, p.auth = port, auth
        return p

    def client(self, server, *args, port=None, perturb=None, sleep_cap=0.15, env=None, auth=None, **kw):
        opts = dict(perturb or {})
        if sleep_cap:
            opts.setdefault('sleep_cap', sleep_cap)
        p = self.spawn('client', '-H', '127.0.0.1', '-p', port or server.port, '-k', auth or server.auth, *args,
                       env=env, perturb=opts, name='client', **kw)
        return p

    # -- observations
    def connect(self):
        con = sqlite3.connect(self.db, timeout=60)
        con.row_factory = sqlite3.Row
        return con

    def query(self, sql, *params):
        for attempt in range(5):
            try:
                con = self.connect()
                try:
                    return [dict(r) for r in con.execute(sql, params)]
                finally:
                    con.close()
            except sqlite3.OperationalError:
                if attempt == 4:
                    raise
                time.sleep(0.5)

    def tasks(self):
        return self.query('SELECT * FROM task ORDER BY submit_time, rowid')

    def clients(self):
        return self.query('SELECT * FROM client')

    def audit(self, since=0):
        rows = self.query('SELECT * FROM hsv_audit WHERE n > ? ORDER BY n', since)
        for r in rows:
            r['old'] = json.loads(r['old']) if r['old'] else None
            r['new'] = json.loads(r['new']) if r['new'] else None
        return rows

    def journal(self):
        """[(kind, token, task_id, time, pid, attempt, session, status)]; the session is the client process."""
        if not os.path.exists(self.journal_path):
            return []
        out = []
        for line in open(self.journal_path, errors='replace'):
            parts = line.rstrip('\n').split(' ')
            if len(parts) == 8 and parts[0] in ('S', 'E'):
                st = parts[7]
                st = None if st == '-' else -int(st[3:]) if st.startswith('sig') else int(st) & 0xff
                out.append((parts[0], parts[1], parts[2], float(parts[3]), int(parts[4]), parts[5], int(parts[6]), st))
        return out

    def close(self, keep=False):
        for p in self.procs:
            p.kill()
        if not keep and not os.environ.get('HSV_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


_port = [12000 + (os.getpid() * 37) % 20000]      # below those the system gives to outgoing connections


def free_port():
    with _lock:
        while True:
            _port[0] += 1
            if _port[0] > 32500:
                _port[0] = 12000
            with socket.socket() as s:
                try:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                    s.bind(('127.0.0.1', _port[0]))
                    return _port[0]
                except OSError:
                    continue


def listening(port):
    want = f'{port:04X}'
    for name in ('/proc/net/tcp', '/proc/net/tcp6'):
        try:
            for line in open(name):
                f = line.split()
                if len(f) > 3 and f[3] == '0A' and f[1].rsplit(':', 1)[-1] == want:
                    return True
        except OSError:
            pass
    return False


def wait_for(cond, timeout, step=0.05):
    end = time.time() + timeout
    while time.time() < end:
        v = cond()
        if v:
            return v
        time.sleep(step)
    return cond()


def wait_listening(server, timeout=60):
    return wait_for(lambda: listening(server.port) or not server.alive(), timeout) and listening(server.port)


class Drift(threading.Thread):
    """Measures how badly this machine delays a sleeping thread (to qualify stall verdicts)."""

    def __init__(self):
        super().__init__(daemon=True)
        self.worst = 0.0
        self.start()

    def run(self):
        while True:
            t = time.monotonic()
            time.sleep(0.25)
            self.worst = max(self.worst, time.monotonic() - t - 0.25)


def settle(procs, progress, stall=25.0, limit=150.0):
    """
    Wait for every process to end. Returns 'done', 'stalled' (no event recorded for `stall` seconds while the
    machine was responsive) or 'timeout'. `progress()` returns a value that changes with every recorded event.
    """
    t0 = last_change = time.time()
    last = progress()
    lag = 0.0
    while True:
        if all(not p.alive() for p in procs):
            return 'done'
        t = time.time()
        time.sleep(0.1)
        lag = max(lag, time.time() - t - 0.1)
        now = time.time()
        cur = progress()
        if cur != last:
            last, last_change, lag = cur, now, 0.0
        if now - last_change > stall and lag < 2.0:
            return 'stalled'
        if now - t0 > limit:
            return 'timeout'


def parallel(jobs, workers=6):
    """Run thunks in a thread pool; exceptions are returned in place of results."""
    from concurrent.futures import ThreadPoolExecutor

    def guard(job):
        try:
            return job()
        except Exception as exc:   # noqa
            import traceback
            exc.tb = traceback.format_exc()
            return exc
    with ThreadPoolExecutor(workers) as pool:
        return list(pool.map(guard, jobs))
