"""
Fork server: third-party modules are imported once, hypershell is imported fresh in every child.

Line protocol on stdin/stdout (JSON). Request: {id, argv, env, cwd, stdin, stdout, stderr, perturb, script}.
Replies: {id, pid} and {id, status} (wait status).
"""
import json
import os
import select
import signal
import sys


def preload():
    import sqlalchemy, sqlalchemy.orm, sqlalchemy.ext.declarative, sqlalchemy.pool  # noqa
    import sqlalchemy.dialects.postgresql, sqlalchemy.dialects.sqlite               # noqa
    import yaml, rich.table, rich.console, rich.syntax, rich.prompt, rich.live, rich.progress  # noqa
    import paramiko, toml, tomlkit                                                  # noqa
    import cmdkit.app, cmdkit.cli, cmdkit.config, cmdkit.ansi                       # noqa
    import multiprocessing.managers, queue, uuid, csv, subprocess, logging, platform  # noqa
    assert not any(m.split('.')[0] == 'hypershell' for m in sys.modules)


def child(req):
    import io
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    os.setsid()
    os.chdir(req['cwd'])
    for n, (name, flags) in enumerate((('stdin', os.O_RDONLY), ('stdout', os.O_WRONLY | os.O_CREAT | os.O_APPEND),
                                       ('stderr', os.O_WRONLY | os.O_CREAT | os.O_APPEND))):
        fd = os.open(req[name] or '/dev/null', flags, 0o644)
        os.dup2(fd, n)
        if fd > 2:
            os.close(fd)
    sys.stdin = open(0, 'r', closefd=False)
    sys.stdout = sys.__stdout__ = io.TextIOWrapper(open(1, 'wb', closefd=False), line_buffering=False)
    sys.stderr = sys.__stderr__ = io.TextIOWrapper(open(2, 'wb', closefd=False, buffering=0), line_buffering=True, write_through=True, errors='backslashreplace')
    for k in list(os.environ):
        del os.environ[k]
    os.environ.update(req['env'])
    import time
    time.tzset()
    from vlib import perturb
    perturb.install(req.get('perturb'))
    sys.argv = list(req['argv'])
    if req.get('script'):
        import runpy
        sys.path.insert(0, os.path.dirname(req['script']))
        runpy.run_path(req['script'], run_name='__main__')
        return 0
    from hypershell import main
    return main()


def run_child(req):
    code = 1
    try:
        try:
            code = child(req)
        except SystemExit as exc:
            code = exc.code
            if isinstance(code, str):
                print(code, file=sys.stderr)
                code = 1
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 1
        import atexit
        import threading
        threading._shutdown()
        atexit._run_exitfuncs()
        for s in (sys.stdout, sys.stderr):
            try:
                s.flush()
            except Exception:
                pass
    finally:
        os._exit((code or 0) & 0xff if not isinstance(code, bool) else int(code))


def main():
    preload()
    import gc
    gc.collect()
    gc.freeze()
    r, w = os.pipe()
    os.set_blocking(w, False)
    signal.set_wakeup_fd(w, warn_on_full_buffer=False)
    signal.signal(signal.SIGCHLD, lambda *a: None)
    pids = {}
    buf = b''
    out = sys.stdout.fileno()

    def say(obj):
        os.write(out, (json.dumps(obj) + '\n').encode())
    say({'ready': os.getpid()})
    while True:
        ready, _, _ = select.select([0, r], [], [])
        if r in ready:
            os.read(r, 4096)
            while True:
                try:
                    pid, status = os.waitpid(-1, os.WNOHANG)
                except ChildProcessError:
                    break
                if pid == 0:
                    break
                if pid in pids:
                    say({'id': pids.pop(pid), 'status': status})
        if 0 in ready:
            data = os.read(0, 1 << 20)
            if not data:
                break
            buf += data
            while b'\n' in buf:
                line, buf = buf.split(b'\n', 1)
                req = json.loads(line)
                pid = os.fork()
                if pid == 0:
                    signal.set_wakeup_fd(-1)
                    os.close(r), os.close(w)
                    run_child(req)
                pids[pid] = req['id']
                say({'id': req['id'], 'pid': pid})


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    main()
