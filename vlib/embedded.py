"""
A program which embeds hypershell: it performs the steps of a plan one after another, in one process, using only the documented functions and threads.

Usage: embedded.py PLAN RESULTS    (a JSON list of steps in, a JSON line per step out)
"""
import io
import itertools
import json
import subprocess
import sys
import threading
import time

from hypershell.client import ClientThread, run_client
from hypershell.cluster import LocalCluster, RemoteCluster, run_cluster, run_local
from hypershell.core.queue import QueueConfig
from hypershell.data import DATABASE_ENABLED, ensuredb
from hypershell.data.model import Task
from hypershell.server import ServerThread, serve_file, serve_from
from hypershell.submit import SubmitThread, submit_file, submit_from


def pause(seconds):      # not shortened as time.sleep may be
    threading.Event().wait(seconds)


def source_of(step, go=None):
    items, kind = step['items'], step['source']

    def slow():
        for i, x in enumerate(items):
            if i in step.get('gaps', ()):
                pause(step['gap'])
            if i == step.get('bad'):
                raise ValueError('the source fails')
            yield x
        if go is not None:
            go.wait(60)
    if kind == 'generator':
        return slow()
    if kind == 'file':
        return open(step['path'])
    if kind == 'text':
        return io.StringIO(''.join(x + '\n' for x in items))
    return {'list': list, 'tuple': tuple, 'iterator': iter}[kind](items)


def options_of(step, files):
    opts = dict(step.get('options', {}))
    for k in ('redirect_output', 'redirect_errors', 'redirect_failures'):
        if k in opts:
            opts[k] = open(opts[k], 'w')
            files.append(opts[k])
    for k in ('address', 'bind'):
        if k in opts:
            opts[k] = tuple(opts[k])
    return opts


def listening(port):      # nothing that needs a lock which the process the server starts may find taken
    return any(x.split()[3] == '0A' and x.split()[1].endswith(f':{port:04X}') for name in ('tcp', 'tcp6') for x in open(f'/proc/net/{name}'))


def ends(thread, limit):
    """Wait for a thread; how it ended."""
    try:
        thread.join(timeout=limit)
    except Exception as exc:
        return type(exc).__name__
    return 'running' if thread.is_alive() else 'ended'


def background(fn, *args, **kw):
    """Run a function that blocks, so that its caller can use clients meanwhile."""
    out = {}

    def call():
        try:
            out['result'] = fn(*args, **kw)
        except Exception as exc:
            out['error'] = type(exc).__name__
    th = threading.Thread(target=call, daemon=True)
    th.start()
    return th, out


def perform(step, files):
    do, opts = step['do'], options_of(step, files)
    if 'stop_after' in step and do in ('local', 'cluster'):
        more = {} if do == 'local' else {'launcher': step['launcher'], 'remote_exe': step['exe']}
        th = (LocalCluster if do == 'local' else RemoteCluster).new(source=source_of(step), **more, **opts)
        pause(step['stop_after'])
        t = time.time()
        try:
            th.stop(wait=step['wait'])
        except Exception as exc:
            how = type(exc).__name__
        else:
            how = ends(th, 45)
        return {'server': [how, time.time() - t]}
    if do == 'local':
        if step['how'] == 'positional':
            return run_local(source_of(step), **opts)
        if step['how'] == 'keyword':
            return run_local(source=source_of(step), **opts)
        return LocalCluster.new(source=source_of(step), **opts).join()
    if do == 'cluster':
        return run_cluster(source=source_of(step), launcher=step['launcher'], remote_exe=step['exe'], **opts)
    if do == 'submit':
        if step['how'] == 'file':
            return submit_file(step['path'], **opts)
        if step['how'] == 'function':
            return submit_from(source_of(step), **opts)
        th = SubmitThread.new(source_of(step), **opts)
        if 'stop_after' in step:
            pause(step['stop_after'])
            th.stop(wait=step['wait'])
        th.join()
        return th.task_count
    if do == 'serve':
        if step.get('fail'):
            return {'file': serve_file, 'function': serve_from, 'thread': lambda *a, **kw: ServerThread.new(*a, **kw).join()}[step['how']](
                step['path'] if step['how'] == 'file' else source_of(step), **opts)
        go = threading.Event() if 'live' in step else None
        if step['how'] == 'file':
            th, out = background(serve_file, step['path'], **opts)
        elif step['how'] == 'function':
            th, out = background(serve_from, source_of(step, go), **opts)
        else:
            th, out = ServerThread.new(source_of(step, go), **opts), {}
        host, port = step['options']['address']
        auth = step['options']['auth']
        deadline = time.time() + 20
        while time.time() < deadline and th.is_alive() and not listening(port):
            pause(.1)
        result = {}
        procs = [subprocess.Popen([step['exe'], 'client', '-H', host, '-p', str(port), '-k', auth, '-w', '1', *step['external_args']])
                 for _ in range(step.get('external', 0))]
        if 'badauth' in step:
            result['badauth'] = background(run_client, address=(host, port), auth='something else')
            result['badauth'][0].join(30)
            result['badauth'] = result['badauth'][1].get('error', 'none')
        if 'live' in step:
            live, said = background(submit_from, step['live'], queue_config=QueueConfig(host=host, port=port, auth=auth), **step['live_options'])
        result['clients'] = []
        for client in step['clients']:
            kw = dict(client.get('options', {}), address=(host, port), auth=auth)
            c = ClientThread.new(**kw)
            if 'live' in step:
                live.join(60)
                go.set()
                result['live'] = said
            if 'stop_after' in client:
                pause(client['stop_after'])
                t = time.time()
                try:
                    c.stop(wait=client['wait'])
                except Exception as exc:      # as join() raises it
                    how = type(exc).__name__
                else:
                    how = ends(c, 45)
                result['clients'].append([how, time.time() - t])
            else:
                result['clients'].append([ends(c, 150), 0])
        if 'stop_after' in step:
            pause(step['stop_after'])
            t = time.time()
            th.stop()
            result['server'] = [ends(th, 45), time.time() - t]
        else:
            result['server'] = [ends(th, 60), 0]
        if out.get('error'):
            result['server'][0] = out['error']
        for p in procs:
            try:
                result['external'] = p.wait(60)
            except subprocess.TimeoutExpired:
                result['external'] = 'running'
                p.kill()
        return result
    raise RuntimeError(do)


def main(plan, results):
    import faulthandler, signal
    faulthandler.register(signal.SIGQUIT)
    with open(results, 'a') as out:
        for i, step in enumerate(json.load(open(plan))):
            files, note, t = [], {'step': i}, time.time()
            try:
                if DATABASE_ENABLED and i == 0:
                    ensuredb()
                note['result'] = perform(step, files)
            except Exception as exc:
                note['error'], note['text'] = type(exc).__name__, str(exc)[:300]
            for f in files:
                f.close()
            if DATABASE_ENABLED:
                note['rows'] = Task.count()
            out.write(json.dumps(note | {'began': t, 'ended': time.time()}) + '\n')
            out.flush()


if __name__ == '__main__':
    main(*sys.argv[1:])
