"""Runs that are stopped half way and completed by a second run."""
import os
import threading

from vlib import hs, run


def start(r, sc, kind, tasks, restart, sp):
    env = {'HYPERSHELL_SERVER_QUEUESIZE': str(sc['queuesize']), 'HYPERSHELL_SERVER_EVICT': '10', 'HYPERSHELL_CLIENT_HEARTRATE': '1'}
    args = ['-b', sc['b'], '-w', sc['w'], '-r', sc['retries']] + ['--eager'] * sc['eager'] + ['--no-confirm'] * sc['no_confirm']
    cargs = ['-N', sc['N']] + ['--capture'] * sc['capture']
    how, source = [], {}
    if restart or sc['source'] == 'before':
        how = ['--restart']
    elif sc['source'] == 'forever':
        how = ['--forever']
    elif sc['source'] == 'slow':
        source = {'tasks': tasks, 'source': 'slow', 'bursts': [[.1, len(tasks) // 3], [1, len(tasks) // 3], [1.5, len(tasks)]]}
    else:
        source = {'tasks': tasks, 'source': sc['source']}
    if 'cluster' not in kind:
        r.start_server(*how, *args, **source, env=env, perturb=sp)
        return args, cargs + ['-b', sc['cb'], '-w', 1] + ['--no-confirm'] * sc['no_confirm'], env
    # the same for a cluster
    stdin, port = None, hs.free_port()
    if source:
        r.tasks += tasks
        text = ''.join(t.args + '\n' for t in tasks)
        if source['source'] == 'file':
            path = r.site.path / 'tasks'
            path.write_text(text)
            how = [str(path)]
        elif source['source'] == 'slow':
            stdin = r.site.path / 'fifo'
            os.mkfifo(stdin)
            threading.Thread(target=r.feed, args=(stdin, list(tasks), source['bursts']), daemon=True).start()
            how = ['-']
        else:
            stdin, how = text, ['-']
    launch = {'env': ['--launcher', 'env'], 'auto': ['--launcher', 'env', '-A', 'fixed', '-I', 1, '-X', 1, '-P', 1]}.get(sc.get('launch'), [])
    if launch:
        launch += ['--remote-exe', r.site.remote_exe(sleep_cap=.15)]
    r.server = r.site.spawn('cluster', *how, *args, *cargs, *launch, '-S', 1, '-p', port, '-d', 0, stdin=stdin, env=env, perturb={**sp, 'sleep_cap': .15}, name='cluster')
    r.server.port = port
    return args, cargs, env


def completed(r, done, at, limit, once=None):
    """
    After the second run everything is complete and nothing recorded before (`done`, at time `at`) has run again or changed.
    `once`: how often every task was executed in total, 0 for as often as its outcomes call for, None for any number.
    """
    now = {x['id']: x for x in r.rows}
    for t in r.tasks:
        chain = run.chain_of(r, t)
        if not chain or chain[-1]['completion_time'] is None or chain[-1]['exit_status'] != 0 and chain[-1]['attempt'] < limit:
            yield ('lost', f'{t.args!r} is not completed after the restart: {[(x["attempt"], x["exit_status"], x["completion_time"]) for x in chain]}')
        if once is not None:
            want = once or len(t.attempts(limit))
            if len(r.execs.get(t.token, [])) != want:
                yield ('repeated', f'{t.args!r} executed {len(r.execs.get(t.token, []))} times in total, expected {want}')
    for tid, x in done.items():
        again = [e for es in r.execs.values() for e in es if e[2] == tid and e[0] > at]
        if again:
            yield ('repeated', f'{x["args"]!r} was recorded complete and ran again: {again}')
        for k in ('exit_status', 'completion_time', 'start_time', 'client_id', 'command', 'attempt', 'args', 'submit_time'):
            if tid not in now or now[tid][k] != x[k]:
                yield ('record-changed', f'{x["args"]!r}: {k} {x[k]!r} -> {now.get(tid, {}).get(k)!r}')


def leftovers(pid):
    """Processes of the session of `pid` that run Python."""
    found = []
    for p in os.listdir('/proc'):
        if p.isdigit():
            try:
                stat = open(f'/proc/{p}/stat').read().rsplit(')', 1)[1].split()
                line = open(f'/proc/{p}/cmdline', 'rb').read().replace(b'\0', b' ').decode()
                if int(stat[3]) == pid and stat[0] != 'Z' and 'python' in line:
                    found.append((int(p), line[:120]))
            except (OSError, ValueError):
                pass
    return found


def finished(site, tasks, limit):
    """Every task has reached its last attempt."""
    last = {}
    for x in site.tasks():
        if x['args'] not in last or x['attempt'] > last[x['args']]['attempt']:
            last[x['args']] = x
    return all(t.args in last and last[t.args]['completion_time'] and (last[t.args]['exit_status'] == 0 or last[t.args]['attempt'] >= limit) for t in tasks)
