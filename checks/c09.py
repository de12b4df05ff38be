"""C09: the server ends when, and only when, all work is finished."""
import json
import os
import random
import signal
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = ('runtime monitor: runs whose sources stall longer than any internal wait, whose last tasks fail and are retried, whose clients join early, late, at shutdown, or die just before the end, in all server modes; '
             'the instants at which processes really ended are compared with those at which the source was closed and tasks were submitted, executed and recorded')
LEVEL = 'exploration'
LEVEL_NOTE = ('Held for the runs generated; "ends" is judged within 15 s (eviction period added when a client died), "keeps running" for the silences generated (up to 9 s; internal waits are shortened to 0.15 s unless they are queue timeouts of at most 2 s). '
              'A task that is submitted after the last one known was completed may be left waiting.')
RULE = 'one case per run with its mode, numbers of clients, queue size and what happened near the end; non-trivial when something stalled, joined late, died, failed or was missing'
END = 15
KINDS = ('stall', 'late', 'restart-complete', 'retry', 'forever', 'empty', 'stall-nodb', 'late', 'dies', 'submit-late', 'late-nodb', 'reject', 'retry', 'crowd')


def body(c):
    scs = []
    for i in range(c.pick(70, 700)):
        rng = c.rng
        kind = KINDS[i % len(KINDS)]
        scs.append({'kind': kind, 'clients': {'crowd': rng.choice([8, 12])}.get(kind, rng.choice([1, 1, 2, 3])), 'N': rng.choice([1, 2, 4]), 'b': rng.choice([1, 1, 2, 5]), 'w': rng.choice([1, 2]), 'cb': rng.choice([1, 1, 3]),
                    'queue': rng.choice([1, 1, 2, 8]), 'n': rng.choice([1, 3, 8]), 'gaps': [round(rng.uniform(3, 9), 1) for _ in range(rng.choice([1, 1, 2]))], 'no_confirm': rng.random() < .25,
                    'r': rng.choice([1, 2, 3]), 'mode': rng.choice(['source', 'restart']), 'sql_delay': rng.choice([None, None, [.3, .05]]), 'switch': rng.choice([None, 1e-4]), 'seed': rng.randrange(1 << 30)})

    def one(sc):
        with run.Run('c09', db='nodb' not in sc['kind'], env={'HYPERSHELL_SERVER_QUEUESIZE': str(sc['queue']), 'HYPERSHELL_SERVER_EVICT': '10', 'HYPERSHELL_CLIENT_HEARTRATE': '1'}) as r:
            r.log = r.site.path / 'beats'
            r.log.touch()
            rng = random.Random(sc['seed'])
            out = list(PLAY[sc['kind']](c, r, sc, rng))
            c.count('runs')
            c.count('runs ' + sc['kind'])
            c.case({k: sc[k] for k in ('kind', 'clients', 'queue', 'b', 'mode', 'no_confirm', 'r')}, sample=sc)
            n = run.report(c, sc, out)
            for p in r.site.procs:
                p.kill()
            return n
    done = run.campaign(c, scs, one, workers=16, budget=c.pick(240, 4000))
    c.require('runs', min(done, 30))
    for k in ('runs that ended by themselves', 'clients released', 'silences outlived', 'waits without end outlived', 'late clients'):
        c.require(k, 1)


def args(sc, *more):
    return ['-b', sc['b'], '-w', sc['w'], *(['--no-confirm'] if sc['no_confirm'] else []), *more]


def perturb(sc):
    return {'seed': sc['seed'], **({'sql_delay': sc['sql_delay']} if sc['sql_delay'] else {}), **({'switch': sc['switch']} if sc['switch'] else {})}


def join(r, sc, wait=False):
    return r.start_client('-N', sc['N'], '-b', sc['cb'], '-w', 1, *(['--no-confirm'] if sc['no_confirm'] else []), perturb={'queue_log': str(r.log), **({'switch': sc['switch']} if sc['switch'] else {})}, wait=wait)


def watch(c, r, until, count):
    """The server must not end before `until` (a time)."""
    while time.time() < until:
        if not r.server.alive():
            return [('early-end', f'the server ended with {r.server.status} {until - time.time():.1f} s before it may: {r.server.tail(600)}')]
        time.sleep(.1)
    c.count(count)
    return []


def complete(r, tasks, limit=60):
    """Waits until all tasks were executed to their last attempt and, with a database, recorded."""
    end = time.time() + limit
    while time.time() < end:
        n = sum(1 for x in r.site.journal() if x[0] == 'E')
        if n >= tasks and (not r.db or not r.site.query('SELECT count(*) AS n FROM task WHERE completion_time IS NULL AND exit_status IS NULL')[0]['n']):
            return True
        if r.server and not r.server.alive():
            return False
        time.sleep(.1)
    return False


def finish(c, r, sc, since, extra=0, dead=(), limit=1):
    """The run must come to its end from now on; `since`: when the last reason to go on ended, if the records do not say."""
    r.settle(stall=END + extra + 8, limit=150)
    if r.outcome == 'timeout':
        c.inconclusive(f'no end within the limit: {sc}')
        return
    r.observe()
    what = f'server {" ".join(map(str, r.server.argv[1:]))}'
    if r.outcome == 'stalled':
        yield ('hang', f'{what}: {[p.name for p in [r.server, *r.clients] if p.alive()]} still running; open: {[x for x in r.rows if x["completion_time"] is None][:2]}; {r.tails()[-1500:]}')
        return
    c.count('runs that ended by themselves')
    done = [run.parse_time(x['completion_time']) for x in r.rows if x['completion_time']]
    ends = [e[1] for ex in r.execs.values() for e in ex if e[1]]
    last = max([since, *done, *ends])
    joined = []
    for line in open(r.log):
        x = json.loads(line)
        if x['op'] == 'put' and 'error' not in x and isinstance(x['item'], dict) and x['item'].get('state') == 0:
            joined.append((x['t'], x['pid']))
    first = {}
    for t, pid in joined:
        first.setdefault(pid, t)
    # not before
    if r.server.t_end < max([since, *ends]) - .1:
        yield ('early-end', f'{what} ended {max([since, *ends]) - r.server.t_end:.1f} s before its work was finished')
    for mech, desc in run.exactly_once(r, limit):
        if mech in ('lost', 'unfinished'):
            yield (mech, f'{what}: {desc}')
    open_rows = [x for x in r.rows if x['completion_time'] is None and x['exit_status'] is None]
    if open_rows:
        yield ('unfinished', f'{what} ended with {len(open_rows)} tasks open: {open_rows[:2]}')
    # not much later
    t = max([last, *[first[p] for p in first if first[p] < r.server.t_end]])
    if r.server.t_end > t + END + extra:
        yield ('late-end', f'{what} ended {r.server.t_end - t:.1f} s after its work was finished and the last client had joined')
    if r.server.status != 0:
        yield ('exit-status', f'{what} ended with {r.server.status}: {r.server.tail(900)}')
    for p in r.clients:
        if p in dead:
            continue
        if p.pid in first and first[p.pid] < r.server.t_end - 8 or any(e[4] == p.pid for ex in r.execs.values() for e in ex):
            if p.status != 0:
                yield ('client-exit', f'client that was connected {r.server.t_end - first.get(p.pid, 0):.1f} s before the end of the server ended with {p.status}: {p.tail(700)}')
            elif p.t_end > r.server.t_end + 12:
                yield ('client-late', f'client ended {p.t_end - r.server.t_end:.1f} s after the server')
            else:
                c.count('clients released')


def stall(c, r, sc, rng):
    """A source that is silent for longer than anything waits, and that ends some time after all work is done."""
    tasks = run.gen_tasks(rng, sc['n'] + len(sc['gaps']), fail=.2, sleep=[0, .1], signals=False)
    r.hold = threading.Event()
    bursts = [(0 if rng.random() < .5 else 2.5, sc['n'])] + [(g, 1) for g in sc['gaps']]
    r.start_server(*args(sc), *(['--no-db'] if not r.db else []), tasks=tasks, source='slow', bursts=bursts, perturb=perturb(sc))
    for k in range(sc['clients']):
        join(r, sc, wait=k == 0)
    t = time.time() + sum(d for d, _ in bursts)
    bad = watch(c, r, t + rng.choice([.5, 3, 6]), 'silences outlived')
    t = time.time()
    r.hold.set()
    yield from bad or finish(c, r, sc, t)


def late(c, r, sc, rng):
    """Clients join before, around and after the end of the work."""
    tasks = run.gen_tasks(rng, sc['n'], fail=.2, sleep=[0, .2], signals=False)
    if r.db and sc['mode'] == 'restart':
        r.submit(tasks, '-b', 5)
        r.start_server('--restart', *args(sc), perturb=perturb(sc))
    else:
        r.start_server(*args(sc), *(['--no-db'] if not r.db else []), tasks=tasks, perturb=perturb(sc))
    t = time.time()
    if rng.random() < .3:
        yield from watch(c, r, time.time() + 4, 'waits for a first client outlived')
    join(r, sc, wait=True)
    for _ in range(rng.choice([2, 4, 6])):
        time.sleep(rng.choice([0, .1, .3, .7, 1.2]))
        if r.server.alive():
            join(r, sc)
            c.count('late clients')
    yield from finish(c, r, sc, t)


def crowd(c, r, sc, rng):
    """More clients than tasks, all released."""
    tasks = run.gen_tasks(rng, 3, fail=0, sleep=[0, .2])
    t = time.time()
    r.start_server(*args(sc), tasks=tasks, perturb=perturb(sc))
    for k in range(sc['clients']):
        join(r, sc, wait=k == 0)
    yield from finish(c, r, sc, t)


def restart_complete(c, r, sc, rng):
    """Everything is done already."""
    tasks = run.gen_tasks(rng, sc['n'], fail=0, sleep=[0, 0])
    r.start_server(*args(sc), tasks=tasks, perturb=perturb(sc))
    join(r, sc, wait=True)
    bad = list(finish(c, r, sc, time.time()))
    if bad:
        yield from bad
        return
    before, done = r.site.tasks(), len(r.site.journal())
    r.clients = []
    t = time.time()
    r.start_server('--restart', *args(sc), '-r', sc['r'], perturb=perturb(sc))
    if rng.random() < .3:
        yield from watch(c, r, time.time() + 3, 'waits for a first client outlived')
    for k in range(sc['clients']):
        join(r, sc, wait=k == 0)
    yield from finish(c, r, sc, t)
    if len(r.site.journal()) != done:
        yield ('executed', f'restarted on a complete database and executed something: {r.site.journal()[done:]}')
    if r.site.tasks() != before:
        yield ('changed', 'records changed by a restart on a complete database')


def retry(c, r, sc, rng):
    """What remains at the end are failures due for retry."""
    tasks = [run.Task(f't{k}', rng.choice([0, .3, 1.5]), rng.choice(['1', 'f1:3', 'f2:7', 'f3:1'])) for k in range(sc['n'])]
    t = time.time()
    if sc['mode'] == 'restart':
        r.submit(tasks, '-b', 5)
        r.start_server('--restart', *args(sc), '-r', sc['r'], *(['--eager'] if rng.random() < .5 else []), perturb=perturb(sc))
    else:
        r.start_server(*args(sc), '-r', sc['r'], *(['--eager'] if rng.random() < .5 else []), tasks=tasks, perturb=perturb(sc))
    for k in range(sc['clients']):
        join(r, sc, wait=k == 0)
    yield from finish(c, r, sc, t, limit=sc['r'] + 1)


def forever(c, r, sc, rng):
    """Never ends by itself: without tasks, with all done, with all clients gone."""
    r.start_server('--forever', *args(sc), perturb=perturb(sc))
    yield from watch(c, r, time.time() + rng.choice([0, 3]), 'waits without end outlived')
    n = 0
    for k in range(2):
        p = r.start_client('-N', 2, '-b', 1, '-w', 1, '-T', 3, *(['--no-confirm'] if sc['no_confirm'] else []))
        tasks = run.gen_tasks(rng, sc['n'], prefix=f'x{k}-', fail=.2, sleep=[0, .1], signals=False)
        r.submit(tasks, '-b', 5)
        n += len(tasks)
        if not complete(r, n, 40):
            yield ('unserved', f'server --forever did not complete what was submitted: {r.tails()[-1200:]}')
            return
        if p.wait(30) is None:
            yield ('hang', 'client with a timeout does not end: ' + p.tail())
            return
        yield from watch(c, r, time.time() + rng.choice([2, 4]), 'waits without end outlived')


def empty(c, r, sc, rng):
    """Nothing was ever submitted: waits; a first task wakes it up and it ends after that."""
    mode = rng.choice(['restart', 'source', 'blank-source'])
    if mode == 'restart':
        r.start_server('--restart', *args(sc), perturb=perturb(sc))
    else:
        r.server = r.site.server(*args(sc), stdin='', perturb=perturb(sc))
    join(r, sc, wait=True)
    bad = watch(c, r, time.time() + rng.choice([4, 7]), 'waits without end outlived')
    if bad:
        yield from bad
        return
    r.submit(run.gen_tasks(rng, sc['n'], fail=.3, sleep=[0, .5], signals=False), '-b', 50)
    yield from finish(c, r, sc, time.time())


def dies(c, r, sc, rng):
    """A client dies when everything is done, or nearly."""
    tasks = run.gen_tasks(rng, 8, fail=0, sleep=[.1, .3])
    r.hold = threading.Event()
    r.start_server(*args(sc), tasks=tasks, source='slow', perturb=perturb(sc))
    cs = [join(r, sc, wait=k == 0) for k in range(sc['clients'])]
    if not complete(r, len(tasks), 40):
        yield ('unserved', f'tasks not completed while the source was open: {r.tails()[-1200:]}')
        return
    dead = rng.sample(cs, rng.randint(1, len(cs)))
    when = rng.choice(['before', 'after'])
    if when == 'after':
        t = time.time()
        r.hold.set()
        time.sleep(rng.choice([0, .3, 1]))
    for p in dead:
        os.kill(p.pid, signal.SIGKILL) if p.alive() else None
    if when == 'before':
        time.sleep(rng.choice([0, 2]))
        t = time.time()
        r.hold.set()
    yield from finish(c, r, sc, t, extra=12, dead=dead)


def submit_late(c, r, sc, rng):
    """Others submit while the last tasks known to the server are still running."""
    first = [run.Task(f't{k}', 2.5) for k in range(2)]
    t = time.time()
    if sc['mode'] == 'restart':
        r.submit(first, '-b', 5)
        r.start_server('--restart', *args(sc), perturb=perturb(sc))
    else:
        r.start_server(*args(sc), tasks=first, perturb=perturb(sc))
    for k in range(sc['clients']):
        join(r, sc, wait=k == 0)
    end = time.time() + 20
    while time.time() < end and not r.site.journal():
        time.sleep(.05)
    time.sleep(rng.uniform(0, 1))
    p = r.submit(run.gen_tasks(rng, sc['n'], prefix='late', fail=.2, sleep=[0, .1], signals=False), '-b', 5)
    if sum(1 for x in r.site.journal() if x[0] == 'E'):      # the machine was too slow: the first ones may have been the last
        r.tasks = r.tasks[:2]
        c.count('late submissions too late')
        r.settle(stall=30)
        return
    yield from finish(c, r, sc, t)


def reject(c, r, sc, rng):
    """To run forever without a database, or until everything is done: refused, or really forever."""
    for opts in (['--forever', '--no-db'], ['--forever', '--restart']):
        p = r.site.server(*opts)
        client = None
        end = time.time() + 6
        while time.time() < end and p.alive():
            if client is None and hs.wait_listening(p, 1):
                client = r.site.client(p, '-w', 1)
            time.sleep(.1)
        if p.alive():
            continue      # it does not stop by itself
        if p.status == 0:
            yield ('early-end', f'hs server {" ".join(opts)} ended by itself with status 0 {"after a client had joined" if client else ""}: {p.tail(500)}')


PLAY = {'stall': stall, 'stall-nodb': stall, 'late': late, 'late-nodb': late, 'crowd': crowd, 'restart-complete': restart_complete, 'retry': retry, 'forever': forever, 'empty': empty, 'dies': dies, 'submit-late': submit_late, 'reject': reject}

if __name__ == '__main__':
    core.main(core.Check('C09', LEVEL, RULE, TECHNIQUE), body)
