"""C08: scheduling order: oldest first, retries after or before new work as asked."""
import collections
import json
import os
import random
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = ('runtime monitor: the committed history of all task records (database triggers) and the bundles that clients really received are recorded while backlogs of new, failed and reverted tasks are worked off by servers and clusters started in every way; '
             'an offline checker replays the history and asks at every scheduling round what was waiting before it and what was taken')
LEVEL = 'exploration'
LEVEL_NOTE = ('Held for the backlogs generated. What was waiting is taken as of the end of the previous round, so a violation that only shows against tasks committed during a round is not seen. SQLite only; the MPI launcher is a stand-in.')
RULE = 'one case per scheduling round with its entry point, mode, bundle size and numbers of new tasks and retries waiting and taken; non-trivial when more was waiting than taken'
ENTRIES = ['server', 'server', 'local', 'server', 'launch', 'server', 'ssh', 'server', 'auto', 'server', 'library', 'server', 'nodb', 'mpi', 'server', 'config', 'library-cluster', 'server']
_serial = threading.Lock()

LIBRARY = '''
import json, sys
from hypershell.server import ServerThread
kw = json.loads(sys.argv[1])
kw['address'] = tuple(kw['address'])
t = ServerThread.new(source=None, restart_mode=True, **kw)
t.join()
'''
CLUSTER = '''
import json, sys
from hypershell.cluster import RemoteCluster
kw = json.loads(sys.argv[1])
kw['bind'] = tuple(kw['bind'])
t = RemoteCluster.new(source=None, restart_mode=True, **kw)
t.join()
'''


def body(c):
    scs = []
    for i in range(c.pick(36, 400)):
        rng = c.rng
        entry = ENTRIES[i % len(ENTRIES)]
        scs.append({'entry': entry, 'eager': i % 2 == 0 if entry == 'server' else (i // len(ENTRIES) % 2 == 0), 'b': rng.choice([1, 1, 2, 3, 5]), 'r': rng.choice([1, 2, 3]), 'N': rng.choice([1, 1, 2]),
                    'n': rng.choice([12, 18, 24]), 'fail': rng.choice([.2, .4, .7]), 'queue': rng.choice([1, 1, 1, 3]), 'during': rng.random() < .6, 'revert': rng.random() < .3,
                    'no_confirm': rng.random() < .2, 'sql_delay': rng.choice([None, None, [.3, .03]]), 'seed': rng.randrange(1 << 30)})
    for k, sc in enumerate([s for s in scs if s['entry'] == 'server']):
        sc['eager'] = k % 2 == 0

    def one(sc):
        with run.Run('c08', db=sc['entry'] != 'nodb', env={'HYPERSHELL_SERVER_QUEUESIZE': str(sc['queue'])}) as r:
            play(c, r, sc)
            if r.outcome == 'timeout':
                c.inconclusive(f'no end within the limit: {sc}')
                return 0
            r.observe()
            c.count('runs')
            c.count('runs ' + sc['entry'])
            n = run.report(c, sc, run.hung(r), judge(c, r, sc) if r.db else fifo(c, r, sc))
            r.server.kill()
            return n
    done = run.campaign(c, scs, one, workers=9, budget=c.pick(200, 4000))
    c.require('runs', min(done, 30))
    for k in ('rounds', 'retries while new tasks were due (eager)', 'new tasks while retries were due (not eager)', 'rounds that left something waiting', 'tasks in order without database'):
        c.require(k, 1)


def play(c, r, sc):
    rng = random.Random(sc['seed'])
    entry = sc['entry']
    tasks = run.gen_tasks(rng, sc['n'], fail=sc['fail'], flaky=.15, sleep=[0, .12], signals=False)
    r.log = r.site.path / 'queue'
    r.log.touch()
    nc = ['--no-confirm'] if sc['no_confirm'] else []
    sp = {'seed': sc['seed'], **({'sql_delay': sc['sql_delay']} if sc['sql_delay'] else {}), 'queue_log': str(r.log)}
    args = ['-b', sc['b'], '-w', 1, '-r', sc['r'], *nc] + (['--eager'] if sc['eager'] and entry != 'config' else [])
    if entry == 'nodb':
        r.start_server('-b', sc['b'], '-w', 1, '--no-db', *nc, tasks=tasks, source=rng.choice(['stdin', 'file', 'slow']), bursts=[(.3, 3), (1.2, 4)])
        r.start_client('-N', 1, '-b', 1, '-w', 1, *nc)
        r.settle()
        return
    # a backlog whose order of arrival in the database is not the order of submission
    a, b = tasks[:sc['n'] // 2], tasks[sc['n'] // 2:]
    fifo_ = r.site.path / 'slow'
    os.mkfifo(fifo_)
    slow = r.site.spawn('submit', '-', '-b', 50, '-w', 60, stdin=fifo_)
    r.tasks = list(tasks)
    with open(fifo_, 'w') as f:
        f.write(''.join(t.args + '\n' for t in a))
        f.flush()
        time.sleep(.8)
        r.site.cli('submit', '-', '-b', 7, stdin=''.join(t.args + '\n' for t in b))
    if slow.wait(60) is None or slow.status != 0:
        raise run.Broken('submit-failed', slow.tail())
    r.n0 = r.site.query('SELECT max(n) AS n FROM hsv_audit')[0]['n']
    port = hs.free_port()
    exe = ['--remote-exe', r.site.remote_exe(sleep_cap=.15, queue_log=str(r.log))]
    cargs = ['-N', sc['N'], '-b', 1, '-w', 1, *nc]
    lock = None
    if entry in ('server', 'config'):
        env = {'HYPERSHELL_SERVER_EAGER': 'true'} if entry == 'config' and sc['eager'] else {}
        r.start_server('--restart', *args, perturb=sp, env=env)
        r.start_client(*cargs, perturb={'queue_log': str(r.log)})
    elif entry == 'library':
        path = r.site.path / 'lib.py'
        path.write_text(LIBRARY)
        r.server = r.site.spawn(json.dumps({'address': ['127.0.0.1', port], 'auth': 'hsvkey', 'bundlesize': sc['b'], 'max_retries': sc['r'], 'eager': sc['eager'], 'no_confirm': sc['no_confirm']}),
                                script=str(path), perturb={**sp, 'sleep_cap': .15}, name='library')
        r.server.port, r.server.auth = port, 'hsvkey'
        r.start_client(*cargs, perturb={'queue_log': str(r.log)})
    elif entry == 'library-cluster':
        path = r.site.path / 'lib.py'
        path.write_text(CLUSTER)
        r.server = r.site.spawn(json.dumps({'bind': ['127.0.0.1', port], 'bundlesize': sc['b'], 'bundlewait': 1, 'max_retries': sc['r'], 'eager': sc['eager'], 'no_confirm': sc['no_confirm'], 'launcher': 'env',
                                            'remote_exe': exe[1], 'num_tasks': sc['N'], 'delay_start': 0}), script=str(path), perturb={**sp, 'sleep_cap': .15}, name='library')
    else:
        how = {'local': [], 'launch': ['--launcher', 'env', *exe], 'ssh': ['--ssh', 'host1', *exe], 'mpi': ['--mpi', *exe],
               'auto': ['--launcher', 'env', '-A', 'fixed', '-P', 1, '-I', 1, '-X', 1, '-Y', 1, *exe]}[entry]
        for name in ('ssh', 'mpirun'):      # stand-ins: start the client right here
            p = r.site.path / 'bin' / name
            p.write_text('#!/bin/sh\n' + ('shift\n' if name == 'ssh' else '') + ('exec sh -c "$*"\n' if name == 'ssh' else 'exec "$@"\n'))
            p.chmod(0o755)
        if entry == 'local':      # always on the same port
            lock = _serial
            lock.acquire()
        r.server = r.site.spawn('cluster', '--restart', *args, '-N', sc['N'], '-d', 0, *(['-p', port] if entry != 'local' else []), *how, perturb={**sp, 'sleep_cap': .15}, name='cluster')
    try:
        if sc['during']:
            time.sleep(rng.uniform(.2, 1.5))
            r.submit(run.gen_tasks(rng, 6, prefix='d', fail=sc['fail'], sleep=[0, .1], signals=False), '-b', rng.choice([1, 3]), wait=False)
        if sc['revert']:
            time.sleep(rng.uniform(.2, 1.5))
            r.site.cli('task', 'update', '-w', 'completion_time != null', '-w', 'exit_status == 0', '--limit', 3, '--revert', '-f')
        if entry == 'auto':
            hs.settle([r.server], r.progress, stall=6, limit=90)
            r.outcome = 'done'
        else:
            r.settle()
    finally:
        if lock:
            r.server.kill()
            lock.release()


def fifo(c, r, sc):
    first = {t.token: min(e[0] for e in r.execs[t.token]) for t in r.tasks if t.token in r.execs}
    order = sorted(first, key=first.get)
    want = [t.token for t in r.tasks if t.token in first]
    c.count('tasks in order without database', len(order))
    c.case(('nodb', sc['b'], len(order)), sample={'entry': 'nodb', 'order': order[:6]})
    if order != want:
        yield ('order', f'without database, one executor: started {order}, submitted {want}')


def judge(c, r, sc):
    bundles = []
    for line in open(r.log):
        x = json.loads(line)
        if x['op'] == 'get' and x['q'] == 'scheduled' and isinstance(x['item'], list):
            bundles.append(x['item'])
    where = {}
    for k, ids in enumerate(bundles):
        if len(ids) > sc['b']:
            yield ('bundle-size', f'{len(ids)} tasks handed out together, bundle size {sc["b"]}')
        for i in ids:
            where.setdefault(i, []).append(k)
    rows, rounds, last = {}, [], None
    limit = sc['r'] + 1
    seen = collections.Counter()
    snap = None      # state at the end of the previous round

    def waiting(state):
        return {i: run.parse_time(x['submit_time']) for i, x in state.items() if x['schedule_time'] is None and x['completion_time'] is None and x['exit_status'] is None}

    def due(state):
        return {i: run.parse_time(x['completion_time']) for i, x in state.items() if x['completion_time'] and x['exit_status'] not in (0, None) and x['attempt'] < limit and not x['retried']}
    cur = None
    for h in r.history + [None]:
        if h is not None and h['tab'] != 'task':
            continue
        sched = h is not None and h['new'] is not None and h['new']['schedule_time'] is not None and (h['old'] is None or h['old']['schedule_time'] is None)
        key = None
        if sched:
            hits = where.get(h['id'], [])
            key = hits[min(seen[h['id']], len(hits) - 1)] if hits else ('unknown', cur and cur['key'] != None and cur['key'])
            seen[h['id']] += 1
            if not hits:
                key = 'unknown'
        if cur is not None and (h is None or sched and key != cur['key']):
            rounds.append(cur)
            yield from judge_round(c, sc, cur, waiting, due, bundles)
            snap = cur['after']
            cur = None
        if h is None:
            break
        if snap is None and h['n'] > r.n0:
            snap = dict(rows)
        if h['new'] is None:
            rows.pop(h['id'], None)
        else:
            rows[h['id']] = h['new']
        if sched:
            if cur is None:
                cur = {'key': key, 'before': snap if snap is not None else {}, 'taken': [], 'n': h['n']}
            cur['taken'].append(h['id'])
            cur['after'] = dict(rows)
    c.count('rounds', len(rounds))


def judge_round(c, sc, cur, waiting, due, bundles):
    before, after, taken = cur['before'], cur['after'], cur['taken']
    w, d = waiting(before), due(before)
    w_left = {i: t for i, t in w.items() if i in waiting(after)}
    d_left = {i: t for i, t in d.items() if i in due(after)}
    new = [i for i in taken if after[i]['attempt'] == 1 or i in w]
    retries = [i for i in taken if i not in new]
    what = f'round of {len(new)} new tasks and {len(retries)} retries ({sc["entry"]}, {"eager" if sc["eager"] else "not eager"}, bundle size {sc["b"]})'
    sub = {i: run.parse_time(after[i]['submit_time']) for i in taken}
    c.case((sc['entry'], sc['eager'], sc['b'], len(new), len(retries), min(len(w_left), 3), min(len(d_left), 3)),
           sample={'entry': sc['entry'], 'eager': sc['eager'], 'new': len(new), 'retries': len(retries), 'new left': len(w_left), 'retries left': len(d_left)}, nontrivial=bool(w_left or d_left))
    if w_left or d_left:
        c.count('rounds that left something waiting')
    for i in new:
        older = [j for j, t in w_left.items() if t < sub[i]]
        if older:
            yield ('not-oldest-first', f'{what}: took {after[i]["args"]!r} submitted at {after[i]["submit_time"]} and left {before[older[0]]["args"]!r} of {before[older[0]]["submit_time"]}')
    if not sc['eager'] and retries:
        if w_left:
            j = next(iter(w_left))
            yield ('retry-before-new', f'{what}: retried {after[retries[0]]["args"]!r} while {before[j]["args"]!r} (new, submitted {before[j]["submit_time"]}) was waiting')
    if not sc['eager'] and new and d:
        c.count('new tasks while retries were due (not eager)')
    if sc['eager'] and retries and w:
        c.count('retries while new tasks were due (eager)')
    if sc['eager'] and new and d_left:
        j = next(iter(d_left))
        yield ('new-before-retry', f'{what}: took the new {after[new[0]]["args"]!r} while {before[j]["args"]!r} (failed at {before[j]["completion_time"]}) was due for retry')
    done = {}
    for i in retries:
        p = after.get(after[i]['previous_id'])
        if p is None or p['completion_time'] is None:
            continue
        done[i] = run.parse_time(p['completion_time'])
        older = [j for j, t in d_left.items() if t < done[i]]
        if older:
            yield ('retry-order', f'{what}: retried {p["args"]!r} which failed at {p["completion_time"]} and left {before[older[0]]["args"]!r} of {before[older[0]]["completion_time"]}')
    # within what was handed out together
    if cur['key'] != 'unknown':
        ids = [i for i in bundles[cur['key']] if i in sub]
        if len(bundles[cur['key']]) != len(set(bundles[cur['key']])):
            yield ('twice', f'{what}: handed out {bundles[cur["key"]]}')
        kinds = [i in retries for i in ids]
        if kinds != sorted(kinds, reverse=sc['eager']):
            yield ('order-in-bundle', f'{what}: handed out {["retry" if k else "new" for k in kinds]}')
        for group, t in ((new, sub), (retries, done)):
            ts = [t[i] for i in ids if i in group and i in t]
            if ts != sorted(ts):
                yield ('order-in-bundle', f'{what}: times in the order handed out {ts}')


if __name__ == '__main__':
    core.main(core.Check('C08', LEVEL, RULE, TECHNIQUE), body)
