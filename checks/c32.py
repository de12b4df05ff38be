"""C32: buffered work is flushed within the bundle wait."""
import json
import os
import random
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = ('runtime monitor: sources deliver lines at recorded instants in bursts and then fall silent with the stream still open, tasks end at instants they record themselves; '
             'an offline checker compares these with the instants at which each one was committed, queued or returned (database triggers, logged queue operations)')
LEVEL = 'exploration'
LEVEL_NOTE = 'Held for the arrival patterns generated, within 3.5 s of the stated instant (polling takes one second). A buffer is only observed where it ends: in the database or in the queue of the server.'
RULE = 'one case per line or result with its path, bundle size, wait, place in the bundle and what made it move on (full, wait, end of stream); non-trivial when it had to wait'
SLACK = 3.5
KINDS = ('submit', 'client', 'nodb', 'server', 'client', 'submit')


def body(c):
    scs = []
    for i in range(c.pick(54, 600)):
        rng = c.rng
        w = rng.choice([1, 2, 3, 4, 60]) if i % 3 else rng.choice([2, 3, 5])
        b = rng.choice([1, 2, 3, 5, 50])
        if w == 60 and b == 50:
            b = 3
        bursts, left = [], rng.choice([5, 7, 9])
        total = left
        while left:
            k = min(left, rng.choice([1, 1, 2, 3]))
            bursts.append([rng.choice([.05, .3, .8, 1.5, 2.5] if sum(d for d, _ in bursts) < 5 else [.05, .2]), k])
            left -= k
        scs.append({'kind': KINDS[i % len(KINDS)], 'b': b, 'w': w, 'bursts': bursts, 'n': total, 'how': rng.choice(['args', 'args', 'config']), 'N': rng.choice([1, 2]), 'db': rng.random() < .6, 'seed': rng.randrange(1 << 30)})

    def one(sc):
        env = {}
        if sc['how'] == 'config':
            for sec in {'submit': ['submit'], 'client': ['client'], 'server': ['submit', 'server'], 'nodb': ['submit', 'server']}[sc['kind']]:
                env[f'HYPERSHELL_{sec.upper()}_BUNDLESIZE'] = str(sc['b'])
                env[f'HYPERSHELL_{sec.upper()}_BUNDLEWAIT'] = str(sc['w'])
        db = sc['kind'] in ('submit', 'server') or (sc['kind'] == 'client' and sc['db'])
        with run.Run('c32', db=db, env=env) as r:
            r.log = r.site.path / 'queue'
            r.log.touch()
            opts = [] if sc['how'] == 'config' else ['-b', sc['b'], '-w', sc['w']]
            rng = random.Random(sc['seed'])
            events = (client if sc['kind'] == 'client' else source)(c, r, sc, opts, rng)
            n = run.report(c, sc, judge(c, sc, *events))
            c.count('runs')
            c.count('runs ' + sc['kind'])
            for p in r.site.procs:
                p.kill()
            return n
    done = run.campaign(c, scs, one, workers=24, budget=c.pick(240, 4000))
    c.require('runs', min(done, 30))
    for k in ('moved on when full', 'moved on by the wait', 'moved on at the end'):
        c.require(k, 1)


def source(c, r, sc, opts, rng):
    """Lines from a stream that stays open; returns (arrivals, flushes, start, end of stream): flushes are [(t, [index...])]."""
    tasks = run.gen_tasks(rng, sc['n'], fail=0, sleep=[0, 0])
    r.tasks = tasks
    fifo = r.site.path / 'stream'
    os.mkfifo(fifo)
    arrivals = []
    if sc['kind'] == 'submit':
        p = r.site.spawn('submit', '-', *opts, stdin=fifo)
    else:
        p = r.server = r.site.server(*opts, *(['--no-db'] if sc['kind'] == 'nodb' else []), stdin=fifo, perturb={'queue_log': str(r.log)})
    stop = threading.Event()

    def feed():
        with open(fifo, 'w') as f:
            time.sleep(1.2)      # let the program get going
            k = 0
            for delay, n in sc['bursts']:
                time.sleep(delay)
                f.write(''.join(t.args + '\n' for t in tasks[k:k + n]))
                f.flush()
                k += n
                arrivals.extend([time.time()] * n)
            stop.wait(120)
    th = threading.Thread(target=feed, daemon=True)
    th.start()
    if sc['kind'] == 'nodb':
        r.start_client('-N', 2, '-b', 1, '-w', 1)
    while len(arrivals) < sc['n']:
        time.sleep(.05)
        if not th.is_alive():
            break
    time.sleep((sc['w'] if sc['w'] < 60 else 1) + SLACK + 1.5)      # silence
    t_close = time.time()
    stop.set()
    th.join()
    if sc['kind'] != 'server' and p.wait(60) is None and sc['kind'] == 'submit':
        raise run.Broken('hang', 'the submission does not end: ' + p.tail())
    if sc['kind'] == 'server':
        end = time.time() + 20
        while time.time() < end and r.site.query('SELECT count(*) AS n FROM task')[0]['n'] < sc['n']:
            time.sleep(.1)
    index = {t.args: k for k, t in enumerate(tasks)}
    flushes = []
    if sc['kind'] == 'nodb':
        k = 0
        for line in open(r.log):
            x = json.loads(line)
            if x['op'] == 'put' and x['q'] == 'scheduled' and isinstance(x['item'], list) and x['pid'] == p.pid and 'error' not in x:
                flushes.append((x['t0'], list(range(k, k + len(x['item'])))))
                k += len(x['item'])
    else:
        cur, last = None, None
        for h in r.site.audit():
            if h['tab'] == 'task' and h['op'] == 'INSERT':
                # the time is of one statement: records of one commit lie together
                if cur is not None and h['n'] == last + 1 and h['t'] - cur[0] < .05:
                    cur[1].append(index[h['new']['args']])
                else:
                    cur = (h['t'], [index[h['new']['args']]])
                    flushes.append(cur)
                last = h['n']
    return arrivals, flushes, t_close, sc['kind'] in ('submit', 'server')


def client(c, r, sc, opts, rng):
    """Results of tasks; the client stays connected."""
    tasks, t = [], 0
    for delay, n in sc['bursts']:
        t += delay
        tasks += [run.Task(f't{len(tasks) + k}', round(t if sc['N'] > 1 else (delay if k == 0 else 0), 2)) for k in range(n)]
    N = 1 if sc['N'] == 1 else len(tasks)
    hold = run.Task('hold', 300)
    if sc['db']:
        r.start_server('--forever', '-b', 50, '-w', 1)
        r.submit(tasks, '-b', 50)
    else:
        r.start_server('-b', 1, '-w', 1, '--no-db', tasks=tasks, source='slow')
        r.hold = threading.Event()
    p = r.start_client('-N', N, *opts, perturb={'queue_log': str(r.log)})
    end = time.time() + 60
    while time.time() < end and sum(1 for x in r.site.journal() if x[0] == 'E') < len(tasks):
        time.sleep(.1)
    time.sleep((sc['w'] if sc['w'] < 60 else 1) + SLACK + 1.5)
    t_close = time.time()
    p.signal(__import__('signal').SIGUSR1)      # leaves and returns what it has
    if p.wait(40) is None:
        raise run.Broken('hang', 'the client does not leave: ' + p.tail())
    ends = sorted((x[3], x[1], x[2]) for x in r.site.journal() if x[0] == 'E')
    if len(ends) < len(tasks):
        raise run.Broken('lost', f'{len(ends)} of {len(tasks)} tasks ended: {p.tail()}')
    index = {tid: k for k, (t, token, tid) in enumerate(ends)}
    flushes = []
    for line in open(r.log):
        x = json.loads(line)
        if x['op'] == 'put' and x['q'] == 'completed' and isinstance(x['item'], list) and x['pid'] == p.pid and 'error' not in x:
            flushes.append((x['t0'], [index[i] for i in x['item']]))
    return [t for t, _, _ in ends], flushes, t_close, False


def judge(c, sc, arrivals, flushes, t_close, merged):
    what = f'{sc["kind"]} with bundle size {sc["b"]} and wait {sc["w"]} s ({sc["how"]}), arrivals at {[round(a - arrivals[0], 1) for a in arrivals]}, moved on {[(round(t - arrivals[0], 1), ids) for t, ids in flushes]}'
    flat = [i for _, ids in flushes for i in ids]
    if sorted(flat) != list(range(len(arrivals))):
        yield ('lost', f'{what}: not each exactly once')
        return
    if sc['kind'] != 'client':
        if flat != sorted(flat):
            yield ('order', f'{what}: not in the order of arrival')
    else:
        worst = max((arrivals[i] - arrivals[j] for k, i in enumerate(flat) for j in flat[k + 1:]), default=0)
        if worst > .5:
            yield ('order', f'{what}: a result overtook another that was {worst:.1f} s older')
    for t, ids in flushes:
        if len(ids) > sc['b'] and not merged:
            yield ('bundle-size', f'{what}: {len(ids)} moved on together')
    when = {i: (k, t) for k, (t, ids) in enumerate(flushes) for i in ids}
    prev, k0 = None, 0
    # replay: what must have moved on by when
    for i, a in enumerate(arrivals):
        k, t = when[i]
        before = [u for u, ids in flushes if u < t - .001]
        prev = before[-1] if before else None
        limit = max(a, (prev if prev is not None else arrivals[0]) + sc['w']) + SLACK
        # full: the size-th one since what had moved on
        done = sum(len(ids) for u, ids in flushes if u < t - .001)
        full = done + sc['b'] - 1
        if i <= full < len(arrivals):
            limit = min(limit, max(arrivals[full], prev or 0) + SLACK)
        how = 'end' if t > t_close - .2 else 'full' if len(flushes[k][1]) >= sc['b'] else 'wait'
        c.count({'end': 'moved on at the end', 'full': 'moved on when full', 'wait': 'moved on by the wait'}[how])
        c.case((sc['kind'], sc['b'], sc['w'], how, flushes[k][1].index(i), sc['how']), sample={'kind': sc['kind'], 'size': sc['b'], 'wait': sc['w'], 'waited': round(t - a, 2), 'how': how}, nontrivial=t - a > .3 or how != 'full')
        if t > limit:
            yield ('late', f'{what}: number {i} moved on {t - a:.1f} s after it arrived, at the latest {limit - a:.1f} s was due')
            return


if __name__ == '__main__':
    core.main(core.Check('C32', LEVEL, RULE, TECHNIQUE), body)
