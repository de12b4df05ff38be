"""C14: parallelism is exactly what was asked for."""
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = 'runtime monitor: overlap of the execution intervals the tasks themselves journal (never above N, N reached and kept while work is waiting), and an online count of tasks marked scheduled minus bundles taken, from database history and queue log'
LEVEL = 'exploration'
LEVEL_NOTE = 'Held on the workloads explored; the lower bound on parallelism is judged over intervals with work waiting, with slack for process start-up.'
RULE = 'one case per run; non-trivial when more tasks than executors were executed, or when the server had more tasks than it may schedule ahead'


def busy(intervals, n, lo, hi):
    """Fraction of [lo, hi] during which at least n intervals overlap."""
    pts = sorted({lo, hi, *[x for iv in intervals for x in iv if lo < x < hi]})
    total = 0
    for a, b in zip(pts, pts[1:]):
        m = (a + b) / 2
        if sum(1 for s, e in intervals if s <= m < e) >= n:
            total += b - a
    return total / (hi - lo) if hi > lo else 1.0


def body(c):
    scs = []
    for i in range(c.pick(16, 160)):
        N = c.rng.choice([1, 2, 3, 4, 6, 8])
        scs.append({'kind': 'full', 'N': N, 'n': 4 * N + c.rng.randint(0, 3), 'b': c.rng.choice([1, 1, 2, N, 2 * N]), 'cb': c.rng.choice([1, 1, 2, N, 20]), 'sleep': c.rng.choice([0.8, 1.2, [0.5, 1.5]]), 'long': c.rng.random() < 0.4,
                    'fail': c.rng.choice([0, 0.3]), 'retries': c.rng.choice([0, 1]), 'db': c.rng.random() < 0.7, 'capture': c.rng.random() < 0.2, 'timeout': c.rng.random() < 0.2, 'no_confirm': c.rng.random() < 0.3, 'seed': c.rng.randrange(1 << 30)})
    for i in range(c.pick(10, 100)):
        scs.append({'kind': 'many', 'clients': c.rng.choice([2, 3]), 'N': c.rng.choice([1, 2, 3]), 'n': c.rng.choice([12, 30]), 'b': c.rng.choice([1, 2, 5]), 'cb': c.rng.choice([1, 3, 10]), 'sleep': c.rng.choice([0, 0.2, [0, 0.6]]),
                    'fail': 0.3, 'retries': 1, 'popen_delay': c.rng.choice([None, 0.2]), 'db': c.rng.random() < 0.7, 'seed': c.rng.randrange(1 << 30)})
    for i in range(c.pick(14, 140)):
        scs.append({'kind': 'ahead', 'q': c.rng.choice([1, 1, 2, 3, 5]), 'b': c.rng.choice([1, 2, 3, 7]), 'source': c.rng.choice(['before', 'stdin', 'restart']), 'client': c.rng.random() < 0.7, 'N': c.rng.choice([1, 2, 3]), 'cb': c.rng.choice([1, 2, 5]),
                    'sleep': 0.15, 'eager': c.rng.random() < 0.3, 'seed': c.rng.randrange(1 << 30)})
    c.rng.shuffle(scs)

    def make(sc, n, fail=0):
        rng = random.Random(sc['seed'])
        s = sc['sleep']
        ts = [run.Task(f't{i}', round(rng.uniform(*s), 2) if isinstance(s, list) else s, '3' if rng.random() < fail else '0') for i in range(n)]
        if sc.get('long'):
            t = ts[rng.randrange(len(ts) // 2)]
            ts[ts.index(t)] = run.Task(t.token, 4, t.spec)
        return ts

    def ahead(sc):
        with run.Run('c14', env={'HYPERSHELL_SERVER_QUEUESIZE': sc['q']}) as r:
            bound = (sc['q'] + 1) * sc['b']
            tasks = make(sc, bound * 2 + 5)
            args = ['-b', sc['b'], '-w', 1, '-r', 1] + (['--eager'] if sc['eager'] else [])
            if sc['source'] == 'stdin':
                r.start_server(*args, tasks=tasks)
            else:
                r.submit(tasks, '-b', 10)
                r.start_server('--restart', *args)
            state = [None, 0, time.time()]

            def quiet():
                n = r.site.query('SELECT count(*) AS n FROM task WHERE schedule_time IS NOT NULL')[0]['n']
                if n != state[1]:
                    state[1:] = [n, time.time()]
                return n > 0 and time.time() - state[2] > 3
            hs.wait_for(quiet, 25)
            held = state[1]
            log = str(r.site.path / 'queue')
            open(log, 'w').close()
            if sc['client']:
                r.start_client('-N', sc['N'], '-b', sc['cb'], '-w', 1, perturb={'queue_log': log})
                r.settle(stall=25)
                if r.outcome == 'timeout':
                    c.inconclusive(f'no end within the limit: {sc}')
                    return 0
            else:
                r.server.kill()
            r.observe()
            c.case(sc, sample={'scenario': sc, 'scheduled_without_client': held, 'bound': bound}, nontrivial=held > 0)
            c.count('ahead')
            c.count('held', held)

            def oracle():
                if held > bound:
                    yield ('scheduled-ahead', f'{held} tasks marked scheduled with no client, queue of {sc["q"]} bundles of {sc["b"]}: bound {bound}')
                takes = []
                for line in open(log):
                    rec = json.loads(line)
                    if rec['q'] == 'scheduled' and rec['op'] == 'get' and isinstance(rec['item'], list):
                        takes.append((rec['t0'], len(rec['item'])))
                        if len(rec['item']) > sc['b']:
                            yield ('bundle-too-large', f'bundle of {len(rec["item"])} tasks, bundle size {sc["b"]}')
                n, worst = 0, (0, None)
                for h in r.history:
                    if h['tab'] == 'task' and h['op'] == 'UPDATE':
                        n += (h['new']['schedule_time'] is not None) - (h['old']['schedule_time'] is not None)
                        c.count('schedule_marks')
                        over = n - sum(k for t0, k in takes if t0 <= h['t'] + 0.01)
                        worst = max(worst, (over, h['t']), key=lambda x: x[0])
                if worst[0] > bound:
                    yield ('scheduled-ahead', f'{worst[0]} tasks scheduled ahead of demand at {worst[1]:.2f}, bound {bound}')
            return run.report(c, sc, run.hung(r) if sc['client'] else (), oracle())

    def one(sc):
        if sc['kind'] == 'ahead':
            return ahead(sc)
        with run.Run('c14', db=sc['db']) as r:
            tasks = make(sc, sc['n'], sc['fail'])
            flag = ['--no-confirm'] if sc.get('no_confirm') else []
            r.start_server('-b', sc['b'], '-w', 1, *flag, *(['-r', sc['retries']] if sc['db'] else ['--no-db']), tasks=tasks)
            for i in range(sc.get('clients', 1)):
                p = {'seed': sc['seed'] + i}
                if sc.get('popen_delay'):
                    p['popen_delay'] = sc['popen_delay']
                r.start_client('-N', sc['N'], '-b', sc['cb'], '-w', 1, *flag, *(['--capture'] if sc.get('capture') else []), *(['-W', 30] if sc.get('timeout') else []), wait=i == 0, perturb=p)
            r.settle(stall=25)
            if r.outcome == 'timeout':
                c.inconclusive(f'no end within the limit: {sc}')
                return 0
            r.observe()
            con = run.concurrency(r)
            c.case(sc, sample={'scenario': sc, 'overlap': [m for m, _ in con.values()]}, nontrivial=sc['n'] > sc['N'])
            c.count(sc['kind'])
            c.count('intervals', sum(len(iv) for _, iv in con.values()))

            def oracle():
                for sid, (m, iv) in con.items():
                    if m > sc['N']:
                        yield ('too-parallel', f'{m} tasks at the same time in a client of {sc["N"]} executors')
                    if sc['kind'] == 'full':
                        if m < sc['N']:
                            yield ('not-parallel', f'never more than {m} of {sc["N"]} executors at work on {sc["n"]} independent tasks')
                        else:
                            starts = sorted(s for s, _ in iv)
                            # from everybody at work until the last task of the first round of attempts is picked up
                            last = starts[min(len(starts), sc['n']) - 1]
                            f = busy(iv, sc['N'], starts[sc['N'] - 1], last)
                            c.count('busy_percent', int(100 * f))
                            if f < 0.35:
                                yield ('not-parallel', f'all {sc["N"]} executors at work only {100 * f:.0f}% of the time while tasks were waiting')
            return run.report(c, sc, run.hung(r), oracle(), run.exactly_once(r, sc['retries'] + 1 if sc['db'] else 1))
    run.campaign(c, scs, one, workers=6, budget=c.pick(200, 3000))
    for k in ('full', 'many', 'ahead'):
        c.require(k, 3)
    c.require('intervals', 150)


if __name__ == '__main__':
    core.main(core.Check('C14', LEVEL, RULE), body)
