"""C10: a client that leaves first finishes and returns everything it accepted."""
import json
import os
import random
import signal
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = 'runtime monitor: journal of executions, log of queue operations and database history while clients are told to leave (SIGUSR1, idle time-out, release) at random moments under slow servers and full queues'
LEVEL = 'exploration'
LEVEL_NOTE = 'Held on the departures explored; departure moments are random, not every interleaving is visited.'
RULE = 'one case per departure of a client; non-trivial when the client had executed at least one task'


def body(c):
    n = c.pick(36, 400)
    scs = []
    for i in range(n):
        how = c.rng.choice(['usr1', 'usr1', 'idle', 'release', 'stop'])
        scs.append({'how': how, 'n': c.rng.choice([3, 5, 8, 12, 20]), 'b': c.rng.choice([1, 2, 3, 5]), 'cb': c.rng.choice([1, 2, 3, 5, 20]), 'cw': c.rng.choice([1, 5, 60]),
                    'N': c.rng.choice([1, 2, 4]), 'sleep': c.rng.choice([[0, 0.05], [0, 0.5], [0.3, 1.4]]), 'after': round(c.rng.uniform(0.1, 2.5), 2),
                    'no_confirm': c.rng.random() < 0.25, 'qsize': c.rng.choice([1, 1, 3]), 'slow_receiver': c.rng.random() < 0.3,
                    'queue_delay': c.rng.choice([None, None, [0.2, 0.3]]), 'popen_delay': c.rng.choice([None, 0.1]), 'helpers': c.rng.choice([0, 1]), 'seed': c.rng.randrange(1 << 30)})
    for i, sc in enumerate(scs[:9]):
        # an incomplete bundle, a full queue, a busy executor at the moment of leaving
        sc.update(how=['usr1', 'idle', 'stop'][i % 3], cb=[20, 3, 2][i // 3], cw=60, slow_receiver=i // 3 == 1, n=7, b=2, helpers=0, qsize=1)

    def one(sc):
        rng = random.Random(sc['seed'])
        with run.Run('c10', env={'HYPERSHELL_SERVER_QUEUESIZE': sc['qsize']}) as r:
            tasks = run.gen_tasks(rng, sc['n'], fail=0.2, sleep=sc['sleep'])
            flag = ['--no-confirm'] if sc['no_confirm'] else []
            sp = {'seed': 1}
            if sc['slow_receiver']:
                sp['sql_delay'] = [0.25, 1.2]
            r.hold = threading.Event()
            bursts = [(0, 3), (0.5, 2)]
            r.start_server('-b', sc['b'], '-w', 1, *flag, tasks=tasks, source='slow', bursts=bursts, perturb=sp)
            if sc['how'] in ('release', 'stop'):
                r.hold.set()
            base = {'seed': sc['seed']}
            for k in ('queue_delay', 'popen_delay'):
                if sc[k]:
                    base[k] = sc[k]
            logs = []
            # clients that stay must not sit on results for a minute
            long_wait = 1 if sc['how'] == 'release' else sc['cw']

            def client(*extra, wait=1):
                cargs = ['-N', sc['N'], '-b', sc['cb'], '-w', wait, *flag]
                log = str(r.site.path / f'queue{len(r.clients)}')
                logs.append(log)
                return r.start_client(*cargs, *extra, perturb={**base, 'queue_log': log, 'seed': sc['seed'] + len(logs)})
            A = client(*(['-T', 2] if sc['how'] == 'idle' else []), wait=long_wait)
            log_a = logs[0]
            for _ in range(sc['helpers']):
                client()
            t_sig = None
            if sc['how'] == 'usr1':
                hs.wait_for(lambda: r.site.journal() or not A.alive(), 30)
                time.sleep(sc['after'])
                if A.alive() and r.server.alive():
                    t_sig = time.time()
                    A.signal(signal.SIGUSR1)
            if sc['how'] == 'stop':
                # the server is told to stop: it releases its clients with work still waiting
                hs.wait_for(lambda: r.site.journal() or not A.alive(), 30)
                time.sleep(sc['after'])
                r.server.signal(signal.SIGUSR1)
            if sc['how'] in ('usr1', 'idle'):
                out = hs.settle([A], r.progress, stall=25, limit=120)
                if out != 'done':
                    r.outcome = out
                    if out == 'timeout':
                        c.inconclusive(f'client did not leave within the limit: {sc}')
                        return 0
                    return run.report(c, sc, [('stays', f'client does not leave ({sc["how"]}): {A.tail(900)}')])
                left = A.t_end
                # what it accepted is recorded, without anybody else's help
                sess = A.pid
                done = hs.wait_for(lambda: not missing(r, sess), 20)
                lost = missing(r, sess)
            else:
                left, lost = None, []
            r.hold.set()
            if r.server.alive() and sc['how'] != 'stop':
                client()
            r.settle(stall=25)
            r.observe()
            mine = [e for ex in r.execs.values() for e in ex if e[4] == A.pid]
            c.case(sc, sample={'scenario': sc, 'executed_by_leaver': len(mine)}, nontrivial=bool(mine))
            c.count('departures')
            c.count(sc['how'])
            c.count('executed_by_leaver', len(mine))

            def oracle():
                if A.status != 0:
                    yield ('client-exit', f'exit status {A.status} after {sc["how"]}: {A.tail(700)}')
                for row in r.rows if sc['how'] == 'stop' else []:
                    if row['completion_time'] is None and any(e[2] == row['id'] for e in mine):
                        yield ('result-lost', f'server stopped and the result of {row["args"]} was not recorded')
                if lost:
                    yield ('result-lost', f'client left ({sc["how"]}) without returning {lost}')
                if left:
                    late = [e for e in mine if e[1] is None or e[1] > left + 0.05]
                    if late:
                        yield ('left-early', f'client ended at {left} with its tasks still running: {late}')
                taken, ran = set(), {e[2] for e in mine}
                for line in open(log_a):
                    rec = json.loads(line)
                    if rec['q'] == 'scheduled' and rec['op'] == 'get' and isinstance(rec['item'], list):
                        taken |= set(rec['item'])
                        c.count('bundles_taken')
                        if t_sig and rec['t0'] > t_sig + 0.3:
                            yield ('took-after-signal', f'bundle requested {rec["t0"] - t_sig:.2f} s after SIGUSR1')
                if taken - ran:
                    gone = [x['args'] for x in r.rows if x['id'] in taken - ran]
                    yield ('accepted-not-run', f'client took {gone} and left without running them')
            if r.outcome == 'timeout':
                c.inconclusive(f'no end within the limit: {sc}')
                return 0
            bad = run.report(c, sc, run.hung(r), oracle())
            if bad:
                return bad
            if sc['how'] == 'stop':
                return run.report(c, sc, run.exits(r), (x for x in run.exactly_once(r) if x[0] != 'lost'))
            return run.report(c, sc, run.exactly_once(r), run.records(r), run.exits(r))

    def missing(r, sess):
        ids = {x[2]: x[1] for x in r.site.journal() if x[6] == sess}
        rows = {x['id']: x for x in r.site.tasks()}
        return [ids[i] for i in ids if i in rows and rows[i]['completion_time'] is None]
    run.campaign(c, scs, one, workers=6, budget=c.pick(220, 3000))
    c.require('departures', 15)
    c.require('usr1', 4)
    c.require('idle', 3)
    c.require('executed_by_leaver', 30)


if __name__ == '__main__':
    core.main(core.Check('C10', LEVEL, RULE), body)
