"""C03: without a database every input line still runs exactly once."""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = 'runtime monitor: execution journal, failure file and process life times over random database-less runs with injected queue and process delays'
LEVEL = 'exploration'
LEVEL_NOTE = 'Held on the runs explored: random clients, executors, bundle sizes and waits, slow sources, late clients, delays; loopback network.'
RULE = 'one case per complete run without database; non-trivial when it has more than one task'


def play(c, sc, r):
    rng = random.Random(sc['seed'])
    tasks = run.gen_tasks(rng, sc['n'], fail=0.3, sleep=sc['sleep'])
    fail = r.site.path / 'failures'
    args = ['--no-db', '-b', sc['b'], '-w', sc['w'], '-f', fail] + (['--no-confirm'] if sc['no_confirm'] else [])
    cargs = ['-N', sc['N'], '-b', sc['cb'], '-w', sc['cw']] + (['--no-confirm'] if sc['no_confirm'] else [])
    cp = {'seed': sc['seed']}
    for k in ('queue_delay', 'popen_delay', 'switch'):
        if sc.get(k):
            cp[k] = sc[k]
    bursts = [(rng.choice([0, 0.05, 0.3, 1.2]), rng.choice([1, 1, 2, 5])) for _ in range(rng.randint(1, 4))]
    r.start_server(*args, tasks=tasks, source=sc['submit'], bursts=bursts, env={'HYPERSHELL_SERVER_QUEUESIZE': sc['qsize']}, perturb={'seed': 1})
    for i in range(sc['clients']):
        if i and sc['late_client']:
            hs.time.sleep(rng.choice([0.1, 0.5, 1.0]))
            if not r.server.alive():
                break
        r.start_client(*cargs, perturb={**cp, 'seed': sc['seed'] + i}, wait=(i == 0))
    # nothing is recorded while a slow task runs or a source is silent: only the journal and the processes move
    r.settle(stall=25)
    r.observe()
    c.case(sc, sample={'scenario': sc, 'executions': len(r.execs)}, nontrivial=sc['n'] > 1)
    c.count('runs')
    c.count('executions', sum(map(len, r.execs.values())))
    if r.outcome == 'timeout':
        c.inconclusive(f'no end within the limit: {sc}')
        return 0
    bad = run.report(c, sc, run.hung(r))
    if bad:
        return bad
    want = sorted(t.args for t in r.tasks if t.status(1) != 0)
    got = sorted(fail.read_text().splitlines()) if fail.exists() else None

    def extra():
        if got != want:
            yield ('failures-reported', f'failure file has {got}, failed were {want}')
        late = [e for ex in r.execs.values() for e in ex if e[1] and e[1] > r.server.t_end + 0.05]
        if late:
            yield ('ended-early', f'server ended at {r.server.t_end} with tasks still running: {late}')
    c.count('failures', len(want))
    return run.report(c, sc, run.exactly_once(r), extra(), run.exits(r))


def body(c):
    n = c.pick(40, 400)
    scs = []
    for i in range(n):
        sc = run.scenario(c.rng, submit=c.rng.choice(['stdin', 'file', 'slow']), sleep=c.rng.choice([[0, 0], [0, 0.1], [0.1, 1.5]]),
                          n=c.rng.choice([1, 2, 3, 4, 6, 9, 13, 20]), qsize=c.rng.choice([1, 1, 2, 5]), db=c.rng.random() < 0.3)
        if i % 4 == 0:
            # the last, incomplete bundle meets clients that are still busy
            sc.update(b=c.rng.choice([2, 3, 4]), n=c.rng.choice([5, 7, 9]), clients=1, N=1, sleep=[0.8, 2.2], qsize=1, queue_delay=None)
        scs.append(sc)
    scs[0].update(n=1, clients=2)

    def one(sc):
        with run.Run('c03', db=sc['db']) as r:
            r.db = False
            return play(c, sc, r)
    run.campaign(c, scs, one, workers=6, budget=c.pick(200, 3000))
    c.require('runs', 12)
    c.require('failures', 10)


if __name__ == '__main__':
    core.main(core.Check('C03', LEVEL, RULE), body)
