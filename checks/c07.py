"""C07: bounded attempts, one successor per failure, nothing else."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = 'runtime monitor: counted executions per task and attempt-chain invariants over records and committed history, in random runs with failing and flaky tasks and delayed database statements'
LEVEL = 'exploration'
LEVEL_NOTE = 'Held on the runs explored; failures are real process exits, counted in a journal the tasks write themselves. SQLite only.'
RULE = 'one case per complete run with a retry limit; non-trivial when a task failed at least once'


def body(c):
    n = c.pick(36, 400)
    scs = []
    for i in range(n):
        sc = run.scenario(c.rng, flaky=c.rng.choice([0.3, 0.6]), fail=0.3, retries=c.rng.choice([1, 2, 3, 4]),
                          eager=c.rng.random() < 0.5, n=c.rng.choice([1, 2, 3, 6, 10, 15]))
        if i % 3 == 0:
            # the last failure arrives at any point of the scheduler's decision to finish
            sc.update(n=c.rng.choice([1, 2]), fail=0.6, flaky=0.4, sql_delay=[1.0, c.rng.choice([0.1, 0.3])], sleep=[0, 0.3], clients=1, submit='stdin')
        scs.append(sc)

    def one(sc):
        with run.Run('c07') as r:
            run.play(r, sc)
            limit = sc['retries'] + 1
            failed = sum(1 for t in r.tasks if t.status(1) != 0)
            c.case(sc, sample={'scenario': sc, 'executions': sum(map(len, r.execs.values()))}, nontrivial=failed > 0)
            c.count('runs')
            c.count('failed_attempts', sum(1 for row in r.rows if row['exit_status']))
            c.count('retries', sum(1 for row in r.rows if row['attempt'] > 1))
            c.count('executions', sum(map(len, r.execs.values())))
            if r.outcome == 'timeout':
                c.inconclusive(f'run did not end within its limit: {sc}')
                return 0
            bad = run.report(c, sc, run.hung(r))
            if bad:
                return bad
            return run.report(c, sc, run.exactly_once(r, limit), run.records(r, limit), run.chains(r, limit),
                              (x for x in run.lifecycle(r) if x[0] in ('state', 'identity-changed', 'successor-changed', 'completed-changed')))
    run.campaign(c, scs, one, workers=6, budget=c.pick(160, 3000))
    c.require('runs', 12)
    c.require('retries', 30)


if __name__ == '__main__':
    core.main(core.Check('C07', LEVEL, RULE), body)
