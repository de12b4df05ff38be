"""C02: with a database every task runs exactly once and its result is recorded."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = 'runtime monitor: execution journal written by the tasks themselves against database records and the committed history, over random cluster runs with injected delays'
LEVEL = 'exploration'
LEVEL_NOTE = ('Held on the runs explored: random numbers of clients, executors, bundle sizes and waits, submission modes and seeded delays in database, '
              'queue and process start; loopback network and SQLite only.')
RULE = 'one case per complete run of a server with its clients on a scratch database; distinct by scenario; non-trivial when it has more than one task'


def body(c):
    n = c.pick(34, 400)
    scs = [run.scenario(c.rng) for _ in range(n)]
    # fixed corners
    scs[0].update(n=1, clients=3, N=4, b=7, cb=5, submit='stdin')
    scs[1].update(n=30, clients=3, N=4, b=1, cb=1, submit='file', sleep=[0, 0], sql_delay=None, queue_delay=None)
    scs[2].update(n=20, clients=2, submit='before', late_client=True)
    scs[3].update(n=30, clients=1, N=4, b=7, cb=5, submit='during')

    def one(sc):
        with run.Run('c02') as r:
            run.play(r, sc)
            c.case(sc, sample={'scenario': sc, 'executions': len(r.journal) // 2, 'commits': len(r.history)}, nontrivial=sc['n'] > 1)
            c.count('runs')
            c.count('executions', sum(len(e) for e in r.execs.values()))
            c.count('committed_changes', len(r.history))
            if r.outcome == 'timeout':
                c.inconclusive(f'run did not end within its limit: {sc}')
                return 0
            bad = run.report(c, sc, run.hung(r))
            if bad:
                return bad
            return run.report(c, sc, run.exactly_once(r), run.records(r), run.clients_consistent(r), run.exits(r))
    run.campaign(c, scs, one, workers=6, budget=c.pick(150, 3000))
    c.require('runs', 10)
    c.require('executions', 50)


if __name__ == '__main__':
    core.main(core.Check('C02', LEVEL, RULE), body)
