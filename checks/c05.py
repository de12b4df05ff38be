"""C05: a crashed server loses no work and repeats none that was recorded."""
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = 'fault injection with a runtime monitor: the server is SIGKILLed at chosen commits, statements and times, restarted, and executions, records and chains are checked against the snapshot at each crash'
LEVEL = 'exploration'
LEVEL_NOTE = 'Held for the crash points explored (before/after each kind of database statement and commit, random times, one to three crashes in a row). SQLite only; the machine itself does not crash.'
RULE = 'one case per history of one to three server crashes followed by a recovery run; non-trivial when the server was really killed with work outstanding'

KINDS = ['task-inserted', 'commit', 'committed', 'after-update', 'before-update', 'after-insert', 'before-insert', 'stmt']


def body(c):
    n = c.pick(40, 500)
    scs = []
    for i in range(n):
        sc = run.scenario(c.rng, n=c.rng.choice([2, 4, 6, 10, 16]), retries=c.rng.choice([0, 1, 2]), flaky=0.3, fail=0.2,
                          submit=c.rng.choice(['before', 'stdin']), sleep=c.rng.choice([[0, 0.05], [0, 0.3]]), clients=c.rng.choice([1, 1, 2]),
                          queue_delay=None, eager=c.rng.random() < 0.3)
        kills = []
        for _ in range(c.rng.choice([1, 1, 2, 3])):
            if c.rng.random() < 0.2:
                kills.append({'after': round(c.rng.uniform(0.3, 2.5), 2)})
            else:
                kind = c.rng.choice(KINDS)
                kills.append({'kind': kind, 'n': c.rng.randint(1, 60 if kind == 'stmt' else 4 if 'insert' in kind else 14)})
        sc['kills'] = kills
        scs.append(sc)
    # every early commit and every point around the scheduling of a retry
    for i, sc in enumerate(scs[:14]):
        sc['kills'] = [{'kind': 'task-inserted', 'n': 1 + i // 3} if i % 3 == 1 else {'kind': ['commit', 'committed'][i % 2], 'n': 2 + i // 2}]
        if i % 4 == 3:
            sc['kills'] *= 2
        sc.update(n=3, retries=2, fail=1.0 if i % 3 else 0.5, flaky=0, b=2, submit='before')

    # more work under way at the crash than is looked at at once
    for sc in scs[14:16 if not c.thorough else 40]:
        sc.update(n=c.rng.choice([210, 330]), b=c.rng.choice([105, 150]), submit='before', fail=.01, flaky=.01, sleep=[.01, .05], N=2, cb=20, clients=1,
                  kills=[{'kind': 'committed', 'n': c.rng.randint(4, 9)}])

    def one(sc):
        rng = random.Random(sc['seed'])
        limit = sc['retries'] + 1
        with run.Run('c05') as r:
            tasks = run.gen_tasks(rng, sc['n'], fail=sc['fail'], flaky=sc['flaky'], sleep=sc['sleep'])
            args = ['-b', sc['b'], '-w', sc['w'], '-r', sc['retries']] + (['--eager'] if sc['eager'] else []) + (['--no-confirm'] if sc['no_confirm'] else [])
            cargs = ['-N', sc['N'], '-b', sc['cb'], '-w', sc['cw']] + (['--no-confirm'] if sc['no_confirm'] else [])
            if sc['submit'] == 'before':
                tags = run.some_tags(sc)
                r.submit(run.tagged(tasks, tags), *run.tag_args(tags), '-b', sc['b'])
            snapshots = []
            crashed = 0
            for k, kill in enumerate([*sc['kills'], None]):
                sp = {'seed': sc['seed'] + k}
                if kill and 'after' in kill:
                    sp['kill_after'] = kill['after']
                elif kill:
                    sp['kill'] = kill
                elif sc.get('sql_delay'):
                    sp['sql_delay'] = sc['sql_delay']
                if k == 0 and sc['submit'] == 'stdin':
                    r.start_server(*args, tasks=tasks, perturb=sp)
                else:
                    if not r.site.query('SELECT count(*) AS n FROM task')[0]['n']:
                        return 0     # crashed before anything was submitted
                    r.start_server('--restart', *args, perturb=sp)
                r.clients = []
                if hs.wait_listening(r.server):
                    for _ in range(sc['clients']):
                        r.start_client(*cargs, wait=False)
                if kill is None:
                    r.settle(stall=25)
                    break
                out = hs.settle([r.server], r.progress, stall=25, limit=90)
                if out != 'done':
                    r.outcome = out
                    break
                if r.server.status < 0:
                    crashed += 1
                for p in [r.server, *r.clients]:
                    p.kill()
                for p in r.clients:
                    p.wait(10)
                time.sleep(0.05)
                rows = r.site.tasks()
                snapshots.append((time.time(), {x['id']: x for x in rows if x['completion_time']}, len(rows), sum(x['completion_time'] is None and x['schedule_time'] is not None for x in rows)))
            c.count('crashes', crashed)
            c.count('runs')
            r.observe()
            # what was submitted is what the database held
            present = {x['args'] for x in r.rows}
            if sc['submit'] == 'before' and len(present) != len(tasks):
                yield_bad = [('submitted-lost', f'{sorted({t.args for t in tasks} - present)}')]
            else:
                yield_bad = []
            r.tasks = [t for t in tasks if t.args in present]
            c.case(sc, sample={'scenario': sc, 'crashes': crashed, 'executions': len(r.execs)}, nontrivial=crashed > 0)
            c.count('crashes with over 100 under way', sum(s[3] > 100 for s in snapshots))
            c.count('executions', sum(map(len, r.execs.values())))
            c.count('recorded_at_crash', sum(len(s[1]) for s in snapshots))
            if r.outcome == 'timeout':
                c.inconclusive(f'no end within the limit: {sc}')
                return 0
            bad = run.report(c, sc, run.hung(r))
            if bad:
                return bad
            return run.report(c, sc, yield_bad, check(r, snapshots, limit), run.exits(r), run.chains(r, limit),
                              (x for x in run.lifecycle(r, restarted=True) if x[0] in ('state', 'identity-changed', 'successor-changed', 'completed-changed')))

    def check(r, snapshots, limit):
        for t in r.tasks:
            rows = run.chain_of(r, t)
            for row in rows:
                ex = [e for e in r.execs.get(t.token, []) if e[2] == row['id']]
                if row['completion_time'] is None:
                    yield ('lost', f'{t.args!r} attempt {row["attempt"]} never completed ({len(ex)} executions)')
                elif not ex:
                    yield ('no-execution', f'{t.args!r} attempt {row["attempt"]} completed without execution')
                elif row['exit_status'] not in {e[5] for e in ex}:
                    yield ('wrong-status', f'{t.args!r} attempt {row["attempt"]} recorded {row["exit_status"]}, executions gave {[e[5] for e in ex]}')
            if rows and rows[-1]['exit_status'] != 0 and rows[-1]['attempt'] < limit:
                yield ('retry-lost', f'{t.args!r} ends at attempt {rows[-1]["attempt"]} of {limit} with status {rows[-1]["exit_status"]}')
        now = {x['id']: x for x in r.rows}
        for at, done, *_ in snapshots:
            for tid, row in done.items():
                again = [e for ex in r.execs.values() for e in ex if e[2] == tid and e[0] > at]
                if again:
                    yield ('repeated', f'{row["args"]!r} was recorded complete at the crash and ran again: {again}')
                new = now.get(tid)
                if new is None:
                    yield ('record-lost', f'{row["args"]!r} was recorded complete and is gone')
                    continue
                for k in ('exit_status', 'completion_time', 'start_time', 'client_id', 'command', 'attempt', 'previous_id', 'args', 'tag', 'submit_time'):
                    if row[k] != new[k]:
                        yield ('record-changed', f'{row["args"]!r}: {k} {row[k]!r} -> {new[k]!r}')
    run.campaign(c, scs, one, workers=6, budget=c.pick(200, 3000))
    c.require('runs', 12)
    c.require('crashes', 10)
    c.require('recorded_at_crash', 10)
    c.require('crashes with over 100 under way', 1)


if __name__ == '__main__':
    core.main(core.Check('C05', LEVEL, RULE), body)
