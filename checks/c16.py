"""C16: one bad task cannot harm the run."""
import json
import os
import random
import shutil
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = 'fault injection with runtime monitors: tasks that cannot be expanded or started, die, flood, or lose their working directory, capture directory or database record while running; journal, records and exit statuses of everything else are checked'
LEVEL = 'exploration'
LEVEL_NOTE = 'Held on the faults injected, in random mixes and positions; not every failure of the operating system is simulated.'
RULE = 'one case per bad task in a run; non-trivial when the fault really took effect'
ADD = hs.VERIF / 'workers' / 'add_task.py'

KINDS = ['expand', 'nul', 'big', 'cwd', 'cwd-goes', 'capdir-goes', 'crash', 'flood', 'deleted', 'changed', 'deleted', 'changed', 'deleted-early', 'mixed', 'shell']


def body(c):
    n = c.pick(30, 300)
    scs = []
    for i in range(n):
        scs.append({'kind': KINDS[i % len(KINDS)], 'db': c.rng.random() < 0.7, 'good': c.rng.choice([2, 4, 8, 12]), 'bad': c.rng.choice([1, 1, 2, 4]), 'N': c.rng.choice([1, 1, 2, 4]), 'b': c.rng.choice([1, 2, 4, 10]), 'cb': c.rng.choice([1, 2, 4]),
                    'retries': c.rng.choice([0, 0, 1]), 'clients': c.rng.choice([1, 2]), 'capture': c.rng.random() < 0.4, 'no_confirm': c.rng.random() < 0.3, 'sql_delay': c.rng.choice([None, [0.5, 0.1]]), 'seed': c.rng.randrange(1 << 30)})
        if scs[-1]['kind'] in ('deleted', 'changed', 'deleted-early', 'nul', 'big', 'mixed'):
            scs[-1]['db'] = True
        if scs[-1]['kind'] == 'capdir-goes':
            scs[-1]['capture'] = True

    def one(sc):
        rng = random.Random(sc['seed'])
        kind = sc['kind']
        with run.Run('c16', db=sc['db']) as r:
            good = run.gen_tasks(rng, sc['good'], prefix='g', fail=0.2, sleep=(0, 0.3))
            bad, template, cenv = [], '{}', {}
            for k in range(sc['bad']):
                what = kind if kind != 'mixed' else rng.choice(['expand', 'nul', 'big', 'crash', 'flood', 'deleted', 'changed'])
                t = f'b{k}'
                b = {'expand': run.Task(t, args=f'bad{k} {{}} thing', spec='none'),
                     'shell': run.Task(t, args=f'bad{k} thing', spec='none'),
                     'nul': run.Task(t, args=f'job {t} 0 0 a\0b', spec='none'),
                     'big': run.Task(t, args=f'job {t} 0 0 ' + 'y' * rng.choice([131072, 200000, 3000000]), spec='none'),
                     'crash': run.Task(t, 0, rng.choice(['sig11', 'sig6', 'sig9', 'sig4'])),
                     'flood': run.Task(t, args=f'job {t} 0 7 "$(yes 0123456789 | head -c 100)"; yes flood | head -c 20000000; yes flood | head -c 5000000 >&2; exit 7', spec='7'),
                     'deleted': run.Task(t, rng.choice([1.5, 2.5]), '0'),
                     'changed': run.Task(t, rng.choice([1.5, 2.5]), '0'),
                     'deleted-early': run.Task(t, 0.2, '0'),
                     'cwd-goes': run.Task(t, args=f'job {t}; rm -rf "$TASK_CWD"', spec='0'),
                     'capdir-goes': run.Task(t, args=f'job {t}; mv "${{TASK_OUTPATH%/*}}" "$HOME/moved-{k}"', spec='0'),
                     'cwd': run.Task(t, args=f'job {t}', spec='none')}[what]
                b.what = what
                bad.append(b)
            if kind in ('expand', 'mixed'):
                template = '{= x if str(x).startswith(("job", "exec job")) else 1 / 0 =}'
            if kind == 'shell':
                template = '{% case "@" in bad*) exit 3;; esac; echo "@" %}'
            gone = r.site.path / 'gone'
            if kind in ('cwd', 'cwd-goes'):
                cenv['HYPERSHELL_TASK_CWD'] = gone
                if kind == 'cwd-goes':
                    gone.mkdir()
                    bad = bad[:1]
            if kind == 'capdir-goes':
                bad = bad[:1]
            everything = good + bad
            rng.shuffle(everything)
            flag = ['--no-confirm'] if sc['no_confirm'] else []
            sp = {'sql_delay': sc['sql_delay'], 'seed': sc['seed']} if sc['sql_delay'] else None
            args = ['-b', sc['b'], '-w', 1, *flag]
            r.tasks = everything
            if sc['db']:
                p = r.site.spawn('-', script=str(ADD), stdin=json.dumps([{'args': t.args, 'tag': {'v': 1}} for t in everything]))
                if p.wait(60) != 0:
                    raise run.Broken('submit-failed', p.tail())
                r.start_server('--restart', '-r', sc['retries'], *args, perturb=sp)
            else:
                r.server = r.site.server('--no-db', *args, stdin=''.join(t.args + '\n' for t in everything))
            for i in range(sc['clients']):
                r.start_client('-N', sc['N'], '-b', sc['cb'], '-w', 1, '-t', template, *flag, *(['--capture'] if sc['capture'] else []), wait=i == 0, env=cenv)
            touched = {}

            def meddle(t):
                """Change or delete the record of a task that is running (or, early, one just marked scheduled)."""
                if t.what == 'deleted-early':
                    ok = hs.wait_for(lambda: (r.site.query('SELECT id FROM task WHERE args = ? AND schedule_time IS NOT NULL', t.args) or [None])[0], 40, 0.002)
                else:
                    ok = hs.wait_for(lambda: any(x[0] == 'S' and x[1] == t.token for x in r.site.journal()), 40, 0.02)
                if not ok:
                    return
                row = (r.site.query('SELECT id FROM task WHERE args = ?', t.args) or [None])[0]
                if row is None:
                    return
                for attempt in range(20):
                    try:
                        con = r.site.connect()
                        with con:
                            if t.what.startswith('deleted'):
                                con.execute('DELETE FROM task WHERE id = ?', (row['id'],))
                            else:
                                con.execute('UPDATE task SET tag = ? WHERE id = ?', ('{"v": 2, "w": "new"}', row['id']))
                        con.close()
                        touched[t.token] = row['id']
                        return
                    except Exception:   # noqa: locked
                        time.sleep(0.05)
            threads = [threading.Thread(target=meddle, args=(t,), daemon=True) for t in bad if t.what in ('deleted', 'changed', 'deleted-early')]
            for th in threads:
                th.start()
            r.settle(stall=25)
            for th in threads:
                th.join(60)
            if r.outcome == 'timeout':
                c.inconclusive(f'no end within the limit: {sc}')
                return 0
            r.observe()
            stop = run.report(c, sc, run.hung(r))
            if stop:
                return stop
            c.count('runs')
            c.count('good', len(good))

            def oracle():
                limit = sc['retries'] + 1 if sc['db'] else 1
                for t in bad:
                    rows = run.chain_of(r, t)
                    ran = r.execs.get(t.token, [])
                    effective = t.what not in ('deleted', 'changed', 'deleted-early') or t.token in touched
                    c.case((sc['kind'], t.what, sc['seed'], t.token), sample={'kind': t.what, 'args': t.args[:80], 'statuses': [x['exit_status'] for x in rows]}, nontrivial=effective)
                    if effective:
                        c.count(t.what)
                    if t.what in ('expand', 'shell', 'nul', 'big', 'cwd'):
                        if ran:
                            yield ('ran-anyway', f'{t.what} task ran: {t.args[:80]!r}')
                        if sc['db']:
                            if len(rows) != limit:
                                yield ('bad-records', f'{t.what} task has {len(rows)} records, expected {limit}')
                            for row in rows:
                                if row['exit_status'] in (None, 0) or row['completion_time'] is None or row['start_time'] is None:
                                    yield ('bad-not-failed', f'{t.what} task recorded as status {row["exit_status"]}, start {row["start_time"]}, completed {row["completion_time"]}')
                    elif t.what in ('crash', 'flood') and sc['db']:
                        want = [t.status(1)] * limit
                        if [x['exit_status'] for x in rows] != want:
                            yield ('bad-status', f'{t.what} task {t.args[:60]!r} recorded {[x["exit_status"] for x in rows]}, expected {want}')
                    elif t.what == 'changed' and t.token in touched:
                        if len(rows) != 1 or rows[0]['exit_status'] != 0 or len(ran) != 1:
                            yield ('changed-task', f'task whose tags changed while running: {len(ran)} executions, records {[x["exit_status"] for x in rows]}')
                        elif json.loads(rows[0]['tag']) != {'v': 2, 'w': 'new'}:
                            yield ('change-undone', f'tags set while the task was running were overwritten by its result: {rows[0]["tag"]}')
                    elif t.what.startswith('deleted') and t.token in touched:
                        if rows:
                            yield ('deleted-task', f'deleted record is back: {rows[0]}')
                        if len(ran) > 1:
                            yield ('deleted-task', f'deleted task ran {len(ran)} times')

            def filtered(stream):
                """The good ones. Where a bad one took the directory away, others may fail to start but are recorded."""
                for mech, desc in stream:
                    yield mech, desc
            class Good:
                pass
            g = Good()
            g.__dict__.update(r.__dict__)
            g.tasks = good
            g.execs = {k: v for k, v in r.execs.items() if not k.startswith('b')}
            limit = sc['retries'] + 1 if sc['db'] else 1

            def collateral():
                # no directory to run in / to capture to: every task is either run properly or recorded as failed to start
                for t in good:
                    rows, ran = run.chain_of(r, t), r.execs.get(t.token, [])
                    ids = {e[2]: e for e in ran}
                    for row in rows:
                        if row['completion_time'] is None or row['exit_status'] is None:
                            yield ('not-completed', f'{t.args!r} has no outcome recorded')
                        elif row['id'] in ids and row['exit_status'] != t.status(1):
                            yield ('wrong-status', f'{t.args!r} ran with {t.status(1)}, recorded {row["exit_status"]}')
                        elif row['id'] not in ids and row['exit_status'] == 0:
                            yield ('wrong-status', f'{t.args!r} did not run, recorded as successful')
                    if len(ran) > limit:
                        yield ('repeated', f'{t.args!r} ran {len(ran)} times')
            streams = [collateral()] if kind in ('cwd', 'cwd-goes', 'capdir-goes') else [run.exactly_once(g, limit), run.records(g, limit) if sc['db'] else ()]
            return run.report(c, sc, oracle(), *streams, run.exits(r), clients(r))

    def clients(r):
        for cl in r.clients:
            if cl.status != 0 and 'refused' not in cl.err:
                yield ('client-exit', f'client exit status {cl.status}: {cl.tail(700)}')
    run.campaign(c, scs, one, workers=6, budget=c.pick(200, 3000))
    for k in ('expand', 'nul', 'big', 'cwd', 'deleted', 'changed', 'crash', 'flood'):
        c.require(k, 1)
    c.require('runs', 12)


if __name__ == '__main__':
    core.main(core.Check('C16', LEVEL, RULE), body)
