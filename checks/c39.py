"""C39: a failing database ends the run with an error, not in silence; nothing is lost or repeated."""
import os
import random
import sqlite3
import subprocess
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, halt, hs, run

TECHNIQUE = ('fault injection with a runtime monitor: during runs the database is locked by somebody else for various times, or cannot grow any more; '
             'ends, exit statuses, processes, executions and records are checked, and again after a restart without the fault')
LEVEL = 'exploration'
LEVEL_NOTE = ('Held for the faults explored. SQLite only. A lock is held by another connection to the same file, a full disk is a limit on the size of files set for the '
              'server process. Whether a lock is short (under three seconds) or long (over the five seconds that the database library waits) decides what is expected; between them neither is.')
RULE = 'one case per run and fault; non-trivial when work was outstanding at the fault'
KINDS = ['lock-short', 'lock-long', 'lock-long', 'lock-return', 'lock-long', 'full', 'lock-burst', 'lock-submit', 'lock-return', 'full']


def body(c):
    scs = []
    for i in range(c.pick(40, 400)):
        kind = KINDS[i % len(KINDS)]
        sc = {'seed': c.rng.getrandbits(32), 'kind': kind, 'program': c.rng.choice(['server', 'server', 'cluster', 'env', 'auto']), 'n': c.rng.choice([20, 40]),
              'b': c.rng.choice([1, 2, 4, 20]), 'w': 1, 'N': c.rng.choice([1, 2, 4]), 'clients': c.rng.choice([1, 2]), 'cb': c.rng.choice([1, 2, 4]),
              'sleep': c.rng.choice([[0, .1], [.1, .5], [.1, .5]]), 'source': c.rng.choice(['before', 'forever', 'file', 'stdin', 'slow']),
              'after': round(c.rng.uniform(0, 2), 2), 'retries': c.rng.choice([0, 0, 1]), 'eager': False, 'no_confirm': c.rng.random() < .3, 'queuesize': c.rng.choice([1, 1, 3]),
              'capture': False, 'lock': c.rng.choice(['IMMEDIATE', 'EXCLUSIVE']), 'big': c.rng.random() < .2,
              'held': round(c.rng.uniform(.2, 2.5) if kind == 'lock-short' else c.rng.uniform(.1, .7) if kind == 'lock-burst' else c.rng.uniform(5.3, 7) if c.rng.random() < .6 else c.rng.uniform(8, 14), 2)}
        if kind == 'lock-return':      # the result comes back to a locked database while nothing else happens
            sc.update(n=4, sleep=[2.5, 3.5], N=4, b=c.rng.choice([1, 4]), cb=c.rng.choice([1, 4]), source=c.rng.choice(['before', 'file']), after=1.2, held=round(c.rng.uniform(8.5, 11), 2))
        if sc['program'] != 'server':
            sc['launch'] = None if sc['program'] == 'cluster' else sc['program']
            sc['clients'] = 0
            if sc['source'] == 'forever':
                sc['source'] = 'before'
        if sc['launch'] if 'launch' in sc else False:
            sc['no_confirm'] = False
        scs.append(sc)
    run.campaign(c, scs, lambda sc: one(c, sc), workers=6, budget=c.pick(300, 3000))
    c.require('runs', 20)
    c.require('faults', 20)
    c.require('ended by the fault', 6)
    c.require('unharmed', 3)


def lock(r, sc, hold, stop=None):
    con = sqlite3.connect(r.site.db, timeout=30, isolation_level=None, check_same_thread=False)
    con.execute('BEGIN ' + sc['lock'])
    time.sleep(hold)
    con.execute('ROLLBACK')
    con.close()


def one(c, sc):
    rng = random.Random(sc['seed'])
    kind, limit = sc['kind'], sc['retries'] + 1
    with run.Run('c39') as r:
        tasks = run.gen_tasks(rng, sc['n'], fail=.1, flaky=.2 if limit > 1 else 0, sleep=sc['sleep'], signals=False)
        for t in tasks if sc['big'] or kind == 'full' else ():
            t.args += ' "" ' + 'x' * 3000
        if kind == 'lock-submit':
            return submit(c, sc, r, tasks)
        if sc['source'] in ('before', 'forever'):
            r.submit(tasks, '-b', 8)
        args, cargs, env = halt.start(r, sc, 'server' if sc['program'] == 'server' else 'cluster', tasks, False, {'seed': sc['seed']})
        for _ in range(sc['clients']):
            r.start_client(*cargs, env=env)
        hs.wait_for(lambda: r.site.journal() or not r.server.alive(), 60)
        if not r.server.alive():
            return run.report(c, sc, [('early-end', f'ended on its own: {r.server.tail(900)}')])
        time.sleep(sc['after'])
        before = sum(1 for x in r.site.tasks() if not x['completion_time'])
        alive = r.server.alive()
        t_fault = time.time()
        if kind == 'full':
            size = max(os.path.getsize(os.path.join(r.site.dir, f)) for f in os.listdir(r.site.dir) if os.path.isfile(os.path.join(r.site.dir, f)) and 'db' in f)
            subprocess.run(['prlimit', '--pid', str(r.server.pid), f'--fsize={max(size, os.path.getsize(r.server.errpath), 4096) + rng.choice([0, 0, 4096, 20000])}'], capture_output=True)
        elif kind == 'lock-burst':
            for _ in range(4):
                lock(r, sc, sc['held'])
                time.sleep(rng.uniform(.05, .6))
        else:
            lock(r, sc, sc['held'])
        t_over = time.time()
        short = kind in ('lock-short', 'lock-burst')
        endless = sc['source'] == 'forever' or sc.get('launch') == 'auto'
        # a run without end is done when its work is done
        final = lambda: halt.finished(r.site, tasks, limit)
        if endless:
            hs.wait_for(lambda: not r.server.alive() or final(), 40)
            if r.server.alive() and final():
                r.server.signal(10)      # SIGUSR1
        r.settle(stall=30, limit=150)
        if r.outcome == 'timeout':
            c.inconclusive(f'no end within the limit: {sc}')
            return 0
        left = []
        if r.outcome == 'done':
            hs.wait_for(lambda: not halt.leftovers(r.server.pid), 10)
            left = halt.leftovers(r.server.pid)
        r.observe()
        c.count('runs')
        c.count(kind)
        c.count('faults', alive and before > 0)
        failed = r.outcome == 'done' and r.server.status != 0
        c.count('ended by the fault' if failed else 'unharmed')
        if sc['source'] in ('file', 'stdin', 'slow') and failed:
            present = {x['args'] for x in r.rows}
            r.tasks = [t for t in tasks if t.args in present]
        c.case(sc, sample={'scenario': sc, 'outstanding': before, 'status': r.server.status}, nontrivial=alive and before > 0)

        def fault():
            if short and failed:
                yield ('short-lock', f'ended with {r.server.status} though the database was locked for {sc["held"]} s only: {r.server.tail(1200)}')
            if failed and r.server.status not in (5, 6):
                yield ('status', f'exit status {r.server.status} after a failure of the database: {r.server.tail(900)}')
            if failed and kind != 'full' and r.server.t_end - t_over > 40:
                yield ('slow-end', f'ended {r.server.t_end - t_over:.0f} s after the fault')
            if failed and 'database' not in r.server.err and 'disk' not in r.server.err and kind != 'full':
                yield ('silent', f'nothing was said about the failure: {r.server.tail(900)}')
            if left:
                yield ('leftover', f'processes left behind: {left}')
            for x in r.rows:
                ex = [e for es in r.execs.values() for e in es if e[2] == x['id']]
                if x['completion_time'] and x['exit_status'] not in [e[5] for e in ex]:
                    yield ('wrong-status', f'{x["args"][:80]!r} recorded {x["exit_status"]}, the executions gave {ex}')
        bad = run.report(c, sc, run.hung(r), fault(), (x for x in run.exactly_once(r, limit) if x[0] not in ('lost', 'unfinished') or not failed), run.records(r, limit) if not failed else (),
                         run.exits(r) if not failed else ())
        if bad or not failed:
            return bad
        done = {x['id']: x for x in r.rows if x['completion_time']}
        at = time.time()
        for p in [r.server, *r.clients]:
            p.kill()
        r.clients = []
        _, cargs, env = halt.start(r, dict(sc, N=3, cb=1, no_confirm=False), 'server', [], True, {'seed': sc['seed'] + 1})
        for _ in range(2):
            r.start_client(*cargs, env=env)
        r.settle(stall=40, limit=150)
        if r.outcome == 'timeout':
            c.inconclusive(f'no end within the limit: {sc}')
            return 0
        r.observe()
        c.count('completed by the restart', sum(1 for x in r.rows if x['completion_time'] and x['id'] not in done))
        return run.report(c, sc, run.hung(r), halt.completed(r, done, at, limit), run.exits(r))


def submit(c, sc, r, tasks):
    """`hs submit` against a locked database: all or, with an error, the first tasks."""
    r.site.cli('submit', '-', stdin='true\n')
    fifo = r.site.path / 'fifo'
    os.mkfifo(fifo)
    r.hold = threading.Event()
    bursts = [[.1, 7], [1.5, 7], [.2, 3], [2, 3]]
    threading.Thread(target=r.feed, args=(fifo, list(tasks), bursts), daemon=True).start()
    r.tasks = tasks
    p = r.site.spawn('submit', '-', '-b', sc['b'] if sc['b'] < 20 else 5, '-w', 1, stdin=fifo, perturb={'sleep_cap': .15})
    hs.wait_for(lambda: len(r.site.tasks()) > 5 or not p.alive(), 40)
    held = sc['held']
    lock(r, sc, held)
    time.sleep(.5)
    r.hold.set()
    p.wait(60)
    got = [x['args'] for x in sorted(r.site.tasks(), key=lambda x: x['submit_time']) if x['args'] != 'true']
    c.count('runs')
    c.count('lock-submit')
    c.count('faults')
    c.count('unharmed' if p.status == 0 else 'ended by the fault')
    c.case(sc, sample={'scenario': sc, 'stored': len(got), 'status': p.status}, nontrivial=True)

    def oracle():
        if p.alive():
            yield ('hang', f'submit still running 60 s after the database was available again: {p.tail(900)}')
        elif p.status != 0 and p.status not in (5, 6):
            yield ('status', f'exit status {p.status} after a failure of the database: {p.tail(900)}')
        elif p.status == 0 and got != [t.args for t in tasks]:
            yield ('lost', f'submit succeeded with {len(got)} of {len(tasks)} tasks stored')
        elif got != [t.args for t in tasks][:len(got)]:
            yield ('order', f'stored {got[:5]}... of {tasks[:5]}')
        if held < 3 and not p.alive() and p.status != 0:
            yield ('short-lock', f'submit failed: {p.tail(900)}')
    return run.report(c, sc, oracle())


if __name__ == '__main__':
    core.main(core.Check('C39', LEVEL, RULE, TECHNIQUE), body)
