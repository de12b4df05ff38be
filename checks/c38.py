"""C38: asked to stop, a run drains; interrupted, it ends; started again, it completes the rest."""
import os
import random
import signal
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, halt, hs, run

TECHNIQUE = ('fault injection with a runtime monitor: servers, local clusters and clients are sent SIGUSR1, SIGUSR2 or SIGINT at random moments of a run; executions, records, processes, '
             'exit statuses and ports are checked at their end and again after a restart has completed the rest')
LEVEL = 'exploration'
LEVEL_NOTE = ('Held for the moments and workloads explored, with a database. A stopped server needs a client to take what it scheduled, and the end of its input. '
              'Interrupts which arrive while a program is still loading its modules are not sent.')
RULE = 'one case per run that is signalled and then completed; non-trivial when work was left for the restart (signals) or outstanding at the interrupt'
DRAIN = ('usr1-server', 'usr2-server', 'usr1-cluster', 'usr2-cluster', 'both-cluster')
INTERRUPT = ('int-server', 'int-cluster', 'int-group', 'int-client')
SMALL = ('int-queued', 'int-submit', 'int-wait', 'int-run', 'int-waiting-server', 'int-waiting-client')


def body(c):
    scs = []
    kinds = [*DRAIN, *INTERRUPT]
    for i in range(c.pick(36, 360)):
        kind = kinds[i % len(kinds)]
        cluster = 'cluster' in kind
        hard = kind in ('usr2-cluster', 'both-cluster')
        sc = {'seed': c.rng.getrandbits(32), 'kind': kind, 'n': c.rng.choice([24, 40, 60]), 'b': c.rng.choice([1, 1, 2, 4]), 'w': 1,
              'N': c.rng.choice([1, 2, 3]), 'clients': 1 if cluster else c.rng.choice([1, 2]), 'cb': c.rng.choice([1, 2, 4]),
              'sleep': [20, 40] if hard and c.rng.random() < .7 else [.2, .7],
              'source': c.rng.choice(['before', 'file', 'stdin', 'slow'] if cluster else ['before', 'forever', 'file', 'stdin', 'slow']),
              'after': round(c.rng.uniform(0, 2.5), 2), 'retries': 0 if hard else c.rng.choice([0, 0, 1, 2]), 'eager': c.rng.random() < .3,
              'no_confirm': c.rng.random() < .3 and kind != 'int-client', 'queuesize': c.rng.choice([1, 1, 3]), 'capture': c.rng.random() < .2}
        if c.rng.random() < .5 and sc['sleep'][1] < 10:      # the server busy with scheduling more than with waiting
            sc.update(sql_delay=[.4, .15], sleep=[0, .1], n=90, b=c.rng.choice([2, 4, 8]))
        if kind in ('usr1-cluster', 'int-cluster', 'int-group'):
            sc['launch'] = c.rng.choice([None, 'env', 'auto'])
            if sc['launch']:
                sc['no_confirm'] = False
        if kind == 'int-client':
            sc['clients'] = 2
            sc.pop('sql_delay', None)      # else it often dies with a bundle it could not confirm yet
        if hard and sc['sleep'][0] > 1:
            sc['n'] = 24
        scs.append(sc)
    scs += [{'seed': c.rng.getrandbits(32), 'kind': k, 'after': round(c.rng.uniform(.2, 2), 2)} for k in SMALL * c.pick(1, 6)]

    def one(sc):
        return small(c, sc) if sc['kind'] in SMALL else signalled(c, sc)
    run.campaign(c, scs, one, workers=6, budget=c.pick(330, 3000))
    c.require('runs', 20)
    c.require('drained', 8)
    c.require('left for the restart', 40)
    c.require('interrupted', 8)


def signalled(c, sc):
    rng = random.Random(sc['seed'])
    kind, limit = sc['kind'], sc['retries'] + 1
    hard = kind in ('usr2-cluster', 'both-cluster')
    with run.Run('c38') as r:
        tasks = run.gen_tasks(rng, sc['n'], fail=.1, flaky=.15 if limit > 1 else 0, sleep=sc['sleep'], signals=not hard)
        for t in tasks if hard else ():
            t.args = 'exec ' + t.args      # so that the signal finds the program and not a shell in front of it
        if sc['source'] in ('before', 'forever'):
            r.submit(tasks, '-b', 8)
        args, cargs, env = halt.start(r, sc, kind, tasks, False, {'seed': sc['seed'], **({'sql_delay': sc['sql_delay']} if 'sql_delay' in sc else {})})
        if 'cluster' not in kind:
            for _ in range(sc['clients']):
                r.start_client(*cargs, env=env)
        hs.wait_for(lambda: r.site.journal() or not r.server.alive(), 60)
        time.sleep(sc['after'])
        target = r.clients[0] if kind == 'int-client' else r.server
        if not target.alive():
            if target.status == 0:
                c.count('ended before the signal')
                return 0
            return run.report(c, sc, [('early-end', f'ended on its own: {target.tail(900)}')])
        t_sig = time.time()
        if kind in DRAIN:
            target.signal(signal.SIGUSR2 if kind.startswith('usr2') else signal.SIGUSR1)
            if kind == 'both-cluster':
                time.sleep(1)
                t_sig = time.time()
                target.signal(signal.SIGUSR2)
            r.settle(stall=50 if sc['sleep'][1] > 10 else 25, limit=200)
        else:
            if kind == 'int-group':
                os.killpg(target.pid, signal.SIGINT)
            else:
                target.signal(signal.SIGINT)
            target.wait(30)
        left = halt.leftovers(target.pid) if kind in INTERRUPT and not target.alive() else []
        if left:
            hs.wait_for(lambda: not halt.leftovers(target.pid), 10)
            left = halt.leftovers(target.pid)
        ended = target.t_end
        open_port = kind in INTERRUPT and kind != 'int-client' and not target.alive() and hs.listening(target.port)
        if kind in INTERRUPT:
            r.outcome = 'done'
            others = [p for p in r.clients if p is not target]
            if kind != 'int-client':       # clients of a server that is gone
                r.settle(others or [target], stall=40, limit=100)
        if r.outcome == 'timeout':
            c.inconclusive(f'no end within the limit: {sc}')
            return 0
        r.observe()
        rows, journal, execs = r.rows, list(r.journal), dict(r.execs)
        if sc['source'] in ('file', 'stdin', 'slow') and kind in INTERRUPT and kind != 'int-client':
            present = {x['args'] for x in rows}
            r.tasks = [t for t in tasks if t.args in present]      # what was not read yet is not lost either: it is still in the file
        c.count('runs')
        c.count(kind)
        unscheduled = [x for x in rows if x['schedule_time'] is None]
        if kind in DRAIN:
            c.count('drained')
            c.count('left for the restart', len(unscheduled))
        else:
            c.count('interrupted')
            c.count('outstanding at the interrupt', sum(1 for x in rows if x['completion_time'] is None))
        c.case(sc, sample={'scenario': sc, 'executions': len(journal), 'unscheduled': len(unscheduled), 'seconds to the end': ended and round(ended - t_sig, 1)},
               nontrivial=any(x['completion_time'] is None for x in rows))

        def drained():
            c.count('tasks checked', len(rows))
            known = {x['args'] for x in rows}
            for t in tasks:
                if t.args not in known:
                    yield ('submitted-lost', f'{t.args!r} is not in the database although its source was read to the end')
            late = [x for x in rows if x['schedule_time'] and run.parse_time(x['schedule_time']) > t_sig + 3]
            if len(late) > sc['b']:
                yield ('keeps-scheduling', f'{len(late)} tasks were scheduled later than 3 s after the signal (bundle size {sc["b"]}): {[x["args"] for x in late][:5]}')
            for x in rows:
                ex = [e for es in execs.values() for e in es if e[2] == x['id']]
                if x['schedule_time'] is None:
                    if ex or x['exit_status'] is not None or x['start_time'] or x['client_id']:
                        yield ('touched', f'{x["args"]!r} was not scheduled, but: {ex} {x["exit_status"]} {x["start_time"]} {x["client_id"]}')
                    continue
                if x['completion_time'] is None or len(ex) != 1:
                    yield ('not-drained', f'{x["args"]!r} (attempt {x["attempt"]}) was scheduled: {len(ex)} executions, recorded completion {x["completion_time"]}')
                elif hard:
                    cut = ex[0][1] is None or ex[0][5] is None
                    if not cut and x['exit_status'] != ex[0][5] or cut and x['exit_status'] not in (-2, -15, -9):
                        yield ('wrong-status', f'{x["args"]!r} recorded {x["exit_status"]}, the execution gave {ex[0]}')
                    if cut:
                        c.count('tasks interrupted')
                elif ex[0][1] is None or x['exit_status'] != ex[0][5]:
                    yield ('interrupted-task', f'{x["args"]!r} recorded {x["exit_status"]}, the execution gave {ex[0]}')
            if hard and ended:
                took = len([e for es in execs.values() for e in es if e[1] is None or e[1] > t_sig])
                allowed = 15 + 6 * (took / sc['N'] + 1)
                if sc['source'] == 'slow':
                    allowed += 5
                if ended - t_sig > allowed and sc['sleep'][0] > 1:
                    yield ('slow-end', f'it took {ended - t_sig:.0f} s to end with {took} tasks interrupted by {sc["N"]} executors and a signal wait of 1 s')

        def interrupted():
            if target.alive():
                yield ('stays', f'still running 30 s after the interrupt: {target.tail(900)}')
            elif target.status != 4:
                yield ('status', f'exit status {target.status} after an interrupt, documented is 4: {target.tail(900)}')
            elif ended - t_sig > 15:
                yield ('slow-end', f'it took {ended - t_sig:.0f} s to end')
            if left:
                yield ('leftover', f'processes left behind: {left}')
            if open_port:
                yield ('leftover', f'port {target.port} still accepts connections')
            stay = [p for p in r.clients if p is not target and p.alive()] if kind != 'int-client' else []
            if stay:
                yield ('client-stays', f'client of an interrupted server stays: {stay[0].tail(600)}')
        if kind in DRAIN:
            bad = run.report(c, sc, run.hung(r), drained(), run.exits(r))
        else:
            bad = run.report(c, sc, interrupted())
        if bad:
            return bad

        # the rest is completed by a restart (or by the clients that are still there)
        at = time.time()
        done = {x['id']: x for x in rows if x['completion_time']}
        if kind == 'int-client':
            if sc['source'] == 'forever':
                hs.wait_for(lambda: halt.finished(r.site, tasks, limit), 120)
                r.server.signal(signal.SIGUSR1)
        else:
            for p in [r.server, *r.clients]:
                p.kill()
            r.clients = []
            sc2 = dict(sc, N=3, cb=1)
            _, cargs, env = halt.start(r, sc2, 'server', [], True, {'seed': sc['seed'] + 1})
            cenv = {**env, 'PATH': f'{r.site.path / "fast"}:{r.site.env()["PATH"]}'} if sc['sleep'][1] > 10 else env
            if sc['sleep'][1] > 10:      # the long tasks need not be long any more
                (r.site.path / 'fast').mkdir()
                (r.site.path / 'fast' / 'sleep').write_text('#!/bin/sh\nexec /bin/sleep .1\n')
                (r.site.path / 'fast' / 'sleep').chmod(0o755)
            for _ in range(2):
                r.start_client(*cargs, env=cenv)
        r.settle(stall=40, limit=200)
        if kind == 'int-client' and r.outcome == 'stalled':
            lost = [x for x in r.site.tasks() if not x['completion_time']]
            if lost and all(x['schedule_time'] and not x['client_id'] for x in lost):
                c.count('tasks taken but not confirmed at death', len(lost))      # outside the property (as in C06)
                return 0
        if r.outcome == 'timeout':
            c.inconclusive(f'no end within the limit: {sc}')
            return 0
        r.observe()
        c.count('completed by the restart', sum(1 for x in r.rows if x['completion_time'] and x['id'] not in done))

        clients = [p for p in r.clients if p is not target]
        r.clients = clients
        return run.report(c, sc, run.hung(r), halt.completed(r, done, at, limit, (1 if hard else 0) if kind in DRAIN else None), run.exits(r))


def small(c, sc):
    """Programs that only wait end on an interrupt, with the documented status."""
    kind = sc['kind']
    with run.Run('c38s') as r:
        tasks = run.gen_tasks(random.Random(sc['seed']), 12, fail=0)
        if kind == 'int-submit':
            fifo = r.site.path / 'fifo'
            os.mkfifo(fifo)
            r.hold = threading.Event()
            threading.Thread(target=r.feed, args=(fifo, list(tasks), [[.1, 5], [.1, 7]]), daemon=True).start()
            p = r.site.spawn('submit', '-', '-b', 3, '-w', 1, stdin=fifo, perturb={'sleep_cap': .15})
            hs.wait_for(lambda: r.site.query('SELECT count(*) AS n FROM sqlite_master WHERE name = \'task\'')[0]['n'] and len(r.site.tasks()) >= 9, 40)
        elif kind in ('int-wait', 'int-run'):
            if kind == 'int-wait':
                r.submit(tasks[:1], '-b', 1)
                p = r.site.spawn('task', 'wait', r.site.tasks()[0]['id'], '-n', 1)
            else:
                p = r.site.spawn('task', 'run', '-n', 1, '--', 'true')
            hs.wait_for(lambda: r.site.tasks(), 40)
            time.sleep(1)
        elif kind == 'int-queued':      # more in the queue than a pipe holds, and nobody to take it
            p = r.start_server('-b', 100, '-w', 1, tasks=[run.Task(f't{i}', args=f'job t{i} 0 0 {"x" * 2000}') for i in range(200)], source='file')
            hs.wait_for(lambda: any(x['schedule_time'] for x in r.site.tasks()), 40)
            time.sleep(2)
        elif kind == 'int-waiting-server':
            p = r.start_server('--forever')
            hs.wait_listening(p)
        else:
            r.start_server('--forever')
            p = r.start_client()
            hs.wait_for(lambda: r.site.clients(), 40)
        time.sleep(sc['after'])
        early = not p.alive()
        t = time.time()
        p.signal(signal.SIGINT)
        p.wait(30)
        if kind == 'int-submit':
            r.hold.set()
        c.count('runs')
        c.count(kind)
        c.case(sc, sample=sc, nontrivial=False)

        def oracle():
            if early:
                yield ('early-end', f'ended on its own: {p.tail(900)}')
            elif p.alive():
                yield ('stays', f'still running 30 s after the interrupt: {p.tail(900)}')
            elif p.status != 4:
                yield ('status', f'exit status {p.status} after an interrupt, documented is 4: {p.tail(900)}')
            elif p.t_end - t > 15:
                yield ('slow-end', f'it took {p.t_end - t:.0f} s to end')
            if not p.alive() and halt.leftovers(p.pid):
                yield ('leftover', f'processes left behind: {halt.leftovers(p.pid)}')
            if kind == 'int-submit':
                got = [x['args'] for x in sorted(r.site.tasks(), key=lambda x: x['submit_time'])]
                if len(got) < 9 or got != [t.args for t in tasks][:len(got)]:
                    yield ('submitted-lost', f'submitted before the interrupt: {got}')
        return run.report(c, sc, oracle())


if __name__ == '__main__':
    core.main(core.Check('C38', LEVEL, RULE, TECHNIQUE), body)
