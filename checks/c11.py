"""C11: task walltime limit is enforced with INT, TERM, KILL escalation."""
import os
import json
import random
import shutil
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = 'runtime monitor: every kill(2) made by the client and every signal received by tasks that catch, ignore or die of signals, in real time, against the recorded start time'
LEVEL = 'exploration'
LEVEL_NOTE = 'Held on the runs explored. The client polls once a second, so a step may come up to one polling second (plus scheduling delay) late, and the last step may follow its predecessor up to one polling second early.'
RULE = 'one case per task execution under a limit; non-trivial when the task ran past its limit or ended close to it'

TRAPPER = hs.VERIF / 'workers' / 'trapper.py'
SIGS = {'INT': 2, 'TERM': 15, 'KILL': 9}
LATE = 4.0


def expected(kind, W, secs, status):
    """(signals that must be sent, exit status) for a task that would run `secs`."""
    ign = kind.split(',')
    if secs < W:
        return [], status
    sent = ['INT']
    if 'INT' not in ign:
        return sent, (42 if 'exit' in ign else -2)
    sent.append('TERM')
    if 'TERM' not in ign:
        return sent, (55 if 'exit' in ign else -15)
    return sent + ['KILL'], -9


def body(c):
    n = c.pick(14, 150)
    scs = []
    for i in range(n):
        W, S = c.rng.choice([(2, 2), (2, 3), (3, 2), (1, 3), (2, 1), (4, 2), (1, 4)])
        ts = []
        for k in range(c.rng.randint(5, 9)):
            kind = c.rng.choice(['-', '-', 'exit', 'INT', 'INT', 'INT,exit', 'INT,TERM', 'INT,TERM'])
            x = c.rng.random()
            secs = round(c.rng.uniform(0, max(0.1, W - 0.9)), 2) if x < 0.3 else round(c.rng.uniform(max(0.2, W - 0.9), W - 0.05), 2) if x < 0.5 else W + 25
            ts.append([kind, secs, c.rng.choice([0, 0, 3])])
        scs.append({'W': W, 'S': S, 'N': c.rng.choice([3, 5]), 'tasks': ts, 'usr2': False, 'popen_delay': c.rng.choice([None, 0.3, 0.9]),
                    'config': c.rng.random() < 0.3, 'seed': c.rng.randrange(1 << 30), 'plain': c.rng.random() < 0.3})
    for i, sc in enumerate(scs):
        if i % 4 == 1:
            # signalled by the user instead, with and without a limit
            sc['usr2'] = True
            sc['tasks'] = [[k, c.rng.choice([30, 30, 0.3]), 0] for k in ('-', 'INT', 'INT,TERM', 'exit', 'INT,exit')]
            sc['W'] = c.rng.choice([None, 60])
            sc['N'] = 5

    # long enough to tell the wait after TERM from the polling period
    scs[0].update(S=4, W=1, N=5, usr2=False, tasks=[['INT,TERM', 40, 0], ['INT,TERM', 40, 0], ['INT', 40, 0], ['INT,exit', 40, 0], ['-', 40, 0]])
    scs[1]['S'] = 3

    def one(sc):
        rng = random.Random(sc['seed'])
        env = {}
        W, S = sc['W'], sc['S']
        if sc['config']:
            if W:
                env['HYPERSHELL_TASK_TIMEOUT'] = W
            env['HYPERSHELL_TASK_SIGNALWAIT'] = S
        with run.Run('c11', env=env) as r:
            shutil.copy(TRAPPER, r.site.path / 'trapper.py')
            log, klog = str(r.site.path / 'signals'), str(r.site.path / 'kills')
            tasks = []
            for k, (kind, secs, status) in enumerate(sc['tasks']):
                t = run.Task(f't{k}', args=f'exec /opt/venv/bin/python -S -E {r.site.path}/trapper.py {log} t{k} {secs} {status} {kind}')
                t.kind, t.secs, t.st = kind, secs, status
                tasks.append(t)
            r.start_server('-b', 1, tasks=tasks)
            cp = {'kill_log': klog, 'seed': sc['seed']}
            if sc['popen_delay']:
                cp['popen_delay'] = sc['popen_delay']
            opts = [] if sc['config'] else ['-S', S] + (['-W', W] if W else [])
            cl = r.start_client('-N', sc['N'], '-w', 1, *opts, perturb=cp)
            t_usr2 = None
            read = lambda: [x.split() for x in open(log)] if os.path.exists(log) else []
            if sc['usr2']:
                longs = sum(t.secs > 5 for t in tasks)
                hs.wait_for(lambda: sum(x[0] == 'S' for x in read()) >= min(sc['N'], len(tasks)), 30)
                time.sleep(0.2)
                t_usr2 = time.time()
                cl.signal(signal.SIGUSR2)
            r.settle(stall=40)
            if r.outcome == 'timeout':
                c.inconclusive(f'no end within the limit: {sc}')
                return 0
            bad = run.report(c, sc, run.hung(r))
            if bad:
                return bad
            r.observe()
            kills = [json.loads(x) for x in open(klog)] if os.path.exists(klog) else []
            ev = read()

            def oracle():
                for t in tasks:
                    rows = run.chain_of(r, t)
                    if len(rows) != 1 or rows[0]['completion_time'] is None:
                        yield ('not-completed', f'{t.args}: {rows}')
                        continue
                    row = rows[0]
                    mine = [x for x in ev if x[1] == t.token]
                    pids = {int(x[4]) for x in mine}
                    sent = sorted([k for k in kills if k['pid'] in pids], key=lambda k: k['t'])
                    t0, t1 = run.parse_time(row['start_time']), run.parse_time(row['completion_time'])
                    limit = W if t_usr2 is None else 0
                    begin = t0 if t_usr2 is None else t_usr2
                    if t_usr2 is not None and (t0 > t_usr2 - 0.1 or t.secs < 5):
                        continue
                    want, st = expected(t.kind, limit, t.secs, t.st)
                    real = [x for x in mine if x[0] == 'S']
                    ended = [float(x[3]) for x in mine if x[0] == 'E']
                    # a task whose end and limit are within the delays of starting it may legally fall on either side
                    edge = t_usr2 is None and t.secs < W and real and float(real[0][3]) + t.secs > t0 + W - 0.05
                    c.case((t.kind, W, S, t.secs, t.st, bool(t_usr2)), sample={'task': [t.kind, t.secs], 'limit': W, 'wait': S, 'sent': [[k['sig'], round(k['t'] - begin, 2)] for k in sent], 'status': row['exit_status']},
                           nontrivial=bool(want) or t.secs > (W or 0) - 1)
                    c.count('executions')
                    c.count('signals', len(sent))
                    names = [next((a for a, b in SIGS.items() if b == k['sig']), str(k['sig'])) for k in sent]
                    what = f'task {t.kind!r} {t.secs}s limit {W} wait {S} usr2={bool(t_usr2)}: sent {[(a, round(k["t"] - begin, 2)) for a, k in zip(names, sent)]} after start, status {row["exit_status"]}'
                    if sent and sent[0]['t'] < begin + limit - 0.002:
                        yield ('too-early', what)
                    if edge and not (sent and sent[0]['t'] < begin + limit):
                        continue
                    if names != want:
                        yield ('wrong-signals', f'{what}; expected {want}')
                        continue
                    if row['exit_status'] != st:
                        yield ('wrong-status', f'{what}; expected {st}')
                    if not want:
                        continue
                    c.count('limited')
                    if sent[0]['t'] > begin + limit + LATE:
                        yield ('too-late', what)
                    for a, b in zip(sent, sent[1:]):
                        if b['t'] - a['t'] < S - (0.02 if a is sent[0] else 1.05):
                            yield ('escalated-early', what)
                        if b['t'] - a['t'] > S + LATE:
                            yield ('escalated-late', what)
                    if t1 < sent[-1]['t'] - 0.01:
                        yield ('completion', f'{what}: completed {t1} before the last signal')
            return run.report(c, sc, oracle(), run.exits(r))
    run.campaign(c, scs, one, workers=7, budget=c.pick(250, 3000))
    c.require('executions', 40)
    c.require('limited', 15)
    c.require('signals', 30)


if __name__ == '__main__':
    core.main(core.Check('C11', LEVEL, RULE), body)
