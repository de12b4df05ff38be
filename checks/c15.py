"""C15: every failed task is reported, once, and no successful one."""
import collections
import os
import random
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = 'runtime monitor: the failure output is compared, as a multiset of lines, with the executions that really failed (journal written by the tasks) plus those that could not start, for every way of asking for it'
LEVEL = 'exploration'
LEVEL_NOTE = 'Held on the runs explored; argument texts are single lines.'
RULE = 'one case per failed or successful task attempt judged; non-trivial when the attempt failed'
TEXTS = ['', '', '', 'é', '日本', '"a  b"', "'x y'", '20210101', '# note', '2>/dev/null', '\U0001f600', '%s %d', '\\n', '{}', '"a\tb"', 'y' * 2000]
_serial = threading.Lock()


def body(c):
    n = c.pick(34, 340)
    scs = []
    for i in range(n):
        how = ['server-f', 'server-print', 'server-dash', 'cluster-f', 'launch-f'][i % 5] if i % 7 else 'server-f'
        db = c.rng.random() < 0.6
        scs.append({'how': how, 'db': db, 'n': c.rng.choice([1, 2, 4, 9, 15]), 'fail': c.rng.choice([0.3, 0.6, 1.0]), 'retries': c.rng.choice([0, 0, 1, 2]) if db else 0, 'eager': c.rng.random() < 0.4, 'b': c.rng.choice([1, 2, 4, 10]), 'cb': c.rng.choice([1, 2, 4, 10]),
                    'N': c.rng.choice([1, 2, 4]), 'clients': c.rng.choice([1, 1, 2]), 'no_confirm': c.rng.random() < 0.3, 'sql_delay': c.rng.choice([None, None, [0.6, 0.15]]), 'queue_delay': c.rng.choice([None, [0.3, 0.2]]), 'nostart': c.rng.random() < 0.4,
                    'timeout': c.rng.random() < 0.2, 'existing': c.rng.random() < 0.3, 'cwait': c.rng.choice([1, 1, 2]), 'seed': c.rng.randrange(1 << 30)})

    def one(sc):
        rng = random.Random(sc['seed'])
        with run.Run('c15', db=sc['db']) as r:
            tasks = []
            for k in range(sc['n']):
                x = rng.random()
                text = rng.choice(TEXTS)
                if x < sc['fail'] * 0.15 and sc['nostart']:
                    t = run.Task(f't{k}', args=f'bad{k} {text} x', spec='none')
                elif x < sc['fail'] * 0.25 and sc['timeout']:
                    t = run.Task(f't{k}', args=f'exec job t{k} 30 0 {text}'.strip(), spec='timeout')
                    t.args = f'job t{k}; exec sleep 30'
                elif x < sc['fail']:
                    t = run.Task(f't{k}', rng.choice([0, 0.1]), rng.choice(['1', '2', '127', '255', 'sig9', 'sig15', 'f1:3', '4']), text)
                else:
                    t = run.Task(f't{k}', rng.choice([0, 0.1]), rng.choice(['0', '0', '256']), text)
                tasks.append(t)
            template = '{= x if x.startswith(("job", "exec job")) else 1 / 0 =}' if sc['nostart'] else '{}'
            out = r.site.path / 'failed.txt'
            if sc['existing']:
                out.write_text('stale line of an earlier run\n')
            r.tasks = tasks
            stdin = ''.join(t.args + '\n' for t in tasks)
            flag = ['--no-confirm'] if sc['no_confirm'] else []
            sargs = ['-b', sc['b'], '-w', 1, *flag] + (['-r', sc['retries']] if sc['db'] else ['--no-db']) + (['--eager'] if sc['db'] and sc['eager'] else [])
            cargs = ['-N', sc['N'], '-t', template] + (['-W', 1, '-S', 1] if sc['timeout'] else [])
            sp = {'seed': sc['seed'], **({'sql_delay': sc['sql_delay']} if sc['sql_delay'] and sc['db'] else {})}
            cp = {'seed': sc['seed'], **({'queue_delay': sc['queue_delay']} if sc['queue_delay'] else {})}
            if sc['how'].startswith('server'):
                opt = {'server-f': ['-f', out], 'server-print': ['--print'], 'server-dash': ['-f', '-']}[sc['how']]
                r.server = r.site.server(*sargs, *opt, stdin=stdin, perturb=sp)
                for i in range(sc['clients']):
                    r.start_client(*cargs, '-b', sc['cb'], '-w', sc['cwait'], *flag, wait=i == 0, perturb={**cp, 'seed': i})
                r.settle(stall=25)
            else:
                launch = ['--launcher', 'env'] if sc['how'] == 'launch-f' else []
                if launch:
                    port = hs.free_port()
                    r.server = r.site.spawn('cluster', *sargs, *cargs, '-p', port, *launch, '--remote-exe', '/opt/venv/bin/hs', '-f', out, '-o' if False else '-d', 0, stdin=stdin, perturb=sp, name='cluster')
                    r.settle(stall=25)
                else:
                    with _serial:       # local clusters always listen on the same port
                        r.server = r.site.spawn('cluster', *sargs, *cargs, '-f', out, '-d', 0, stdin=stdin, perturb=sp, name='cluster')
                        r.settle(stall=25)
            if r.outcome == 'timeout':
                c.inconclusive(f'no end within the limit: {sc}')
                return 0
            r.observe()
            bad = run.report(c, sc, run.hung(r))
            if bad:
                return bad
            try:
                text = r.server.out if sc['how'] in ('server-print', 'server-dash') else out.read_text()
            except FileNotFoundError:
                text = ''
            got = collections.Counter(text.split('\n')[:-1])
            c.count(sc['how'])
            c.count('db' if sc['db'] else 'nodb')

            def oracle():
                if text and not text.endswith('\n'):
                    yield ('incomplete', f'failure output ends in the middle of a line: {text[-80:]!r}')
                want = collections.Counter()
                for t in tasks:
                    limit = sc['retries'] + 1
                    if t.spec in ('none', 'timeout'):
                        k, total = limit, limit
                    else:
                        att = t.attempts(limit)
                        k, total = sum(1 for s in att if s != 0), len(att)
                    if k:
                        want[t.args] += k
                    for i in range(total):
                        c.case((t.args, sc['how'], sc['db'], i), sample={'args': t.args[:80], 'how': sc['how'], 'reported': got.get(t.args, 0)}, nontrivial=i < k)
                    c.count('failures', k)
                for a in want | got:
                    if got[a] < want[a]:
                        yield ('not-reported', f'{a[:160]!r} failed {want[a]} times, reported {got[a]} times')
                    elif got[a] > want[a]:
                        known = next((t for t in tasks if t.args == a), None)
                        yield ('wrongly-reported' if known else 'foreign-line', f'{a[:160]!r} failed {want[a]} times, reported {got[a]} times')
            return run.report(c, sc, oracle(), run.exits(r))
    run.campaign(c, scs, one, workers=6, budget=c.pick(200, 3000))
    for k in ('server-f', 'server-print', 'server-dash', 'cluster-f', 'launch-f', 'db', 'nodb'):
        c.require(k, 2)
    c.require('failures', 40)


if __name__ == '__main__':
    core.main(core.Check('C15', LEVEL, RULE), body)
