"""C17: cancelled, reverted and deleted tasks behave as such."""
import collections
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = ('runtime monitor: groups of tasks are cancelled, reverted and deleted before, during and between server runs while the committed history of every task and the journal of real '
             'executions are recorded; an offline checker judges each execution against the state of its task in that history')
LEVEL = 'exploration'
LEVEL_NOTE = 'Held for the schedules generated: `hs task update` racing the scheduler with injected delays, retries, one or two server runs. SQLite only.'
RULE = 'one case per run; non-trivial when a task was cancelled, reverted or deleted in a state where that matters'


def body(c):
    n = c.pick(40, 600)
    scs = []
    for i in range(n):
        rng = c.rng
        scs.append({'groups': rng.choice([3, 5, 7]), 'size': rng.choice([1, 2, 4]), 'N': rng.choice([1, 1, 2]), 'b': rng.choice([1, 1, 2, 4]), 'r': rng.choice([0, 0, 1, 2]),
                    'eager': rng.random() < .3, 'sleep': rng.choice([[0, .05], [.05, .3]]), 'source': rng.choice(['before', 'before', 'slow']),
                    'sql_delay': rng.choice([None, [.5, .1], [.2, .5]]), 'sessions': rng.choice([1, 2, 2]), 'all': rng.random() < .15, 'seed': rng.randrange(1 << 30)})
    # everything taken away: before the server starts, while it runs, and while it has not scheduled anything yet
    for i, sc in enumerate(scs[:8]):
        sc.update({'all': True, 'what': ['cancel', 'delete'][i % 2], 'when': ['before', 'during', 'stalled', 'during'][i // 2], 'source': 'before' if i < 4 else 'slow'})

    def one(sc):
        with run.Run('c17') as r:
            out = play(c, r, sc)
            if out is None:
                return 0
            return run.report(c, sc, *out)
    done = run.campaign(c, scs, one, workers=8)
    c.require('runs', min(10, done))
    for k in ('cancelled before scheduling', 'reverted', 'deleted', 'executions'):
        c.require(k, 20)


def update(r, *args):
    return r.site.cli('task', 'update', *args, '-f', timeout=60)


def play(c, r, sc):
    rng = random.Random(sc['seed'])
    groups = {f'g{g}': run.gen_tasks(rng, sc['size'], prefix=f'g{g}t', fail=.25, flaky=.2, sleep=sc['sleep'], signals=False) for g in range(sc['groups'])}
    limit = sc['r'] + 1
    tasks = [t for g in groups.values() for t in g]
    touched = set()
    errors = []

    def op(what, g):
        touched.update(t.args for t in groups[g])
        how = rng.choice(['tag', 'tag', 'args'])
        if how == 'tag':
            calls = [['-t', f'grp:{g}']]
        else:
            calls = [['-w', f'args=={t.args}'] for t in groups[g]]
        for call in calls:
            p = update(r, f'--{what}', *call)
            if p.status != 0:
                errors.append(('update-failed', f'`hs task update --{what} {call}` exits with {p.status}: {p.err[-400:]}'))

    def everything(what):
        touched.update(t.args for t in tasks)
        p = update(r, f'--{what}', '-R') if rng.random() < .3 else update(r, f'--{what}')
        if p.status != 0:
            errors.append(('update-failed', f'`hs task update --{what}` exits with {p.status}: {p.err[-400:]}'))

    sp = {'seed': sc['seed'], 'sleep_cap': .3}
    if sc['sql_delay']:
        sp['sql_delay'] = sc['sql_delay']
    args = ['-b', sc['b'], '-w', 1, '-r', sc['r']] + (['--eager'] if sc['eager'] else [])
    r.tasks = list(tasks)
    when, what = sc.get('when'), sc.get('what')
    names = list(groups)
    for g, ts in groups.items():
        if sc['source'] == 'slow':
            for t in ts:
                t.args += f'  # HYPERSHELL: grp:{g}'
        else:
            p = r.site.cli('submit', '-b', sc['b'], '--tag', f'grp:{g}', stdin=''.join(t.args + '\n' for t in ts))
            if p.status != 0:
                raise run.Broken('submit-failed', p.tail())
    free = list(names)
    rng.shuffle(free)
    take = lambda: free.pop() if len(free) > 1 else None
    if sc['source'] == 'before':
        if when == 'before':
            everything(what)
        elif not sc['all']:
            for w in ('cancel', 'delete'):
                if rng.random() < .6 and (g := take()):
                    op(w, g)
                    if w == 'cancel' and rng.random() < .3:
                        op('revert', g)
        r.start_server('--restart', *args, perturb=sp)
    else:
        if when == 'before':
            when = 'during'
        if when == 'stalled':       # the scheduler pauses for seconds after it has found an empty database
            sp = dict(sp, sleep_cap=4)
        r.hold = __import__('threading').Event()
        r.start_server(*args, tasks=tasks, source='slow', perturb=sp)
        r.tasks = list(tasks)
        if when == 'stalled':
            end = time.time() + 20
            while time.time() < end and r.site.query('SELECT count(*) AS n FROM task')[0]['n'] < len(tasks):
                time.sleep(.05)
            everything(what)
    gone = sc['source'] == 'before' and when == 'before' and what == 'delete'
    cargs = ['-N', sc['N'], '-b', 1, '-w', 1]
    if gone:       # nothing was left: the server waits for a first task
        late = run.gen_tasks(rng, 2, prefix='late', fail=0, sleep=[0, 0])
        time.sleep(.5)
        r.submit(late, '-b', 1)
    r.start_client(*cargs)
    if not gone:
        for k in range(rng.choice([1, 2, 4])):
            time.sleep(rng.uniform(0, .6))
            if sc['all']:
                if when == 'during' or when is None:
                    # (a server that finds an empty database waits for a first task)
                    end = time.time() + 20
                    while sc['source'] == 'before' and time.time() < end and not r.site.query('SELECT count(*) AS n FROM task WHERE schedule_time IS NOT NULL')[0]['n']:
                        time.sleep(.03)
                    everything(what or rng.choice(['cancel', 'delete']))
                    break
            elif (g := take()):
                w = rng.choice(['cancel', 'cancel', 'delete', 'revert'])
                if w == 'revert':     # of finished tasks only: wait for the first of a group
                    g = finished(r, groups, names)
                    if g is None:
                        continue
                op(w, g)
    if sc['source'] == 'slow':
        r.hold.set()
    r.settle(stall=25)
    c.count('runs')
    first = r.outcome
    late = r.site.query('SELECT count(*) AS n FROM task WHERE schedule_time IS NULL')[0]['n']     # reverted when the server was leaving
    if first == 'done' and (late or sc['sessions'] == 2 and r.site.query('SELECT count(*) AS n FROM task')[0]['n']):
        clients = list(r.clients)
        if sc['sessions'] == 2 and not sc['all']:
            for w in rng.choice([['revert'], ['revert', 'delete'], ['revert', 'revert', 'cancel'], []]):
                op(w, rng.choice(names))
        r.clients = []
        r.start_server('--restart', *args, perturb=sp)
        r.start_client(*cargs)
        r.settle(stall=25)
        r.clients = clients + r.clients
    r.observe()
    stats = collections.Counter()
    out = [errors, list(run.hung(r)), list(run.exits(r)), list(judge(r, stats, limit, touched, sc))]
    if r.outcome == 'timeout':
        c.inconclusive(f'no end within the limit: {sc}')
        return None
    for k, v in stats.items():
        c.count(k, v)
    c.case(sc, sample={'scenario': sc, **stats}, nontrivial=sum(stats[k] for k in ('cancelled before scheduling', 'reverted', 'deleted')) > 0)
    return out


def finished(r, groups, names):
    done = {x['args'] for x in r.site.query('SELECT args FROM task WHERE completion_time IS NOT NULL')}
    for g in names:
        if all(t.args in done for t in groups[g]):
            return g
    return None


def judge(r, stats, limit, touched, sc):
    """Walk the committed history of every record."""
    if r.outcome == 'stalled':
        return
    hist = collections.defaultdict(list)
    for h in r.history:
        if h['tab'] == 'task':
            hist[(h['new'] or h['old'])['id']].append(h)
    execs = collections.defaultdict(list)
    for token, xs in r.execs.items():
        for x in xs:
            execs[x[2]].append(x)
            stats['executions'] += 1
    successors = collections.Counter()
    for id, hs_ in hist.items():
        # epochs: the intervals in which the record was free to be executed
        epochs, cur, state, args = [], None, None, None
        deleted, late = None, False
        for h in hs_:
            old, new, t = h['old'], h['new'], h['t']
            args = (new or old)['args']
            if new is None:
                stats['deleted'] += 1
                deleted = (t, state)
                if cur:
                    cur[1], cur[2] = t, 'deleted'
                    cur = None
                state = 'deleted'
                continue
            if new['completion_time'] is None and new['exit_status'] is not None:
                now = 'cancelled' if state in ('new', 'cancelled') else 'cancelled-late'
            elif new['completion_time'] is not None:
                now = 'completed'
            elif new['schedule_time'] is not None:
                now = 'cancelled-late' if state == 'cancelled-late' else 'scheduled'
            else:
                now = 'new'
            if old is None and new['previous_id']:
                successors[new['previous_id']] += 1
            if state == 'cancelled':
                if now == 'completed':
                    yield ('cancelled-completed', f'{args!r} was cancelled before it was scheduled and completed later: {new}')
                if now == 'cancelled' and (new['retried'], new['next_id']) != (old['retried'], old['next_id']):
                    yield ('cancelled-retried', f'{args!r} was cancelled and retried: {new}')
                if now == 'new' and args not in touched:
                    yield ('cancelled-reverted', f'{args!r} was cancelled and is new again without being asked for')
            if now == 'cancelled' and state == 'new':
                stats['cancelled before scheduling'] += 1
                if new['exit_status'] != -1 or new['schedule_time'] is None:
                    yield ('cancelled-state', f'{args!r} cancelled: {new}')
            if now == 'new' and state in ('cancelled', 'completed', 'cancelled-late'):
                stats['reverted'] += 1
                if any(new[k] is not None for k in ('schedule_time', 'server_id', 'client_id', 'command', 'start_time', 'exit_status', 'outpath', 'waited', 'duration')):
                    yield ('reverted-state', f'{args!r} reverted: {new}')
            if now == 'scheduled' and state != 'scheduled':
                cur = [t, None, None]
                epochs.append(cur)
            elif cur and now != state:
                cur[1], cur[2] = t, now
                if now != 'cancelled-late':
                    cur = None
            elif cur and now == 'completed':
                cur = None
            state = now
            late = late or now == 'cancelled-late'
        runs = sorted(execs.get(id, []))
        for x in runs:
            if not any(e[0] - .02 <= x[0] and (e[1] is None or x[0] <= e[1] or e[2] in ('cancelled-late', 'deleted', 'new')) for e in epochs):
                yield ('ran', f'{args!r} executed at {x[0]} which is not between its scheduling and completion {epochs}; history {brief(hs_)}')
        need = sum(e[2] == 'completed' for e in epochs)
        if len(runs) > len(epochs) or len(runs) < need:
            yield ('executions', f'{args!r} scheduled {len(epochs)} times, completed {need} times and executed {len(runs)} times: {brief(hs_)}')
        if deleted and any(x[0] > deleted[0] + .02 for x in runs) and deleted[1] in ('new', 'cancelled', 'completed'):
            yield ('deleted-ran', f'{args!r} deleted while {deleted[1]} and executed later')
        if deleted and deleted[1] == 'completed' and successors[id] and any(h['t'] > deleted[0] + .02 for s in hist.values() for h in s if h['op'] == 'INSERT' and h['new']['previous_id'] == id):
            yield ('deleted-retried', f'{args!r} was deleted and retried afterwards')
        if state in ('new', 'scheduled'):
            yield ('left-over', f'{args!r} is {state} although the server has finished: {brief(hs_)}')
        last = hs_[-1]['new']
        if state == 'completed' and last['exit_status'] != 0 and last['attempt'] < limit and not last['retried'] and last['exit_status'] != -1 and not late:
            yield ('not-retried', f'{args!r} failed at attempt {last["attempt"]} of {limit} and was not retried')
    # the others are not affected
    rest = [t for t in r.tasks if t.args not in touched]
    stats['unaffected'] += len(rest)
    all_tasks, r.tasks = r.tasks, rest
    known = {t.token for t in all_tasks}
    for mech, desc in run.exactly_once(r, limit):
        if mech != 'foreign':
            yield ('others-' + mech, desc)
    for mech, desc in run.chains(r, limit):
        if mech != 'chain-tag':
            yield ('others-' + mech, desc)
    r.tasks = all_tasks
    if set(r.execs) - known:
        yield ('foreign', f'unknown {set(r.execs) - known}')


def brief(history):
    return [(round(h['t'] % 1000, 3), h['op'], *((h['new'][k] and (h['new'][k] if k == 'exit_status' else 'x') if h['new'] else None) for k in ('schedule_time', 'client_id', 'completion_time', 'exit_status'))) for h in history][-8:]


if __name__ == '__main__':
    core.main(core.Check('C17', LEVEL, RULE, TECHNIQUE), body)
