"""C30: task records tell a consistent story at every moment."""
import collections
import json
import os
import random
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = ('runtime monitor: triggers in the database log every committed version of every task record during runs with retries, crashes, evictions, cancellations, reverts, tasks that cannot start and walltime limits; '
             'an offline checker follows each record through a state machine and checks times and immutable fields at every version')
LEVEL = 'exploration'
LEVEL_NOTE = 'Held for all committed versions in the runs explored (SQLite). Times are compared within one machine; a client with a wrong clock is outside.'
RULE = 'one case per kind of move seen with its circumstances (kind of run, from, to, attempt, kind of task); non-trivial unless it is the submission'
RUN_DATA = ('server_id', 'server_host', 'schedule_time', 'client_id', 'client_host', 'command', 'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath', 'waited', 'duration')
FIXED = ('id', 'args', 'submit_id', 'submit_time', 'submit_host', 'attempt', 'previous_id')
MOVES = {      # moves that the server and its clients make
    None: {'new', 'scheduled'},
    'new': {'new', 'scheduled', 'cancelled'},
    'scheduled': {'scheduled', 'confirmed', 'completed', 'cancelled'},
    'confirmed': {'confirmed', 'completed', 'cancelled'},
    'completed': {'completed', 'retried'},
    'retried': {'retried'},
    'cancelled': {'cancelled', 'completed'},     # completed: it was already running
}


def state(row):
    """The life-cycle state of a record or (None, why) when it is in none."""
    have = {k for k in RUN_DATA if row[k] is not None}
    if row['completion_time'] is not None:
        lack = {'server_id', 'server_host', 'schedule_time', 'client_id', 'client_host', 'start_time', 'exit_status'} - have
        if lack:
            return None, f'completed without {sorted(lack)}'
        if row['retried']:
            if row['next_id'] is None or row['exit_status'] == 0:
                return None, f'marked as retried with successor {row["next_id"]} and status {row["exit_status"]}'
            return 'retried', ''
        if row['next_id'] is not None:
            return None, 'has a successor and is not marked as retried'
        return 'completed', ''
    if row['retried'] or row['next_id'] is not None:
        return None, 'retried or with successor though not completed'
    if row['exit_status'] is not None:
        if row['exit_status'] != -1 or row['schedule_time'] is None:
            return None, f'status {row["exit_status"]} without completion'
        return 'cancelled', ''
    if row['schedule_time'] is None:
        return ('new', '') if not have else (None, f'not scheduled, with {sorted(have)}')
    if not {'server_id', 'server_host'} <= have or have - {'server_id', 'server_host', 'schedule_time', 'client_id', 'client_host'}:
        return None, f'scheduled and not completed, with {sorted(have)}'
    if ('client_id' in have) != ('client_host' in have):
        return None, 'client without host'
    return ('confirmed' if 'client_id' in have else 'scheduled'), ''


def story(r, sc, back, moves):
    """Oracle over the committed history; `back(h, from)` says whether a move back to `new` has a reason, `moves` counts what was seen."""
    twice = set()      # taken from a client that was evicted by mistake: two clients report a result, each a story of its own
    for h in r.history:
        if h['tab'] != 'task' or h['new'] is None:
            continue
        old, new = h['old'], h['new']
        what = f'task {new["args"][:60]!r} attempt {new["attempt"]}'
        st, why = state(new)
        if st is None:
            yield ('no-state', f'{what}: {why}: {new}')
            continue
        was = state(old)[0] if old else None
        moves[was, st] += 1
        if old is None and st == 'scheduled' and new['attempt'] == 1:
            yield ('move', f'{what} appeared as {st}')
        if st not in MOVES.get(was, {st}) and not (h['id'] in twice and st in ('completed', 'retried')):
            if st == 'new' and was is not None:
                if back(h, was):
                    if sc['kind'] == 'freeze':
                        twice.add(h['id'])
                else:
                    yield ('move', f'{what}: from {was} back to new without reason')
            else:
                yield ('move', f'{what}: from {was} to {st}: {old} -> {new}')
        t = {k: run.parse_time(new[k]) for k in ('submit_time', 'schedule_time', 'start_time', 'completion_time')}
        order = [x for x in t.values() if x is not None]
        if any(a > b + .001 for a, b in zip(order, order[1:])):
            yield ('time-order', f'{what}: {t}')
        if t['completion_time'] is not None:
            if t['completion_time'] > h['t'] + .05:
                yield ('time-order', f'{what}: completed at {t["completion_time"]}, recorded at {h["t"]}')
            real = t['start_time'] - t['submit_time'], t['completion_time'] - t['start_time']
            for k, x in zip(('waited', 'duration'), real):
                if new[k] is not None and not x - 1.01 <= new[k] <= x + .01:
                    yield (k, f'{what}: {k} is {new[k]}, really {x:.2f} s')
            if new['duration'] is None and new['exit_status'] != -1:
                yield ('duration', f'{what}: no duration')
            if new['waited'] is None and new['exit_status'] != -1:
                yield ('waited', f'{what}: no waited')
        if new['attempt'] < 1 or (new['attempt'] == 1) != (new['previous_id'] is None):
            yield ('attempt', f'{what}: attempt {new["attempt"]} with predecessor {new["previous_id"]}')
        if old:
            for k in FIXED:
                if old[k] != new[k]:
                    yield ('identity-changed', f'{what}: {k} {old[k]!r} -> {new[k]!r}')
            if json.loads(old['tag']) != json.loads(new['tag']):
                yield ('identity-changed', f'{what}: tag {old["tag"]} -> {new["tag"]}')
            if h['id'] in twice:
                continue
            if was in ('completed', 'retried') and st in ('completed', 'retried'):
                for k in RUN_DATA:
                    if old[k] != new[k]:
                        yield ('completed-changed', f'{what}: {k} {old[k]!r} -> {new[k]!r}')
            if was == 'retried' and st == 'retried' and old['next_id'] != new['next_id']:
                yield ('completed-changed', f'{what}: next_id {old["next_id"]} -> {new["next_id"]}')
            if was in ('scheduled', 'confirmed') and st in ('scheduled', 'confirmed', 'completed'):
                for k in ('server_id', 'server_host', 'schedule_time'):
                    if old[k] != new[k] and not (k == 'schedule_time' and abs(run.parse_time(old[k]) - run.parse_time(new[k])) < .001):
                        yield ('run-changed', f'{what}: {k} {old[k]!r} -> {new[k]!r} from {was} to {st}')


KINDS = ('plain', 'crash', 'ops', 'odd', 'plain', 'crash', 'evict', 'freeze')


def body(c):
    scs = []
    for i in range(c.pick(32, 480)):
        rng = c.rng
        kind = KINDS[i % len(KINDS)]
        if kind in ('evict', 'freeze') and not c.thorough and i >= 16:
            kind = 'odd'
        sc = run.scenario(rng, retries=rng.choice([0, 1, 2, 3]), fail=.35, flaky=.25, eager=rng.random() < .4, n=rng.choice([5, 8, 13, 20]))
        sc['kind'] = kind
        sc['capture'] = rng.random() < .3
        if kind == 'crash':
            sc['kills'] = [{'after': round(rng.uniform(.1, 2.5), 2)} if rng.random() < .5 else {'kind': rng.choice(['commit', 'committed', 'stmt']), 'n': rng.randint(1, 25)} for _ in range(rng.choice([1, 1, 2]))]
        scs.append(sc)
    moves = collections.Counter()

    def one(sc):
        kind = sc['kind']
        env = {'HYPERSHELL_SERVER_EVICT': '10', 'HYPERSHELL_CLIENT_HEARTRATE': '1'} if kind in ('evict', 'freeze') else {}
        with run.Run('c30', env=env) as r:
            rng = random.Random(sc['seed'])
            seen = collections.Counter()
            back = {'plain': plain, 'crash': crash, 'ops': ops, 'odd': odd, 'evict': evict, 'freeze': evict}[kind](c, r, sc, rng)
            if back is None:
                return 0
            if r.outcome == 'timeout':
                c.inconclusive(f'no end within the limit: {sc}')
                return 0
            r.observe()
            n = run.report(c, sc, run.hung(r), story(r, sc, back, seen))
            for (a, b), k in seen.items():
                moves[a, b] += k
                c.count(f'{a} > {b}', k)
                c.case((kind, a, b, sc['retries'], sc['eager'], sc['no_confirm'], sc['capture']), sample={'kind': kind, 'from': a, 'to': b, 'versions': k}, nontrivial=a is not None)
            c.count('runs')
            for p in r.clients:
                p.kill()
            return n
    done = run.campaign(c, scs, one, workers=10, budget=c.pick(200, 4000))
    c.require('runs', min(done, 20))
    for k in ('new > scheduled', 'scheduled > confirmed', 'confirmed > completed', 'scheduled > completed', 'completed > retried', 'new > cancelled', 'completed > new', 'scheduled > new', 'confirmed > new'):
        c.require(k, 1)


def never(h, was):
    return False


def plain(c, r, sc, rng):
    run.play(r, sc, client_args=['--capture'] if sc['capture'] else [])
    return never


def odd(c, r, sc, rng):
    """Tasks that cannot be expanded or started, that die, and that hit the limit."""
    tasks = run.gen_tasks(rng, sc['n'], fail=.3, sleep=[0, .3])
    tasks += [run.Task(f'x{k}', args=a) for k, a in enumerate(rng.sample(['echo x y', 'echo only', 'no-such-command 1 2', 'true ' + 'A' * 140000, 'sleep 6', 'exec sleep 7', 'kill -9 $$', 'exit 200'], 4))]
    rng.shuffle(tasks)
    run.play(r, sc, tasks=tasks, client_args=[*(['--capture'] if sc['capture'] else []), '-W', 2, '-S', 1, '-t', rng.choice(['{}', '{} #{[1]}'])])
    return never


def crash(c, r, sc, rng):
    limit = 'retries'
    tasks = run.gen_tasks(rng, sc['n'], fail=sc['fail'], flaky=sc['flaky'], sleep=sc['sleep'])
    args = ['-b', sc['b'], '-w', sc['w'], '-r', sc[limit]] + (['--eager'] if sc['eager'] else []) + (['--no-confirm'] if sc['no_confirm'] else [])
    cargs = ['-N', sc['N'], '-b', sc['cb'], '-w', sc['cw']] + (['--no-confirm'] if sc['no_confirm'] else [])
    r.submit(tasks, '-b', sc['b'])
    starts = []
    for k, kill in enumerate([*sc['kills'], None]):
        sp = {'seed': sc['seed'] + k}
        if kill and 'after' in kill:
            sp['kill_after'] = kill['after']
        elif kill:
            sp['kill'] = kill
        starts.append(time.time())
        r.start_server('--restart', *args, perturb=sp)
        r.clients = []
        if hs.wait_listening(r.server):
            for _ in range(sc['clients']):
                r.start_client(*cargs, wait=False)
        if kill is None:
            r.settle(stall=25)
            break
        out = hs.settle([r.server], r.progress, stall=25, limit=90)
        if out != 'done':
            r.outcome = out
            break
        c.count('crashes', int(r.server.status < 0))
        for p in [r.server, *r.clients]:
            p.kill()
    # a restarted server takes back what was scheduled by the one before
    return lambda h, was: was in ('scheduled', 'confirmed') and any(t < h['t'] and run.parse_time(h['old']['schedule_time']) < t for t in starts[1:])


def ops(c, r, sc, rng):
    """The user cancels waiting tasks and reverts finished ones."""
    tasks = run.gen_tasks(rng, 30, fail=.2, sleep=[.05, .2])
    r.submit(tasks, '-b', 10)
    r.start_server('--forever', '-b', sc['b'], '-w', 1)
    r.start_client('-N', sc['N'], '-b', sc['cb'], '-w', 1)
    times = []
    for _ in range(6):
        time.sleep(rng.uniform(.1, .6))
        t0 = time.time()
        if rng.random() < .5:
            p = r.site.cli('task', 'update', '-w', 'schedule_time == null', '--limit', rng.randint(1, 3), '--cancel', '-f')
        else:
            p = r.site.cli('task', 'update', '-w', 'completion_time != null', '--limit', rng.randint(1, 4), '--revert', '-f')
            times.append((t0, time.time()))
        if p.status != 0:
            raise run.Broken('update-failed', p.tail())
    end = time.time() + 60
    while time.time() < end and r.site.query('SELECT count(*) AS n FROM task WHERE completion_time IS NULL AND exit_status IS NULL')[0]['n']:
        time.sleep(.2)
    t0 = time.time()
    p = r.site.cli('task', 'update', '-w', 'exit_status != null', '--limit', 5, '--revert', '-f')
    times.append((t0, time.time()))
    end = time.time() + 30
    while time.time() < end and r.site.query('SELECT count(*) AS n FROM task WHERE completion_time IS NULL AND exit_status IS NULL')[0]['n']:
        time.sleep(.2)
    r.outcome = 'done'
    return lambda h, was: was in ('completed', 'cancelled') and any(a - .01 <= h['t'] <= b + .01 for a, b in times)


def evict(c, r, sc, rng):
    """A client dies, or is frozen for longer than the eviction period and comes back."""
    tasks = run.gen_tasks(rng, 24, fail=.2, sleep=[.6, 1.2], signals=False)
    r.submit(tasks, '-b', 10)
    r.start_server('--restart', '-b', sc['b'], '-w', 1, '-r', sc['retries'], *(['--eager'] if sc['eager'] else []))
    a = r.start_client('-N', 2, '-b', sc['cb'], '-w', 1)
    b = r.start_client('-N', 1, '-b', 1, '-w', 1)
    time.sleep(rng.uniform(1, 3))
    if sc['kind'] == 'freeze':
        a.signal(signal.SIGSTOP)
        time.sleep(13)
        a.signal(signal.SIGCONT)
    else:
        os.kill(a.pid, signal.SIGKILL)
    r.settle(stall=30)
    gone = {}

    def back(h, was):
        if not gone:
            for x in r.history:
                if x['tab'] == 'client' and x['new'] and x['new']['evicted']:
                    gone.setdefault(x['id'], x['t'])
            gone.setdefault('', 0)
        return was == 'confirmed' and abs(h['t'] - gone.get(h['old']['client_id'], 0)) < 5
    c.count('evictions' if r.site.query('SELECT count(*) AS n FROM client WHERE evicted OR disconnected_at IS NOT NULL')[0]['n'] else 'no evictions')
    return back


if __name__ == '__main__':
    core.main(core.Check('C30', LEVEL, RULE, TECHNIQUE), body)
