"""C34: the client registry reflects reality."""
import collections
import json
import os
import random
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = ('runtime monitor: clients join, idle out, leave on request, are released, killed, frozen and revived, over one or several servers, while every heartbeat really sent (with the process that sent it), every execution (with the client process it ran in) '
             'and every committed version of every client record are logged; an offline checker explains each version of a record by an event that really happened, and each event by a version')
LEVEL = 'exploration'
LEVEL_NOTE = 'Held for the histories generated, with the shortest eviction period the program accepts (10 s), on one host (host names are compared with its name). A killed client may take along a bundle it had not confirmed (see C06); such runs are judged without their end. SQLite only.'
RULE = 'one case per client with what happened to it (kind of run, how it left, evictions, returns, whether it ran tasks); non-trivial when it ran tasks, was evicted or left before the end'
EVICT = 10
LAG = 6        # the monitor can be held up twice for 2 s in queue timeouts
FIXED = ('id', 'host', 'server_id', 'server_host', 'connected_at')
KINDS = ('orderly', 'leave', 'idle', 'evict', 'orderly', 'leave', 'crowd', 'freeze', 'sessions', 'late')


def body(c):
    scs = []
    for i in range(c.pick(30, 360)):
        rng = c.rng
        kind = KINDS[i % len(KINDS)]
        n = {'crowd': rng.choice([8, 12]), 'freeze': 2}.get(kind, rng.choice([1, 2, 3, 4]))
        scs.append({'kind': kind, 'clients': n, 'N': rng.choice([1, 2]), 'b': rng.choice([1, 2, 4]), 'cb': rng.choice([1, 3]), 'rate': rng.choice([1, 2]), 'no_confirm': rng.random() < .25,
                    'clock': rng.choice([0, 0, 0, -600, 600]), 'sql_delay': rng.choice([None, None, [.3, .05]]), 'seed': rng.randrange(1 << 30)})

    def one(sc):
        with run.Run('c34', env={'HYPERSHELL_SERVER_EVICT': str(EVICT), 'HYPERSHELL_CLIENT_HEARTRATE': str(sc['rate'])}) as r:
            lives = play(c, r, sc)
            if r.outcome == 'timeout':
                c.inconclusive(f'no end within the limit: {sc}')
                return 0
            r.observe()
            # a client killed between taking a bundle and confirming it takes it along: nobody can know, and the server waits
            stuck = [x for x in r.rows if x['schedule_time'] and not x['client_id'] and x['completion_time'] is None] if sc['kind'] == 'evict' else []
            c.count('tasks taken but not confirmed at death', len(stuck))
            n = run.report(c, sc, () if stuck else run.hung(r), judge(c, r, sc, lives))
            c.count('runs')
            for p in r.clients:
                p.kill()
            return n
    done = run.campaign(c, scs, one, workers=10, budget=c.pick(240, 4000))
    c.require('runs', min(done, 20))
    for k in ('clients registered', 'orderly departures', 'departures before the end', 'evictions', 'returns', 'tasks matched with their client', 'clients of a later server'):
        c.require(k, 1)


def play(c, r, sc):
    """Runs the scenario; returns the servers as [(process, start, end)]."""
    rng = random.Random(sc['seed'])
    kind = sc['kind']
    work = {'evict': 7, 'freeze': 22, 'idle': 6, 'leave': 6, 'late': 4, 'crowd': 6}.get(kind, 3)
    n = max(20, 3 * sc['clients'])
    s = work * min(sc['clients'] * sc['N'], 8) / n
    tasks = run.gen_tasks(rng, n, fail=.1, sleep=[s * .6, s * 1.2], signals=False)
    sp = {'seed': sc['seed'], **({'sql_delay': sc['sql_delay']} if sc['sql_delay'] else {})}
    nc = ['--no-confirm'] if sc['no_confirm'] else []
    r.log = r.site.path / 'beats'
    r.log.touch()
    lives = []

    def serve(*args):
        t = time.time()
        p = r.start_server(*args, '-b', sc['b'], '-w', 1, *nc, perturb=sp)
        lives.append([p, t, None])

    def join(*args, wait=True):
        return r.start_client('-N', sc['N'], '-b', sc['cb'], '-w', 1, *nc, *args, perturb={'queue_log': str(r.log), 'clock': sc['clock']}, wait=wait)

    if kind == 'sessions':
        r.submit(tasks[:n // 2], '-b', 10)
        for k in range(2):
            serve('--restart')
            for _ in range(sc['clients']):
                join()
            if k == 0 and rng.random() < .5:
                time.sleep(rng.uniform(1, 3))
                os.kill(r.server.pid, signal.SIGKILL)
                lives[-1][2] = time.time() - .1
                hs.settle([r.server, *r.clients], r.progress, stall=25, limit=60)
                for p in r.clients:
                    p.kill()
            else:
                r.settle(stall=25)
            lives[-1][2] = lives[-1][2] or time.time()
            if k == 0:
                r.submit(tasks[n // 2:], '-b', 10)
        return lives
    if kind == 'idle':
        r.submit(tasks, '-b', 10)
        serve('--forever')
        for _ in range(sc['clients']):
            join('-T', rng.choice([2, 3]))
        time.sleep(rng.uniform(0, 2))
        join('-T', 2)
        hs.settle(r.clients, r.progress, stall=25, limit=90)
        if rng.random() < .5:
            r.submit(run.gen_tasks(rng, 4, prefix='late', fail=0), '-b', 2)
            join('-T', 2)
            hs.settle(r.clients, r.progress, stall=25, limit=90)
        time.sleep(LAG)
        lives[-1][2] = time.time()
        r.outcome = 'done'
        return lives
    r.submit(tasks, '-b', 10)
    serve('--restart')
    cs = [join(wait=(k == 0)) for k in range(sc['clients'])]
    if kind in ('leave', 'evict', 'freeze'):
        time.sleep(rng.uniform(1, 4))
    if kind == 'leave':
        for p in rng.sample(cs, rng.randint(1, len(cs))):
            p.signal(signal.SIGUSR1)
            time.sleep(rng.uniform(0, 1))
        join(wait=False)
    elif kind == 'evict':
        for p in rng.sample(cs, rng.randint(1, max(1, len(cs) - 1))):
            os.kill(p.pid, signal.SIGKILL)
        join(wait=False)
    elif kind == 'freeze':
        cs[0].signal(signal.SIGSTOP)
        time.sleep(rng.uniform(12.5, 14))
        cs[0].signal(signal.SIGCONT)
    elif kind == 'late':
        for _ in range(3):
            time.sleep(rng.uniform(.5, 2.5))
            if r.server.alive():
                join(wait=False)
    if kind == 'evict' and sc['no_confirm']:      # nobody knows what the dead clients had: the server waits for it
        hs.settle([r.server, *cs], r.progress, stall=EVICT + EVICT / 10 + LAG, limit=90)
        r.outcome = 'done'
    else:
        r.settle(stall=30, limit=140)
    lives[-1][2] = r.server.t_end or time.time()
    return lives


def judge(c, r, sc, lives):
    host = os.uname().nodename
    beats, tried, owner = collections.defaultdict(list), collections.defaultdict(list), {}
    for line in open(r.log):
        x = json.loads(line)
        if x['q'] == 'heartbeat' and isinstance(x['item'], dict):
            if x['op'] == 'putting':      # may arrive even if an error comes back or the process ends meanwhile
                tried[x['item']['uuid']].append((x['t0'], x['t'], x['item']['state']))
            elif x['op'] == 'put' and 'error' not in x:
                beats[x['item']['uuid']].append((x['t0'], x['t'], x['item']['state']))
                owner[x['item']['uuid']] = x['pid']
    if len(set(owner.values())) != len(owner):
        yield ('identity', f'one client process used several identities: {owner}')
    hist = collections.defaultdict(list)
    for h in r.history:
        if h['tab'] == 'client':
            hist[h['id']].append(h)
    ran = collections.defaultdict(list)
    for ex in r.execs.values():
        for e in ex:
            ran[e[4]].append(e)
    by_id = {x['id']: x for x in r.rows}
    served = {}      # server id by life
    for u in hist:
        if u not in tried:
            yield ('unknown-client', f'client {u} recorded which sent no heartbeat: {hist[u]}')
    for u, bs in beats.items():
        bs.sort()
        hs_, pid = hist.get(u, []), owner[u]
        life = next((k for k, (_, a, b) in enumerate(lives) if a <= bs[0][0] <= b), None)
        what = f'client {u} (process {pid})'
        if life is None:
            continue
        end = lives[life][2]
        if not hs_:
            if bs[0][1] < end - LAG:
                yield ('not-recorded', f'{what} sent a heartbeat {end - bs[0][1]:.1f} s before the server ended and was never recorded')
            continue
        c.count('clients registered')
        first = hs_[0]
        if [h['op'] for h in hs_].count('INSERT') != 1 or first['op'] != 'INSERT' or any(h['new'] is None for h in hs_):
            yield ('recorded-once', f'{what}: {[h["op"] for h in hs_]}')
            continue
        row = first['new']
        if row['host'] != host or row['server_host'] != host:
            yield ('host', f'{what}: {row}')
        if not bs[0][0] - .05 <= first['t'] <= bs[0][1] + LAG:
            yield ('recorded-late', f'{what}: first heartbeat {bs[0][:2]}, recorded at {first["t"]}')
        t = run.parse_time(row['connected_at'])
        if t is None or not bs[0][0] - .1 <= t <= first['t'] + .05:
            yield ('connected-at', f'{what}: connected_at {row["connected_at"]} = {t}, first heartbeat {bs[0][:2]}, recorded at {first["t"]} (clock off by {sc["clock"]} s)')
        if row['disconnected_at'] is not None or row['evicted']:
            yield ('connected-at', f'{what} appears as {row}')
        if served.setdefault(life, row['server_id']) != row['server_id'] or any(v == row['server_id'] for k, v in served.items() if k != life):
            yield ('server', f'{what} under server {row["server_id"]}; servers by run {served}')
        if life:
            c.count('clients of a later server')
        evictions = returns = 0
        for h in hs_[1:]:
            old, new = h['old'], h['new']
            for k in FIXED:
                if old[k] != new[k]:
                    yield ('changed', f'{what}: {k} {old[k]} -> {new[k]}')
            sent = [b for b in sorted(tried[u]) if b[0] < h['t'] + .005]      # the times of versions are cut off to milliseconds
            if new['disconnected_at'] is not None and old['disconnected_at'] is None:
                t = run.parse_time(new['disconnected_at'])
                if new['evicted']:
                    evictions += 1
                    if sent and h['t'] - sent[-1][1] < EVICT - .3:
                        yield ('evicted-without-reason', f'{what} marked evicted {h["t"] - sent[-1][1]:.1f} s after a heartbeat')
                elif not any(b[2] == 1 for b in sent):
                    yield ('disconnected-without-reason', f'{what} marked as disconnected at {h["t"]}, its last heartbeats: {sent[-3:]}')
                if not h['t'] - LAG <= t <= h['t'] + .05:
                    yield ('disconnected-at', f'{what}: disconnected_at {new["disconnected_at"]} written at {h["t"]}')
            elif new['disconnected_at'] is None and old['disconnected_at'] is not None:
                returns += 1
                if new['evicted']:
                    yield ('returned-evicted', f'{what} has no disconnection time and is marked evicted: {new}')
                if not sent or sent[-1][1] < run.parse_time(old['disconnected_at']) - LAG:
                    yield ('returned-without-reason', f'{what} shown as connected again at {h["t"]}, last heartbeat {sent[-1:]}')
            elif bool(old['evicted']) != bool(new['evicted']) or old['disconnected_at'] != new['disconnected_at']:
                yield ('changed', f'{what}: {old} -> {new}')
            if new['evicted'] and new['disconnected_at'] is None:
                yield ('evicted-connected', f'{what}: {new}')
        # everything that happened is recorded, as long as the server lived to see it
        fin = next((b for b in bs if b[2] == 1), None)

        def at(t):
            return [h['new'] for h in hs_ if h['t'] <= t][-1]
        if fin and fin[1] < end - LAG or (fin and lives[life][0].status == 0):
            last = hs_[-1]
            if last['new']['disconnected_at'] is None:
                yield ('departure-missing', f'{what} left at {fin[0]:.2f} (server until {end:.2f}) and has no disconnection time')
            elif not last['new']['evicted'] and not fin[0] - .1 <= run.parse_time(last['new']['disconnected_at']) <= fin[1] + LAG:
                yield ('disconnected-at', f'{what} left at {fin[0]:.2f}, recorded {last["new"]["disconnected_at"]}')
            c.count('orderly departures')
            if sc['kind'] in ('leave', 'idle') and fin[1] < end - 1:
                c.count('departures before the end')
        marks = [h['t'] for h in hs_[1:] if h['new']['evicted'] and not h['old']['evicted']]
        for m in marks:
            back = [b for b in bs if b[2] == 0 and b[0] > m + .2 and b[1] < end - LAG and (fin is None or b[1] < fin[0] - LAG)]
            if back:
                now = at(back[0][1] + LAG - .5)
                if now['evicted'] or now['disconnected_at'] is not None:
                    yield ('not-returned', f'{what} evicted at {m:.1f} sent heartbeats from {back[0][0]:.1f} on and is still shown as {now}')
        if fin is None and bs[-1][1] < end - EVICT - EVICT / 10 - LAG and not marks and lives[life][0].status in (0, None):
            yield ('eviction-missing', f'{what} sent its last heartbeat at {bs[-1][1]:.1f}, the server ran until {end:.1f}: {hs_[-1]["new"]}')
        c.count('evictions', evictions)
        c.count('returns', returns)
        mine = ran.get(pid, [])
        for e in mine:
            x = by_id.get(e[2])
            if x is None or x['completion_time'] is None:
                continue
            if x['client_id'] != u:
                others = [z for z in r.execs.values() for z in z if z[2] == e[2]]
                if len(others) == 1:
                    yield ('task-client', f'{x["args"]!r} ran in {what} and is recorded for {x["client_id"]}')
            elif x['client_host'] != host:
                yield ('task-client', f'{x["args"]!r}: client_host {x["client_host"]}')
            elif x['server_id'] != row['server_id']:
                yield ('server', f'{x["args"]!r} of server {x["server_id"]} ran in {what} recorded under {row["server_id"]}')
            else:
                c.count('tasks matched with their client')
        c.case((sc['kind'], sc['no_confirm'], sc['clock'], evictions, returns, bool(mine), bool(fin), life), sample={'kind': sc['kind'], 'heartbeats': len(bs), 'tasks': len(mine), 'evictions': evictions, 'returns': returns},
               nontrivial=bool(mine or evictions or fin and fin[1] < end - 1))


if __name__ == '__main__':
    core.main(core.Check('C34', LEVEL, RULE, TECHNIQUE), body)
