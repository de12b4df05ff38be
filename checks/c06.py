"""C06: a lost client loses no tasks and a healthy client is never evicted."""
import json
import os
import random
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = ('fault injection with a runtime monitor: clients are killed, frozen and revived, clocks of clients are wrong and the server is held up while the committed history of tasks and clients, '
             'the heartbeats really sent and the executions are recorded; an offline checker judges evictions, hand-over and completion')
LEVEL = 'exploration'
LEVEL_NOTE = ('Held for the fault schedules generated, with the shortest eviction period the program accepts (10 s). A client killed between taking a bundle and confirming it is outside the property (so is one killed while it waits for a bundle: what the server hands to its open request, for up to 2 s, is gone until the server is restarted). '
              'SQLite only; freezing a process stands for a network partition.')
RULE = 'one case per run with its faults; non-trivial when a client was lost, frozen or under threat (wrong clock, server held up)'
EVICT = 10
CHECK = EVICT / 10
SLACK = 6      # two queue timeouts of 2 s and scheduling noise


def body(c):
    kinds = ['kill', 'freeze', 'healthy', 'heldup', 'kill', 'replace', 'short-freeze', 'idle-kill']
    scs = []
    for i in range(c.pick(24, 320)):
        rng = c.rng
        kind = kinds[i % len(kinds)]
        scs.append({'kind': kind, 'clients': {'replace': 1, 'idle-kill': rng.choice([1, 2])}.get(kind, rng.choice([2, 2, 3])), 'N': rng.choice([1, 2]), 'b': rng.choice([1, 2, 3]),
                    'cb': rng.choice([1, 1, 3]), 'rate': rng.choice([1, 2, 4]), 'clock': [rng.choice([0, 0, -3600, 3600, -30, 30, -9]) for _ in range(4)],
                    'at': round(rng.uniform(.2, 4), 2), 'stop': round(rng.uniform(12.5, 15), 1), 'held': round(rng.uniform(11.5, 14), 1), 'r': rng.choice([0, 0, 1]),
                    'flip': rng.random() < .5, 'sql_delay': rng.choice([None, None, [.3, .05]]), 'seed': rng.randrange(1 << 30)})
    for i in (0, 4):      # more to hand over than is looked at at once
        scs[i].update(bulk=True, b=250, clients=2, N=2, at=round(c.rng.uniform(.1, .6), 2))
    for i, sc in enumerate(scs[:8]):
        if sc['kind'] in ('healthy', 'kill', 'replace'):
            sc['clock'][0] = [-60, 90][sc['kind'] != 'healthy']

    def one(sc):
        with run.Run('c06', env={'HYPERSHELL_SERVER_EVICT': str(EVICT), 'HYPERSHELL_CLIENT_HEARTRATE': str(sc['rate'])}) as r:
            out = play(c, r, sc)
            return run.report(c, sc, out) if out else 0
    done = run.campaign(c, scs, one, workers=14)
    c.require('runs', min(done, 12))
    c.require('over 100 tasks handed over', 1)
    for k in ('clients lost', 'evictions', 'clients frozen and back', 'healthy clients', 'tasks handed over'):
        c.require(k, 1)


def play(c, r, sc):
    rng = random.Random(sc['seed'])
    kind = sc['kind']
    if kind == 'idle-kill':      # nothing left to hand over, the server must get past the dead client
        tasks = run.gen_tasks(rng, 2, fail=0, sleep=[0, 0])
    else:
        want = {'freeze': 24, 'short-freeze': 14, 'healthy': 15, 'heldup': 20}.get(kind, 6)       # seconds of work
        n = 700 if sc.get('bulk') else rng.choice([20, 30])
        s = round(want * sc['clients'] * sc['N'] / n, 2)
        tasks = run.gen_tasks(rng, n, fail=.1, sleep=[s * .7, s * 1.3], signals=False)
    p = r.submit(tasks, '-b', 10)
    if p.status != 0:
        raise run.Broken('submit-failed', p.tail())
    sp = {'seed': sc['seed']}
    if sc['sql_delay']:
        sp['sql_delay'] = sc['sql_delay']
    if kind == 'heldup':      # the server cannot look at heartbeats while it registers the last client
        sp['sql_slow'] = ['INSERT INTO client', sc['clients'], sc['held']]
    if kind == 'idle-kill':
        r.start_server('--forever', '-b', sc['b'], perturb=sp)
    else:
        r.start_server('--restart', '-b', sc['b'], '-r', sc['r'], perturb=sp)
    ids = {}       # process -> client id
    log = r.site.path / 'beats'

    def join(i, wait=True):
        p = r.start_client('-N', sc['N'], '-b', sc['cb'], '-w', 1, perturb={'clock': sc['clock'][i], 'queue_log': str(log)}, wait=(i == 0))
        end = time.time() + 40
        while wait and time.time() < end and r.server.alive():
            rows = [x['id'] for x in r.site.clients() if x['id'] not in ids.values()]
            if rows:
                ids[p] = rows[0]
                break
            time.sleep(.05)
        return p
    clients = [join(i) for i in range(sc['clients'])]
    time.sleep(sc['at'])
    lost, frozen = {}, {}
    victims = clients[:1] if rng.random() < .8 or sc['clients'] < 3 else clients[:2]
    if kind in ('kill', 'replace', 'idle-kill'):
        for v in victims:
            if v.alive():
                os.kill(v.pid, signal.SIGKILL)
                lost[v] = time.time()
                c.count('clients lost')
        if kind == 'replace':
            time.sleep(rng.choice([0, 2]))
            clients.append(join(3, wait=False))
    elif kind in ('freeze', 'short-freeze'):
        for v in victims[:1]:
            if v.alive():
                v.signal(signal.SIGSTOP)
                t0 = time.time()
                time.sleep(sc['stop'] if kind == 'freeze' else max(1, EVICT - sc['rate'] - 4))
                v.signal(signal.SIGCONT)
                frozen[v] = (t0, time.time())
                c.count('clients frozen and back')
    if kind == 'idle-kill':
        end = time.time() + EVICT + CHECK + SLACK + 3
        while time.time() < end and not any(x['evicted'] for x in r.site.clients()):
            time.sleep(.2)
        # what comes later is still served
        more = run.gen_tasks(rng, 4, prefix='late', fail=0, sleep=[0, .1])
        r.submit(more, '-b', 2)
        clients.append(join(3, wait=False))
        end = time.time() + 30
        while time.time() < end and r.site.query('SELECT count(*) AS n FROM task WHERE completion_time IS NULL')[0]['n']:
            time.sleep(.2)
        r.observe()
        r.outcome = 'done'
    else:
        r.settle(stall=30, limit=140)
        r.observe()
    if r.outcome == 'timeout':
        c.inconclusive(f'no end within the limit: {sc}')
        return []
    out = list(judge(c, r, sc, ids, lost, frozen, clients, log))
    c.count('runs')
    c.case(sc, sample=sc, nontrivial=bool(lost or frozen or any(sc['clock']) or kind == 'heldup'))
    for p in clients:
        p.kill()
    return out


def judge(c, r, sc, ids, lost, frozen, clients, log):
    # a killed client that had taken tasks it could not confirm any more
    beats = {}
    for line in open(log):
        x = json.loads(line)
        if x['op'] == 'put' and x['q'] == 'heartbeat' and 'error' not in x and isinstance(x['item'], dict):
            beats.setdefault(x['item']['uuid'], []).append((x['t'], x['item']['state']))
    open_rows = [x for x in r.rows if x['completion_time'] is None]
    unconfirmed = [x for x in open_rows if x['schedule_time'] and not x['client_id']] if lost else []
    if unconfirmed:
        c.count('tasks taken but not confirmed at death', len(unconfirmed))
        return
    if r.outcome == 'stalled':
        yield ('hang', f'no progress with {len(open_rows)} tasks open: {open_rows[:2]} clients {r.client_rows}; {r.tails()[:1500]}')
        return
    if open_rows:
        yield ('lost', f'{len(open_rows)} tasks never completed: {open_rows[:2]}')
    names = {v: k for k, v in ids.items()}
    mark = {}
    for h in r.history:
        if h['tab'] == 'client' and h['new'] and h['new']['evicted'] and not (h['old'] and h['old']['evicted']):
            mark.setdefault(h['id'], []).append(h['t'])
            c.count('evictions')
    for p, id in ids.items():
        bs = sorted(beats.get(id, []))
        for t in mark.get(id, []):
            before = [b for b, st in bs if b < t]
            last = before[-1] if before else None
            if last is not None and t - last < EVICT - .3:
                yield ('healthy-evicted', f'client evicted {t - last:.1f} s after its last heartbeat (period {EVICT} s); clock off by {sc["clock"]}')
            elif p not in lost and p not in frozen:
                gap = max([b - a for a, b in zip([x[0] for x in bs], [x[0] for x in bs][1:])] or [0])
                if gap < EVICT - 2 and (last is None or t - last < EVICT):
                    yield ('healthy-evicted', f'client evicted although its heartbeats were at most {gap:.1f} s apart')
        if p not in lost and p not in frozen:
            c.count('healthy clients')
        if p in lost:
            at = [t for t in mark.get(id, []) if t > lost[p] - 1]
            last = max([b for b, _ in bs] or [lost[p]])
            if r.server.status is None or r.server.t_end > lost[p] + EVICT + CHECK + SLACK:
                if not at or at[0] > max(last, lost[p]) + EVICT + CHECK + SLACK:
                    yield ('not-evicted', f'client killed at {lost[p]:.1f}, last heartbeat {last:.1f}, evicted {at}: later than the period of {EVICT} s and one check')
            # what it had confirmed is handed over
            if at:
                held = [x for x in tasks_at(r, at[0] - .001).values() if x['client_id'] == id and x['completion_time'] is None]
                after = tasks_at(r, at[0] + 3)
                c.count('over 100 tasks handed over', len(held) > 100)
                for x in held:
                    now = after[x['id']]
                    c.count('tasks handed over')
                    if now['client_id'] == id and now['completion_time'] is None:
                        yield ('not-handed-over', f'{x["args"]!r} confirmed by the dead client is still with it 3 s after the eviction')
        if p in frozen:
            t0, t1 = frozen[p]
            dur = t1 - t0
            if dur < EVICT - sc['rate'] - 2 and mark.get(id):
                yield ('healthy-evicted', f'client frozen for {dur:.1f} s with heartbeats every {sc["rate"]} s was evicted (period {EVICT} s)')
            came = [b for b, st in bs if b > t1 - .01 and st == 0]
            row = next(x for x in r.client_rows if x['id'] == id)
            if mark.get(id) and came and r.server.t_end and r.server.t_end > came[0] + 4:
                c.count('returned after eviction')
                back = [h for h in r.history if h['tab'] == 'client' and h['id'] == id and h['t'] > mark[id][-1] and not h['new']['evicted'] and h['new']['disconnected_at'] is None]
                if not back and not any(mark[id][-1] > b for b in came[:1]):
                    yield ('not-accepted', f'client evicted at {mark[id]} sent heartbeats from {came[0]:.1f} on and is still marked evicted: {row}')
                ran = [e for ex in r.execs.values() for e in ex if e[4] == p.pid and e[0] > came[0] + .5]
                left = [h for h in r.history if h['tab'] == 'task' and h['new'] and h['new']['schedule_time'] and not h['old']['schedule_time'] and h['t'] > came[0] + 3] if back else []
                if len(left) > 6 * sc['N'] * sc['clients'] * sc['b'] and not ran:
                    yield ('not-accepted', f'client that came back at {came[0]:.1f} was not given any of the {len(left)} tasks scheduled later')
    # completed tasks are not reverted, nothing is done twice without reason
    for h in r.history:
        if h['tab'] == 'task' and h['old'] and h['old']['completion_time'] and (h['new'] is None or h['new']['completion_time'] is None):
            yield ('completed-reverted', f'{h["old"]["args"]!r} was completed and is now {h["new"]}')
        if h['tab'] == 'task' and h['old'] and h['new'] and h['old']['schedule_time'] and not h['new']['schedule_time']:
            owner = h['old']['client_id']
            if owner and not any(abs(h['t'] - t) < 15 for t in mark.get(owner, [])):
                yield ('taken-away', f'{h["old"]["args"]!r} was taken away from client {owner} which was not evicted')
    harmed = bool(mark)
    for mech, desc in run.exactly_once(r, sc['r'] + 1):
        if mech == 'lost' or (not harmed and not lost and mech in ('repeated', 'foreign')):
            yield (mech, desc)
    if r.server.status not in (0, None):
        yield ('server-exit', r.server.tail(900))
    for p in clients:
        if p not in lost and p not in frozen and p.status not in (0, None) and p.pid in {e[4] for ex in r.execs.values() for e in ex}:
            yield ('client-exit', p.tail(700))


def tasks_at(r, t):
    out = {}
    for h in r.history:
        if h['tab'] == 'task' and h['t'] <= t and h['new']:
            out[h['id']] = h['new']
    return out


if __name__ == '__main__':
    core.main(core.Check('C06', LEVEL, RULE, TECHNIQUE), body)
