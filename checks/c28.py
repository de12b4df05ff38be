"""C28: autoscaling stays within its bounds and keeps work moving."""
import datetime
import json
import os
import random
import shlex
import signal
import sys
import threading
import time
import uuid

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run, pop

TECHNIQUE = ('runtime monitor: autoscaling clusters run over real clients and over stand-ins that hold, exit, fail or are killed at random moments, with task histories written ahead and tasks arriving and completing meanwhile; '
             'a sampler records the live launched processes and an independent reading of the pressure from the database, and the trace is checked: initial launches, upper bound, a reason for every launch, spacing by the period, and no standing demand left unanswered')
LEVEL = 'exploration'
LEVEL_NOTE = ('Held for the histories, settings and client fates generated. Times are judged with slack for the machine: a launch is justified by a reason in the two seconds before it, a demand must be answered within the period and some seconds. '
              'Pressure between 0.9 and 1.1 is not judged. Tasks taken by a client that is killed before it confirms them are outside the property (as in C06).')
RULE = 'one case per cluster run, keyed by policy, sizes, period, kind of history and the sequence of events; non-trivial if it launched a client, or had a reason not to for several periods'

STAND_IN = '''#!/bin/bash
d="$HSV_LAUNCHES"; i=0
while ! mkdir "$d/$i" 2>/dev/null; do i=$((i+1)); done
read -r stat < /proc/$$/stat; set -f; s=(${stat##*) })
printf '%s\\0' "$@" > "$d/$i/argv"
echo "$$ ${s[19]}" > "$d/$i/new"; mv "$d/$i/new" "$d/$i/pid"
fate=$(sed -n "$((i+1))p" "$HSV_PLAN"); [ -n "$fate" ] || fate=$(tail -n1 "$HSV_PLAN")
case $fate in
  real) exec "$HSV_REAL" "$@";;
  hold) exec sleep 300;;
  exit:*) IFS=: read -r _ t st <<< "$fate"; sleep $t; exit $st;;
esac
'''
SLACK = 8


def gen(rng, i):
    kind = ['steady', 'live', 'steady', 'fates'][i % 4]
    policy = rng.choice(['fixed', 'dynamic', 'dynamic']) if kind != 'fates' else rng.choice(['fixed', 'fixed', 'dynamic'])
    sc = {'kind': kind, 'policy': policy, 'I': rng.choice([0, 1, 1, 2, 3]), 'X': rng.choice([0, 0, 1, 2, 3]), 'Y': rng.choice([1, 2, 3, 4]), 'P': rng.choice([1, 1, 2]),
          'seed': rng.randrange(1 << 30), 'spelling': rng.choice([str, str.upper, str.title])(policy), 'how': rng.choice(['option', 'config', 'long']), 'noise': rng.choice([0, 0, 20]), 'launcher': rng.random() < .7,
          'source': rng.choice(['restart', 'file', 'stdin'])}
    if kind == 'steady':
        sc['history'] = rng.choice(['rated', 'rated', 'rated', 'rated', 'short', 'instant', 'gone', 'backwards', 'none', 'no start'])
        sc['target'] = rng.choice([.05, .5, .85, 1.15, 2, 50])
        sc['remaining'] = rng.choice([0, 1, 1, 5, 40])
        sc['events'] = rng.choice([['wait', 'wait'], ['exit', 'wait'], ['exit all', 'wait'], ['wait', 'exit', 'exit'], ['retarget', 'wait'], ['wait', 'retarget'], ['finish', 'wait'], ['finish', 'exit all', 'submit']])
        sc['older'] = rng.random() < .5
        if i % 8 == 0:          # a population of known pressure
            sc.update(policy='dynamic', spelling=rng.choice(['dynamic', 'DYNAMIC']), history='rated', remaining=rng.choice([1, 5, 40]))
            if i % 16 == 0:
                sc.update(target=rng.choice([.05, .5, .85]), X=0, I=rng.choice([1, 2]), events=rng.choice([['wait', 'exit all', 'wait'], ['exit all', 'wait', 'retarget']]))
            else:
                sc.update(target=rng.choice([1.15, 2, .85]), Y=rng.choice([2, 3, 4]), I=rng.choice([0, 1]), events=rng.choice([['wait', 'wait', 'wait'], ['retarget', 'wait', 'exit']]))
    elif kind == 'live':
        sc['F'] = rng.choice([.01, .3, 1, 1, 3, 1000])
        sc['tasks'] = rng.choice([0, 4, 8])
        sc['T'] = rng.choice([None, 2, 2])
        sc['events'] = rng.choice([['drain', 'submit', 'drain'], ['submit', 'kill', 'drain'], ['kill all', 'drain'], ['submit', 'kill all', 'drain'], ['drain', 'wait', 'submit', 'kill all', 'drain']])
    else:
        sc['remaining'] = rng.choice([0, 3])
        sc['fates'] = [rng.choice(['hold', 'exit:0:0', 'exit:0:1', f'exit:{rng.choice([.5, 1.5, 3])}:{rng.choice([0, 0, 1, 7])}']) for _ in range(rng.choice([1, 3, 6]))] + [rng.choice(['hold', 'hold', 'exit:2:0', 'exit:0:1'])]
        sc['events'] = ['wait', 'wait', 'submit' if rng.random() < .4 else 'wait', rng.choice(['exit', 'wait'])]
    return sc


def stamp(t):
    return datetime.datetime.fromtimestamp(t).strftime('%Y-%m-%d %H:%M:%S.%f')


class Monitor:
    """Samples launches, live processes, remaining tasks and pressure."""

    def __init__(self, site, factor):
        self.site, self.factor = site, factor
        self.launches = []          # {'pid', 't', 'end'}
        self.samples = []           # (t, live, remaining, pressure)
        self.offset = time.time() - time.clock_gettime(time.CLOCK_BOOTTIME)
        self.hz = os.sysconf('SC_CLK_TCK')
        self.stop = threading.Event()
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.errors = 0

    def loop(self):
        while not self.stop.is_set():
            self.sample()
            time.sleep(.1)

    def sample(self):
        d = self.site.path / 'launches'
        while True:
            p = d / str(len(self.launches)) / 'pid'
            if not p.exists():
                break
            pid, start = p.read_text().split()
            self.launches.append({'pid': int(pid), 't': self.offset + int(start) / self.hz, 'start': start, 'end': None})
        for x in self.launches:
            if x['end'] is None and self.gone(x):
                x['end'] = time.time()
        try:
            tasks = self.site.query('SELECT client_id, server_id, schedule_time, start_time, completion_time, exit_status, duration FROM task')
            clients = self.site.query('SELECT id FROM client WHERE disconnected_at IS NULL')
        except Exception:       # busy
            self.errors += 1
            return
        self.samples.append((time.time(), self.live(), *self.reading(tasks, {c['id'] for c in clients})))

    @staticmethod
    def gone(x):
        try:
            f = open(f'/proc/{x["pid"]}/stat').read().rsplit(')', 1)[1].split()
            return f[0] in 'ZX' or f[19] != x['start']
        except OSError:
            return True

    def kill(self, x, sig=signal.SIGKILL):
        if not self.gone(x):        # the number might belong to another process by now
            try:
                os.kill(x['pid'], sig)
            except OSError:
                pass

    def live(self):
        return sum(x['end'] is None for x in self.launches)

    def reading(self, tasks, active):
        """Remaining tasks, and pressure as documented: estimated time to completion over (factor x average duration)."""
        remaining = sum(x['completion_time'] is None and x['exit_status'] is None for x in tasks)
        scheduled = [x for x in tasks if x['schedule_time'] and x['server_id']]
        last = max((x for x in tasks if x['schedule_time']), key=lambda x: x['schedule_time'], default=None)
        if not last or not last['server_id']:
            return remaining, None
        mine = [x for x in scheduled if x['server_id'] == last['server_id'] and x['client_id'] in active]
        durations = [x['duration'] for x in mine if x['duration'] is not None]
        if not durations or not sum(durations):
            return remaining, None
        rate = 0
        for c in {x['client_id'] for x in mine}:
            done = [x for x in mine if x['client_id'] == c and x['completion_time']]
            starts = [run.parse_time(x['start_time']) for x in done if x['start_time']]
            if done and starts:
                span = max(run.parse_time(x['completion_time']) for x in done) - min(starts)
                if span > 0:
                    rate += len(done) / span
        if not rate or not remaining:
            return remaining, None
        return remaining, remaining / rate / (self.factor * (sum(durations) / len(durations)))


def play(c, sc):
    rng = random.Random(sc['seed'])
    kind, policy = sc['kind'], sc['policy']
    config = None
    keys = {'I': ('-I', '--init-size', 'init'), 'X': ('-X', '--min-size', 'min'), 'Y': ('-Y', '--max-size', 'max')}
    if kind == 'steady':
        # completed tasks of one, two or three clients of a server whose last scheduling is later than anything to come
        nc = rng.choice([1, 1, 2, 3])
        rate = avg = 0
        spans = []
        durs = []
        for _ in range(nc):
            k, d = rng.choice([1, 2, 5]), rng.choice([1, 2, 30, 1800])
            span = d * k * rng.choice([1, 1, .5, 1.25])
            spans.append((k, d, span))
            rate += k / span
            durs += [d] * k
        avg = sum(durs) / len(durs)
        R = max(1, sc['remaining'])
        F = R / rate / avg / sc['target']
    else:
        F = sc.get('F', 1)
    if sc['how'] == 'config':
        config = f'[autoscale]\npolicy = "{sc["spelling"]}"\nperiod = {sc["P"]}\nfactor = {F!r}\n[autoscale.size]\ninit = {sc["I"]}\nmin = {sc["X"]}\nmax = {sc["Y"]}\n'
    site = hs.Site('c28', config=config, audit=False, env={'HYPERSHELL_SERVER_EVICT': 10, 'HYPERSHELL_CLIENT_HEARTRATE': 1})
    (site.path / 'launches').mkdir()
    fates = sc.get('fates') or (['real'] if kind == 'live' else ['hold'])
    (site.path / 'plan').write_text('\n'.join(fates) + '\n')
    stand_in = site.path / 'bin' / 'stand-in'
    stand_in.write_text(STAND_IN)
    stand_in.chmod(0o755)
    if sc['noise']:
        pop.insert(site.db, pop.rows(rng, sc['noise']))
    con = site.connect()

    def insert(rows):
        pop.insert(site.db, rows)

    def row(**kw):
        r = dict.fromkeys(pop.COLUMNS)
        r.update(id=str(uuid.uuid4()), args='true', submit_id=str(uuid.uuid4()), submit_time=stamp(time.time()), submit_host='vm', attempt=1, retried=0, tag={}, **kw)
        return r
    if kind == 'steady' and sc['history'] != 'none':
        server, later = str(uuid.uuid4()), time.time() + 36000
        rows = []
        for k, d, span in spans:
            cid = str(uuid.uuid4())
            for j in range(k):
                t = time.time() - 7200
                start, end = t, t + span
                if j:
                    start, end = t + span / 4, t + span / 2
                h = sc['history']
                if h == 'instant':
                    end = start = t
                if h == 'backwards':
                    start, end = t + span, t
                rows.append(row(server_id=server, server_host='vm', schedule_time=stamp(later), client_id=cid, client_host='vm', command='true', start_time=None if h == 'no start' else stamp(start), completion_time=stamp(end), exit_status=0, waited=0,
                                duration=0 if h in ('short', 'instant') else d))
            con.execute('INSERT INTO client (id, host, server_id, server_host, connected_at, disconnected_at, evicted) VALUES (?,?,?,?,?,?,0)',
                        (cid, 'vm', server, 'vm', stamp(time.time()), stamp(time.time()) if sc['history'] == 'gone' else None))
        if sc.get('older'):      # clients of a server before, which never left, do not count
            server = str(uuid.uuid4())
            for _ in range(rng.choice([1, 2])):
                cid, d = str(uuid.uuid4()), rng.choice([.05, 20]) * avg
                for j in range(8):
                    start = time.time() - 90000
                    rows.append(row(server_id=server, server_host='vm', schedule_time=stamp(later - 40000), client_id=cid, client_host='vm', command='true', start_time=stamp(start), completion_time=stamp(start + d * 8 * rng.choice([1, .1])),
                                    exit_status=0, waited=0, duration=max(1, round(d))))
                con.execute('INSERT INTO client (id, host, server_id, server_host, connected_at, disconnected_at, evicted) VALUES (?,?,?,?,?,NULL,0)', (cid, 'vm', server, 'vm', stamp(start)))
        con.commit()
        insert(rows)
    if kind != 'live':
        insert([row() for _ in range(sc['remaining'])])
    port = hs.free_port()
    args = ['cluster']
    env = {'HSV_LAUNCHES': str(site.path / 'launches'), 'HSV_PLAN': str(site.path / 'plan'), 'HSV_REAL': site.remote_exe(sleep_cap=.2)}
    opts = [['-p', port], ['--remote-exe', str(stand_in)], ['-d', 0], ['-b', rng.choice([1, 2])], ['-w', 1]]
    if sc['how'] == 'config':
        opts.append([rng.choice(['-A', '--autoscaling']), *([sc['spelling']] if rng.random() < .3 else ['-r', 0])])
    else:
        short = sc['how'] == 'option'
        opts.append(['-A' if short else '--autoscaling', sc['spelling']])
        opts.append(['-P' if short else '--period', sc['P']])
        opts.append(['-F' if short else '--factor', repr(F)])
        for k, (a, b, _) in keys.items():
            opts.append([a if short else b, sc[k]])
    if sc['launcher']:
        opts.append([rng.choice(['--launcher=env', '--launcher=nice -n 0'])])
    if sc.get('T'):
        opts.append(['-T', sc['T']])
    n = [0]

    def new_tasks(k):
        n[0] += k
        return ''.join(f'job t{n[0] - i} {rng.choice([.3, 1.1, 1.4, 2.1])}\n' for i in range(k))
    text = new_tasks(sc['tasks']) if kind == 'live' else ''
    stdin = None
    if sc['source'] == 'restart' and not text:
        opts.append(['--restart'])
    elif sc['source'] == 'file':
        (site.path / 'input').write_text(text)
        args.append(str(site.path / 'input'))
    else:
        stdin = text
    rng.shuffle(opts)
    args += [str(x) for o in opts for x in o]
    m = Monitor(site, F)
    desc = 'hs ' + ' '.join(map(shlex.quote, args)) + f' over {sc.get("history", kind)} with {sc.get("remaining", sc.get("tasks"))} tasks'
    bad = []
    p = site.spawn(*args, stdin=stdin, env=env, perturb={'sleep_cap': .2}, name='cluster')
    cap = max(sc['X'], sc['I'], sc['Y'] if policy == 'dynamic' else 1, 1)

    def demand(s):
        t, live, remaining, pressure = s
        if live < sc['X']:
            return 'minimum'
        if live == 0 and remaining:
            return 'work'
        if policy == 'dynamic' and pressure is not None and pressure > 1.1 and live < sc['Y']:
            return 'pressure'
        return None

    def answered(limit=None):
        """Until there is no demand, or a demand stands for too long."""
        t0 = start = time.time()
        since = None, None
        while time.time() - start < (limit or 12) or since[0] and not limit and time.time() - t0 > 2:
            if not p.alive():
                return False
            s = m.samples[-1] if m.samples else None
            d = s and demand(s)
            if not d:
                return True
            if since != (d, len(m.launches)):
                since, t0 = (d, len(m.launches)), time.time()
            if time.time() - t0 > sc['P'] + SLACK:
                bad.append(('unanswered', f'{desc}: nothing launched for {time.time() - t0:.1f} s with {s[1]} clients, {s[2]} tasks and pressure {s[3]} (init {sc["I"]}, min {sc["X"]}, max {sc["Y"]}, period {sc["P"]})'))
                return False
            time.sleep(.1)
        return True

    def pause(k):
        # what the autoscaler does in a few periods of no demand
        end = time.time() + k * (sc['P'] + .6)
        while time.time() < end and p.alive():
            time.sleep(.1)
    trail = []
    started = hs.wait_for(lambda: hs.listening(port) or not p.alive(), 60)
    m.sample()
    m.thread.start()
    if started and not hs.wait_for(lambda: len(m.launches) >= sc['I'] or not p.alive(), 25):
        bad.append(('initial', f'{desc}: {len(m.launches)} clients launched, the initial size is {sc["I"]}'))
    pause(1)
    answered()
    submitted = []
    for ev in sc['events']:
        if bad or not p.alive():
            break
        trail.append((round(time.time() - p.t_start, 1), ev))
        live = [x for x in m.launches if x['end'] is None]
        if ev == 'wait':
            pause(2)
        elif ev in ('exit', 'exit all', 'kill', 'kill all') and live:
            for x in (live if 'all' in ev else [rng.choice(live)]):
                m.kill(x, signal.SIGKILL if 'kill' in ev else rng.choice([signal.SIGTERM, signal.SIGKILL]))
            pause(1)
        elif ev == 'retarget':
            f = rng.choice([.2, 5])
            k = max(1, int(max(1, sc['remaining']) * f)) - sc['remaining']
            if k >= 0:
                insert([row() for _ in range(k)])
            else:
                con.execute('UPDATE task SET exit_status = 0, completion_time = ? WHERE id IN (SELECT id FROM task WHERE completion_time IS NULL AND exit_status IS NULL AND schedule_time IS NULL LIMIT ?)', (stamp(time.time() - 7000), -k))
                con.commit()
            pause(1)
        elif ev == 'finish':
            con.execute('UPDATE task SET exit_status = -1 WHERE completion_time IS NULL AND exit_status IS NULL')
            con.commit()
            pause(1)
        elif ev == 'submit':
            r = site.cli('submit', '-', stdin=new_tasks(rng.choice([1, 6])) if kind == 'live' else 'true\n' * rng.choice([1, 6]))
            if r.status:
                raise RuntimeError('submit: ' + r.tail())
            pause(1)
        elif ev == 'drain':
            t0 = time.time()
            while p.alive() and not bad and time.time() - t0 < 80:
                answered(5)
                lost = 0
                if any('kill' in e for _, e in trail) and time.time() - t0 > 30:
                    # a bundle that dies with its client before it was confirmed stays behind (see C06)
                    lost = site.query('SELECT count(*) AS n FROM task WHERE completion_time IS NULL AND exit_status IS NULL AND schedule_time IS NOT NULL AND client_id IS NULL')[0]['n']
                if m.samples[-1][2] <= lost and (not sc.get('T') or m.live() <= sc['X'] or sc['X']):
                    break
                time.sleep(.1)
            else:
                if p.alive() and not bad:
                    bad.append(('stuck', f'{desc}: {m.samples[-1][2]} tasks still remain after 80 s with {m.live()} clients'))
            if lost:
                c.count('tasks taken but not confirmed at death', lost)
            if sc.get('T') and not sc['X'] and p.alive() and not bad and not lost:
                # without work the clients leave, and stay away
                if not hs.wait_for(lambda: m.live() == 0 or not p.alive(), 40):
                    bad.append(('no-scale-down', f'{desc}: {m.live()} clients stay with nothing to do and an idle timeout of {sc["T"]} s'))
                pause(2)
        answered()
    alive = p.alive()
    m.stop.set()
    m.thread.join(10)
    if not alive:
        bad.append(('died', f'{desc} ended with status {p.status} after {trail}: {p.err[-700:]}'))
    p.kill()
    p.wait(10)
    for x in m.launches:
        m.kill(x)
    # -- the trace
    for t, live, *_ in m.samples:
        if live > cap:
            bad.append(('too-many', f'{desc}: {live} live clients at {t - p.t_start:.1f} s (init {sc["I"]}, min {sc["X"]}, max {sc["Y"]})'))
            break
    later = m.launches[sc['I']:]
    for a, b in zip(later, later[1:]):
        if b['t'] - a['t'] < sc['P'] - .2:
            bad.append(('period', f'{desc}: launches at {a["t"] - p.t_start:.2f} s and {b["t"] - p.t_start:.2f} s, the period is {sc["P"]} s'))
            break
    reasons = {}
    for x in later:
        got = {why(s, sc) for s in m.samples if x['t'] - 2 <= s[0] <= x['t'] + .3}
        # the state just before the launch counts as well when sampling was held up
        before = [s for s in m.samples if s[0] <= x['t']]
        if before:
            got.add(why(before[-1], sc))
        # the launched process itself must not count
        got |= {why((s[0], s[1] - 1, *s[2:]), sc) for s in m.samples if x['t'] <= s[0] <= x['t'] + .3}
        got.discard(None)
        for g in got:
            reasons[g] = reasons.get(g, 0) + 1
        if not got:
            near = [(round(s[0] - p.t_start, 1), *s[1:]) for s in m.samples if x['t'] - 2 <= s[0] <= x['t'] + .5]
            bad.append(('no-reason', f'{desc}: a client was launched at {x["t"] - p.t_start:.1f} s without a reason: (time, live, remaining, pressure) = {near[:4]} .. {near[-2:]} (init {sc["I"]}, min {sc["X"]}, max {sc["Y"]})'))
            break
    c.count('clusters')
    c.count('clusters ' + policy)
    c.count('samples', len(m.samples))
    c.count('launches', len(m.launches))
    for k, v in reasons.items():
        c.count('launches for ' + k, v)
    c.count('client exits', sum(x['end'] is not None for x in m.launches))
    if any(s[3] is not None for s in m.samples):
        c.count('clusters with known pressure')
        if policy == 'dynamic':
            c.count('samples with low pressure below the maximum', sum(s[3] is not None and s[3] < .9 and 0 < s[1] < sc['Y'] for s in m.samples))
    c.case((kind, policy, sc['I'], sc['X'], sc['Y'], sc['P'], sc.get('history'), sc.get('target'), sc.get('remaining'), sc.get('F'), sc.get('T'), tuple(sc['events']), tuple(sc.get('fates', []))),
           sample={'how': desc[:300], 'trail': trail, 'launches': [round(x['t'] - p.t_start, 2) for x in m.launches][:12], 'exits': [round(x['end'] - p.t_start, 2) for x in m.launches if x['end']][:12],
                   'last (live, remaining, pressure)': m.samples[-1][1:] if m.samples else None},
           nontrivial=bool(m.launches) or len(trail) > 1)
    con.close()
    return bad


def why(s, sc):
    t, live, remaining, pressure = s
    if live < sc['X']:
        return 'minimum'
    if live == 0 and remaining:
        return 'work'
    if sc['policy'] == 'dynamic' and pressure is not None and pressure > .9 and live < sc['Y']:
        return 'pressure'
    return None


def body(c):
    scs = [gen(c.rng, i) for i in range(c.pick(72, 2000))]

    def one(sc):
        bad = play(c, sc)
        for mech, desc in bad[:3]:
            c.violation(mech, desc + ' :: ' + json.dumps(sc), sc)
        return len(bad)
    run.campaign(c, scs, one, workers=int(os.environ.get('HSV_WORKERS', 12)), budget=c.pick(200, 3000))
    for name, k in (('clusters', 40), ('launches', 60), ('launches for minimum', 10), ('launches for work', 5), ('launches for pressure', 5), ('client exits', 20), ('samples with low pressure below the maximum', 100)):
        c.require(name, k)


if __name__ == '__main__':
    core.main(core.Check('C28', LEVEL, RULE, TECHNIQUE), body)
