"""C37: every documented setting takes effect, and options override it."""
import datetime
import json
import os
import random
import re
import signal
import socket
import subprocess
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = ('runtime monitor: programs run under random settings from files (plain, _env, _eval), the environment and options, with decoys at lower precedence; monitors of sockets, queue operations, '
             'committed history, signals, task environments and log lines compare what the components do with the setting that should govern them')
LEVEL = 'exploration'
LEVEL_NOTE = 'Held for the settings, values and sources generated; times within a stated tolerance. Settings that only PostgreSQL has are not reached; the launch settings of clusters are in C08 and C33.'
RULE = 'one case per setting with its value, source, and the program observed; non-trivial when it was set and differs from the default'

DEFAULTS = {'server.bind': 'localhost', 'server.port': 50001, 'server.queuesize': 1, 'server.bundlesize': 1, 'server.attempts': 1, 'server.eager': False, 'server.wait': 5, 'server.evict': 600,
            'client.bundlesize': 1, 'client.bundlewait': 5, 'client.heartrate': 10, 'client.timeout': None, 'submit.bundlesize': 1, 'submit.bundlewait': 5,
            'task.cwd': None, 'task.timeout': None, 'task.signalwait': 10, 'logging.level': 'warning', 'logging.style': 'default', 'logging.datefmt': '%Y-%m-%d %H:%M:%S'}
EXE = '/opt/venv/bin/hs'


class Conf:
    """Settings with their sources. `sc['set']` maps a name to [how, value, decoy]."""

    def __init__(self, sc):
        self.sc, self.env, self.lines = sc, {}, {}
        for k, (name, (how, value, decoy)) in enumerate(sorted(sc['set'].items())):
            if how == 'default':
                continue
            section, key = name.rsplit('.', 1)
            env = 'HYPERSHELL_' + name.replace('.', '_').upper()
            for part in how.split('+'):
                v = value if part == how.split('+')[0] else decoy
                lines = self.lines.setdefault(section, [])
                t = str(v).lower() if isinstance(v, bool) else str(v)
                if part == 'env':
                    self.env[env] = t
                elif part == 'file':
                    lines.append(f'{key} = {json.dumps(v)}')
                elif part == 'file_env':
                    self.env[f'MY_SETTING_{k}'] = t
                    lines.append(f'{key}_env = "MY_SETTING_{k}"')
                elif part == 'file_eval':
                    self.env[f'MY_SETTING_{k}'] = t
                    lines.append(f'{key}_eval = "printenv MY_SETTING_{k}"')

    @property
    def toml(self):
        return '\n'.join(f'[{s}]\n' + '\n'.join(ls) + '\n' for s, ls in sorted(self.lines.items()))

    def __getitem__(self, name):
        how, value, decoy = self.sc['set'].get(name, ('default', None, None))
        return DEFAULTS[name] if how == 'default' else value

    def how(self, name):
        return self.sc['set'].get(name, ('default', None, None))[0]

    def options(self, **names):
        """Arguments for those given as options (keyword: option letter for a name)."""
        out = []
        for name, flag in names.items():
            name = name.replace('__', '.')
            how = self.how(name)
            if how.split('+')[0] == 'option':
                v = self[name]
                if flag.startswith('--') and v is True:
                    out += [flag]
                elif name == 'server.attempts':
                    out += [flag, str(v - 1)]
                else:
                    out += [flag, str(v)]
        return out

    def seen(self, c, name, program):
        c.case((program, name, str(self[name]), self.how(name)), sample={'program': program, 'setting': name, 'value': self[name], 'source': self.how(name)}, nontrivial=self.how(name) != 'default' and self[name] != DEFAULTS.get(name))
        c.count('settings observed')
        c.count('from ' + self.how(name).split('+')[0])
        c.count(f'{name} by {program}')


def choose(rng, sc, name, values, option=True, p_default=.2):
    value = rng.choice(values)
    others = [v for v in values if v != value] or [value]
    how = rng.choice(['file', 'env', 'file_env', 'file_eval', 'env+file', *(['option', 'option+file', 'option+env', 'option+env+file'] if option else [])])
    if rng.random() < p_default and name in DEFAULTS and name != 'server.port':
        how = 'default'
    if value is False and how.startswith('option'):      # no option turns it off
        how = 'file'
    sc['set'][name] = [how, value, rng.choice(others)]
    return sc['set'][name]


def key(rng):
    return rng.choice(['', 'k-']) + ''.join(rng.choice('0123456789') for _ in range(9)) + rng.choice(['', '', '$a b', '.50', 'é'])


def body(c):
    scs = []
    kinds = c.pick(['serve'] * 22 + ['poll'] * 8 + ['evict'] * 6 + ['limit'] * 14 + ['idle'] * 6 + ['submit'] * 8 + ['log'] * 24 + ['cluster'] * 24, ['serve', 'serve', 'poll', 'evict', 'limit', 'limit', 'idle', 'submit', 'log', 'log', 'cluster', 'cluster'] * 40)
    for kind in kinds:
        rng = c.rng
        sc = {'kind': kind, 'set': {}, 'seed': rng.randrange(1 << 30)}
        s = sc['set']
        if kind in ('serve', 'poll', 'evict', 'limit', 'idle'):
            choose(rng, sc, 'server.bind', ['localhost', '127.0.0.1', '127.0.0.7', '0.0.0.0'])
            sc['set']['server.port'] = [rng.choice(['file', 'env', 'file_eval', 'option', 'option+env', 'env+file']), 0, 1]
            choose(rng, sc, 'server.auth', [key(rng), key(rng)])
        if kind == 'serve':
            choose(rng, sc, 'server.queuesize', [1, 2, 3, 4], option=False)
            choose(rng, sc, 'server.bundlesize', [1, 2, 3, 4])
            choose(rng, sc, 'server.attempts', [1, 2, 3])
            choose(rng, sc, 'server.eager', [True, False])
            choose(rng, sc, 'client.bundlesize', [1, 2, 3])
            choose(rng, sc, 'client.bundlewait', [1, 2, 3])
            choose(rng, sc, 'client.heartrate', [1, 2, 3], option=False)
            choose(rng, sc, 'server.wait', [1, 2], option=False, p_default=0)
        elif kind == 'poll':
            choose(rng, sc, 'server.wait', [1, 2, 3, 4], option=False)
            choose(rng, sc, 'server.queuesize', [4, 5], option=False, p_default=0)
        elif kind == 'evict':
            choose(rng, sc, 'server.evict', [10, 12, 15], option=False, p_default=0)
            choose(rng, sc, 'client.heartrate', [1, 2, 3], option=False, p_default=0)
        elif kind == 'limit':
            choose(rng, sc, 'task.timeout', [1, 2, 3], p_default=0)
            choose(rng, sc, 'task.signalwait', [1, 2, 3], p_default=.1)
        elif kind == 'idle':
            choose(rng, sc, 'client.timeout', [3, 5, 7], p_default=.15)
        elif kind == 'submit':
            choose(rng, sc, 'submit.bundlesize', [2, 3, 5, 40])
            choose(rng, sc, 'submit.bundlewait', [1, 2, 3])
        elif kind == 'cluster':
            sc['mode'] = rng.choice(['local', 'local', 'launch'])
            sc['db'] = rng.random() < .6
            sc['set']['server.port'] = [rng.choice(['file', 'env', 'file_eval', 'option', 'option+env', 'env+file']), 0, 1]
            choose(rng, sc, 'server.queuesize', [1, 2, 3], option=False)
            choose(rng, sc, 'server.bundlesize', [2, 3, 4])
            choose(rng, sc, 'submit.bundlewait', [1, 2])
            choose(rng, sc, 'server.attempts', [1, 2, 3])
            choose(rng, sc, 'server.eager', [True, False])
            choose(rng, sc, 'client.heartrate', [1, 2], option=False, p_default=0)
            choose(rng, sc, 'task.timeout', [2, 3], p_default=0)
            choose(rng, sc, 'task.signalwait', [1, 2], p_default=0)
            choose(rng, sc, 'server.wait', [1, 2], option=False, p_default=0)
        elif kind == 'log':
            choose(rng, sc, 'logging.level', ['trace', 'debug', 'info', 'warning', 'error', 'TRACE', 'DEBUG', 'INFO', 'Info'], option=False, p_default=.1)
            choose(rng, sc, 'logging.style', ['default', 'detailed', 'detailed-compact', 'system', 'SYSTEM'], option=False)
            if rng.random() < .4:
                choose(rng, sc, 'logging.format', ['%(levelname)s|%(name)s|%(relative_name)s|%(asctime)s|%(app_id)s|%(hostname)s|%(hostname_short)s|%(elapsed)s|%(elapsed_ms)s|%(elapsed_hms)s|%(ansi_red)s%(ansi_level)s|%(message)s'], option=False)
            choose(rng, sc, 'logging.datefmt', ['%Y-%m-%d %H:%M:%S', '%d/%b/%Y %H:%M:%S', '%Y%m%dT%H%M%S', '%s'], option=False)
            sc['color'] = rng.choice(['', '', 'NO_COLOR', 'FORCE_COLOR'])
            sc['program'] = rng.choice(['client', 'cluster'])
        if kind in ('limit', 'cluster'):
            sc['cwd'] = rng.random() < .7
            if sc['cwd']:
                choose(rng, sc, 'task.cwd', ['@work', '@work'], option=False, p_default=0)
            sc['export'] = {n: [rng.choice(['file', 'env', 'env+file']), rng.choice(['x', 'a b', "it's", '3.10', '007', '1e3', 'true', 'null', '5', '$HOME']), 'decoy'] for n in rng.sample(['FOO', 'FOO_BAR', 'VERSION', 'A_B_C', 'MODE'], rng.choice([1, 2, 3]))}
        scs.append(sc)
    c.rng.shuffle(scs)

    def one(sc):
        sc = json.loads(json.dumps(sc))
        if 'server.port' in sc['set']:
            how = sc['set']['server.port'][0]
            sc['set']['server.port'] = [how, hs.free_port(), hs.free_port()]
        work = os.path.join(hs.scratch(), f'work-{sc["seed"]}')
        os.makedirs(work, exist_ok=True)
        if 'task.cwd' in sc['set']:
            sc['set']['task.cwd'][1:] = [work, '/']
        conf = Conf(sc)
        for n, (how, v, decoy) in sc.get('export', {}).items():
            for part in how.split('+'):
                x = v if part == how.split('+')[0] else decoy
                if part == 'env':
                    conf.env['HYPERSHELL_EXPORT_' + n] = x
                else:
                    conf.lines.setdefault('export', []).append(f'{n.lower()} = {json.dumps(x)}')
        env = {**conf.env}
        if sc['kind'] == 'log':
            env.setdefault('HYPERSHELL_LOGGING_LEVEL', None)
            for v in ('NO_COLOR', 'FORCE_COLOR'):
                if sc['color'] == v:
                    env[v] = '1'
        with run.Run('c37', db=True, config='') as r:
            r.site.extra.update({k: v for k, v in env.items() if v is not None})
            hs.pathlib.Path(r.site.cfg).write_text(conf.toml)
            r.log = r.site.path / 'queue'
            r.log.touch()
            r.drop = [k for k, v in env.items() if v is None]
            n = run.report(c, sc, globals()['do_' + sc['kind']](c, r, sc, conf))
            c.count('runs')
            c.count('runs ' + sc['kind'])
            for p in r.site.procs:
                p.kill()
            return n
    done = run.campaign(c, scs, one, workers=20, budget=c.pick(260, 4000))
    c.require('runs', min(done, 40))
    for k in ('from file', 'from env', 'from option', 'from file_env', 'from file_eval', 'from default'):
        c.require(k, 3)


# ---------------------------------------------------------------------------------------------------------------- parts
def addresses(port):
    """Local addresses of listening sockets on `port`."""
    out = []
    for line in open('/proc/net/tcp'):
        f = line.split()
        if len(f) > 3 and f[3] == '0A' and int(f[1].split(':')[1], 16) == port:
            out.append(socket.inet_ntoa(bytes.fromhex(f[1].split(':')[0])[::-1]))
    return out


def listens(c, conf, p, bind, program, limit=40):
    port = conf['server.port']
    end = time.time() + limit
    while time.time() < end and not addresses(port) and p.alive():
        time.sleep(.05)
    got = addresses(port)
    want = {'localhost': '127.0.0.1'}.get(bind, bind)
    if got != [want]:
        return ('address', f'{program} with server.bind = {bind!r} ({conf.how("server.bind")}) and port {port} ({conf.how("server.port")}) listens on {got} of that port, expected {want}: {p.tail()}')
    conf.seen(c, 'server.port', program)
    if program == 'server':
        conf.seen(c, 'server.bind', program)
    return None


def start_server(r, conf, *args, stdin=None):
    opts = conf.options(server__bind='-H', server__port='-p', server__auth='-k', server__bundlesize='-b', server__attempts='-r', server__eager='--eager')
    r.server = r.site.spawn('server', *args, *opts, stdin=stdin, perturb={'queue_log': str(r.log)}, name='server')
    return r.server


def start_client(r, conf, *args):
    opts = conf.options(server__bind='-H', server__port='-p', server__auth='-k', client__bundlesize='-b', client__bundlewait='-w', client__timeout='-T', task__timeout='-W', task__signalwait='-S')
    p = r.site.spawn('client', '-N', '1', *args, *opts, perturb={'queue_log': str(r.log)}, name='client')
    r.clients.append(p)
    return p


def queue_log(r):
    return [json.loads(x) for x in open(r.log) if x.endswith('\n')]


def puts(r, q, pid=None):
    return [x for x in queue_log(r) if x['op'] == 'put' and x['q'] == q and 'error' not in x and (pid is None or x['pid'] == pid)]


def lists(xs):
    return [x for x in xs if isinstance(x['item'], list)]


def heartbeats(c, r, conf, program, pid=None):
    ts = [x['t0'] for x in puts(r, 'heartbeat', pid) if not (isinstance(x['item'], dict) and x['item'].get('state') == 1)]
    rate = conf['client.heartrate']
    gaps = [b - a for a, b in zip(ts[1:], ts[2:])]       # there are two at once in the beginning
    bad = [round(g, 2) for g in gaps if not rate - .2 <= g <= rate + 2]
    if bad:
        return ('heartrate', f'{program} with client.heartrate = {rate} ({conf.how("client.heartrate")}): heartbeats {bad} s apart')
    if gaps:
        conf.seen(c, 'client.heartrate', program)
    return None


def attempts_made(c, conf, r, fails, program, limit=None):
    want = conf['server.attempts'] if limit is None else limit
    n = {t: sum(1 for x in r.site.journal() if x[0] == 'S' and x[1] == t) for t in fails}
    if set(n.values()) != {want}:
        return ('attempts', f'{program} with server.attempts = {conf["server.attempts"]} ({conf.how("server.attempts")}): failing tasks were executed {n} times, expected {want}')
    conf.seen(c, 'server.attempts', program)
    return None


def eagerness(c, conf, r, program):
    """Retries before or after novel tasks, from the committed history."""
    if conf['server.attempts'] < 2:
        return None
    sched, failed, novel_ids, retry_of = {}, {}, set(), {}
    for h in r.site.audit():
        if h['tab'] != 'task':
            continue
        if h['op'] == 'INSERT':
            (novel_ids.add(h['id']) if not h['new']['previous_id'] else retry_of.__setitem__(h['id'], h['new']['previous_id']))
        new = h['new'] or {}
        if new.get('schedule_time') and h['id'] not in sched:
            sched[h['id']] = h['t']
        if new.get('completion_time') and h['id'] not in failed:
            failed[h['id']] = h['t']
    novel = sorted(sched[i] for i in novel_ids if i in sched)
    told = False
    for i, prev in retry_of.items():
        if i not in sched or prev not in failed:
            continue
        after = [t for t in novel if failed[prev] + .5 < t < sched[i] - .05]
        later = [t for t in novel if t > sched[i] + .05]
        if conf['server.eager'] and after:
            return ('eager', f'{program} with server.eager = true ({conf.how("server.eager")}): {len(after)} new tasks were scheduled between the failure of a task and its retry')
        if not conf['server.eager'] and later:
            return ('eager', f'{program} with server.eager = false ({conf.how("server.eager")}): a retry was scheduled before {len(later)} new tasks')
        told = told or (bool(later) if conf['server.eager'] else bool(novel and failed[prev] + 1 < novel[-1]))
    if told:
        conf.seen(c, 'server.eager', program)
    return None


def do_serve(c, r, sc, conf):
    q, b = conf['server.queuesize'], conf['server.bundlesize']
    n = (q + 3) * b + 8
    rng = random.Random(sc['seed'])
    fails = ['t1', f't{b}'] if b > 1 else ['t1']
    text = ''.join(f'job t{k} {rng.choice([0.1, 0.2, 0.4])} {3 if f"t{k}" in fails else 0}\n' for k in range(n))
    s = r.site.cli('submit', '-', stdin=text, env={'HYPERSHELL_SUBMIT_BUNDLESIZE': '50'})
    if s.status != 0:
        raise run.Broken('submit', s.tail())
    server = start_server(r, conf, '--restart')
    bad = listens(c, conf, server, conf['server.bind'], 'server')
    if bad:
        yield bad
        return
    last, since = -1, time.time()
    while time.time() < since + 3:
        k = r.site.query('SELECT count(*) AS n FROM task WHERE schedule_time IS NOT NULL')[0]['n']
        if k != last:
            last, since = k, time.time()
        time.sleep(.2)
    want = (q + 1) * b
    if last != want:
        yield ('queuesize', f'server with queuesize {q} ({conf.how("server.queuesize")}) and bundlesize {b} ({conf.how("server.bundlesize")}): {last} tasks are scheduled while no client is there, expected {want}: {server.tail()}')
        return
    conf.seen(c, 'server.queuesize', 'server')
    client = start_client(r, conf)
    if server.wait(150) is None:
        raise run.Broken('hang', 'the server does not end: ' + server.tail() + client.tail())
    if client.wait(40) is None:
        raise run.Broken('hang', 'the client does not end: ' + client.tail())
    if server.status or client.status:
        raise run.Broken('status', server.tail() + client.tail())
    conf.seen(c, 'server.auth', 'server')
    sizes = [len(x['item']) for x in lists(y for y in queue_log(r) if y['op'] == 'get' and y['q'] == 'scheduled')]
    if max(sizes, default=0) != b or any(k != b for k in sizes[:q + 1]):
        yield ('bundlesize', f'server with bundlesize {b} ({conf.how("server.bundlesize")}) sent bundles of {sizes}')
    conf.seen(c, 'server.bundlesize', 'server')
    yield from filter(None, [attempts_made(c, conf, r, fails, 'server'), eagerness(c, conf, r, 'server'), heartbeats(c, r, conf, 'client', client.pid)])
    yield from results(c, r, conf, client)


def results(c, r, conf, client):
    """Bundles of results: not larger than the size, and not moved on early or late."""
    b, w = conf['client.bundlesize'], conf['client.bundlewait']
    ends = sorted(x[3] for x in r.site.journal() if x[0] == 'E')
    done, prev = 0, None
    what = f'client with bundlesize {b} ({conf.how("client.bundlesize")}) and bundlewait {w} ({conf.how("client.bundlewait")})'
    bundles = lists(puts(r, 'completed', client.pid))
    for k, x in enumerate(bundles):
        m = len(x['item'])
        if m > b:
            yield ('result-bundle', f'{what} returned {m} results together')
            return
        if m < b and prev is not None and k < len(bundles) - 1 and x['t0'] - prev < w - .3:
            yield ('result-early', f'{what} returned {m} results {x["t0"] - prev:.2f} s after the previous ones')
            return
        base = max(ends[done], prev or 0)
        if x['t0'] > base + w + 3.5:
            yield ('result-late', f'{what} returned a result {x["t0"] - ends[done]:.2f} s after its end, {x["t0"] - base:.2f} s after it could')
            return
        prev = x['t']
        done += m
    if done != len(ends):
        yield ('lost', f'{what} returned {done} results of {len(ends)} executions')
    if b > 1:
        conf.seen(c, 'client.bundlesize', 'client')
        conf.seen(c, 'client.bundlewait', 'client')
    elif conf.how('client.bundlesize') != 'default':
        conf.seen(c, 'client.bundlesize', 'client')


def scheduled_at(r, token, limit):
    end = time.time() + limit
    while time.time() < end:
        got = r.site.query("SELECT t FROM hsv_audit WHERE tab = 'task' AND json_extract(new, '$.args') = ? AND json_extract(new, '$.schedule_time') IS NOT NULL ORDER BY n LIMIT 1", f'job {token}')
        if got:
            return got[0]['t']
        time.sleep(.05)
    return None


def do_poll(c, r, sc, conf):
    w = conf['server.wait']
    server = start_server(r, conf, '--forever')
    bad = listens(c, conf, server, conf['server.bind'], 'server')
    if bad:
        yield bad
        return
    s = r.site.cli('submit', '-', stdin='job t0\n')
    if s.status:
        raise run.Broken('submit', s.tail())
    prev = scheduled_at(r, 't0', 60)
    if prev is None:
        raise run.Broken('stuck', 'nothing is scheduled: ' + server.tail())
    for k in range(1, 4):
        time.sleep(.5)
        r.site.cli('submit', '-', stdin=f'job t{k}\n')
        t = scheduled_at(r, f't{k}', 60)
        if t is None or not w - .3 <= t - prev <= w + 1.5:
            yield ('wait', f'server with server.wait = {w} ({conf.how("server.wait")}): a task added after the queue was found empty is scheduled {t and round(t - prev, 2)} s later')
            return
        prev = t
    conf.seen(c, 'server.wait', 'server')


def do_evict(c, r, sc, conf):
    e = conf['server.evict']
    server = start_server(r, conf, '--forever')
    bad = listens(c, conf, server, conf['server.bind'], 'server')
    if bad:
        yield bad
        return
    client = start_client(r, conf)
    end = time.time() + 40
    while time.time() < end and len(puts(r, 'heartbeat', client.pid)) < 4:
        time.sleep(.1)
    client.signal(signal.SIGKILL)
    client.wait(10)
    last = max((x['t'] for x in puts(r, 'heartbeat', client.pid)), default=None)
    if last is None:
        raise run.Broken('stuck', 'no heartbeats: ' + client.tail() + server.tail())
    end = time.time() + e * 1.1 + 12
    gone = None
    while time.time() < end and gone is None:
        got = [x for x in r.site.clients() if x['evicted']]
        if got:
            gone = time.time()
        time.sleep(.1)
    if gone is None or not e - .5 <= gone - last <= e * 1.1 + 3.5:
        yield ('evict', f'server with server.evict = {e} ({conf.how("server.evict")}): a client was evicted {gone and round(gone - last, 1)} s after its last heartbeat')
        return
    conf.seen(c, 'server.evict', 'server')
    yield from filter(None, [heartbeats(c, r, conf, 'client', client.pid)])


def probe(r, name='probe'):
    return f'pwd > {r.site.dir}/{name}.cwd; env -0 > {r.site.dir}/{name}.env; job {name}'


def probed(c, r, sc, conf, program, name='probe'):
    try:
        cwd = open(f'{r.site.dir}/{name}.cwd').read().rstrip('\n')
        env = dict(x.split('=', 1) for x in open(f'{r.site.dir}/{name}.env').read().split('\0') if '=' in x)
    except OSError:
        yield ('probe', f'the probe did not run ({program})')
        return
    want = conf['task.cwd'] or r.site.dir
    if cwd != want:
        yield ('cwd', f'{program} with task.cwd = {conf["task.cwd"]!r} ({conf.how("task.cwd")}): tasks run in {cwd}')
    if env.get('TASK_CWD') != want:
        yield ('cwd', f'{program} with task.cwd = {conf["task.cwd"]!r} ({conf.how("task.cwd")}): TASK_CWD is {env.get("TASK_CWD")!r}')
    conf.seen(c, 'task.cwd', program)
    for n, (how, v, decoy) in sc['export'].items():
        if env.get(n) != v:
            yield ('export', f'{program}: variable {n} exported as {v!r} ({how}) arrives in tasks as {env.get(n)!r}')
        c.case((program, 'export', n, v, how), nontrivial=True)
        c.count('exports observed')


def trapped(c, r, conf, program, name='trap'):
    """Signals that a task which ignores them receives, and its end."""
    w, s = conf['task.timeout'], conf['task.signalwait']
    notes = {}
    try:
        for line in open(r.site.path / 'traps'):
            what, token, _, t, pid = line.split()
            if token == name:
                notes.setdefault(what, float(t))
                notes['pid'] = int(pid)
    except OSError:
        pass
    what = f'{program} with task.timeout = {w} ({conf.how("task.timeout")}) and task.signalwait = {s} ({conf.how("task.signalwait")})'
    if 'S' not in notes:
        return ('limit', f'{what}: the task did not start')
    for a, b, d in (('S', 'INT', w), ('INT', 'TERM', s), ('TERM', 'dead', s)):
        t = r.dead if b == 'dead' else notes.get(b)
        if t is None or not d - .6 <= t - notes[a] <= d + 2.2:
            return ('limit', f'{what}: {b} came {t and round(t - notes[a], 2)} s after {a}')
    conf.seen(c, 'task.timeout', program)
    conf.seen(c, 'task.signalwait', program)
    return None


def watch_trap(r, name='trap', limit=90):
    """Note when the process of the trapping task is gone."""
    r.dead = None

    def watch():
        end, pid = time.time() + limit, None
        while time.time() < end:
            if pid is None:
                try:
                    pid = next((int(x.split()[4]) for x in open(r.site.path / 'traps') if x.split()[1] == name), None)
                except (OSError, IndexError):
                    pass
            else:
                try:
                    state = open(f'/proc/{pid}/stat').read().rsplit(')', 1)[1].split()[0]
                except OSError:
                    state = 'Z'
                if state == 'Z':
                    r.dead = time.time()
                    return
            time.sleep(.03)
    r.watcher = threading.Thread(target=watch, daemon=True)
    r.watcher.start()


def trap(r, name='trap', seconds=60):
    return f'exec {hs.PY} {hs.VERIF}/workers/trapper.py {r.site.path}/traps {name} {seconds} 0 INT,TERM'


def do_limit(c, r, sc, conf):
    fifo = r.site.path / 'stream'
    os.mkfifo(fifo)
    stop = threading.Event()

    def feed():
        with open(fifo, 'w') as f:
            f.write(f'{probe(r)}\n{trap(r)}\n')
            f.flush()
            stop.wait(200)
    threading.Thread(target=feed, daemon=True).start()
    server = start_server(r, conf, '--no-db', '-', '-w', '1', stdin=fifo)
    bad = listens(c, conf, server, conf['server.bind'], 'server')
    if bad:
        yield bad
        return
    watch_trap(r)
    client = start_client(r, conf)
    r.watcher.join(100)
    stop.set()
    if r.dead is None:
        yield ('limit', f'client with task.timeout = {conf["task.timeout"]} ({conf.how("task.timeout")}) and signalwait {conf["task.signalwait"]}: the task was not stopped: {client.tail()}')
        return
    yield from probed(c, r, sc, conf, 'client')
    yield from filter(None, [trapped(c, r, conf, 'client')])


def do_idle(c, r, sc, conf):
    T = conf['client.timeout']
    fifo = r.site.path / 'stream'
    os.mkfifo(fifo)
    stop = threading.Event()

    def feed():
        with open(fifo, 'w') as f:
            for k in range(3):
                f.write(f'job t{k} .1\n')
                f.flush()
                time.sleep(.7)
            stop.wait(200)
    threading.Thread(target=feed, daemon=True).start()
    server = start_server(r, conf, '--no-db', '-', '-w', '1', stdin=fifo)
    bad = listens(c, conf, server, conf['server.bind'], 'server')
    if bad:
        yield bad
        return
    client = start_client(r, conf)
    end = time.time() + 60
    while time.time() < end and sum(1 for x in r.site.journal() if x[0] == 'E') < 3:
        time.sleep(.1)
    try:
        last = max(x[3] for x in r.site.journal() if x[0] == 'S')
    except ValueError:
        raise run.Broken('stuck', 'no tasks: ' + client.tail() + server.tail())
    client.wait((T or 9) + 15 if T else 9)
    took = client.t_end - last if client.t_end else None
    if (T is None and took is not None) or (T is not None and (took is None or not T - .6 <= took <= T + 5)):
        yield ('timeout', f'client with client.timeout = {T} ({conf.how("client.timeout")}): it ended {took and round(took, 1)} s after its last task: {client.tail()}')
        return
    conf.seen(c, 'client.timeout', 'client')
    conf.seen(c, 'server.auth', 'client')
    stop.set()


def do_submit(c, r, sc, conf):
    b, w = conf['submit.bundlesize'], conf['submit.bundlewait']
    n = b + 1 if b < 40 else 5
    fifo = r.site.path / 'stream'
    os.mkfifo(fifo)
    stop = threading.Event()

    def feed():
        with open(fifo, 'w') as f:
            time.sleep(1)
            f.write(''.join(f'job t{k}\n' for k in range(n)))
            f.flush()
            stop.wait(200)
    threading.Thread(target=feed, daemon=True).start()
    p = r.site.spawn('submit', '-', *conf.options(submit__bundlesize='-b', submit__bundlewait='-w'), stdin=fifo)
    end = time.time() + w + 20
    while time.time() < end and len(r.site.tasks()) < n:
        time.sleep(.1)
    stop.set()
    if p.wait(30) is None:
        raise run.Broken('hang', p.tail())
    groups = []
    for h in r.site.audit():
        if h['tab'] == 'task' and h['op'] == 'INSERT':
            if groups and h['t'] - groups[-1][1] < .05 and h['n'] == groups[-1][2] + 1:
                groups[-1] = [groups[-1][0], h['t'], h['n'], groups[-1][3] + 1]
            else:
                groups.append([h['t'], h['t'], h['n'], 1])
    what = f'submit with bundlesize {b} ({conf.how("submit.bundlesize")}) and bundlewait {w} ({conf.how("submit.bundlewait")}), given {n} lines: committed {[g[3] for g in groups]}, {[round(y[0] - x[0], 2) for x, y in zip(groups, groups[1:])]} s apart'
    if b == 1:
        pass        # which ones were committed together cannot be told from the times
    elif b < 40:
        # a wait that runs out before the lines arrive splits the first bundle
        if len(groups) not in (2, 3) or groups[0][3] > b:
            yield ('submit-bundle', what)
            return
        if len(groups) == 2 and not w - .4 <= groups[1][0] - groups[0][0] <= w + 2.5:
            yield ('submit-wait', what)
            return
    elif len(groups) != 1:
        if len(groups) != 2 or groups[0][3] > 1:
            yield ('submit-bundle', what)
            return
    conf.seen(c, 'submit.bundlesize', 'submit')
    conf.seen(c, 'submit.bundlewait', 'submit')


def do_cluster(c, r, sc, conf):
    b, q = conf['server.bundlesize'], conf['server.queuesize']
    program = 'cluster ' + sc['mode']
    rng = random.Random(sc['seed'])
    fails = ['t1', 't2']
    n = 4 * b + 6
    lines = [probe(r)] + [f'job t{k} {rng.choice([.1, .2, .3])} {3 if f"t{k}" in fails else 0}' for k in range(n)]
    lines.insert(2, trap(r))
    path = r.site.path / 'tasks'
    path.write_text('\n'.join(lines) + '\n')
    opts = conf.options(server__port='-p', server__bundlesize='-b', submit__bundlewait='-w', server__attempts='-r', server__eager='--eager', task__timeout='-W', task__signalwait='-S')
    if sc['mode'] == 'launch':
        opts += ['--launcher', 'env', '--remote-exe', r.site.remote_exe(queue_log=str(r.log)), '-d', '0']
    watch_trap(r, limit=150)
    p = r.site.spawn('cluster', str(path), *opts, *([] if sc['db'] else ['--no-db']), '-N', '1', perturb={'queue_log': str(r.log)})
    bad = listens(c, conf, p, '0.0.0.0' if sc['mode'] == 'launch' else 'localhost', program)
    if bad:
        yield bad
        return
    if p.wait(200) is None:
        raise run.Broken('hang', f'the cluster does not end: {p.tail()}')
    if p.status:
        raise run.Broken('status', p.tail())
    sizes = [len(x['item']) for x in lists(y for y in queue_log(r) if y['op'] == 'get' and y['q'] == 'scheduled')]
    if max(sizes, default=0) != b or (sc['db'] is False and any(k != b for k in sizes[:2])):
        yield ('bundlesize', f'{program} with bundlesize {b} ({conf.how("server.bundlesize")}) sent bundles of {sizes}')
    conf.seen(c, 'server.bundlesize', program)
    yield from filter(None, [attempts_made(c, conf, r, fails, program, limit=None if sc['db'] else 1), heartbeats(c, r, conf, program)])
    if sc['db']:
        yield from filter(None, [eagerness(c, conf, r, program)])
    # the task that is stopped has failed, too: only its first execution is looked at
    yield from probed(c, r, sc, conf, program)
    if conf['server.attempts'] == 1 or not sc['db']:
        yield from filter(None, [trapped(c, r, conf, program)])


def do_log(c, r, sc, conf):
    level = conf['logging.level'].upper()
    env = r.site.env(**{k: None for k in r.drop if k not in conf.env})
    if sc['program'] == 'client':
        server = r.site.server('--no-db', '-', stdin='job a\njob b 0 3\njob c\n', env={'HYPERSHELL_CONFIG_FILE': ''})
        if not hs.wait_listening(server):
            raise run.Broken('server-start', server.tail())
        argv = [EXE, 'client', '-p', str(server.port), '-k', server.auth, '-N', '1']
    else:
        (r.site.path / 'tasks').write_text('job a\njob b 0 3\njob c\n')
        argv = [EXE, 'cluster', str(r.site.path / 'tasks'), '-p', str(hs.free_port()), '--no-db']
    t0 = time.time()
    argv = [hs.PY, *argv] if os.environ.get('HSV_SRC') else argv
    p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=r.site.dir, start_new_session=True)
    try:
        out, err = p.communicate(timeout=90)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise run.Broken('hang', f'{sc["program"]} does not end')
    t1 = time.time()
    err = err.decode()
    if p.returncode:
        raise run.Broken('status', f'{sc["program"]} ended with {p.returncode}: {err[-1500:]}')
    names = ['TRACE', 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
    host = socket.gethostname()
    color = sc['color'] == 'FORCE_COLOR'
    a = r'((?:\x1b\[\d+m)*)' if color else '()'
    fmt = conf.sc['set'].get('logging.format')
    style = conf['logging.style'].lower()
    lv = f'(?P<level>{"|".join(names)})'
    date = {'%Y-%m-%d %H:%M:%S': r'\d{4}-\d\d-\d\d \d\d:\d\d:\d\d', '%d/%b/%Y %H:%M:%S': r'\d\d/\w{3}/\d{4} \d\d:\d\d:\d\d', '%Y%m%dT%H%M%S': r'\d{8}T\d{6}', '%s': r'\d+'}[conf['logging.datefmt']]
    uuid = r'(?P<app>[0-9a-f]{8}(?:-[0-9a-f]{4}){3}-[0-9a-f]{12})'
    name = r'(?P<name>hypershell(?:\.\w+)*)'
    hms = r'(?P<hms>\d\d-\d\d:\d\d:\d\d\.\d{3})'
    if fmt:
        rx = lv + rf'\|{name}\|(?P<rel>[\w.]+)\|(?P<date>{date})\|{uuid}\|{re.escape(host)}\|{re.escape(host.split(".")[0])}\|(?P<el>[\d.e-]+)\|(?P<ms>\d+)\|{hms}\|{a}\|(?P<msg>.*)'
    else:
        rx = {'default': rf'{a} *{lv}{a} {a}\[{name}\]{a} (?P<msg>.*)',
              'detailed': rf'{a}(?P<date>{date})\.\d{{3}} {re.escape(host)} {a}{a} *{lv}{a} {a}\[{name}\]{a} (?P<msg>.*)',
              'detailed-compact': rf'{a}{hms} \[{re.escape(host.split(".")[0])}\] {a}{a} *{lv}{a} {a}\[(?P<rel>[\w.]+)\]{a} (?P<msg>.*)',
              'system': rf'(?P<date>{date})\.\d{{3}} {re.escape(host)} +{lv} \[{uuid}\] \[{name}\] (?P<msg>.*)'}[style]
    rx = re.compile(rx)
    what = f'{sc["program"]} with logging.level = {conf["logging.level"]!r} ({conf.how("logging.level")}), style {conf["logging.style"]!r} ({conf.how("logging.style")}), format {"given (" + fmt[0] + ")" if fmt and fmt[0] != "default" else "of the style"}, datefmt {conf["logging.datefmt"]!r} ({conf.how("logging.datefmt")}), {sc["color"] or "no colour variable"}'
    seen, apps, running = {}, set(), 0
    for line in err.splitlines():
        m = rx.fullmatch(line)
        if not m:
            yield ('format', f'{what}: line {line!r}')
            return
        g = m.groupdict()
        seen[g['level']] = seen.get(g['level'], 0) + 1
        if g.get('app'):
            apps.add(g['app'])
        if g.get('rel') and g.get('name') and g['rel'] != g['name'].split('.', 1)[-1]:
            yield ('format', f'{what}: relative name {g["rel"]} of {g["name"]}')
        if g.get('date'):
            t = float(g['date']) if conf['logging.datefmt'] == '%s' else datetime.datetime.strptime(g['date'], conf['logging.datefmt']).replace(tzinfo=datetime.timezone.utc).timestamp()
            if not t0 - 1.1 <= t <= t1 + .1:
                yield ('date', f'{what}: a message of {g["date"]}, the program ran at {datetime.datetime.fromtimestamp(t0)}')
                return
        if g.get('el'):
            if not (0 <= float(g['el']) <= t1 - t0 + .1 and abs(float(g['el']) * 1000 - int(g['ms'])) <= 1.1):
                yield ('elapsed', f'{what}: elapsed {g["el"]} s, {g["ms"]} ms, {g["hms"]} after {t1 - t0:.2f} s')
                return
        if g.get('hms'):
            d, rest = g['hms'].split('-')
            h, mi, s = rest.split(':')
            e = int(d) * 86400 + int(h) * 3600 + int(mi) * 60 + float(s)
            if e > t1 - t0 + .1 or (g.get('el') and abs(e - float(g['el'])) > .0021):
                yield ('elapsed', f'{what}: elapsed {g["hms"]} after {t1 - t0:.2f} s ({g.get("el")})')
                return
        if color and (fmt or style != 'system') and '\x1b[' not in line:
            yield ('color', f'{what}: line {line!r}')
            return
    if len(apps) > 1:
        yield ('app-id', f'{what}: {len(apps)} instances in the messages of one program')
    # what the program has to say: one INFO per task, one WARNING per failure, DEBUG and TRACE of its components
    want = set(names[names.index(level):]) & {'TRACE', 'DEBUG', 'INFO', *(['WARNING'] if sc['program'] == 'cluster' else [])}
    fits = set(seen) == want and (('INFO' not in want) or seen['INFO'] == 3) and (('WARNING' not in want) or 1 <= seen['WARNING'] <= 2)
    if not fits:
        yield ('level', f'{what}: messages {seen}, expected levels {sorted(want)} with 3 INFO')
        return
    c.count('log lines', sum(seen.values()))
    for n in ('logging.level', 'logging.style', 'logging.datefmt'):
        if n == 'logging.datefmt' and (not fmt and style in ('default', 'detailed-compact')) or n == 'logging.style' and fmt:
            continue
        conf.seen(c, n, sc['program'])
    c.case(('color', sc['color'], style, bool(fmt)))


if __name__ == '__main__':
    core.main(core.Check('C37', LEVEL, RULE, TECHNIQUE), body)
