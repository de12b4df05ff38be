"""Whole runs (server, clients, submitters) under generated schedules, and what was observed of them."""
import collections
import datetime
import json
import os
import pathlib
import signal
import subprocess
import threading
import time

from vlib import hs


def parse_time(text):
    """A time stored by the program or the audit: naive means local time, which is UTC here."""
    if text is None:
        return None
    t = datetime.datetime.fromisoformat(text)
    if t.tzinfo is None:
        t = t.replace(tzinfo=datetime.timezone.utc)
    return t.timestamp()


class Broken(Exception):
    """The program failed in a way that ends the run: (mechanism, description)."""

    def __init__(self, mechanism, description):
        super().__init__(f'{mechanism}: {description}')
        self.mechanism, self.description = mechanism, description


class Task:
    def __init__(self, token, sleep=0, spec='0', text='', tags=None, args=None):
        self.token, self.sleep, self.spec, self.text, self.tags = token, sleep, str(spec), text, dict(tags or {})
        # a task that dies of a signal is exec'ed, so that the status is its own and not that of the shell around it
        self.args = args or ' '.join(x for x in ('exec' if self.spec.startswith('sig') else '', 'job', token, str(sleep), self.spec, text) if x)

    def attempts(self, limit):
        """[status] of the attempts that must happen when at most `limit` are allowed."""
        out = []
        while len(out) < limit:
            st = self.status(len(out) + 1)
            out.append(st)
            if st == 0:
                break
        return out

    def status(self, attempt):
        if self.spec.startswith('sig'):
            return -int(self.spec[3:])
        if self.spec.startswith('f'):
            k, st = self.spec[1:].split(':')
            return int(st) if attempt <= int(k) else 0
        return int(self.spec) & 0xff

    def __repr__(self):
        return self.args


def gen_tasks(rng, n, prefix='t', fail=0.15, sleep=(0, 0.05), signals=True, flaky=0.0):
    out = []
    for i in range(n):
        spec = '0'
        x = rng.random()
        if x < flaky:
            spec = f'f{rng.choice([1, 1, 2, 3])}:{rng.choice([1, 7, 255])}'
        elif x < flaky + fail:
            spec = rng.choice(['1', '2', '3', '77', '126', '127', '255'] + (['sig9', 'sig15'] if signals else []))
        out.append(Task(f'{prefix}{i}', round(rng.uniform(*sleep), 3), spec))
    return out


class Run:
    """One run. `sc` (a JSON-able dict) describes it completely apart from the OS schedule."""

    def __init__(self, name='run', db=True, env=None, config=None, audit=True):
        self.env = dict(env or {})
        self.site = hs.Site(name, db=db, env=self.env, config=config, audit=audit)
        self.db = db
        self.tasks = []          # submitted tasks
        self.server = None
        self.clients = []
        self.submitters = []
        self.outcome = None
        self.feeders = []

    # -- progress for stall detection
    def progress(self):
        def size(p):
            try:
                return os.path.getsize(p)
            except OSError:
                return 0
        n = 0
        if self.db:
            try:
                n = self.site.query('SELECT max(n) AS n FROM hsv_audit')[0]['n']
            except Exception:
                n = -1
        procs = [self.server, *self.clients, *self.submitters]
        return n, size(self.site.journal_path), tuple(p.alive() for p in procs if p)

    def submit(self, tasks, *args, stdin=True, wait=True, perturb=None):
        """`hs submit` (from standard input)."""
        self.tasks += tasks
        text = ''.join(t.args + '\n' for t in tasks)
        if wait:
            return self.site.cli('submit', *args, stdin=text, perturb=perturb)
        p = self.site.spawn('submit', *args, stdin=text, perturb=perturb)
        self.submitters.append(p)
        return p

    def start_server(self, *args, tasks=None, source='stdin', perturb=None, env=None, bursts=None):
        """`bursts`: list of (delay, count) describing how a slow source delivers `tasks`."""
        stdin = None
        if tasks is not None:
            self.tasks += tasks
            text = ''.join(t.args + '\n' for t in tasks)
            if source == 'stdin':
                stdin = text
            elif source == 'file':
                path = self.site.path / f'tasks{len(self.tasks)}'
                path.write_text(text)
                args = (str(path), *args)
            elif source == 'slow':
                fifo = self.site.path / f'fifo{len(self.tasks)}'
                os.mkfifo(fifo)
                stdin = fifo
                th = threading.Thread(target=self.feed, args=(fifo, list(tasks), list(bursts or [])), daemon=True)
                self.feeders.append(th)
                th.start()
        self.server = self.site.server(*args, stdin=stdin, perturb=perturb, env=env)
        return self.server

    def feed(self, fifo, tasks, bursts):
        try:
            with open(fifo, 'w') as f:
                for delay, count in bursts:
                    time.sleep(delay)
                    chunk, tasks = tasks[:count], tasks[count:]
                    f.write(''.join(t.args + '\n' for t in chunk))
                    f.flush()
                f.write(''.join(t.args + '\n' for t in tasks))
                f.flush()
                hold = getattr(self, 'hold', None)
                if hold is not None:
                    hold.wait(120)
        except BrokenPipeError:
            pass

    def start_client(self, *args, perturb=None, env=None, wait=True, server=None):
        server = server or self.server
        if wait and not hs.wait_listening(server):
            raise Broken('server-start', 'the server does not accept clients: ' + server.tail())
        c = self.site.client(server, *args, perturb=perturb, env=env)
        self.clients.append(c)
        return c

    def settle(self, procs=None, stall=25, limit=150):
        procs = procs or [p for p in [self.server, *self.clients, *self.submitters] if p]
        self.outcome = hs.settle(procs, self.progress, stall=stall, limit=limit)
        return self.outcome

    def observe(self):
        """Collect everything recorded."""
        self.journal = self.site.journal()
        self.rows = self.site.tasks() if self.db else []
        self.client_rows = self.site.clients() if self.db else []
        self.history = self.site.audit() if self.db else []
        self.by_args = collections.defaultdict(list)
        for r in self.rows:
            self.by_args[r['args']].append(r)
        self.execs = collections.defaultdict(list)      # token -> [(start, end or None, task_id, attempt, session, status)]
        openx = {}
        for kind, token, tid, t, pid, attempt, sid, status in self.journal:
            if kind == 'S':
                rec = [t, None, tid, attempt, sid, None]
                openx[(token, pid)] = rec
                self.execs[token].append(rec)
            elif (token, pid) in openx:
                rec = openx.pop((token, pid))
                rec[1], rec[5] = t, status
        return self

    def tails(self, n=700):
        return '\n'.join(p.tail(n) for p in [self.server, *self.clients, *self.submitters] if p)[-6000:]

    def close(self):
        self.site.close()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


def chain_of(run, task):
    """The records of one submitted task, by attempt number."""
    return sorted(run.by_args.get(task.args, []), key=lambda r: (r['attempt'], r['submit_time']))


# ------------------------------------------------------------------------------------------------ oracles
# Every oracle yields (mechanism, description). They state facts about the history only.

def exactly_once(run, limit=1):
    """Every submitted task executed once per allowed attempt (journal), each execution one record."""
    known = {t.token for t in run.tasks}
    for t in run.tasks:
        want = t.attempts(limit)
        got = run.execs.get(t.token, [])
        if len(got) < len(want):
            yield ('lost', f'{t.args!r} executed {len(got)} times, expected {len(want)}')
        if len(got) > len(want):
            yield ('repeated', f'{t.args!r} executed {len(got)} times, expected {len(want)}: {got}')
        if any(e[1] is None for e in got):
            yield ('unfinished', f'{t.args!r} started but not finished when everything had ended')
    for token in run.execs:
        if token not in known:
            yield ('foreign', f'unknown token {token!r} executed')


def records(run, limit=1, tol=0.06):
    """Each record carries the outcome of the execution that really took place."""
    for t in run.tasks:
        want = t.attempts(limit)
        rows = chain_of(run, t)
        if len(rows) != len(want):
            yield ('record-count', f'{t.args!r}: {len(rows)} records, expected {len(want)}')
            continue
        for i, (row, st) in enumerate(zip(rows, want)):
            what = f'{t.args!r} attempt {i + 1} (id {row["id"]})'
            if row['completion_time'] is None or row['exit_status'] is None:
                yield ('not-completed', f'{what} has no completion recorded: status={row["exit_status"]} completion={row["completion_time"]}')
                continue
            if row['exit_status'] != st:
                yield ('wrong-status', f'{what} recorded exit status {row["exit_status"]}, really {st}')
            if row['command'] != t.args:
                yield ('wrong-command', f'{what} recorded command {row["command"]!r}')
            ex = [e for e in run.execs.get(t.token, []) if e[2] == row['id']]
            if len(ex) != 1:
                yield ('wrong-identity', f'{what}: {len(ex)} executions carried its id ({run.execs.get(t.token)})')
                continue
            s, e, tid, attempt, sid, _ = ex[0]
            if attempt != str(row['attempt']):
                yield ('wrong-attempt', f'{what}: execution saw attempt {attempt}, record says {row["attempt"]}')
            ts, tc = parse_time(row['start_time']), parse_time(row['completion_time'])
            if ts is None or ts > s + tol:
                yield ('wrong-start', f'{what}: recorded start {row["start_time"]} after the real start {s}')
            if e is not None and tc < e - tol:
                yield ('wrong-completion', f'{what}: recorded completion {tc} before the real end {e}')
            if e is not None and (tc - e > 20 or s - ts > 20):
                yield ('wrong-times', f'{what}: recorded {ts}..{tc}, really {s}..{e}')


def clients_consistent(run):
    """The client recorded for a task is the process that ran it."""
    sess_of, id_of = {}, {}
    ids = {r['id'] for r in run.client_rows}
    for r in run.rows:
        for execs in run.execs.values():
            for s, e, tid, attempt, sid, st in execs:
                if tid == r['id'] and r['completion_time'] is not None:
                    if r['client_id'] is None:
                        yield ('no-client', f'completed task {r["args"]!r} has no client recorded')
                        continue
                    if r['client_id'] not in ids:
                        yield ('unknown-client', f'task {r["args"]!r} credited to unregistered client {r["client_id"]}')
                    if sess_of.setdefault(r['client_id'], sid) != sid:
                        yield ('wrong-client', f'task {r["args"]!r} ran in session {sid} but its client {r["client_id"]} ran others in {sess_of[r["client_id"]]}')
                    if id_of.setdefault(sid, r['client_id']) != r['client_id']:
                        yield ('wrong-client', f'task {r["args"]!r} ran in the client of session {sid} which is {id_of[sid]}, recorded {r["client_id"]}')


def chains(run, limit):
    """Attempt chains: numbering, links in both directions, retried marks, tags."""
    for t in run.tasks:
        rows = chain_of(run, t)
        for i, row in enumerate(rows):
            what = f'{t.args!r} attempt {row["attempt"]}'
            if row['attempt'] != i + 1:
                yield ('chain-number', f'{t.args!r}: attempt numbers {[r["attempt"] for r in rows]}')
                break
            prev, nxt = (rows[i - 1]['id'] if i else None), (rows[i + 1]['id'] if i + 1 < len(rows) else None)
            if row['previous_id'] != prev:
                yield ('chain-link', f'{what}: previous_id {row["previous_id"]}, expected {prev}')
            if row['next_id'] != nxt:
                yield ('chain-link', f'{what}: next_id {row["next_id"]}, expected {nxt}')
            if bool(row['retried']) != (nxt is not None):
                yield ('chain-retried', f'{what}: retried={row["retried"]} but successor is {nxt}')
            if json.loads(row['tag']) != t.tags:
                yield ('chain-tag', f'{what}: tags {row["tag"]}, expected {t.tags}')
            if nxt is not None and row['exit_status'] == 0:
                yield ('retried-success', f'{what} succeeded and was retried')
        if len(rows) > limit:
            yield ('too-many-attempts', f'{t.args!r}: {len(rows)} attempts, limit {limit}')


IDENTITY = ('args', 'submit_id', 'submit_time', 'submit_host', 'attempt', 'previous_id', 'tag')


def lifecycle(run, reverts=False, restarted=False):
    """Committed history: states, order of moves, immutability."""
    nul = lambda r, *names: all(r[n] is None for n in names)
    for h in run.history:
        if h['tab'] != 'task':
            continue
        old, new = h['old'], h['new']
        if new is None:
            continue
        what = f'task {new["args"]!r} (n={h["n"]})'
        sub, sch, sta, com = (parse_time(new[k]) for k in ('submit_time', 'schedule_time', 'start_time', 'completion_time'))
        if sub is None:
            yield ('no-submit-time', what)
            continue
        if com is not None:
            if new['exit_status'] is None or sta is None or sch is None:
                yield ('state', f'{what} completed without status/start/schedule: {new}')
            if not sub <= sch <= (sta or sch) + 0.001 <= com + 0.002:
                yield ('time-order', f'{what} submit {sub} schedule {sch} start {sta} completion {com}')
            if new['waited'] is None and new['command'] is not None or (new['waited'] is not None and abs(new['waited'] - (sta - sub)) > 1.01):
                yield ('waited', f'{what} waited={new["waited"]}, start-submit={sta - sub:.2f}')
            if new['duration'] is None and new['waited'] is not None or (new['duration'] is not None and abs(new['duration'] - (com - sta)) > 1.01):
                yield ('duration', f'{what} duration={new["duration"]}, completion-start={com - sta:.2f}')
        else:
            if sta is not None and not reverts:
                yield ('state', f'{what} started but not completed in the database: {new}')
            if new['exit_status'] is not None and not (new['exit_status'] == -1 and sch is not None):
                yield ('state', f'{what} has status {new["exit_status"]} without completion: {new}')
            if sch is None and not nul(new, 'client_id', 'client_host', 'server_id', 'server_host', 'command', 'exit_status', 'outpath', 'errpath', 'waited', 'duration'):
                yield ('state', f'{what} unscheduled with run data: {new}')
        if new['retried'] and (new['next_id'] is None or com is None or new['exit_status'] in (0, None)):
            yield ('state', f'{what} retried without failure or successor: {new}')
        if new['next_id'] is not None and not new['retried']:
            yield ('state', f'{what} has a successor but is not marked retried')
        if (new['attempt'] == 1) != (new['previous_id'] is None):
            yield ('state', f'{what} attempt {new["attempt"]} previous {new["previous_id"]}')
        if h['op'] == 'INSERT':
            if sch is not None or com is not None or new['client_id'] is not None:
                yield ('insert-state', f'{what} inserted as {new}')
            continue
        for k in IDENTITY:
            if k == 'tag' and json.loads(old[k]) == json.loads(new[k]):
                continue
            if old[k] != new[k]:
                yield ('identity-changed', f'{what}: {k} {old[k]!r} -> {new[k]!r}')
        if old['completion_time'] is not None and not reverts:
            for k in ('completion_time', 'exit_status', 'start_time', 'client_id', 'command', 'schedule_time'):
                if old[k] != new[k]:
                    yield ('completed-changed', f'{what}: {k} {old[k]!r} -> {new[k]!r}')
        if old['schedule_time'] is not None and new['schedule_time'] is None and not (reverts or restarted):
            yield ('unscheduled', f'{what} moved back from scheduled')
        if old['next_id'] is not None and new['next_id'] != old['next_id']:
            yield ('successor-changed', f'{what}: next_id {old["next_id"]} -> {new["next_id"]}')


def registry(run, orderly=True):
    """Client rows."""
    n_sessions = len({e[4] for ex in run.execs.values() for e in ex})
    ids = [r['id'] for r in run.client_rows]
    if len(set(ids)) != len(ids):
        yield ('duplicate-client', f'{ids}')
    if len(ids) > len(run.clients) or len(ids) < n_sessions:
        yield ('client-count', f'{len(run.clients)} clients started, {n_sessions} ran tasks, {len(ids)} recorded')
    host = os.uname().nodename
    servers = {r['server_id'] for r in run.rows if r['server_id']}
    for r in run.client_rows:
        if r['host'] != host or r['server_host'] != host:
            yield ('client-host', f'{r}')
        if servers and r['server_id'] not in servers:
            yield ('client-server', f'{r} not under the server that ran the tasks {servers}')
        if r['connected_at'] is None:
            yield ('client-connected-at', f'{r}')
        if orderly:
            if r['evicted']:
                yield ('client-evicted', f'{r}')
            if r['disconnected_at'] is None:
                yield ('client-not-disconnected', f'{r}')
            elif not parse_time(r['connected_at']) <= parse_time(r['disconnected_at']) + 0.001:
                yield ('client-times', f'{r}')


def bundles(run, size):
    """Tasks marked scheduled together never exceed the bundle size; returns order violations as well."""
    for batch in schedule_batches(run):
        if len(batch) > size:
            yield ('bundle-too-large', f'{len(batch)} tasks scheduled together, bundle size {size}')


def schedule_batches(run):
    """Consecutive audit rows that set schedule_time (one commit per batch: another server write separates them)."""
    out, cur, last = [], [], None
    for h in run.history:
        if h['tab'] == 'task' and h['op'] == 'UPDATE' and h['old']['schedule_time'] is None and h['new']['schedule_time'] is not None:
            # rows of one commit are written within one statement burst
            if cur and h['n'] == last + 1 and abs(h['t'] - cur[-1]['t']) < 0.002:
                cur.append(h)
            else:
                if cur:
                    out.append(cur)
                cur = [h]
            last = h['n']
    if cur:
        out.append(cur)
    return out


def concurrency(run):
    """{session: (max overlap, intervals)} of real executions."""
    by = collections.defaultdict(list)
    for execs in run.execs.values():
        for s, e, tid, attempt, sid, st in execs:
            if e is not None:
                by[sid].append((s, e))
    out = {}
    for sid, iv in by.items():
        ev = sorted([(s, 1) for s, e in iv] + [(e, -1) for s, e in iv], key=lambda x: (x[0], x[1]))
        n = m = 0
        for _, d in ev:
            n += d
            m = max(m, n)
        out[sid] = (m, iv)
    return out


def exits(run, server=0, client=0):
    if run.server and run.server.status != server:
        yield ('server-exit', f'server exit status {run.server.status}: {run.server.tail(900)}')
    # a client that arrives when the server is already leaving may be refused: only those that ran tasks are judged
    served = {e[4] for ex in run.execs.values() for e in ex}
    for c in run.clients:
        if c.pid in served and c.status != client:
            yield ('client-exit', f'client exit status {c.status}: {c.tail(900)}')


def campaign(check, scenarios, fn, workers=5, stop_after=5, budget=None):
    """
    Run fn(scenario) in a pool until done, `stop_after` violating runs, or `budget` seconds.
    `fn` reports through `check` and returns the number of violations it saw.
    """
    t0 = time.time()
    bad = [0]
    lock = threading.Lock()
    it = iter(scenarios)
    done = [0]

    def worker():
        while True:
            with lock:
                if bad[0] >= stop_after or (budget and time.time() - t0 > budget):
                    return
                try:
                    sc = next(it)
                except StopIteration:
                    return
            try:
                n = fn(sc)
            except Broken as exc:
                check.violation(exc.mechanism, f'{exc.description} :: {json.dumps(sc, default=str)[:600]}', sc)
                n = 1
            except Exception as exc:    # noqa
                import traceback
                check.inconclusive('harness error: ' + traceback.format_exc()[-1500:])
                n = 0
            with lock:
                bad[0] += bool(n)
                done[0] += 1
    threads = [threading.Thread(target=worker, daemon=True) for _ in range(workers)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return done[0]


def report(check, sc, *streams, prefix=''):
    """Turn oracle output into violations; returns how many."""
    n = 0
    for stream in streams:
        for mech, desc in stream:
            n += 1
            if n <= 25:
                check.violation(prefix + mech, f'{desc} :: {json.dumps(sc, default=str)[:600]}', sc)
    return n


# ------------------------------------------------------------------------------------------------ workload

def scenario(rng, **fixed):
    """A random run with a database (JSON-able)."""
    sc = {
        'n': rng.choice([1, 2, 3, 5, 8, 13, 20, 30]),
        'clients': rng.choice([1, 1, 2, 3]),
        'N': rng.choice([1, 2, 4]),
        'b': rng.choice([1, 1, 2, 3, 4, 7]),
        'w': rng.choice([1, 1, 2, 5]),
        'cb': rng.choice([1, 1, 2, 3, 5]),
        'cw': rng.choice([1, 1, 2]),
        'retries': 0,
        'eager': False,
        'no_confirm': rng.random() < 0.25,
        'submit': rng.choice(['stdin', 'file', 'slow', 'before', 'before+stdin', 'during']),
        'fail': 0.2, 'flaky': 0.0, 'sleep': rng.choice([[0, 0], [0, 0.05], [0, 0.4]]),
        'sql_delay': rng.choice([None, None, [0.3, 0.02], [0.05, 0.2]]),
        'queue_delay': rng.choice([None, None, [0.3, 0.05], [0.05, 0.4]]),
        'popen_delay': rng.choice([None, None, 0.05]),
        'switch': rng.choice([None, 1e-5, 1e-4]),
        'late_client': rng.random() < 0.2,
        'seed': rng.randrange(1 << 30),
    }
    sc.update(fixed)
    return sc


def some_tags(sc):
    """Tags of the tasks that are submitted by themselves (a server gives none)."""
    import random
    rng = random.Random(sc['seed'] + 99)
    return {k: v for k, v in {'site': rng.choice(['x', 'y.z', 'z+1']), 'group': rng.choice([0, 7, -3]), 'flag': rng.choice([True, False, 1.5]), 'naked': ''}.items() if rng.random() < .4}


def tagged(tasks, tags):
    for t in tasks:
        t.tags = dict(tags)
    return tasks


def tag_args(tags):
    return ['--tag', *(f'{k}:{json.dumps(v) if not isinstance(v, str) else v}' if v != '' else k for k, v in tags.items())] if tags else []


def play(r, sc, tasks=None, stall=25, limit=150, server_args=(), client_args=(), client_perturb=None, env=None):
    """Run scenario `sc` in `r` to its end and observe it."""
    import random
    rng = random.Random(sc['seed'])
    tasks = tasks if tasks is not None else gen_tasks(rng, sc['n'], fail=sc['fail'], flaky=sc['flaky'], sleep=sc['sleep'])
    sp = {'seed': sc['seed']}
    cp = {'seed': sc['seed'] + 1, **(client_perturb or {})}
    if sc.get('sql_delay'):
        sp['sql_delay'] = sc['sql_delay']
    if sc.get('queue_delay'):
        cp['queue_delay'] = sc['queue_delay']
    if sc.get('popen_delay'):
        cp['popen_delay'] = sc['popen_delay']
    if sc.get('switch'):
        sp['switch'] = cp['switch'] = sc['switch']
    args = ['-b', sc['b'], '-w', sc['w'], '-r', sc['retries'], *server_args]
    if sc['eager']:
        args.append('--eager')
    if sc['no_confirm']:
        args.append('--no-confirm')
    cargs = ['-N', sc['N'], '-b', sc['cb'], '-w', sc['cw'], *client_args] + (['--no-confirm'] if sc['no_confirm'] else [])
    mode = sc['submit']
    tags = some_tags(sc)
    k = rng.randint(0, len(tasks)) if mode in ('before+stdin', 'during') else 0
    k = min(k, len(tasks) - 1)      # a server source must deliver something
    if mode == 'before':
        if tasks:
            p = r.submit(tagged(tasks, tags), *tag_args(tags), '-b', sc['b'])
            if p.status != 0:
                raise Broken('submit-failed', p.tail())
        r.start_server('--restart', *args, perturb=sp, env=env)
    elif mode == 'before+stdin':
        if k:
            r.submit(tagged(tasks[:k], tags), *tag_args(tags), '-b', sc['b'])
        r.start_server(*args, tasks=tasks[k:], perturb=sp, env=env)
    elif mode == 'slow':
        bursts = [(rng.choice([0, 0.05, 0.3, 1.2]), rng.choice([1, 1, 2, 5])) for _ in range(rng.randint(1, 4))]
        r.start_server(*args, tasks=tasks, source='slow', bursts=bursts, perturb=sp, env=env)
    elif mode == 'during':
        # the server's own source stays open until the other submitters have finished
        r.hold = threading.Event()
        r.start_server(*args, tasks=tasks[k:], source='slow', perturb=sp, env=env)
    else:
        r.start_server(*args, tasks=tasks, source=mode, perturb=sp, env=env)
    for i in range(sc['clients']):
        if i and sc.get('late_client'):
            time.sleep(rng.choice([0.1, 0.5, 1.0]))
            if not r.server.alive():
                break
        r.start_client(*cargs, perturb={**cp, 'seed': sc['seed'] + i}, wait=(i == 0), env=env)
    if mode == 'during':
        parts = [tasks[:k][i::2] for i in range(2)]
        ps = [r.submit(tagged(p, tags), *tag_args(tags), '-b', sc['b'], wait=False, perturb={'sql_delay': sc['sql_delay']} if sc.get('sql_delay') else None) for p in parts if p]
        for p in ps:
            p.wait(60)
            if p.status != 0:
                raise Broken('submit-failed', p.tail())
        r.hold.set()
    r.settle(stall=stall, limit=limit)
    return r.observe()


def hung(run):
    if run.outcome == 'stalled':
        alive = [p.name for p in [run.server, *run.clients, *run.submitters] if p and p.alive()]
        yield ('hang', f'no progress and {alive} still running; {run.tails()}')
