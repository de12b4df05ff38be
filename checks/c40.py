"""C40: embedded in a program, the functions and threads do what they document."""
import collections
import json
import os
import random
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, halt, hs, run

TECHNIQUE = ('runtime monitor over an embedding program: generated sequences of documented library calls (clusters, servers, clients, submissions, stop() at random moments, failing calls) run in one '
             'process under a configuration file which says otherwise; journal of executions, records, return values, raised errors and redirected streams are checked after every sequence')
LEVEL = 'exploration'
LEVEL_NOTE = ("Held for the sequences explored. One client thread at a time per process; the SSH and autoscaling clusters are not embedded. Without a database a server ends with its last client, "
              "whatever is left: clients are stopped there only next to others. A client that arrives when all is done may find the server gone.")
RULE = 'one case per sequence of calls in one process; non-trivial when it has at least two steps or stops or fails one'
# what a program does not read when embedded
CONFIG = '''
[server]
attempts = 3
eager = true
port = 1
bind = "203.0.113.9"
auth = "from the configuration"
bundlesize = 50
bundlewait = 120
wait = 1

[submit]
bundlesize = 50
bundlewait = 120

[client]
bundlesize = 50
bundlewait = 120
timeout = 1

[task]
timeout = 1
signalwait = 60
'''
LATE = ('ConnectionRefusedError', 'ConnectionResetError', 'BrokenPipeError', 'EOFError')
SOURCES = ('list', 'tuple', 'generator', 'iterator', 'file', 'text')


def tasks_of(rng, i, n, retries, sleep=(0, .3)):
    return run.gen_tasks(rng, n, prefix=f's{i}t', fail=.2, flaky=.2 if retries else 0, sleep=sleep)


def make_step(rng, i, do, db, stop=False, retries=None):
    """One call: what the program is told, and what the oracle needs. The retries are those of all in a sequence: they share a database."""
    n = rng.choice([1, 3, 8, 14])
    step = {'do': do, 'source': rng.choice(SOURCES), 'retries': retries, 'limit': (retries or 0) + 1 if db else 1, 'index': i}
    opts = step['options'] = {}
    if do in ('local', 'cluster', 'serve'):
        opts['bundlewait'] = 1
        if rng.random() < .6:
            opts['bundlesize'] = rng.choice([1, 2, 5])
        if rng.random() < .4:
            opts['eager'] = True
        if rng.random() < .3:
            opts['no_confirm'] = True
        if rng.random() < .5:
            opts['redirect_failures'] = f'failures{i}'
        if retries is not None:
            opts['max_retries'] = retries
        if not db and rng.random() < .5:
            opts['in_memory'] = True
        opts['bind' if do != 'serve' else 'address'] = ['0.0.0.0' if do == 'cluster' else 'localhost', 0]
    if do in ('local', 'cluster'):
        opts['num_tasks'] = rng.choice([1, 2, 4])
        step['how'] = rng.choice(['positional', 'keyword', 'thread'])
        if rng.random() < .4:
            opts['template'] = '{}'
        if rng.random() < .3:
            opts['delay_start'] = rng.choice([.3, 1])
        if rng.random() < .3:
            opts['capture'] = True
        if do == 'local':
            if 'capture' not in opts:
                opts.update({k: f'{k}{i}' for k in ('redirect_output', 'redirect_errors') if rng.random() < .7})
        if rng.random() < .3:
            opts['task_timeout'], step['long'] = 2, rng.choice([{'exec sleep 40': (-2, 0)}, {'trap "" INT; exec sleep 41': (-15, 1)}, {'exec sleep 42': (-2, 0), 'trap "" INT; exec sleep 43': (-15, 1)}])
            if rng.random() < .7:
                opts['task_signalwait'] = rng.choice([1, 4])
        elif rng.random() < .25 and db:
            step['sleep'] = [1.6, 2.4]       # longer than the limit of the configuration
            n = 3
        if rng.random() < .2 and db:
            step['source'], step['gaps'], step['gap'] = 'generator', [n // 2], 3      # an idle client does not leave
    elif do == 'serve':
        step['how'] = rng.choice(['file', 'function', 'thread', 'thread']) if not stop else 'thread'
        opts['auth'] = f'key{i}'
        opts['evict_after'] = 60
        if stop:
            n = rng.choice([30, 50])
            step['sleep'] = [.1, .4]
            opts['bundlesize'] = rng.choice([1, 2, 6])
        client = {'num_tasks': rng.choice([1, 2, 3]), 'bundlewait': 1, 'heartrate': 1, 'no_confirm': opts.get('no_confirm', False)}
        step['clients'] = [{'options': dict(client, num_tasks=2), 'stop_after': round(rng.uniform(.3, 3), 2), 'wait': rng.random() < .5} for _ in range(rng.choice([1, 2]) if stop == 'client' else 0)]
        step['external'] = rng.choice([0, 0, 1]) if db or stop != 'client' else 1       # without a database the server ends with its last client
        if stop != 'client' or not step['external']:
            step['clients'].append({'options': client})
        if rng.random() < .3:
            step['badauth'] = True
        step['external_args'] = ['-b', '1', '-N', '2', '-T', '1000', '-W', '1000'] + ['--no-confirm'] * client['no_confirm']
        if not db and not stop and rng.random() < .5:
            step['how'], step['source'] = 'thread', 'generator'
            step['live_options'] = {'bundlesize': rng.choice([1, 3]), 'bundlewait': 1}
            step['live_tasks'] = True
    else:
        step['how'] = rng.choice(['file', 'function', 'thread']) if not stop else 'thread'
        n = rng.choice([0, 1, 7, 40, 150])
        if rng.random() < .6:
            opts['bundlesize'] = rng.choice([1, 3, 10, 200])
        if rng.random() < .6:
            opts['template'] = rng.choice(['{}', 'pre {} post', 'a {} b {}'])
        if rng.random() < .6:
            opts['tags'] = {'site': f'x{i}', 'group': rng.randrange(100), 'flag': True}
        if rng.random() < .3:
            opts['bundlewait'] = 1
        if stop:
            n = 60
            step.update(source='generator', gaps=list(range(0, 60, rng.choice([1, 3, 7]))), gap=.1, stop_after=round(rng.uniform(0, 3), 2), wait=rng.random() < .5)
    step['n'] = n
    return step


def body(c):
    scs = []
    for i in range(c.pick(40, 400)):
        db = c.rng.random() < .6
        kind = ('local', 'clusters', 'serve', 'stop-client', 'stop-server', 'submit', 'stop-submit', 'fail', 'stop-cluster', 'clusters')[i % 10]
        db = db or kind in ('submit', 'stop-submit')
        scs.append({'seed': c.rng.getrandbits(32), 'kind': kind, 'db': db})
    run.campaign(c, scs, lambda sc: embedded(c, sc), workers=7, budget=c.pick(400, 3000))
    c.require('sequences', 25)
    c.require('steps', 40)
    c.require('tasks checked', 200)
    c.require('stopped', 8)
    c.require('errors raised', 4)
    c.require('timeouts', 1)


def plan_of(sc):
    rng = random.Random(sc['seed'])
    kind, db = sc['kind'], sc['db']
    retries = rng.choice([None, None, 0, 1, 2]) if db else rng.choice([None, None, 1])
    if kind == 'local':
        steps = [make_step(rng, i, 'local', db, retries=retries) for i in range(rng.choice([2, 3]))]
    elif kind == 'clusters':
        steps = [make_step(rng, i, do, db, retries=retries) for i, do in enumerate(rng.sample(['cluster', rng.choice(['local', 'cluster', 'serve'])], 2))]
    elif kind == 'serve':
        steps = [make_step(rng, i, 'serve', db, retries=retries) for i in range(2)]
    elif kind == 'stop-client':
        steps = [make_step(rng, 0, 'serve', db, 'client', retries=retries)]
    elif kind == 'stop-server':
        first = make_step(rng, 0, 'serve', db, 'server', retries=retries)
        first['clients'], first['external'], first['stop_after'] = [], rng.choice([0, 1, 1]), round(rng.uniform(.5, 4), 2)
        first['options'].pop('no_confirm', None)
        first['external_args'] = ['-b', '1', '-N', '2', '-T', '1000', '-W', '1000']
        first['limit'] = 1
        first['options'].pop('max_retries', None)
        first['retries'] = None
        steps = [first]
    elif kind == 'stop-cluster':
        step = make_step(rng, 0, rng.choice(['local', 'cluster']), db)
        step['options'] = {k: v for k, v in step['options'].items() if k in ('bundlewait', 'bundlesize', 'eager', 'num_tasks', 'bind', 'delay_start', 'in_memory')}
        step.update(how='thread', n=rng.choice([30, 50]), sleep=[.1, .4], stop_after=round(rng.uniform(0, 7), 2), wait=rng.random() < .5)
        step.pop('long', None)
        if db and rng.random() < .4:
            step['options']['forever_mode'] = True
        steps = [step]
    elif kind in ('submit', 'stop-submit'):
        steps = [make_step(rng, i, 'submit', db, kind == 'stop-submit' and i == 1, retries=retries) for i in range(3)]
    else:
        steps = [{'do': rng.choice(['local', 'cluster', 'serve'] + ['submit'] * db), 'fail': True, 'index': 0}, make_step(rng, 1, rng.choice(['local', 'serve']), db, retries=retries)]
        bad = steps[0]
        bad.update(make_step(rng, 0, bad['do'], db, retries=retries), fail=True)
        bad['n'], bad['how'] = 8, 'thread' if bad['do'] == 'submit' else bad['how'] if bad['do'] == 'serve' else 'keyword'
        bad.pop('live_tasks', None)
        bad['why'] = {'cluster': 'launcher', 'submit': 'source'}.get(bad['do']) or rng.choice(['port', 'evict'] if bad['do'] == 'serve' else ['port'])
        if bad['why'] == 'source':
            bad.update(source='generator', bad=rng.randrange(8), want='ValueError')
        elif bad['why'] == 'launcher':
            bad.update(want='FileNotFoundError')
        elif bad['why'] == 'evict':
            bad['options']['evict_after'] = 3
            bad.update(want='RuntimeError')
        bad.pop('gaps', None)
    return steps


def embedded(c, sc):
    steps = plan_of(sc)
    db = sc['db']
    rng = random.Random(sc['seed'] + 1)
    with run.Run('c40', db=db, config=None if any(s['do'] == 'cluster' for s in steps) else CONFIG) as r:
        exe = r.site.remote_exe(sleep_cap=.3)
        blocker = None
        for i, s in enumerate(steps):
            # submissions have their own text, everything else runs the tasks
            s['tasks'] = [] if s['do'] == 'submit' else tasks_of(rng, i, s['n'], s['retries'] if db else 0, s.get('sleep', (0, .3)))
            for j, t in enumerate(s['tasks']):
                t.args += f' text-{i}-{j}' if not t.spec.startswith('sig') else ''
            s['items'] = [t.args for t in s['tasks']] or [f'item {i}-{j}' for j in range(s['n'])]
            s['items'] += [f'{x} # {i}' for x in s.get('long', ())]
            s['path'] = str(r.site.path / f'source{i}')
            with open(s['path'], 'w') as f:
                f.write(''.join(x + '\n' for x in s['items']))
            s['exe'], s['launcher'] = exe, 'env' if s.get('why') != 'launcher' else str(r.site.path / 'no-such-launcher')
            for k in ('bind', 'address'):
                if k in s['options']:
                    s['options'][k][1] = hs.free_port()
                    if s.get('why') == 'port':
                        import socket
                        blocker = socket.socket()
                        blocker.bind(('127.0.0.1', s['options'][k][1]))
                        blocker.listen()
            for k in ('redirect_output', 'redirect_errors', 'redirect_failures'):
                if k in s['options']:
                    s['options'][k] = str(r.site.path / s['options'][k])
            if s.get('live_tasks'):
                s['live_tasks'] = tasks_of(rng, f'live{i}', 6, 0)
                s['live'] = [t.args for t in s['live_tasks']]
        plan, results = r.site.path / 'plan.json', r.site.path / 'results'
        plan.write_text(json.dumps([{k: v for k, v in s.items() if k not in ('tasks', 'live_tasks')} for s in steps]))
        results.write_text('')
        p = r.site.spawn(plan, results, script=str(hs.VERIF / 'vlib' / 'embedded.py'), perturb={'seed': sc['seed'], 'sleep_cap': 1}, name='embedded')
        r.submitters.append(p)
        r.settle(stall=45, limit=240)
        if p.alive():
            p.signal(signal.SIGQUIT)      # tells where it hangs
            time.sleep(1)
        left = halt.leftovers(p.pid) if not p.alive() else []
        if left:
            hs.wait_for(lambda: not halt.leftovers(p.pid), 10)
            left = halt.leftovers(p.pid)
        if blocker:
            blocker.close()
        if r.outcome == 'timeout':
            c.inconclusive(f'no end within the limit: {sc}')
            return 0
        r.observe()
        notes = [json.loads(x) for x in results.read_text().splitlines()]
        c.count('sequences')
        c.count(sc['kind'])
        c.case({k: v for k, v in sc.items()}, sample={'scenario': sc, 'steps': [{k: s.get(k) for k in ('do', 'how', 'source', 'n', 'options')} for s in steps], 'results': notes},
               nontrivial=len(steps) > 1 or sc['kind'].startswith('stop'))

        def oracle():
            if p.alive():
                yield ('hang', f'the embedding program does not get on after step {len(notes)}: {p.tail(6000)}')
                return
            if p.status != 0 or len(notes) != len(steps):
                yield ('crash', f'the embedding program ended with {p.status} after {len(notes)} of {len(steps)} steps: {p.tail(1500)}')
                return
            if left:
                yield ('leftover', f'processes left behind: {left}')
            rows = 0
            for s, note in zip(steps, notes):
                c.count('steps')
                if s['do'] == 'submit':
                    yield from submitted(c, r, s, note, rows)
                elif s.get('fail'):
                    c.count('errors raised')
                    if 'error' not in note:
                        yield ('no-error', f'{s["do"]} with a bad {s["why"]} did not raise: {note}')
                    elif s.get('want') and note['error'] != s['want']:
                        yield ('other-error', f'{s["do"]} with a bad {s["why"]} raised {note["error"]} ({note["text"]}), not {s["want"]}: {p.tail(1500)}')
                else:
                    yield from executed(c, r, s, note, p)
                rows = note.get('rows', 0)
        bad = run.report(c, sc, oracle())
        if bad or sc['kind'] not in ('stop-server', 'stop-cluster') or not db:
            return bad
        # what a stopped server left is completed by another
        s, = steps
        r.observe()
        at, done = time.time(), {x['id']: x for x in r.rows if x['completion_time']}
        present = {x['args'] for x in r.rows}
        r.tasks = [t for t in s['tasks'] if t.args in present]
        if len(done) == len(r.rows):
            return 0
        c.count('left for the restart', len(r.rows) - len(done))
        r.start_server('--restart', '-r', 0, '-H', 'localhost', '-b', 1)
        r.start_client('-b', 1, '-w', 1, '-N', 3, '-T', 1000, '-W', 1000)
        r.submitters = []
        r.settle(stall=40, limit=150)
        r.observe()
        return run.report(c, sc, run.hung(r), halt.completed(r, done, at, 1))


def submitted(c, r, s, note, before):
    """The count returned is that of the tasks that are there, with their template and tags, in order."""
    if s.get('fail'):
        c.count('errors raised')
        if note.get('error') != s['want']:
            yield ('other-error', f'submission from a failing source gave {note}')
        return
    if 'error' in note:
        yield ('error', f'submission raised {note["error"]}: {note["text"]}')
        return
    got = sorted((x for x in r.rows if f'item {s["index"]}-' in x['args']), key=lambda x: x['submit_time'])
    template = s['options'].get('template', '{}')
    want = [template.replace('{}', x) for x in s['items']]
    c.count('tasks checked', len(want))
    if note['result'] != len(got) or note['rows'] - before != len(got):
        yield ('count', f'{s["how"]} returned {note["result"]}, there are {len(got)} tasks of this submission ({note["rows"] - before} more than before)')
    if 'stop_after' in s:
        c.count('stopped')
        c.count('tasks submitted before stop', len(got))
        want = want[:len(got)]
    if [x['args'] for x in got] != want:
        yield ('submitted', f'{s["how"]} from {s["source"]} ({s["options"]}) submitted {[x["args"] for x in got][:5]} ({len(got)}), expected {want[:5]} ({len(want)})')
    for x in got:
        tag = json.loads(x['tag']) if isinstance(x['tag'], str) else x['tag']
        if tag != s['options'].get('tags', {}):
            yield ('tags', f'{x["args"]!r} has the tags {tag}, given were {s["options"].get("tags")}')
            break


def executed(c, r, s, note, p):
    opts, limit = s['options'], s['limit']
    if 'error' in note:
        yield ('error', f'{s["do"]} ({s["how"]}) raised {note["error"]}: {note["text"]}: {p.tail(1500)}')
        return
    res = note.get('result') or {}
    partial = 'stop_after' in s
    if s['do'] == 'serve':
        late = s['external'] or len(s['clients']) > 1      # all is done by others, maybe: then the server is gone
        for client, (how, seconds) in zip(s['clients'], res['clients']):
            if 'stop_after' in client:
                c.count('stopped')
                if how != 'ended' and how not in LATE:
                    yield ('stop-client', f'stop() of a client {client["stop_after"]} s after its start: {how} after {seconds:.0f} s: {p.tail(1500)}')
            elif how != 'ended' and not (late and how in LATE):
                yield ('client', f'the client thread: {how}: {p.tail(1500)}')
        if partial:
            c.count('stopped')
            if res['server'][0] != 'ended':
                yield ('stop-server', f'stop() of the server: {res["server"][0]} after {res["server"][1]:.0f} s: {p.tail(1500)}')
        elif res['server'][0] != 'ended':
            yield ('server', f'the server thread: {res["server"][0]}: {p.tail(1500)}')
    elif partial:
        c.count('stopped')
        if res['server'][0] not in ('ended', *LATE):      # its client may notice that its server stopped
            yield ('stop-cluster', f'stop() of a {s["do"]} cluster: {res["server"][0]} after {res["server"][1]:.0f} s: {p.tail(1500)}')
    if s['do'] == 'serve':
        if 'external' in res and (res['external'] == 'running' or res['external'] != 0 and not partial and not s['clients']):
            yield ('external', f'an external client: {res["external"]}: {p.tail(1500)}')
        if 'badauth' in res:
            c.count('errors raised')
            if res['badauth'] != 'AuthenticationError':
                yield ('badauth', f'a client with another key: {res["badauth"]}')
        if 'live' in res and res['live'] != {'result': len(s['live'])}:
            yield ('count', f'a submission to the queue returned {res["live"]} for {len(s["live"])} tasks')
    if partial:
        for t in s['tasks']:
            if len(r.execs.get(t.token, [])) > 1:
                yield ('repeated', f'{t.args!r} executed {len(r.execs[t.token])} times')
        return
    texts, failures = [], []
    for t in [*s['tasks'], *(s.get('live_tasks') or [])]:
        want = t.attempts(limit)
        got = sorted(r.execs.get(t.token, []), key=lambda e: e[0])
        c.count('tasks checked')
        c.count('executions', len(got))
        texts += [t.args.split()[-1]] * len(want) if ' text-' in t.args else []
        failures += [t.args] * (want[-1] != 0)
        if len(got) != len(want) or any(e[1] is None for e in got):
            yield ('executions', f'{t.args!r} executed {len(got)} times, expected {len(want)} (attempts allowed: {limit}, {opts}): {got}: {p.tail(600)}')
        if r.db:
            chain = run.chain_of(r, t)
            if [(x['attempt'], x['exit_status']) for x in chain] != list(enumerate(want, 1)) or any(x['completion_time'] is None for x in chain):
                yield ('records', f'{t.args!r} has {[(x["attempt"], x["exit_status"], x["completion_time"]) for x in chain]}, expected {want}')
            for x in chain:
                if opts.get('capture') and ' text-' in t.args:
                    try:
                        out = open(x['outpath']).read()
                    except OSError as exc:
                        out = repr(exc)
                    if out != t.args.split()[-1] + '\n':
                        yield ('capture', f'{t.args!r} ({x["outpath"]}): {out!r}')
    for x, (status, waits) in s.get('long', {}).items():
        failures.append(f'{x} # {s["index"]}')
        c.count('timeouts')
        at = opts['task_timeout'] + waits * opts.get('task_signalwait', 10)
        got = sorted((y for y in r.rows if y['args'] == f'{x} # {s["index"]}'), key=lambda y: y['attempt'])
        if r.db and ([(y['attempt'], y['exit_status']) for y in got] != [(k, status) for k in range(1, limit + 1)] or not all(at - .5 <= run.parse_time(y['completion_time']) - run.parse_time(y['start_time']) <= at + 6 for y in got)):
            yield ('timeout', f'{x!r} with {opts} has {[(y["attempt"], y["exit_status"], y["start_time"], y["completion_time"]) for y in got]}')

    def lines(path):      # tasks which a failed step left in the database run as well
        return collections.Counter(x for x in open(path).read().splitlines() if f'text-{s["index"]}-' in x or f'job s{s["index"]}t' in x or 'job slive' in x or x.endswith(f' # {s["index"]}'))
    if 'redirect_output' in opts and lines(opts['redirect_output']) != collections.Counter(texts):
        yield ('redirect', f'output redirected to a file: {lines(opts["redirect_output"])}, expected {collections.Counter(texts)}')
    if 'redirect_failures' in opts and limit == 1:
        c.count('failure files')
        if lines(opts['redirect_failures']) != collections.Counter(failures):
            yield ('failures', f'failed tasks: {lines(opts["redirect_failures"])}, expected {collections.Counter(failures)} ({opts})')


if __name__ == '__main__':
    core.main(core.Check('C40', LEVEL, RULE, TECHNIQUE), body)
