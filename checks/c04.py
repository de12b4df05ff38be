"""C04: what runs and what is recorded is exactly what was submitted."""
import collections
import json
import os
import random
import subprocess
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = 'runtime monitor: interpreter audit hook records every command line really started; compared with the submitted text, the record and the committed database history for generated hostile argument texts, statuses and tags'
LEVEL = 'exploration'
LEVEL_NOTE = 'Held on the texts and configurations explored; texts are generated from classes (dates, numbers, JSON, quotes, patterns, unicode, sizes), not enumerated.'
RULE = 'one case per distinct (argument text, tags, template, mode) executed; non-trivial when the command really started'
ADD = hs.VERIF / 'workers' / 'add_task.py'

DATES = ['2021-01-01', '2021-01-01 10:00:00', '2021-01-01T10:00:00+02:00', '20210101', '20210101T101010', '2021-W05-3', '2021W053', '10101010', '00010101', '99991231', '2024-02-29', '2023-02-29', '2021-01-01 10:00:00.123456',
         '12:30:00', '202101', '2021-001', '20210101 10', '2021-01-01Z']
WORDS = ['true', 'false', 'null', 'None', '0', '-1', '1e9', 'NaN', '123456', 'a', 'a  b', "'q q'", '"d d"', '\\', '\\\\n', '$HOME', '$((1+1))', '${X:-y}', '`echo x`', '{}', '{/}', '{.}', '{nope}', '{%', '{0}', '%s', '#c', '# HYPERSHELL', '!', '*', '~', '=', '[1, 2]', '{"a": 1}', 'é',
         '日本語', '\U0001f600', '\u00a0', '\u2028x', '\ufeff', '&& true', '|| false', '; exit 3', '| cat', '> /dev/null', '2>&1', '&', '(', ')', "'", '"', '<<E', '\t', '--', '-n', '<none>', '\x01', '\x7f', '\x1b[0m']
FORMS = ['true {}', 'exit {}', 'sh -c {}', 'echo {}', '{}', '{} {}', ': {} ; exit 7', 'kill -9 $$ # {}', 'kill -TERM $$; {}', 'exit 255 # {}', 'exit 256', 'exec sh -c "kill -INT \\$\\$"', 'printf %s {} | wc -c', 'x=1; {}', 'env true {}', 'kill -USR1 $$ # {}', 'exec false {}']
TEMPLATES = ['{}', '{}', '{}', '( {}\n)', '{}\n', 'true; {}', '{} # {}', 'echo pre ; {}', "X='é' ; {}"]
TAGS = {'day': ['2021-01-01', '20210101T101010', '2021-01-01'], 'n': [1, 0, -5, 1.5, 1e300, 10**17], 'flag': [True, False, None], 'naked': [''], 'T': ['True', 'null', '1', '007', 'x' * 120], 'key with space': ['v'], 'é': ['v'], '2021-01-01': ['v']}


def gen_text(rng):
    def word():
        x = rng.random()
        if x < 0.35:
            return rng.choice(DATES)
        if x < 0.9:
            return rng.choice(WORDS)
        if x < 0.97:
            return ''.join(rng.choice('ab01 -:T\\\'"{}$é#') for _ in range(rng.randint(1, 12)))
        return 'y' * rng.choice([1000, 5000, 60000])
    form = rng.choice(FORMS + ['{}'] * 6)
    text = form
    while '{}' in text and text.count('{}') and form:
        head, sep, tail = text.partition('{}')
        return (head + word() + tail.replace('{}', word())).replace('\r', '').replace('\0', '').strip() or 'true'
    return text


def expected_status(site, command):
    """What the system shell really answers for this very command line."""
    try:
        return subprocess.run(command, shell=True, cwd=os.path.join(site.dir, 'home'), env={'PATH': '/usr/bin:/bin', 'HOME': site.dir}, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode
    except Exception as exc:    # noqa
        return repr(exc)


def body(c):
    n = c.pick(22, 220)
    scs = []
    for i in range(n):
        items = []
        for _ in range(c.rng.choice([8, 16, 30])):
            items.append({'args': gen_text(c.rng), 'tag': {k: c.rng.choice(v) for k, v in TAGS.items() if c.rng.random() < 0.15}})
        scs.append({'items': items, 'db': c.rng.random() < 0.8, 'b': c.rng.choice([1, 3, 10]), 'cb': c.rng.choice([1, 3, 10]), 'N': c.rng.choice([1, 2, 4]), 'clients': c.rng.choice([1, 1, 2]),
                    'template': c.rng.choice(TEMPLATES), 'retries': c.rng.choice([0, 0, 1, 2]), 'no_confirm': c.rng.random() < 0.3, 'capture': c.rng.random() < 0.3, 'seed': c.rng.randrange(1 << 30)})
    # every date-like text stands alone at least once, with and without a database
    for i, db in ((0, True), (1, False)):
        scs[i].update(items=[{'args': d, 'tag': {}} for d in DATES] + [{'args': w, 'tag': {}} for w in WORDS if w.strip() == w and '\u2028' not in w], db=db, template='{}', retries=1)
    lock = threading.Lock()
    status = {}

    def one(sc):
        with run.Run('c04', db=sc['db']) as r:
            seen, items = set(), []
            for it in sc['items']:
                if sc['db'] or ('\n' not in it['args'] and '#' not in it['args']):
                    if it['args'].strip() and it['args'].strip() not in seen:
                        seen.add(it['args'].strip())
                        items.append(it)
            flag = ['--no-confirm'] if sc['no_confirm'] else []
            args = ['-b', sc['b'], '-r', sc['retries'], '-w', 1, *flag]
            if sc['db']:
                p = r.site.spawn('-', script=str(ADD), stdin=json.dumps(items))
                if p.wait(60) != 0:
                    raise run.Broken('submit-failed', p.tail())
                r.start_server('--restart', *args)
            else:
                r.server = r.site.server('--no-db', *args, stdin='\n'.join(it['args'] for it in items) + '\n')
            logs = []
            for i in range(sc['clients']):
                log = str(r.site.path / f'popen{i}')
                open(log, 'w').close()
                logs.append(log)
                r.start_client('-N', sc['N'], '-b', sc['cb'], '-w', 1, '-t', sc['template'], *flag, *(['--capture'] if sc['capture'] else []), wait=i == 0, perturb={'popen_log': log, 'popen_env': True})
            r.settle(stall=25)
            if r.outcome == 'timeout':
                c.inconclusive(f'no end within the limit: {str(sc)[:300]}')
                return 0
            r.observe()
            ran = collections.defaultdict(list)      # task id -> [(client index, command, args seen by the task)]
            for i, log in enumerate(logs):
                for line in open(log):
                    rec = json.loads(line)
                    env = rec['env'] or {}
                    if 'TASK_ID' in env:
                        cmd = rec['argv'][-1] if isinstance(rec['argv'], list) else rec['argv']
                        ran[env['TASK_ID']].append((i, cmd, env.get('TASK_ARGS')))
            c.count('started', sum(map(len, ran.values())))

            def want(text):
                return sc['template'].replace('{}', text)

            def real(command):
                with lock:
                    if command in status:
                        return status[command]
                st = expected_status(r.site, command)
                with lock:
                    status[command] = st
                return st

            def oracle_db():
                owner, clients = {}, {x['id']: x for x in r.client_rows}
                byargs = collections.defaultdict(list)
                for row in r.rows:
                    byargs[row['args']].append(row)
                for it in items:
                    text = it['args'].strip()
                    cmd = want(text)
                    st = real(cmd)
                    rows = sorted(byargs.pop(text, []), key=lambda x: x['attempt'])
                    what = f'{text[:120]!r} (template {sc["template"]!r})'
                    if len(rows) != (1 if st == 0 else sc['retries'] + 1):
                        yield ('records', f'{what} status {st}: {len(rows)} records')
                    for row in rows:
                        c.case((text, json.dumps(it['tag']), sc['template'], True), sample={'args': text[:80], 'command': (row['command'] or '')[:80], 'status': row['exit_status'], 'tag': row['tag'][:80]}, nontrivial=bool(ran.get(row['id'])))
                        if json.loads(row['tag']) != it['tag'] or {k: type(v) for k, v in json.loads(row['tag']).items()} != {k: type(v) for k, v in it['tag'].items()}:
                            yield ('tag-altered', f'{what}: tags {it["tag"]} recorded as {row["tag"]}')
                        if row['command'] != cmd:
                            yield ('wrong-command', f'{what}: recorded command {str(row["command"])[:200]!r}, expected {cmd[:200]!r}')
                        got = ran.get(row['id'], [])
                        if [x[1] for x in got] != [cmd]:
                            yield ('ran-other', f'{what}: really started {[x[1][:200] for x in got]}, expected exactly {cmd[:200]!r}')
                        for i, _, seen_args in got:
                            if seen_args != text:
                                yield ('args-altered', f'{what}: the task saw TASK_ARGS={seen_args[:120] if seen_args else seen_args!r}')
                            if owner.setdefault(row['client_id'], i) != i or row['client_id'] not in clients:
                                yield ('wrong-client', f'{what}: ran in client #{i}, recorded {row["client_id"]}')
                            elif row['client_host'] != clients[row['client_id']]['host']:
                                yield ('wrong-client', f'{what}: client host {row["client_host"]}, registered {clients[row["client_id"]]["host"]}')
                        if row['exit_status'] != st:
                            yield ('wrong-status', f'{what}: recorded status {row["exit_status"]}, the command really answers {st}')
                for text in byargs:
                    yield ('foreign-record', f'record with arguments never submitted: {text[:200]!r}')
                for h in r.history:
                    if h['tab'] == 'task' and h['op'] == 'UPDATE':
                        c.count('history')
                        for k in ('id', *run.IDENTITY):
                            if h['old'][k] != h['new'][k]:
                                yield ('identity-changed', f'{k} of {h["old"]["args"][:100]!r} changed: {str(h["old"][k])[:100]!r} -> {str(h["new"][k])[:100]!r}')

            def oracle_mem():
                exp = collections.Counter(want(it['args'].strip()) for it in items)
                got = collections.Counter(x[1] for v in ran.values() for x in v)
                for it in items:
                    c.case((it['args'], sc['template'], False), nontrivial=want(it['args'].strip()) in got)
                for k in exp - got:
                    yield ('ran-other', f'never started as submitted: {k[:200]!r}')
                for k in got - exp:
                    yield ('ran-other', f'started but never submitted: {k[:200]!r}')
                seen_args = collections.Counter(x[2] for v in ran.values() for x in v)
                for k in seen_args - collections.Counter(it['args'].strip() for it in items):
                    yield ('args-altered', f'a task saw TASK_ARGS={k[:200] if k else k!r}')
            return run.report(c, {k: v for k, v in sc.items() if k != 'items'}, run.hung(r), oracle_db() if sc['db'] else oracle_mem(), run.exits(r))
    run.campaign(c, scs, one, workers=6, budget=c.pick(200, 3000))
    c.require('started', 150)
    c.require('history', 300)


if __name__ == '__main__':
    core.main(core.Check('C04', LEVEL, RULE), body)
