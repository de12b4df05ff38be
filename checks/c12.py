"""C12: each task sees its own metadata and the exported environment."""
import json
import os
import random
import shlex
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = 'runtime monitor: initial environment and working directory of every task process, taken from /proc, against its own database record, tags, configuration and client environment'
LEVEL = 'exploration'
LEVEL_NOTE = 'Held for the environments of the runs explored. Metadata not yet known when a task starts (status, completion, duration, links to later attempts) is not judged.'
RULE = 'one case per task process; non-trivial always (a full environment is compared)'

HOSTILE = ['plain', 'a b', '$HOME', '`id`', '"q"', "'", '\\', 'é', '日本', '{}', '{nope}', '2021-01-01', '2021-01-01 10:00:00', '20210101T101010', 'null', 'true', '123', '1e9', '=', 'a=b', '%', '#', '\t', '[1]', '{"a": 1}', '*', '~', '-', '--x',
           'x' * 3000, '2021-W05-3', '12:30:00', '10101010']
TAGVALS = ['us-west-1', 'x', 1, 0, -3, 1.5, True, False, None, '', 'A.b+c_d-e', '2021-01-01', '00012', '1e5x', 'null_']
TAGKEYS = ['site', 'group', 'x', 'batch_id', 'aB', 'UP', 'id', 'args', 'n1']
EXPORTS = [
    ('', {}),
    ('[export]\nfoo = "bar"\nCOUNT = 3\n', {'FOO': 'bar', 'COUNT': '3'}),
    ('[export]\nlong_name = "a b\'c"\n\n[export.my]\nsub = "x"\ndeep.er = 7\n', {'LONG_NAME': "a b'c", 'MY_SUB': 'x', 'MY_DEEP_ER': '7'}),
    ('[export]\nflag = true\nplist = ["/a", "/b/c"]\nempty = ""\n', {'FLAG': 'true', 'PLIST': '/a:/b/c', 'EMPTY': ''}),
    ('[export]\nclient_only = "overridden"\n', {'CLIENT_ONLY': 'overridden'}),
]
# metadata of the task itself, by the documentation
FIELDS = ['id', 'args', 'submit_id', 'submit_time', 'submit_host', 'server_id', 'server_host', 'schedule_time', 'client_id', 'client_host', 'command', 'attempt', 'previous_id', 'start_time', 'waited']
TIMES = {'submit_time', 'schedule_time', 'start_time'}


def text(v):
    """Documented text form of a value in the environment."""
    return 'null' if v is None else 'true' if v is True else 'false' if v is False else str(v)


def body(c):
    n = c.pick(16, 160)
    scs = []
    for i in range(n):
        ts = []
        for k in range(c.rng.randint(3, 10)):
            tags = {c.rng.choice(TAGKEYS): c.rng.choice(TAGVALS) for _ in range(c.rng.choice([0, 0, 1, 2, 4]))}
            ts.append({'text': ' '.join(c.rng.choice(HOSTILE) for _ in range(c.rng.choice([0, 1, 1, 2]))), 'tags': tags, 'spec': c.rng.choice(['0', '0', '1', 'f1'])})
        scs.append({'tasks': ts, 'export': c.rng.randrange(len(EXPORTS)), 'cwd': c.rng.random() < 0.5, 'N': c.rng.choice([1, 2, 4]), 'b': c.rng.choice([1, 3]), 'capture': c.rng.random() < 0.4,
                    'retries': c.rng.choice([0, 1, 2]), 'clients': c.rng.choice([1, 2]), 'template': c.rng.choice(['{}', '{}', ': pre; {}', '{} {+}']), 'no_confirm': c.rng.random() < 0.3, 'seed': c.rng.randrange(1 << 30), 'popen_delay': c.rng.choice([None, 0.1])})
    for i, sc in enumerate(scs[:len(EXPORTS)]):
        sc['export'] = i

    def one(sc):
        toml, exported = EXPORTS[sc['export']]
        with run.Run('c12', config=toml) as r:
            dump = r.site.path / 'dump'
            work = r.site.path / 'work dir'
            dump.mkdir(), work.mkdir()
            shutil.copy(hs.VERIF / 'workers' / 'dumpenv.sh', r.site.path / 'bin' / 'dumpenv')
            cenv = {'HSV_DUMP': dump, 'CLIENT_ONLY': 'client value', 'TASK_ID': 'stale', 'TASK_TAG_LEAK_FROM_CLIENT': 'kept'}
            if sc['cwd']:
                cenv['HYPERSHELL_TASK_CWD'] = work
            tasks = []
            for k, t in enumerate(sc['tasks']):
                args = f'exec dumpenv t{k} {t["spec"]} {shlex.quote(t["text"])}'
                task = run.Task(f't{k}', args=args, tags=t['tags'])
                task.spec = t['spec']
                tasks.append(task)
                p = r.site.spawn('-', script=str(SUBMITTER), stdin=json.dumps({'args': args, 'tag': t['tags']}))
                if p.wait(60) != 0:
                    raise run.Broken('submit-failed', p.tail())
            r.tasks = tasks
            flag = ['--no-confirm'] if sc['no_confirm'] else []
            r.start_server('--restart', '-b', sc['b'], '-r', sc['retries'], *flag)
            for i in range(sc['clients']):
                r.start_client('-N', sc['N'], '-w', 1, '-t', sc['template'], *flag, *(['--capture'] if sc['capture'] else []), wait=i == 0,
                               env={**cenv, 'WHICH_CLIENT': str(i)}, perturb={'popen_delay': sc['popen_delay'], 'seed': sc['seed'] + i} if sc['popen_delay'] else None)
            r.settle(stall=25)
            if r.outcome == 'timeout':
                c.inconclusive(f'no end within the limit: {sc}')
                return 0
            r.observe()
            bad = run.report(c, sc, run.hung(r))
            if bad:
                return bad
            dumps = []
            for f in dump.glob('*.env'):
                pairs = [x.split(b'=', 1) for x in f.read_bytes().split(b'\0') if x]
                env = {a.decode('utf-8', 'surrogateescape'): b.decode('utf-8', 'surrogateescape') for a, b in (p for p in pairs if len(p) == 2)}
                dumps.append((f.name.split('.')[0], env, f.with_suffix('.cwd').read_text().rstrip('\n')))

            def oracle():
                rows = {x['id']: x for x in r.rows}
                base = r.site.env(**{k: str(v) for k, v in cenv.items()})
                lib = set()
                for token, env, cwd in dumps:
                    c.count('environments')
                    row = rows.get(env.get('TASK_ID'))
                    t = next(t for t in tasks if t.token == token)
                    if row is None or row['args'] != t.args:
                        yield ('wrong-id', f'{t.args[:100]!r} ran with TASK_ID={env.get("TASK_ID")} which is {row and row["args"][:100]!r}')
                        continue
                    c.case((t.args, json.dumps(t.tags), sc['export'], sc['cwd'], sc['template'], row['attempt']), sample={'args': t.args[:80], 'tags': t.tags, 'attempt': row['attempt'], 'task_env': {k: v[:60] for k, v in env.items() if k.startswith('TASK')}})
                    for f in FIELDS:
                        got = env.get('TASK_' + f.upper())
                        if got is None:
                            yield ('missing', f'TASK_{f.upper()} is not set for {t.args[:60]!r}')
                        elif f in TIMES:
                            try:
                                ok = abs(run.parse_time(got) - run.parse_time(row[f])) < 0.001
                            except ValueError:
                                ok = False
                            if not ok:
                                yield ('wrong-value', f'TASK_{f.upper()}={got!r}, record {row[f]!r}')
                        elif got != text(row[f]):
                            yield ('wrong-value', f'TASK_{f.upper()}={got[:200]!r}, record {str(row[f])[:200]!r}')
                    want = {'TASK_TAG_' + k.upper(): text(v) for k, v in t.tags.items()}
                    want['TASK_TAG_LEAK_FROM_CLIENT'] = 'kept'
                    got = {k: v for k, v in env.items() if k.startswith('TASK_TAG_')}
                    if got != want:
                        yield ('tags', f'{t.args[:60]!r} tags {t.tags}: environment has {got}')
                    c.count('tags', len(t.tags))
                    home = str(work) if sc['cwd'] else r.site.dir
                    if cwd != home or env.get('TASK_CWD') != home:
                        yield ('cwd', f'{t.args[:60]!r} ran in {cwd!r}, TASK_CWD={env.get("TASK_CWD")!r}, configured {home!r}')
                    for k, ext in (('TASK_OUTPATH', 'out'), ('TASK_ERRPATH', 'err')):
                        p = env.get(k, '')
                        if os.path.basename(p) != f'{row["id"]}.{ext}':
                            yield ('outpath', f'{k}={p!r} for task {row["id"]}')
                        lib.add(os.path.dirname(p))
                        if sc['capture'] and p != row['outpath' if ext == 'out' else 'errpath']:
                            yield ('outpath', f'{k}={p!r}, record {row["outpath"]!r} {row["errpath"]!r}')
                    for k, v in exported.items():
                        if env.get(k) != v:
                            yield ('export', f'exported {k}={v!r} arrived as {env.get(k)!r}')
                        c.count('exports')
                    for k, v in base.items():
                        if not k.startswith('TASK_') and k not in exported and k not in ('HOME', 'PWD', 'OLDPWD', '_', 'SHLVL') and env.get(k) != v:
                            yield ('client-env', f'{k}={env.get(k)!r}, client has {v!r}')
                    known = set(base) | set(exported) | set(want) | {'TASK_' + k.upper() for k in FIELDS} | {'TASK_CWD', 'TASK_OUTPATH', 'TASK_ERRPATH', 'WHICH_CLIENT', 'PWD', 'OLDPWD', '_', 'SHLVL',
                             'TASK_EXIT_STATUS', 'TASK_COMPLETION_TIME', 'TASK_DURATION', 'TASK_RETRIED', 'TASK_NEXT_ID'}
                    alien = {k: v for k, v in env.items() if k not in known and not k.startswith(('HYPERSHELL', 'LC_', 'PYTHON'))}
                    if alien:
                        yield ('alien', f'{t.args[:60]!r} has variables of unknown origin: {alien}')
                if len(lib) > 1:
                    yield ('outpath', f'output paths in several directories: {lib}')
                for t in tasks:
                    att = 1 if t.spec == '0' else (sc['retries'] + 1 if t.spec == '1' else min(2, sc['retries'] + 1))
                    have = sum(1 for d in dumps if d[0] == t.token)
                    if have != att:
                        yield ('executions', f'{t.args[:80]!r} left {have} environments, expected {att}')
            return run.report(c, sc, oracle(), run.exits(r))
    run.campaign(c, scs, one, workers=6, budget=c.pick(200, 3000))
    c.require('environments', 50)
    c.require('tags', 20)
    c.require('exports', 10)


SUBMITTER = hs.VERIF / 'workers' / 'add_task.py'

if __name__ == '__main__':
    core.main(core.Check('C12', LEVEL, RULE), body)
