"""C31: task wait and task run report the real outcome; failed commands say so and have no effect."""
import json
import os
import random
import re
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, pop, run
from workers import emit

TECHNIQUE = ('runtime monitor: `task wait` and `task run` are executed against live clusters and their output, exit status and time of return compared with the '
             'execution journal, the raw record and the known bytes of the task; failing commands are compared on exit status and full database contents')
LEVEL = 'exploration'
LEVEL_NOTE = 'Held on the commands and schedules generated.'
RULE = 'random tasks (status, signal, output kind and size) x wait form x moment the wait starts; every documented failing command; non-trivial when the wait began before the task ended or the output is not empty'
EMIT = hs.VERIF / 'workers' / 'emit.py'
PY = sys.executable


def wait_one(c, r, rng, n):
    """Submit a task and wait for it in one of the documented forms."""
    spec = rng.choice(['0', '0', '1', '3', '127', '255', 'sig9', 'sig15', 'sig10', '200'])
    status = -int(spec[3:]) if spec.startswith('sig') else int(spec)
    sleep = rng.choice([0, 0.3, 1, 2])
    token = f'w{n}'
    p = r.site.cli('task', 'submit', '--', f'exec job {token} {sleep} {spec}')
    tid = p.out.strip()
    if p.status != 0 or not re.fullmatch(r'[0-9a-f-]{36}', tid):
        c.violation('submit', f'`hs task submit` ended with status {p.status} and printed {p.out!r}', {'stderr': p.err[-300:]})
        return
    if rng.random() < .3:
        time.sleep(rng.choice([0.5, 2.5]))
    form = rng.choice([[], ['-s'], ['--status'], ['-r'], ['--return'], ['-i', '--json'], ['-i', '-f', 'yaml'], ['--info']])
    w = r.site.cli('task', 'wait', tid, '-n', 1, *form, timeout=90)
    row = r.site.query('SELECT * FROM task WHERE id = ?', tid)[0]
    ends = [x for x in r.site.journal() if x[0] == 'E' and x[1] == token]
    late = bool(ends) and ends[0][3] < w.t_start
    c.case(('wait', tuple(form), spec, late), sample=f'wait {form} status {status}', nontrivial=not late)
    c.count('waits')
    if not late:
        c.count('waits begun before the end')
    replay = {'form': form, 'spec': spec, 'status': w.status, 'stdout': w.out[-500:], 'stderr': w.err[-400:], 'row': row}
    if w.status is None:
        c.violation('never-returned', f'`task wait {form}` has not returned 90 s after the submission', replay)
        return
    if not ends or ends[0][3] > w.t_end + 0.05 or row['exit_status'] is None:
        c.violation('returned-early', f'`task wait {form}` returned (status {w.status}) before the task had finished', replay)
        return
    if row['exit_status'] != status:
        c.violation('wrong-record', f'recorded exit status is {row["exit_status"]}, the task ended with {status}', replay)
    want = status & 0xff if form and form[0] in ('-r', '--return') else 0
    if w.status != want:
        c.violation('wrong-status', f'`task wait {" ".join(form)}` exits with {w.status}, expected {want}', replay)
    if form and form[0] in ('-s', '--status') and w.out.strip() != str(status):
        c.violation('wrong-print', f'`task wait --status` prints {w.out!r}, the exit status is {status}', replay)
    if form and form[0] in ('-i', '--info'):
        try:
            if '--json' in form:
                shown = json.loads(w.out)
            elif 'yaml' in form:
                import yaml
                shown = yaml.safe_load(w.out)
            else:
                shown = {'id': re.search(r'^ *id: (.*)$', w.out, re.M).group(1), 'exit_status': int(re.search(r'^ *exit_status: (.*)$', w.out, re.M).group(1))}
            if shown['id'] != tid or shown['exit_status'] != status:
                c.violation('wrong-print', f'`task wait {" ".join(form)}` shows id {shown["id"]} and status {shown["exit_status"]}, expected {tid} and {status}', replay)
        except Exception as e:   # noqa
            c.violation('wrong-print', f'`task wait {" ".join(form)}` prints {w.out[:200]!r} ({e})', replay)
    elif not form and w.out:
        c.violation('wrong-print', f'`task wait` prints {w.out[:100]!r}', replay)


def wait_gone(c, r, rng, n):
    """The task is cancelled or deleted while someone waits for it (nothing runs it: it carries no client)."""
    p = r.site.cli('task', 'submit', '--', 'true')
    tid = p.out.strip()
    form = rng.choice([['-r'], ['-s'], []])
    w = r.site.spawn('task', 'wait', tid, '-n', 1, *form)
    time.sleep(rng.choice([0.2, 1.5]))
    act = rng.choice(['--cancel', '--delete'])
    early = w.t_end is not None
    u = r.site.cli('task', 'update', act, '-w', f'id == {tid}', '-f')
    w.wait(30)
    c.case(('gone', act, tuple(form)), sample=f'wait, then {act}')
    c.count('waits ended by ' + act)
    replay = {'form': form, 'status': w.status, 'update': [u.status, u.err[-300:]], 'stdout': w.out, 'stderr': w.err[-400:]}
    if early:
        c.violation('returned-early', f'`task wait` returned (status {w.status}) for a task that was never run', replay)
        return
    if w.status is None:
        c.violation('never-returned', f'`task wait` does not return after the task was removed ({act})', replay)
        w.kill()
        return
    want = 255 if act == '--cancel' and form == ['-r'] else 0
    if act == '--delete':
        if w.status == 0:
            c.violation('wrong-status', '`task wait` on a task deleted meanwhile exits with 0', replay)
    elif w.status != want:
        c.violation('wrong-status', f'`task wait {" ".join(form)}` on a task cancelled meanwhile exits with {w.status}, expected {want}', replay)
    elif form == ['-s'] and w.out.strip() != '-1':
        c.violation('wrong-print', f'`task wait -s` on a cancelled task prints {w.out!r}', replay)


def run_one(c, r, rng, n):
    token = f'r{n}'
    ko, ke = rng.choice(emit.KINDS), rng.choice(emit.KINDS)
    so, se = rng.choice([0, 1, 50, 5000, 70000, 1500000]), rng.choice([0, 1, 50, 70000])
    chunks, pause, spec = rng.choice([1, 3, 5]), rng.choice(['0', '0.1', '0.4']), rng.choice(['0', '0', '1', '9', 'sig9', 'sig15'])
    before = time.time()
    args = ['exec', PY, '-SE', str(EMIT), token, ko, so, ke, se, chunks, pause, spec]
    if rng.random() < .5:
        args = [' '.join(map(str, args))]
    p = r.site.cli('task', 'run', '-n', 1, *(['-t', 'x:1'] if rng.random() < .3 else []), '--', *args, timeout=120)
    want = [emit.content(token, 'out', ko, so), emit.content(token, 'err', ke, se)]
    out, err = open(p.outpath, 'rb').read(), open(p.errpath, 'rb').read()
    c.case(('run', ko, so, ke, se, spec), sample=f'task run: {ko} {so} B, {ke} {se} B, {spec}', nontrivial=bool(so or se))
    c.count('task run')
    replay = {'args': args, 'status': p.status, 'stderr': p.err[-600:], 'took': time.time() - before}
    if p.status is None:
        c.violation('never-returned', '`task run` has not returned after 120 s', replay)
        return
    if out != want[0]:
        c.violation('run-output', f'`task run` printed {len(out)} bytes on standard output, the task wrote {len(want[0])}' + ('' if len(out) != len(want[0]) else ' (different)'), replay)
    # the program's own log lines come before the task's standard error
    if not err.endswith(want[1]) or any(b'<' in x and b'.err.' in x for x in err[:len(err) - len(want[1])].split(b'\n')):
        c.violation('run-output', f'`task run` did not print the {len(want[1])} bytes of the standard error of the task', replay)
    row = [x for x in r.site.query('SELECT * FROM task WHERE args LIKE ?', f'% {token} %')]
    if len(row) != 1 or row[0]['exit_status'] is None:
        c.violation('returned-early', f'`task run` returned, {len(row)} record(s), status {row and row[0]["exit_status"]}', replay)


def dump(site):
    return [site.query(f'SELECT * FROM {t} ORDER BY id') for t in ('task', 'client')]


def failing(c, site, rng):
    rows = pop.rows(rng, 12)
    pop.insert(site.db, rows)
    known = rng.choice(rows)['id']
    none = '00000000-0000-4000-8000-000000000000'
    missing = str(site.path / 'no' / 'such.file')
    bad = str(site.path / 'broken.toml')
    open(bad, 'w').write('[database\nfile = ')
    cmds = [['task', 'info', none], ['task', 'info', 'abc'], ['task', 'info'], ['task', 'info', known, '-x', 'nofield'], ['task', 'info', known, '--json', '--yaml'],
            ['task', 'info', known[:-1]], ['task', 'info', known + 'x'], ['task', 'info', ' ' + known], ['task', 'info', none, '--stdout'], ['task', 'info', none, '-x', 'args'],
            ['task', 'wait', none, '-n', '1'], ['task', 'wait', 'abc'], ['task', 'wait'], ['task', 'wait', known, '-n', 'x'], ['task', 'wait', known, '-s', '-r'], ['task', 'wait', none, '-r', '-n', '1'],
            ['task', 'wait', none, '-s', '-n', '1'], ['task', 'run'], ['task', 'run', '-n', 'x', '--', 'true'], ['task', 'run', '-t', 'x:a/b', '--', 'true'], ['task', 'submit'],
            ['task', 'submit', '--nonsense', 'true'], ['task', 'submit', '-t', 'x:a/b', '--', 'true'], ['task', 'search', 'nofield'], ['task', 'search', '-w', 'exit_status'], ['task', 'search', '-w', 'exit_status = 1'],
            ['task', 'search', '-w', 'nofield == 1'], ['task', 'search', '-s', 'nofield'], ['task', 'search', '-l', 'x'], ['task', 'search', '-F', '-S'], ['task', 'search', '--json', '--csv'],
            ['task', 'search', '-f', 'nonsense'], ['task', 'search', '-f', 'xml'], ['task', 'search', 'id', '-f', 'normal'], ['task', 'search', '--json', '-d', ','], ['task', 'search', '--csv', '-d', ',,'],
            ['task', 'search', '-d', 'x' * 200, 'id'], ['task', 'search', '--tag-values'], ['task', 'search', 'a', 'b', '--tag-values'], ['task', 'search', '-t', 'x:a/b'],
            ['task', 'update', none, 'exit_status', '0'], ['task', 'update', known, 'nofield', '0'], ['task', 'update', 'nofield=1', '-f'], ['task', 'nonsense'],
            ['nonsense'], ['submit', missing], ['submit', missing, '-b', '2'], ['submit', '-b', 'x'], ['submit', '-w', 'x'], ['submit', '--nonsense'], ['submit', 'a', 'b'], ['submit', '--tag', 'x:a/b'],
            ['server', missing], ['server', '-b', 'x'], ['server', '-p', 'x'], ['server', '--nonsense'], ['server', missing, '--forever'], ['server', '-r', 'x'],
            ['cluster', missing], ['cluster', '--nonsense'], ['cluster', '-N', 'x'], ['cluster', '-b', 'x'], ['client', '-N', 'x'], ['client', '--nonsense'], ['client', '-T', 'x'],
            ['config', 'get', 'no.such.option'], ['config', 'which', 'no.such.option'], ['config', 'get'], ['config', 'nonsense'], ['config', 'get', 'task', '--user', '--local'],
            ['initdb', '--nonsense'], ['initdb', 'x']]
    base = dump(site)
    extra = [({'HYPERSHELL_DATABASE_FILE': '/dev/null/x.db'}, x) for x in (['task', 'search'], ['task', 'submit', '--', 'true'], ['submit'], ['task', 'info', known], ['task', 'wait', known, '-n', '1'], ['task', 'update', 'x:1', '-f'])]
    extra += [({'HYPERSHELL_CONFIG_FILE': bad}, x) for x in (['task', 'search'], ['submit'], ['task', 'submit', '--', 'true'], ['config', 'get', 'task'])]
    extra += [({'HYPERSHELL_CONFIG_FILE': missing}, x) for x in (['task', 'search'],)]
    extra += [({'HYPERSHELL_DATABASE_FILE': None}, x) for x in (['task', 'search'], ['task', 'submit', '--', 'true'], ['submit'], ['task', 'info', known], ['task', 'update', 'x:1', '-f'], ['task', 'run', '--', 'true'], ['task', 'wait', known], ['server', '--restart'], ['initdb'])]
    jobs = [({}, x) for x in cmds] + extra

    def fail(job):
        env, x = job
        p = site.cli(*x, stdin='echo 1\necho 2\n', env=dict(env, HYPERSHELL_LOGGING_LEVEL='ERROR'), timeout=40)
        return job, p
    for res in hs.parallel([lambda j=j: fail(j) for j in jobs], 6):
        if isinstance(res, Exception):
            raise RuntimeError(res.tb)
        (env, x), p = res
        c.case(('fail', tuple(x), tuple(env)), sample='hs ' + ' '.join(x) + (' with ' + ' '.join(env) if env else ''))
        c.count('failing commands')
        if p.status in (0, None):
            c.violation('failure-unreported', f'`hs {" ".join(x)[:100]}`{" with " + str(env) if env else ""} ' + ('exits with status 0' if p.status == 0 else 'does not end'),
                        {'args': x, 'env': env, 'stdout': p.out[:300], 'stderr': p.err[-400:]})
    now = dump(site)
    if now != base:
        # find out which command it was
        for env, x in jobs:
            s = dump(site)
            site.cli(*x, stdin='echo 1\necho 2\n', env=env, timeout=40)
            if dump(site) != s:
                c.violation('failure-with-effect', f'`hs {" ".join(x)[:100]}` fails but changes the database', {'args': x, 'before': len(s[0]), 'after': len(dump(site)[0])})
                return
        c.violation('failure-with-effect', 'one of the failing commands changed the database', {'before': len(base[0]), 'after': len(now[0])})


def body(c):
    with hs.Site('c31f', audit=False) as site:
        failing(c, site, c.rng)
    with run.Run('c31g') as r:
        res = hs.parallel([lambda n=n: wait_gone(c, r, random.Random(c.seed * 7919 + n), n) for n in range(c.pick(12, 60))], 6)
        for x in res:
            if isinstance(x, Exception):
                raise RuntimeError(x.tb)
    with run.Run('c31') as r:
        r.start_server('--forever', '-b', c.rng.choice([1, 2]), '-w', 1)
        for _ in range(2):
            r.start_client('-N', 4, '-b', 1, '-w', 1, '--capture', '-d', 0)
        rngs = [random.Random(c.rng.getrandbits(64)) for _ in range(c.pick(70, 500))]
        res = hs.parallel([lambda g=g, n=n: (wait_one if n % 2 else run_one)(c, r, g, n) for n, g in enumerate(rngs)], 8)
        for x in res:
            if isinstance(x, Exception):
                raise RuntimeError(x.tb)
        if not r.server.alive():
            c.violation('server-ended', f'the server ended: {r.server.tail()}', {})
    with run.Run('c31n') as r:      # without capture there is no output to print
        r.start_server('--forever', '-b', 1, '-w', 1)
        r.start_client('-N', 1, '-b', 1, '-w', 1, '-d', 0)
        p = r.site.cli('task', 'run', '-n', 1, '--', 'job', 'nocap', timeout=60)
        ran = [x for x in r.site.journal() if x[0] == 'E']
        c.count('runs without capture')
        if p.status in (0, None) or not ran:
            c.violation('failure-unreported', f'`task run` without captured output: status {p.status}, task {"ran" if ran else "did not run"}', {'stderr': p.err[-300:], 'stdout': p.out[-300:]})
    c.require('waits begun before the end', 10)
    c.require('task run', 20)
    c.require('failing commands', 60)
    c.require('waits ended by --cancel', 2)
    c.require('waits ended by --delete', 2)


if __name__ == '__main__':
    core.main(core.Check('C31', LEVEL, RULE, TECHNIQUE), body)
