"""C33: cluster options reach the server and every client."""
import collections
import json
import os
import random
import re
import shlex
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = ('runtime monitor: clusters of every kind are started with random options; stand-ins for ssh, mpirun and other launchers record the command lines and environments they are given and then start real clients, the way a remote shell would; '
             'what every option must cause (command lines as the shell reads them, parallelism, bundles, attempts, captured files, delays, limits, ports, hosts) is checked against the recorded executions, queue events, database and processes')
LEVEL = 'exploration'
LEVEL_NOTE = ('Held for the option combinations generated. ssh and mpirun are stand-ins on this machine (ssh joins its arguments with blanks and hands them to a shell without the HYPERSHELL variables of the caller, as sshd does). '
              '--no-confirm together with autoscaling is left out: the source declares it as ignored there. Fractional or negative delays are left out.')
RULE = 'one case per started client with its way of launching, options and template, and one per rejected combination; all are non-trivial'

MODES = ['local', 'launch', 'ssh-pattern', 'mpi', 'local', 'ssh-group', 'auto', 'launch', 'ssh-host', 'lib-local', 'ssh-default', 'lib-launch', 'local', 'lib-ssh', 'ssh-pattern', 'lib-auto']
TEMPLATES = ['{}', '{}', 'true && {}', "note \"{}\"  \"two  words\"; {}", "note \"{}\" it\\'s; {}", "note \"{}\" 'single quoted $HOME'; {}", 'note "{}" "$HOME" $((20+3)) `echo back` "$(echo sub)"; {}',
             "note \"{}\" 'a' \"b'c\" 'd\"e' \\\\ '\\' \"*\" '?[a]'; {}", "note \"{}\" é漢😀 '%d' %% '!x' '#no' \"~\"; {}", "note \"{}\" \"tab\there\" '  lead' 'trail  '; {}",
             "sh -c 'note \"$1\" \"it'\"'\"'s\"' x \"{}\"; {}", 'note "{}" a=b "x;y" \'p|q\' "r&s" 2>/dev/null || note "{}" "else"; {}', "note \"{}\" 'line\nbreak'; {}", "{} # it's a remark", 'note "$(note "{}" inner; echo "in \'{}\'")"; {}']
NOTE = '''#!/bin/sh
# keep the arguments as given
for a in "$@"; do printf '%s\\0' "$a"; done > "$HSV_NOTES/$$.new"; mv "$HSV_NOTES/$$.new" "$(mktemp -p "$HSV_NOTES" done.XXXXXXXX)"
'''
SSH = '''#!/bin/bash
# options, then the host, then a command line for the shell over there
printf '%s\\0' "$@" > "$HSV_LAUNCHED/$$.new"; mv "$HSV_LAUNCHED/$$.new" "$HSV_LAUNCHED/$$"
while [ $# -gt 0 ]; do case "$1" in -[ilopFJ]) shift 2;; -*) shift;; *) break;; esac; done
export HSV_HOST=$1; shift
for v in $(compgen -e | grep ^HYPERSHELL); do unset $v; done
export HYPERSHELL_SITE="$HSV_REMOTE_SITE"
exec sh -c "$*"
'''
LAUNCH = '''#!/bin/bash
printf '%s\\0' "$@" > "$HSV_LAUNCHED/$$.new"; mv "$HSV_LAUNCHED/$$.new" "$HSV_LAUNCHED/$$"
for i in $HSV_SKIP; do shift; done
exec "$@"
'''
LIBRARY = '''
import json, sys
from hypershell import cluster
kind, kw = json.loads(sys.argv[1])
if kw.get('source') is not None:
    kw['source'] = open(kw['source'])
for k in ('redirect_failures', 'redirect_output', 'redirect_errors'):
    if kw.get(k):
        kw[k] = open(kw[k], 'w')
if 'bind' in kw:
    kw['bind'] = tuple(kw['bind'])
t = getattr(cluster, kind).new(**kw)
t.join()
for k in ('redirect_failures', 'redirect_output', 'redirect_errors'):
    if kw.get(k):
        kw[k].close()
'''


def gen(rng, i):
    mode = MODES[i % len(MODES)]
    kind = mode.split('-')[0] if not mode.startswith('lib-') else mode[4:]
    sc = {'mode': mode, 'kind': kind, 'N': rng.choice([1, 2, 3]), 'b': rng.choice([1, 1, 2, 3, 4]), 'w': rng.choice([1, 2]), 'db': kind == 'auto' or rng.random() < .75,
          'template': rng.choice(TEMPLATES), 'source': rng.choice(['file', 'stdin', 'restart']), 'fail': rng.random() < .5, 'capture': rng.random() < .25, 'seed': rng.randrange(1 << 30)}
    if kind == 'auto' or mode.startswith('lib-'):
        sc['source'] = 'restart' if rng.random() < .5 else 'file'
    if not sc['db'] and sc['source'] == 'restart':
        sc['source'] = 'file'
    if sc['db'] and rng.random() < .5:
        sc['r'] = rng.choice([0, 1, 2])
    if rng.random() < .3:
        sc['d'] = rng.choice([1, 2])
    if kind != 'auto' and rng.random() < .3:
        sc['no_confirm'] = True
    if rng.random() < .3:
        sc['failures'] = True
    special = rng.choice([None, None, 'W', 'S', 'T', 'forever'] if kind != 'auto' else [None, 'W', 'S', 'T'])
    if special == 'T' and kind != 'auto' and sc['db']:
        sc.update(T=rng.choice([2, 3]), forever=True)
    elif special == 'T' and kind == 'auto':
        sc['T'] = rng.choice([2, 3])
    elif special == 'forever' and sc['db']:
        sc['forever'] = True
    elif special in ('W', 'S'):
        sc['W'] = rng.choice([1, 2])
        sc['S'] = rng.choice([1, 2]) if special == 'S' or rng.random() < .5 else None
        if sc['S'] is None:
            del sc['S']
    if sc.get('forever') and sc['source'] == 'restart':
        sc['source'] = 'file'
    if kind == 'local' and not sc['capture']:
        sc['o'], sc['e'] = rng.random() < .3, rng.random() < .3
    if kind == 'ssh':
        sc['hosts'], sc['how'] = rng.choice([(['h1'], 'h1'), (['n0', 'n1'], 'n[0-1]'), (['n08', 'n09', 'n10'], 'n[08-10]'), (['a', 'b2'], 'a,b2'), (['x1.y', 'x3.y'], 'x[1,3].y')])
        if mode == 'ssh-host':
            sc['hosts'], sc['how'] = ['node-7.example'], 'node-7.example'
        sc['env'] = rng.random() < .5
        sc['ssh_args'] = rng.choice([None, None, '-i /some/key', "-o 'ProxyCommand nc %h %p' -x", '-p 2222'])
        sc['ssh_config_args'] = rng.choice([None, None, '-F /other/config', "-o 'A b' -T"])
    if kind == 'launch':
        sc['extra'] = rng.choice([[], ['-n', '1'], ['--opt', 'two words', "it's"]])
    if kind == 'auto':
        sc.update(policy=rng.choice([None, 'fixed', 'dynamic']), P=rng.choice([1, 2]), I=rng.choice([1, 2]), X=rng.choice([0, 1]), Y=rng.choice([2, 3]), extra=rng.choice([[], ['-n', '1']]), no_launcher=rng.random() < .2)
    return sc


def body(c):
    scs = [gen(c.rng, i) for i in range(c.pick(64, 640))]

    def one(sc):
        config = ''
        if sc.get('ssh_config_args'):
            config += '[ssh]\nargs = ' + json.dumps(sc['ssh_config_args']) + '\n'
        if sc['mode'] == 'ssh-group':
            config += '[ssh.nodelist]\nother = ["no", "body"]\nmine = ' + json.dumps(sc['hosts']) + '\n'
        elif sc['mode'] == 'ssh-default':
            config = '[ssh]\nnodelist = ' + json.dumps(sc['hosts']) + '\n' + config.replace('[ssh]\n', '')
        env = {'HYPERSHELL_EXPORT_HSVX': 'exported', 'HYPERSHELL_SUBMIT_BUNDLEWAIT': '7', 'HYPERSHELL_EXPORT_ODD': "a  b'c \"d\" $HOME; echo `x` \\ 0123", 'HYPERSHELL_EXPORT_NUM': '00123', 'HYPERSHELL_EXPORT_EXP': '1e5'}
        with run.Run('c33', db=sc['db'], config=config, env=env) as r:
            play(c, r, sc)
            r.observe()
            c.count('runs')
            c.count('runs ' + sc['kind'] + (' (library)' if sc['mode'].startswith('lib') else ''))
            n = run.report(c, sc, judge(c, r, sc))
            r.server.kill()
            return n
    done = run.campaign(c, scs, one, workers=int(os.environ.get("HSV_WORKERS", 9)), budget=c.pick(220, 4000))
    rejected(c)
    c.require('runs', min(done, 40))
    for k in ('clients started by a launcher', 'command lines read', 'templates executed', 'rejections'):
        c.require(k, 5)


def play(c, r, sc):
    rng = random.Random(sc['seed'])
    site = r.site
    kind = sc['kind']
    for name in ('remote site', 'launched', 'notes', 'ref'):
        (site.path / name).mkdir()
    for name, text in (('note', NOTE), ('ssh', SSH), ('mpirun', LAUNCH), ('start', LAUNCH)):
        p = site.path / 'bin' / name
        p.write_text(text)
        p.chmod(0o755)
    (site.path / 'rec').touch()
    qlog = r.qlog = site.path / 'queue'
    qlog.touch()
    d = sc.get('d', 0)
    cap = max(.3, d)
    exe = site.remote_exe(record=site.path / 'rec', sleep_cap=cap, queue_log=str(qlog))
    n = 4 * sc['N'] * len(sc.get('hosts', 'x')) if kind != 'auto' else 8
    tasks = []
    for i in range(n):
        st = '1' if sc['fail'] and i % 4 == 1 else '0'
        tasks.append(run.Task(f't{i}', .4, st, text=f'text-{i}'))
    if 'W' in sc:
        tasks.append(run.Task('slow', args="trap '' INT TERM; job slow 0 0; sleep 31" if 'S' in sc else 'job slow 0 0; exec sleep 31'))
    r.tasks = tasks
    text = ''.join(t.args + '\n' for t in tasks)
    env = {'HSV_REMOTE_SITE': str(site.path / 'remote site'), 'HSV_NOTES': str(site.path / 'notes'), 'HSV_LAUNCHED': str(site.path / 'launched'), 'HSV_SKIP': ' '.join('x' for _ in sc.get('extra', []))}
    args, stdin = [], None
    lib = sc['mode'].startswith('lib-')
    path = site.path / 'input file'
    path.write_text(text)
    if sc['source'] == 'restart':
        p = site.cli('submit', '-', stdin=text)
        if p.status != 0:
            raise run.Broken('submit-failed', p.tail())
        args.append('--restart')
    elif sc['source'] == 'file':
        args.append(str(path))
    else:
        stdin = text
        if rng.random() < .5:
            args.append('-')
    port = r.port = hs.free_port()
    long = rng.random() < .4

    def opt(short, full, value):
        return [full if long else short, value] if rng.random() < .8 else [f'{full}={value}']
    opts = [opt('-N', '--num-tasks', sc['N']), opt('-b', '--bundlesize', sc['b']), opt('-w', '--bundlewait', sc['w']), opt('-p', '--port', port)]
    kw = {'num_tasks': sc['N'], 'bundlesize': sc['b'], 'bundlewait': sc['w'], 'template': sc['template'], 'max_retries': sc.get('r', 0)}
    if sc['template'] != '{}' or rng.random() < .5:
        opts.append(['--template' if long else '-t', sc['template']])
    for key, short, full, name in (('r', '-r', '--max-retries', 'max_retries'), ('d', '-d', '--delay-start', 'delay_start'), ('T', '-T', '--timeout', 'client_timeout'),
                                   ('W', '-W', '--task-timeout', 'task_timeout'), ('S', '-S', '--signalwait', 'task_signalwait')):
        if key in sc:
            opts.append(opt(short, full, sc[key]))
            kw[name] = sc[key]
    for key, flag, name in (('capture', '--capture', 'capture'), ('no_confirm', '--no-confirm', 'no_confirm'), ('forever', '--forever', 'forever_mode')):
        if sc.get(key):
            opts.append([flag])
            kw[name] = True
    if not sc['db']:
        opts.append(['--no-db'])
        kw['in_memory'] = True
    for key, short, full, name in (('failures', '-f', '--failures', 'redirect_failures'), ('o', '-o', '--output', 'redirect_output'), ('e', '-e', '--errors', 'redirect_errors')):
        if sc.get(key):
            opts.append(opt(short, full, str(site.path / f'file {key}')))
            kw[name] = str(site.path / f'file {key}')
    if kind != 'local':
        opts.append(['--remote-exe', exe])
        kw.update(remote_exe=exe, bind=['0.0.0.0', port])
    launcher = ' '.join(map(shlex.quote, ['start', *sc.get('extra', [])]))
    if kind == 'launch':
        opts.append(['--launcher', launcher] if rng.random() < .5 else ['--launcher=' + launcher])
        kw['launcher'] = launcher
        if lib and sc['extra'] and rng.random() < .5:
            kw.update(launcher='start', launcher_args=[shlex.quote(x) for x in sc['extra']])
    if kind == 'mpi':
        opts.append(['--mpi'])
    if kind == 'ssh':
        opts.append({'ssh-group': ['--ssh', '--ssh-group', 'mine'], 'ssh-default': ['--ssh']}.get(sc['mode'], ['--ssh', sc['how']]))
        kw['nodelist'] = sc['hosts']
        if sc['ssh_args']:
            opts.append(['--ssh-args=' + sc['ssh_args']])
            kw['launcher_args'] = shlex.split(sc['ssh_args'])
        if sc['env']:
            opts.append([rng.choice(['-E', '--env'])])
            kw['export_env'] = True
    if kind == 'auto':
        opts += [['-A', sc['policy']] if sc['policy'] else ['-A', '-I', sc['I']], opt('-P', '--period', sc['P']), opt('-I', '--init-size', sc['I']), opt('-X', '--min-size', sc['X']), opt('-Y', '--max-size', sc['Y'])]
        kw.update(policy=sc['policy'] or 'fixed', period=sc['P'], init_size=sc['I'], min_size=sc['X'], max_size=sc['Y'])
        if sc['no_launcher']:
            kw['launcher'] = ''
        else:
            opts.append(['--launcher=' + launcher])
            kw['launcher'] = launcher
    rng.shuffle(opts)
    # an option whose value may be absent must not swallow the input file
    argv = [*args, *[str(x) for o in opts for x in o]]
    sp = {'sleep_cap': max(cap, .5), **({'queue_log': str(qlog)} if kind == 'local' else {})}
    r.t0 = time.time()
    if lib:
        if kind == 'local':
            kw.pop('bind', None)
        if sc['source'] == 'restart':
            kw['restart_mode'] = True
        else:
            kw['source'] = str(path)
        script = site.path / 'lib.py'
        script.write_text(LIBRARY)
        cls = {'local': 'LocalCluster', 'launch': 'RemoteCluster', 'ssh': 'SSHCluster', 'auto': 'AutoScalingCluster'}[kind]
        if kind == 'local':
            kw['bind'] = ['localhost', port]
        r.server = site.spawn(json.dumps([cls, kw]), script=str(script), perturb=sp, env=env, name='library')
        r.desc = f'{cls}({kw})'
    else:
        r.server = site.spawn('cluster', *argv, stdin=stdin, perturb=sp, env=env, name='cluster')
        r.desc = 'hs cluster ' + ' '.join(map(shlex.quote, argv))
    r.server.port = port
    r.listened = False
    want = sum(len(t.attempts(sc.get('r', 0) + 1)) for t in tasks if t.token != 'slow') + ((sc.get('r', 0) + 1) if 'W' in sc else 0)

    def over():
        r.listened = r.listened or hs.listening(port)
        if not r.server.alive():
            return True
        if not (sc.get('forever') or kind == 'auto'):
            return False
        rows = site.query('SELECT id, completion_time FROM task')
        return len(rows) >= want and all(x['completion_time'] for x in rows)
    t = 60 + 25 * ('W' in sc)
    end = hs.wait_for(over, t, .1)
    r.t_done = time.time()
    r.ended = end
    if not end:
        r.outcome = 'timeout'
        return
    if 'T' in sc and (sc.get('forever') or kind == 'auto'):
        # clients leave on their own
        r.left = hs.wait_for(lambda: not r.server.alive() or [x for x in site.query('SELECT * FROM client') if x['disconnected_at']] and all(x['disconnected_at'] for x in site.query('SELECT * FROM client')), sc['T'] + 20, .1)
        r.t_left = time.time()
    elif sc.get('forever') or kind == 'auto':
        time.sleep(1.2)
        r.still = r.server.alive()
    r.outcome = 'done'
    if kind == 'auto' or sc.get('forever'):
        r.still = r.server.alive()
        time.sleep(.3)
        r.server.kill()
        r.server.wait(5)


def judge(c, r, sc):
    site, kind = r.site, sc['kind']
    what = r.desc
    rec = [json.loads(x) for x in open(site.path / 'rec')]
    launched = [open(site.path / 'launched' / f, 'rb').read().decode('utf-8', 'surrogateescape').split('\0')[:-1] for f in sorted(os.listdir(site.path / 'launched')) if f.isdigit()]
    tail = r.server.tail(500)
    if r.outcome == 'timeout':
        yield ('no-end', f'{what}: not finished in time; {tail}')
        return
    if not (sc.get('forever') or kind == 'auto'):
        if r.server.status != 0:
            yield ('status', f'{what} ended with status {r.server.status}: {tail}')
    elif not r.still:
        yield ('not-forever', f'{what} ended by itself (status {r.server.status}): {tail}')
    if not r.listened:
        yield ('port', f'{what}: nothing ever listened on port {r.port}')
    # -- the clients and their command lines
    c.count('clients started by a launcher', len(rec))
    hosts = sc.get('hosts', ['x'])
    if kind == 'local':
        if rec or launched:
            yield ('launched', f'{what} launched {launched}')
    else:
        if kind == 'ssh':
            got = []
            wanted = shlex.split(sc['ssh_args'] if sc['ssh_args'] else (sc.get('ssh_config_args') or ''))
            for a in launched:
                k = len(wanted)
                if a[:k] != wanted:
                    yield ('ssh-args', f'{what}: ssh was called with {a[:8]}, expected the arguments {wanted} first')
                if len(a) > k:
                    got.append(a[k])
            if collections.Counter(got) != collections.Counter(sc['hosts']):
                yield ('hosts', f'{what}: ssh went to {sorted(got)}, expected {sorted(sc["hosts"])} once each')
            if collections.Counter(x['env'].get('HSV_HOST') for x in rec) != collections.Counter(sc['hosts']):
                yield ('hosts', f'{what}: clients started on {sorted(str(x["env"].get("HSV_HOST")) for x in rec)}, expected {sorted(sc["hosts"])}')
            mine = {k: v for k, v in site.env().items() if k.startswith('HYPERSHELL')}
            for x in rec:
                there = {k: v for k, v in x['env'].items() if k.startswith('HYPERSHELL')}
                c.count('environments compared')
                if sc['env'] and there != mine:
                    yield ('env', f'{what}: the client got {dict(set(there.items()) - set(mine.items()))} in place of {dict(set(mine.items()) - set(there.items()))}')
                if not sc['env'] and there != {'HYPERSHELL_SITE': str(site.path / 'remote site')}:
                    yield ('env', f'{what}: the client got {there} without being asked to')
        elif kind != 'auto':
            if len(launched) != 1 or len(rec) != 1:
                yield ('launched', f'{what} launched {len(launched)} times, {len(rec)} clients started')
            for a in launched:
                if a[:len(sc.get('extra', []))] != sc.get('extra', []):
                    yield ('launcher-args', f'{what}: launcher called with {a[:6]}, expected {sc["extra"]} first')
        elif not sc.get('no_launcher'):
            if any(a[:len(sc['extra'])] != sc['extra'] for a in launched) or len(launched) != len(rec):
                yield ('launcher-args', f'{what}: launcher called {len(launched)} times with {launched[:1]}, {len(rec)} clients started')
        if kind == 'auto' and len(rec) < sc['I']:
            yield ('init-size', f'{what}: {len(rec)} clients were launched, the initial size is {sc["I"]}')
        p = site.script(hs.VERIF / 'workers' / 'clientargs.py', stdin=''.join(json.dumps(x['argv'][2:]) + '\n' for x in rec), timeout=60)
        read = [json.loads(x) for x in p.out.splitlines()]
        if len(read) != len(rec) or any(x['argv'][1] != 'client' for x in rec):
            raise core.Inconclusive('cannot read command lines: ' + p.tail(400))
        want = {'num_tasks': sc['N'], 'bundlesize': sc['b'], 'bundlewait': sc['w'], 'template': sc['template'], 'port': r.port, 'delay_start': float(sc.get('d', 0)), 'client_timeout': sc.get('T'),
                'task_timeout': sc.get('W'), 'task_signalwait': sc.get('S', 10), 'no_confirm': bool(sc.get('no_confirm')), 'capture': bool(sc['capture']), 'output_path': None, 'errors_path': None}
        for x, got in zip(rec, read):
            c.count('command lines read')
            c.case((kind, sc['template'], sc['N'], sc['b'], sc['w'], sc.get('d'), sc.get('W'), sc.get('S'), sc.get('T'), sc.get('no_confirm'), sc['capture']), sample={'how': what[:200], 'client': x['argv'][1:12]})
            diff = {k: (got.get(k), v) for k, v in want.items() if got.get(k) != v}
            if diff:
                yield ('client-option', f'{what}: a client was started with {x["argv"][1:]}: (got, expected) {diff}')
        keys = {got.get('auth') for got in read}
        if len(keys) != 1 or len(str(next(iter(keys)))) < 32:
            yield ('key', f'{what}: keys {keys}')
    if kind == 'local':
        c.case((kind, sc['template'], sc['N'], sc['b'], sc['w'], sc.get('d'), sc.get('W'), sc.get('S'), sc.get('T'), sc.get('no_confirm'), sc['capture'], sc.get('o'), sc.get('e')), sample={'how': what[:300]})
    # -- the executions
    limit = sc.get('r', 0) + 1
    for t in r.tasks:
        got = len(r.execs.get(t.token, []))
        n = limit if t.token == 'slow' else len(t.attempts(limit))
        if got != n:
            yield ('attempts', f'{what}: {t.args!r} was executed {got} times, expected {n}')
    if sc['db'] != bool(site.db and r.rows):
        yield ('database', f'{what}: {len(r.rows or [])} records')
    # template: what the shell made of it
    if r.rows:
        for x in r.rows:
            if x['command'] is not None:
                c.count('templates executed')
                exp = expand(sc['template'], x['args'])
                if x['command'] != exp:
                    yield ('template', f'{what}: {x["args"]!r} became {x["command"]!r}, expected {exp!r}')
    if 'note' in sc['template']:
        def collect(name):
            return collections.Counter(open(site.path / name / f, 'rb').read() for f in os.listdir(site.path / name) if f.startswith('done'))
        have = collections.Counter({k: n for k, n in collect('notes').items() if b'slow' not in k})
        (site.path / 'refbin').mkdir()
        (site.path / 'refbin' / 'job').write_text('#!/bin/sh\nexit ${3:-0}\n')
        (site.path / 'refbin' / 'job').chmod(0o755)
        env = site.env(HSV_NOTES=str(site.path / 'ref'))
        env['PATH'] = str(site.path / 'refbin') + ':' + env['PATH']
        for t in r.tasks:
            for _ in range(0 if t.token == 'slow' else len(r.execs.get(t.token, []))):
                subprocess.run(['/bin/sh', '-c', expand(sc['template'], t.args)], env=env, cwd=site.dir, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
        ref = collect('ref')
        c.count('templates executed', sum(ref.values()))
        if have != ref:
            yield ('template-words', f'{what}: the shell saw {list((have - ref).items())[:3]}, expected {list((ref - have).items())[:3]}')
    # -- parallelism, bundles, confirmations
    log = [json.loads(x) for x in open(r.qlog)]
    if kind != 'auto':
        peak = concurrent([e for t, es in r.execs.items() if t != 'slow' for e in es])
        if 'W' not in sc and peak > sc['N'] * len(hosts):
            yield ('parallelism', f'{what}: {peak} tasks at once')
        if kind == 'local' and 'W' not in sc and peak < sc['N']:
            yield ('parallelism', f'{what}: never more than {peak} tasks at once')
    sizes = [len(x['item']) for x in log if x['op'] == 'get' and x['q'] == 'scheduled' and isinstance(x['item'], list)]
    if sizes and max(sizes) > sc['b']:
        yield ('bundle', f'{what}: bundles {sizes}')
    if sizes and sc['source'] == 'restart' and max(sizes) != min(sc['b'], len(r.tasks)):
        yield ('bundle', f'{what}: bundles {sizes} although everything was waiting')
    confirmed = [x for x in log if x['op'] == 'put' and x['q'] == 'confirmed']
    if sizes and bool(confirmed) == bool(sc.get('no_confirm')):
        yield ('confirm', f'{what}: {len(confirmed)} confirmations for {len(sizes)} bundles')
    # -- files
    if r.rows:
        for x in r.rows:
            if x['args'].startswith('job t') and x['completion_time']:
                if bool(x['outpath']) != bool(sc['capture']):
                    yield ('capture', f'{what}: {x["args"]!r} has outpath {x["outpath"]!r}')
                elif sc['capture']:
                    text = open(x['outpath'], 'rb').read().decode(errors='replace') if os.path.exists(x['outpath']) else None
                    if text is None or x['args'].split()[-1] not in text.split():
                        yield ('capture', f'{what}: {x["outpath"]} holds {text!r}')
    outs = [t.text for t in r.tasks if t.text for _ in r.execs.get(t.token, [])]
    if sc.get('o'):
        got = open(site.path / 'file o').read().split()
        if collections.Counter(x for x in got if x.startswith('text-')) != collections.Counter(outs):
            yield ('output-file', f'{what}: output file holds {got[:10]}')
    elif kind == 'local' and not sc['capture'] and not sc.get('o'):
        got = r.server.out.split()
        if collections.Counter(x for x in got if x.startswith('text-')) != collections.Counter(outs):
            yield ('output', f'{what}: printed {got[:10]}, expected {outs[:10]}')
    if sc.get('failures'):
        got = [x for x in open(site.path / 'file failures').read().split('\n') if x] if os.path.exists(site.path / 'file failures') else None
        exp = [t.args for t in r.tasks if t.spec == '1' and t.token != 'slow' for _ in range(len(t.attempts(limit)))] + [t.args for t in r.tasks if t.token == 'slow' for _ in range(limit)]
        if kind == 'auto' or sc.get('forever'):
            got = None if got is None else got or exp      # still open: may be buffered
        if got is None or collections.Counter(got) != collections.Counter(exp):
            yield ('failures', f'{what}: failures file holds {got}, expected {exp}')
    # -- times
    if sc.get('d') and r.client_rows:
        first = {'local': r.t0}.get(kind) or min([x['t'] for x in rec], default=r.t0)
        for x in r.client_rows:
            c.count('delayed starts')
            t = run.parse_time(x['connected_at'])
            if t < first + sc['d'] - .05:
                yield ('delay', f'{what}: a client was there {t - first:.2f} s after its start, the delay is {sc["d"]} s')
    if 'W' in sc:
        for k, e in enumerate(r.execs.get('slow', [])):
            row = [x for x in (r.rows or []) if x['args'].startswith(('trap', 'job slow'))]
            if r.rows is not None and row:
                x = row[min(k, len(row) - 1)]
                dur = run.parse_time(x['completion_time']) - run.parse_time(x['start_time'])
                c.count('limits enforced')
                least = sc['W'] + (2 * sc['S'] if 'S' in sc else 0)
                if not least - .1 <= dur <= least + 8:
                    yield ('limit', f'{what}: the task over its limit took {dur:.1f} s, expected {least} s')
                if x['exit_status'] == 0:
                    yield ('limit', f'{what}: the task over its limit ended with status 0')
    if 'T' in sc and hasattr(r, 'left'):
        c.count('idle times')
        if not r.left:
            yield ('idle', f'{what}: clients are still there {r.t_left - r.t_done:.1f} s after the last task, the limit is {sc["T"]} s; {tail}')
        last = max(run.parse_time(x['completion_time']) for x in r.rows)
        for x in r.client_rows:
            if x['disconnected_at'] and kind != 'auto' and run.parse_time(x['disconnected_at']) < run.parse_time(x['connected_at']) + sc['T'] - .1:
                yield ('idle', f'{what}: a client left {run.parse_time(x["disconnected_at"]) - run.parse_time(x["connected_at"]):.2f} s after it came, the limit is {sc["T"]} s')


def expand(template, args):
    """The only pattern used here is {}."""
    return template.replace('{}', args)


def concurrent(execs):
    marks = sorted([(e[0], 1) for e in execs] + [(e[1] or e[0] + .4, -1) for e in execs], key=lambda x: (x[0], x[1]))
    n = peak = 0
    for _, k in marks:
        n += k
        peak = max(peak, n)
    return peak


CONFLICTS = [['--restart', '--no-db'], ['-o', 'OUT', '--mpi'], ['-e', 'OUT', '--ssh', 'h1'], ['-o', 'OUT', '--launcher=start'], ['-c', '-o', 'OUT'], ['--capture', '-e', 'OUT'], ['--forever', '--no-db'],
             ['--forever', '--restart'], ['--ssh-args=-x'], ['--ssh-args=-x', '--mpi'], ['--ssh', 'h1', '--ssh-group', 'mine'], ['--ssh-group', 'mine'], ['-A', 'fixed', '--ssh', 'h1'], ['-A', 'fixed', '--mpi'],
             ['-A', 'fixed', '--no-db'], ['--ssh', 'h1', '--mpi'], ['--ssh', 'h1', '--launcher=start'], ['--mpi', '--launcher=start'], ['--no-db', '--initdb'], ['FILE', '--restart'], ['-A', 'fixed', '-o', 'OUT', '--launcher=start'],
             ['-A', 'never', '--launcher=start'], ['-N', 'x'], ['-b', '1.5'], ['-p', 'http'], ['--ssh', '--ssh-group', 'nobody'], ['FILE', '-'], ['--nonsense'], ['/does/not/exist']]


def rejected(c):
    def one(combo, seed):
        rng = random.Random(seed)
        with hs.Site('c33r', config='[ssh.nodelist]\nmine = ["h1"]\n') as site:
            (site.path / 'launched').mkdir()
            (site.path / 'keep').write_text('precious\n')
            (site.path / 'in').write_text('job bad 0 0\n')
            for name, text in (('ssh', SSH), ('mpirun', LAUNCH), ('start', LAUNCH)):
                p = site.path / 'bin' / name
                p.write_text(text)
                p.chmod(0o755)
            site.cli('submit', '-', stdin='job old 0 0\n')
            before = site.tasks()
            port = hs.free_port()
            args = [{'OUT': str(site.path / 'keep'), 'FILE': str(site.path / 'in')}.get(x, x) for x in combo]
            if '-p' not in args:
                args += ['-p', port]
            if '--launcher=start' in args or '--ssh' in args or '--mpi' in args or rng.random() < .3:
                args += ['--remote-exe', site.remote_exe(sleep_cap=.2)]
            p = site.spawn('cluster', *args, stdin='job bad 0 0\n', perturb={'sleep_cap': .4}, env={'HSV_LAUNCHED': str(site.path / 'launched')})
            seen = hs.wait_for(lambda: hs.listening(port) or not p.alive(), 15, .02)
            p.wait(12)
            c.count('rejections')
            c.case(('reject', *combo), sample=f'rejected: hs cluster {" ".join(combo)}')
            after = site.tasks()
            what = f'hs cluster {" ".join(map(str, combo))}'
            if p.status in (0, None):
                c.violation('not-rejected', f'{what} is accepted (status {p.status}): {p.tail(300)}', {'options': combo})
            elif site.journal() or os.listdir(site.path / 'launched') or after != before or hs.listening(port) or (site.path / 'keep').read_text() != 'precious\n':
                c.violation('ran-before-rejection', f'{what}: rejected after something had happened: journal {site.journal()[:2]}, launched {os.listdir(site.path / "launched")}, {len(after)} records, '
                                                    f'file {(site.path / "keep").read_text()!r}', {'options': combo})
            p.kill()
    for exc in hs.parallel([lambda k=k, s=c.rng.randrange(1 << 30): one(k, s) for k in CONFLICTS], 8):
        if exc is not None:
            c.inconclusive(getattr(exc, 'tb', str(exc))[-700:])


if __name__ == '__main__':
    core.main(core.Check('C33', LEVEL, RULE, TECHNIQUE), body)
