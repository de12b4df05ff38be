"""C29: initialising never destroys data, truncating needs consent."""
import json
import os
import pty
import random
import re
import select
import sqlite3
import sys
import termios
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs

TECHNIQUE = ('runtime monitor: random histories of initialising, submitting, listing, working and truncating commands are run against real databases while a reference model predicts from the answers given on a real terminal (or their absence) whether data may go; '
             'the complete content of both tables is compared before and after every command, under concurrent writers the submitted lines are counted')
LEVEL = 'exploration'
LEVEL_NOTE = 'Held for the histories generated. SQLite only (no PostgreSQL server is installed).'
RULE = 'one case per command with the content it met, how it was confirmed (flag, answer on a terminal, none) and how the database is configured; non-trivial when the tables held rows'

YES = ['', 'y', 'Y', 'yes', 'YES', 'Yes', ' yes ', 'yEs']
NO = ['n', 'no', 'N', 'NO', ' no']
BAD = ['maybe', 'yess', '0', 'y e s', 'true', 'nope', 'ok', 'yes no', 'ja', '1', 'q', '\x04', '\x03', None]


def dump(path):
    """Content of both tables."""
    out = {}
    if not os.path.exists(path):
        return None
    for attempt in range(4):
        try:
            con = sqlite3.connect(f'file:{path}?mode=ro', uri=True, timeout=60)
            try:
                names = {r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type = 'table'")}
                for t in sorted(names):
                    out[t] = sorted(map(repr, con.execute(f'SELECT * FROM "{t}"')))
            finally:
                con.close()
            return out
        except sqlite3.OperationalError:
            time.sleep(.3)
    raise core.Inconclusive('cannot read ' + str(path))


def on_terminal(site, args, answer, stdin='tty', env=None, limit=60):
    """Run on a terminal, answer the prompt; -> (process, everything shown, was asked)."""
    master, slave = pty.openpty()
    attr = termios.tcgetattr(slave)
    attr[3] &= ~termios.ECHO
    termios.tcsetattr(slave, termios.TCSANOW, attr)
    name = os.ttyname(slave)
    p = hs.Proc(['hs', *args], site.env(**(env or {})), site.dir, stdin=hs.pathlib.Path(name) if stdin == 'tty' else stdin, name='tty', stdout=name)
    site.procs.append(p)
    shown, asked, end = b'', False, time.time() + limit
    try:
        while time.time() < end:
            r, _, _ = select.select([master], [], [], .05)
            if r:
                try:
                    shown += os.read(master, 65536)
                except OSError:
                    break
            elif not p.alive():
                break
            if asked and stdin == 'tty' and answer in ('\x03', None) and time.time() > again and p.alive():   # may arrive just before the read begins
                again = time.time() + 1
                p.signal(hs.signal.SIGTERM) if answer is None else os.write(master, b'\x03')
            text = shown.decode('utf-8', 'replace') + p.err
            if not asked and re.search(r'\?.*: ?$', text):
                asked, again = True, time.time() + 1
                if stdin != 'tty':
                    pass
                elif answer is None:
                    p.signal(hs.signal.SIGTERM)
                elif answer in ('\x03', '\x04'):
                    os.write(master, answer.encode())
                else:
                    os.write(master, (answer + '\n').encode())
        p.wait(10)
    finally:
        os.close(master)
        os.close(slave)
    return p, shown.decode('utf-8', 'replace') + p.err, asked or bool(re.search(r'\? \[Y', p.err))


def history(c, seed):
    """One history on one database."""
    rng = random.Random(seed)
    how = rng.choice(['env', 'env', 'config-file', 'config-database', 'config-env', 'config-eval', 'env-database'])
    with hs.Site('c29', db=False) as site:
        path = str(site.path / rng.choice(['my.db', 'a b.db', 'é.db']))
        cfg, extra = '', {}
        if how == 'env':
            extra['HYPERSHELL_DATABASE_FILE'] = path
        elif how == 'env-database':
            extra['HYPERSHELL_DATABASE_DATABASE'] = path
        else:
            key = {'config-file': 'file', 'config-database': 'database', 'config-env': 'file_env', 'config-eval': 'file_eval'}[how]
            value = {'config-env': 'MY_DATABASE', 'config-eval': f"echo '{path}'"}.get(how, path)
            extra['MY_DATABASE'] = path
            cfg = f'[database]\n{key} = {json.dumps(value, ensure_ascii=False)}\n'
            (site.path / 'config.toml').write_text(cfg)
            extra['HYPERSHELL_CONFIG_FILE'] = str(site.path / 'config.toml')
        site.extra.update(extra)
        site.db = None
        total = 0
        port = None
        for step in range(rng.randrange(8, 14)):
            before = dump(path)
            rows = sum(len(v) for v in (before or {}).values())
            kind = rng.choice(['init', 'init', 'submit', 'submit', 'submit', 'list', 'work', 'truncate', 'truncate', 'truncate', 'writers', 'foreign', 'yes-alone', 'older'])
            desc, changed = kind, False
            replay = {'seed': seed, 'step': step, 'how': how, 'kind': kind}
            if kind == 'init':
                p = site.cli('initdb')
                ok = p.status == 0
            elif kind == 'yes-alone':
                p = site.cli('initdb', rng.choice(['--yes', '-y']))
                ok = p.status == 0
            elif kind == 'list':
                args = rng.choice([['task', 'search', '--limit', '3'], ['task', 'search', 'id', '--json'], ['task', 'search', '--count'], ['task', 'search', '--failed'], ['task', 'update', 'attempt=1', '--no-confirm', '-w', 'args==nothing'],
                                   ['task', 'info', '00000000-0000-0000-0000-000000000000'], ['submit', '-']])
                p = site.cli(*args, stdin='')
                desc = ' '.join(args)
                ok = p.status == 0 or 'info' in args
            elif kind == 'submit':
                n = rng.randrange(1, 6)
                args = ['submit', *rng.choice([['-'], ['--initdb'], ['-b', '1', '--initdb']])]
                p = site.cli(*args, stdin=''.join(f'true s{step}-{i}\n' for i in range(n)))
                ok = p.status == 0
                after = dump(path) or {}
                if ok and (len(after.get('task', [])) != len((before or {}).get('task', [])) + n or not set((before or {}).get('task', [])) <= set(after['task'])):
                    c.violation('submit-harmed', f'after submitting {n} lines to a database with {rows} rows it holds {len(after.get("task", []))} tasks or other tasks changed', replay)
                changed = True
            elif kind == 'work':
                if not before or not before.get('task'):
                    continue
                port = hs.free_port()
                p = site.spawn('server', '--restart', '-p', port, '-k', 'k', *rng.choice([[], ['--initdb']]), perturb={'sleep_cap': .1}, name='server')
                p.port = port
                hs.wait_listening(p)
                q = site.spawn('client', '-p', port, '-k', 'k', perturb={'sleep_cap': .1})
                p.wait(60), q.wait(30)
                ok = p.status == 0
                after = dump(path) or {}
                if len(after.get('task', [])) != len(before['task']) or len(after.get('client', [])) != len(before['client']) + 1:
                    c.violation('server-harmed', f'a server on {len(before["task"])} tasks and {len(before["client"])} clients left {len(after.get("task", []))} and {len(after.get("client", []))}', replay)
                changed = True
                p.kill(), q.kill()
            elif kind == 'writers':
                # Several initialisations while others submit
                k = rng.randrange(2, 5)
                subs = [site.spawn('submit', '-', '-b', '1', stdin=''.join(f'true w{step}-{j}-{i}\n' for i in range(6)), perturb={'sql_delay': [.3, .02], 'seed': seed + j}) for j in range(k)]
                inits = []
                while any(s.alive() for s in subs) or len(inits) < 2:
                    inits.append(site.cli('initdb'))
                for s in subs:
                    s.wait(60)
                p = subs[0]
                after = dump(path) or {}
                stored = [r for r in after.get('task', []) if f'true w{step}-' in r]
                want = sum(6 for s in subs if s.status == 0)
                lost = [f'true w{step}-{j}-{i}' for j, s in enumerate(subs) if s.status == 0 for i in range(6) if not any(f"'true w{step}-{j}-{i}'" in r for r in stored)]
                c.count('initialisations while others wrote', len(inits))
                if lost or not set((before or {}).get('task', [])) <= set(after.get('task', [])):
                    c.violation('init-harmed-writers', f'{len(inits)} initialisations beside {k} submissions: {len(stored)} of {want} lines stored, missing {lost[:4]}, '
                                                       f'{len(set((before or {}).get("task", [])) - set(after.get("task", [])))} earlier tasks gone', replay)
                ok, changed = True, True
                for q in subs + inits:
                    if q.status != 0:
                        c.count('commands that failed beside others')
                        if before:
                            c.violation('init-fails', f'a command beside others on an initialised database failed: {q.tail(400)}', replay)
            elif kind in ('foreign', 'older'):
                # a table of somebody else is not touched, a missing one is added
                if not before:
                    continue
                con = sqlite3.connect(path, timeout=60)
                if kind == 'foreign':
                    con.execute('CREATE TABLE IF NOT EXISTS notes (x)')
                    con.execute('INSERT INTO notes VALUES (?)', (f'note {step}',))
                else:
                    con.execute('DROP TABLE client')
                con.commit()
                con.close()
                before = dump(path)
                p = site.cli('initdb')
                ok = p.status == 0
                if kind == 'older':
                    before['client'] = []
            else:
                mode = rng.choice(['flag', 'tty-yes', 'tty-no', 'tty-bad', 'tty-bad', 'pipe', 'pipe', 'mixed'])
                opt = rng.choice([['--truncate'], ['-t']])
                replay['mode'] = mode
                answer, asked, shown, allowed = None, False, '', False
                if mode == 'flag':
                    args = ['initdb', *opt, rng.choice(['--yes', '-y'])]
                    rng.shuffle(args[1:])
                    p = site.cli(*args, stdin='')
                    allowed, must = True, True
                elif mode == 'pipe':
                    answer = rng.choice(YES + NO + BAD[:6])
                    p = site.cli('initdb', *opt, stdin=answer + '\n')
                    allowed = must = False
                elif mode == 'mixed':   # shown on a terminal, answered by a pipe
                    answer = rng.choice(['maybe\n', 'no\n', '', 'yes\n'])
                    p, shown, asked = on_terminal(site, ['initdb', *opt], None, stdin=answer)
                    allowed = must = answer == 'yes\n' and bool(before)
                else:
                    answer = rng.choice({'tty-yes': YES, 'tty-no': NO, 'tty-bad': BAD}[mode])
                    p, shown, asked = on_terminal(site, ['initdb', *opt], answer)
                    allowed = must = mode == 'tty-yes'
                    if not asked and not before:
                        must = False
                    elif not asked:
                        c.violation('not-asked', f'`initdb --truncate` on a terminal did not ask ({how}): {shown[-300:]!r} {p.err[-300:]!r}', replay)
                        must = False
                desc = f'truncate {mode} {answer!r}'
                replay.update(answer=answer, status=p.status, shown=shown[-300:], err=p.err[-300:])
                after = dump(path) or {}
                left = sum(len(after.get(t, [])) for t in ('task', 'client'))
                if asked:
                    c.count('prompts answered')
                    m = re.search(r'(\d+) tasks', shown)
                    if m and int(m.group(1)) != len((before or {}).get('task', [])):
                        c.violation('wrong-count', f'the prompt speaks of {m.group(1)} tasks, there are {len((before or {}).get("task", []))}', replay)
                c.count('truncations ' + ('confirmed' if must else 'not confirmed'))
                if must and (left or p.status != 0 or not {'task', 'client'} <= set(after)):
                    c.violation('not-truncated', f'{desc}: {left} rows left, tables {sorted(after)}, status {p.status}: {p.err[-300:]!r}', replay)
                if not allowed and after != (before or {}):
                    if before is not None or left or mode not in ('tty-no', 'tty-bad', 'mixed', 'pipe'):
                        c.violation('truncated', f'{desc} changed the data: {rows} rows before, {sum(map(len, after.values()))} after, status {p.status}', replay)
                if not allowed and p.status == 0 and mode in ('pipe', 'tty-bad'):
                    c.violation('refusal-succeeds', f'{desc} ended with status 0 although nothing was confirmed', replay)
                if mode == 'tty-no' and asked and p.status != 0:
                    c.violation('refusal-fails', f'{desc} ended with status {p.status}: {p.err[-300:]!r}', replay)
                if must and before and set(before) - {'task', 'client', 'sqlite_sequence'} and after.get('notes') != before.get('notes'):
                    c.violation('foreign-harmed', f'{desc} changed a table of somebody else', replay)
                ok, changed = True, True
            c.count('commands')
            c.case((how, kind, desc, rows > 0, rows), sample=f'{desc} on {rows} rows ({how})', nontrivial=rows > 0)
            if p.status is None:
                c.inconclusive(f'{desc} did not end: {p.tail(300)}')
                return
            if not ok:
                c.violation('command-failed', f'{desc} ({how}, {rows} rows) failed: {p.tail(400)}', replay)
            if not changed:
                after = dump(path)
                for t, content in (before or {}).items():
                    if (after or {}).get(t) != content:
                        c.violation('harmed', f'{desc} ({how}) changed table {t}: {len(content)} rows before, {len((after or {}).get(t, []))} after', replay)
                if kind in ('init', 'yes-alone', 'foreign', 'older') and not {'task', 'client'} <= set(after or {}):
                    c.violation('not-initialised', f'{desc} ({how}) left the tables {sorted(after or {})} at {path}', replay)


def nowhere(c, seed):
    """Without a database these commands fail and leave nothing behind."""
    rng = random.Random(seed)
    with hs.Site('c29n', db=False) as site:
        how = rng.choice(['none', 'empty', 'memory', 'memory-database', 'cfg-memory', 'cfg-provider', 'unset-env', 'dead-postgres'])
        env = {'none': {}, 'empty': {'HYPERSHELL_DATABASE_FILE': ''}, 'memory': {'HYPERSHELL_DATABASE_FILE': ':memory:'}, 'memory-database': {'HYPERSHELL_DATABASE_DATABASE': ':memory:'},
               'dead-postgres': {'HYPERSHELL_DATABASE_PROVIDER': 'postgres', 'HYPERSHELL_DATABASE_DATABASE': 'main', 'HYPERSHELL_DATABASE_PORT': '9'}}.get(how, {})
        cfg = {'cfg-memory': '[database]\nfile = ":memory:"\n', 'cfg-provider': '[database]\nprovider = "sqlite"\n', 'unset-env': '[database]\nfile_env = "HSV_NOT_SET"\n'}.get(how)
        if cfg:
            (site.path / 'config.toml').write_text(cfg)
            env['HYPERSHELL_CONFIG_FILE'] = str(site.path / 'config.toml')
        tree = {os.path.join(d, f) for d, _, fs in os.walk(site.dir) for f in fs if '/.io' not in d}
        for args, tty in rng.sample([(['initdb'], 0), (['initdb', '--truncate', '--yes'], 0), (['initdb', '-t'], 0), (['initdb', '-t'], 1), (['submit', '-'], 0), (['submit', '--initdb', '-b', '1'], 0),
                                     (['task', 'submit', '--', 'true', 'x'], 0), (['task', 'search', '--count'], 0), (['task', 'search', 'id'], 0), (['task', 'update', '--no-confirm', 'attempt=2'], 0),
                                     (['task', 'wait', '-n', '1', '00000000-0000-0000-0000-000000000000'], 0), (['task', 'info', '00000000-0000-0000-0000-000000000000'], 0),
                                     (['server', '--restart', '-p', str(hs.free_port())], 0), (['server', '--forever', '-p', str(hs.free_port())], 0),
                                     (['server', '-', '-p', str(hs.free_port())], 0)], c.pick(8, 15)):
            if tty:
                p, shown, asked = on_terminal(site, args, 'yes', env=env)
                if asked:
                    c.violation('asked-for-nothing', f'{args} asks although there is no database ({how})', {'how': how})
            else:
                p = site.cli(*args, stdin='true a\ntrue b\n', env=env, timeout=25)
            new = {os.path.join(d, f) for d, _, fs in os.walk(site.dir) for f in fs if '/.io' not in d and '/log' not in d and not f.endswith('.log')} - tree
            c.count('commands without database')
            c.case(('nowhere', how, tuple(a for a in args if not a.isdigit())), sample=f'{args} without database ({how})')
            if p.status == 0 or p.status is None:
                c.violation('without-database', f'{args} without a database ({how}) ended with status {p.status}: {p.tail(300)}', {'how': how, 'args': args})
            if new:
                c.violation('left-behind', f'{args} without a database ({how}) created {sorted(new)}', {'how': how, 'args': args})


def race(c, seed):
    """Many commands meet a database that does not exist yet."""
    rng = random.Random(seed)
    with hs.Site('c29r', db=False) as site:
        path = str(site.path / 'main.db')
        site.extra['HYPERSHELL_DATABASE_FILE'] = path
        k = rng.randrange(2, 6)
        procs = [site.spawn('submit', '-', stdin=''.join(f'true r{j}-{i}\n' for i in range(5)), perturb={'sql_delay': [.6, .05], 'seed': seed + j}) for j in range(k)]
        procs += [site.spawn('initdb', perturb={'sql_delay': [.6, .05], 'seed': seed + 99})]
        for p in procs:
            p.wait(60)
        after = dump(path) or {}
        c.count('first uses at once')
        c.case(('race', k, seed), sample=f'{k} first submissions at once')
        failed = [p for p in procs if p.status != 0]
        lost = [f'true r{j}-{i}' for j, p in enumerate(procs[:-1]) if p.status == 0 for i in range(5) if sum(f"'true r{j}-{i}'" in r for r in after.get('task', [])) != 1]
        if lost:
            c.violation('race-lost', f'{k} submissions to a new database at once: {lost[:5]} not stored once', {'seed': seed})
        if failed:
            c.violation('race-failed', f'{len(failed)} of {len(procs)} commands that met a new database at once failed: {failed[0].tail(500)}', {'seed': seed})


def body(c):
    jobs = [(history, c.rng.randrange(1 << 30)) for _ in range(c.pick(60, 600))]
    jobs += [(nowhere, c.rng.randrange(1 << 30)) for _ in range(c.pick(12, 60))]
    jobs += [(race, c.rng.randrange(1 << 30)) for _ in range(c.pick(12, 150))]
    for exc in hs.parallel([lambda f=f, s=s: f(c, s) for f, s in jobs], 10):
        if exc is not None:
            c.inconclusive(getattr(exc, 'tb', str(exc))[-700:])
    c.require('commands', c.pick(300, 3000))
    c.require('truncations confirmed', 20)
    c.require('truncations not confirmed', 20)
    c.require('prompts answered', 20)
    c.require('initialisations while others wrote', 10)
    c.require('commands without database', 40)


if __name__ == '__main__':
    core.main(core.Check('C29', LEVEL, RULE, TECHNIQUE), body)
