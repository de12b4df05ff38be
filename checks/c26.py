"""C26: database options -> URL -> options, rejection of invalid combinations, no password in printable forms."""
import json
import os
import socket
import struct
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs

TECHNIQUE = 'runtime monitor: round-trip of generated option sets through the real encoder and the database library parser; secret scanner over all printable output'
LEVEL = 'exploration'
LEVEL_NOTE = ('Held on the generated option sets (API, configuration and command line); trusts SQLAlchemy make_url as the reading of a URL. '
              'Database names containing "?" (or "@" when no user is given) are outside the domain (not expressible in a URL for this library).')
RULE = 'random subsets of the documented options with ordinary and hostile values, both valid and invalid combinations; non-trivial when not the bare provider'

CHARS = 'abcXYZ019-_.~'
HOSTILE = '@:/?#%&=+ []!$\'"\\é漢;,*()<>|^`{}'


def text(rng, hostile=True, n=None):
    n = n or rng.randrange(1, 14)
    return ''.join(rng.choice(HOSTILE if hostile and rng.random() < 0.4 else CHARS) for _ in range(n))


def gen(rng):
    """-> (fields, valid)"""
    f = {}
    valid = True
    if rng.random() < 0.25:
        f['provider'] = 'sqlite'
        r = rng.random()
        path = ('/' if rng.random() < .6 else '') + '/'.join(''.join(c for c in text(rng) if c not in '?/') or 'x' for _ in range(rng.randrange(1, 4))) + '.db'
        if r < 0.45:
            f['file'] = path
        elif r < 0.75:
            f['database'] = path
        elif r < 0.85:
            f['file'], f['database'] = path, path
            valid = False
        if rng.random() < 0.25:
            k = rng.choice(['user', 'password', 'host', 'port'])
            f[k] = 5432 if k == 'port' else text(rng, False)
            valid = False
        if rng.random() < 0.3:
            f[rng.choice(['timeout', 'cached_statements', 'mode'])] = text(rng)
        return f, valid
    f['provider'] = rng.choice(['postgresql', 'postgresql', 'postgres', 'mysql', 'postgresql+psycopg2'])
    if rng.random() < 0.95:
        f['database'] = ''.join(c for c in text(rng) if c not in '?') or 'main'
    else:
        valid = False
    if rng.random() < 0.05:
        f['file'] = 'x.db'
        valid = False
    r = rng.random()
    if r < 0.6:
        f['user'], f['password'] = text(rng), text(rng, n=rng.randrange(6, 20))
        if rng.random() < 0.05:
            f['password'] = ''
    elif r < 0.7:
        f['user'] = text(rng)
        valid = False
    elif r < 0.8:
        f['password'] = text(rng, n=12)
        valid = False
    if 'user' not in f and 'database' in f:
        f['database'] = f['database'].replace('@', '') or 'main'   # not expressible without a user part
    if rng.random() < 0.6:
        f['host'] = rng.choice(['localhost', 'db.example.org', '10.0.0.7', 'h-1', 'DB', '::1', 'fe80::1:2', '[::1]'])
    if rng.random() < 0.5:
        f['port'] = rng.choice([1, 5432, 65535, '5432', 54321])
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        f[rng.choice(['sslmode', 'connect_timeout', 'application_name', 'a', 'options', 'q'])] = rng.choice([text(rng), 1, 'x=1&y=2', '-c a=b'])
    return f, valid


def expected(f):
    known = ('provider', 'user', 'password', 'host', 'port', 'database', 'file')
    host = f.get('host')
    if host is None and (f.get('port') or f.get('user') is not None):
        host = 'localhost'
    return {'provider': f['provider'], 'user': f.get('user'), 'password': f.get('password'),
            'host': None if host is None else host.strip('[]'), 'port': None if f.get('port') is None else int(f['port']),
            'database': f.get('database') or f.get('file'),
            'parameters': {k: str(v) for k, v in f.items() if k not in known}}


class Listener(threading.Thread):
    """Accepts PostgreSQL connections as far as the password, then refuses: tells what a connection really asks for."""

    def __init__(self, family=socket.AF_INET, host='127.0.0.1'):
        super().__init__(daemon=True)
        self.sock = socket.socket(family)
        self.sock.bind((host, 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.seen = []
        self.start()

    def run(self):
        while True:
            try:
                con, _ = self.sock.accept()
            except OSError:
                return
            try:
                con.settimeout(10)
                self.serve(con)
            except (OSError, struct.error, ValueError):
                pass
            finally:
                con.close()

    @staticmethod
    def exactly(con, n):
        data = b''
        while len(data) < n:
            part = con.recv(n - len(data))
            if not part:
                raise ValueError('closed')
            data += part
        return data

    def serve(self, con):
        while True:
            n, code = struct.unpack('!II', self.exactly(con, 8))
            rest = self.exactly(con, n - 8)
            if code in (80877103, 80877104):
                con.sendall(b'N')
                continue
            break
        parts = [x.decode('utf-8', 'replace') for x in rest.split(b'\0')]
        got = dict(zip(parts[0::2], parts[1::2]))
        con.sendall(b'R' + struct.pack('!II', 8, 3))
        try:
            kind = self.exactly(con, 1)
            n, = struct.unpack('!I', self.exactly(con, 4))
            got['password'] = self.exactly(con, n - 4).rstrip(b'\0').decode('utf-8', 'replace')
        except ValueError:
            got['password'] = None    # the client has no password to give
        self.seen.append(got)
        body = b'SFATAL\0C28P01\0Mrefused by the monitor\0\0'
        con.sendall(b'E' + struct.pack('!I', len(body) + 4) + body)


def toml(value):
    return json.dumps(value, ensure_ascii=False)


def connections(c):
    """What a configured command connects to, seen from the other side."""
    def one(seed):
        import random
        rng = random.Random(seed)
        with hs.Site('c26pg', db=False) as site:
            server = Listener()
            user, password, name = text(rng), text(rng, n=rng.randrange(6, 20)), ''.join(ch for ch in text(rng) if ch not in '?') or 'main'
            opts = {'provider': rng.choice(['postgres', 'postgresql']), 'database': name, 'host': rng.choice(['127.0.0.1', 'localhost']), 'port': server.port, 'user': user, 'password': password}
            if rng.random() < .4:
                opts['application_name'] = text(rng)
            if rng.random() < .3:
                opts['host'] = None
            env = {'HSV_USER': user, 'HSV_PASSWORD': password, 'HSV_NAME': name, 'HSV_PORT': str(server.port), 'HSV_FILE': 'x'}
            want = {'user': user, 'password': password, 'database': name}
            if 'application_name' in opts:
                want['application_name'] = opts['application_name']
            lines, via = [], {}
            for k, v in opts.items():
                if v is None:
                    continue
                var = {'user': 'HSV_USER', 'password': 'HSV_PASSWORD', 'database': 'HSV_NAME', 'port': 'HSV_PORT'}.get(k)
                how = rng.choice(['file', 'file', *(['env'] if '_' not in k else []), *(['file_env', 'file_eval'] if var else [])])
                if how == 'env' and (k != 'port' and str(v) != str(v).strip() or str(v).replace('.', '').replace('_', '').isdigit() and k != 'port' or str(v).lower() in ('null', 'none', '', 'true', 'false')):
                    how = 'file'    # the shell form of values is the business of C22
                if how == 'file_eval' and str(v) != str(v).strip():
                    how = 'file_env'
                via[k] = how
                if how == 'file':
                    lines.append(f'{k} = {toml(v)}')
                elif how == 'env':
                    try:
                        float(v)
                        lines.append(f'{k} = {toml(v)}')
                    except ValueError:
                        env[f'HYPERSHELL_DATABASE_{k.upper()}'] = str(v)
                elif how == 'file_env':
                    lines.append(f'{k}_env = {toml(var)}')
                else:
                    lines.append(f'{k}_eval = {toml("printenv " + var)}')
            (site.path / 'config.toml').write_text('[database]\n' + '\n'.join(lines) + '\n')
            cmd = rng.choice([['initdb'], ['task', 'search', '--count'], ['submit', '-'], ['initdb', '--truncate', '--yes'], ['task', 'update', 'attempt=1', '--no-confirm']])
            r = site.cli(*cmd, stdin='true\n', env={'HYPERSHELL_CONFIG_FILE': str(site.path / 'config.toml'), 'PGCONNECT_TIMEOUT': '10', **env}, timeout=60)
            server.sock.close()
            c.count('connections asked for')
            replay = {'options': opts, 'via': via, 'command': cmd, 'seen': server.seen, 'stderr': r.err[-500:]}
            c.case(('pg', tuple(sorted(via.items())), seed), sample={'options': opts, 'via': via, 'asked for': server.seen[:1]})
            if not server.seen:
                c.violation('wrong-server', f'{cmd} with {opts} never connected to port {server.port}: {r.tail(300)}', replay)
                return
            c.count('connections seen')
            for got in server.seen:
                diff = [k for k in want if got.get(k) != want[k]]
                if diff:
                    c.violation('wrong-connection', f'{cmd} with {opts} ({via}) asked for {got}: {diff} differ', replay)
            logs = ''.join(open(os.path.join(d, x), errors='replace').read() for d, _, fs in os.walk(site.path / 'site') for x in fs)
            if len(password) > 9 and password in r.out + r.err + logs:
                c.violation('password-printed', f'{cmd} printed the password', replay)
            if r.status == 0:
                c.violation('bad-database-accepted', f'{cmd} exited 0 although the server refused', replay)
    return [lambda s=c.rng.randrange(1 << 30): one(s) for _ in range(c.pick(60, 800))]


def files(c):
    """SQLite: every command uses exactly the configured file, whichever way it is named."""
    def one(seed):
        import random
        rng = random.Random(seed)
        with hs.Site('c26f', db=False) as site:
            name = ''.join(ch for ch in text(rng) if ch not in '?/\\').strip() or 'x'
            if name in ('.', '..') or name.replace('.', '').isdigit():
                name = 'n' + name
            name += '.db'
            sub = rng.choice(['', '', 'sub dir'])
            if sub:
                (site.path / sub).mkdir()
            path = site.path / sub / name
            value = str(path) if rng.random() < .7 else os.path.join(sub, name)
            key = rng.choice(['file', 'database'])
            how = rng.choice(['file', 'env', 'file_env', 'file_eval'])
            env = {'HSV_FILE': value}
            if how == 'env':
                env[f'HYPERSHELL_DATABASE_{key.upper()}'] = value
                cfg = ''
            else:
                cfg = '[database]\n' + {'file': f'{key} = {toml(value)}', 'file_env': f'{key}_env = "HSV_FILE"', 'file_eval': f'{key}_eval = "printenv HSV_FILE"'}[how] + '\n'
            if how == 'env' and rng.random() < .5:
                cfg = '[database]\nprovider = "sqlite"\n'
            (site.path / 'config.toml').write_text(cfg)
            env['HYPERSHELL_CONFIG_FILE'] = str(site.path / 'config.toml')
            replay = {'key': key, 'how': how, 'value': value}
            known = None
            todo = [['initdb'], ['submit', '-'], ['task', 'submit', '--', 'true', 'one'], ['task', 'search', '--count'], ['task', 'update', 'attempt=1', '--no-confirm'],
                    ['task', 'update', 'attempt=1', '--no-confirm', '-w', 'args==nothing'], ['initdb', '--truncate', '--yes']]
            for cmd in todo[:2] + rng.sample(todo[2:], 3):
                r = site.cli(*cmd, stdin='true\n', env=env, timeout=60)
                dbs = [os.path.join(d, x) for d, _, fs in os.walk(site.dir) for x in fs if open(os.path.join(d, x), 'rb').read(15) == b'SQLite format 3']
                c.count('databases_opened')
                if dbs != [str(path)]:
                    c.violation('wrong-sqlite-file', f'{cmd} with {key} {value!r} ({how}) left databases {dbs}: {r.tail(300)}', replay)
                    return
                if r.status != 0:
                    c.violation('sqlite-command-fails', f'{cmd} with {key} {value!r} ({how}) failed: {r.tail(300)}', replay)
            c.case(('sqlite', key, how, name), sample={'sqlite': value, 'key': key, 'how': how})
    return [lambda s=c.rng.randrange(1 << 30): one(s) for _ in range(c.pick(40, 500))]


def body(c):
    site = hs.Site('c26', db=False)
    n = c.pick(6000, 100000)
    cases = []
    for _ in range(n):
        f, valid = gen(c.rng)
        via = 'direct'
        g = dict(f)
        if c.rng.random() < 0.25:
            via = 'ns'
            if 'password' in g and g['password'] and valid and c.rng.random() < 0.4:
                # *_env options are resolved from the environment
                g.pop('password')
                g['password_env'] = 'HSV_SECRET'
                f['password'] = 's3cr3t@:/%from-env'
        cases.append((via, f, g, valid))
    cases.append(('direct', {'database': 'x'}, {'database': 'x'}, False))
    cases.append(('direct', {'provider': 'postgresql', 'database': ''}, {'provider': 'postgresql', 'database': ''}, False))
    p = site.script(hs.VERIF / 'workers' / 'dburl.py', stdin='\n'.join(json.dumps({'via': v, 'fields': g}) for v, f, g, ok in cases) + '\n',
                    env={'HSV_SECRET': 's3cr3t@:/%from-env'}, timeout=600)
    out = [json.loads(l) for l in p.out.splitlines()]
    if p.status != 0 or len(out) != len(cases):
        raise core.Inconclusive('worker failed: ' + p.tail(600))
    for (via, f, g, valid), got in zip(cases, out):
        c.case((via, tuple(sorted((k, str(v)) for k, v in g.items()))), sample={'options': g, 'result': got.get('url') or got.get('text')}, nontrivial=len(g) > 1)
        if not valid:
            c.count('invalid_combinations')
            if got['ok']:
                c.violation('invalid-accepted', f'{g} accepted as {got["url"]}', g)
            elif got['error'] != 'AttributeError':
                c.violation('invalid-crash', f'{g} -> {got}', g)
            continue
        if not got['ok']:
            c.violation('valid-rejected', f'{g} rejected: {got}', g)
            continue
        c.count('round_trips')
        if got.get('parse_error'):
            c.violation('unparseable', f'{g} encoded to {got["url"]}: {got["parse_error"]}', g)
            continue
        want = expected(f)
        diff = [k for k in want if want[k] != got['parsed'][k]]
        if diff:
            c.violation('wrong-' + diff[0], f'{g} encoded to {got["url"]} which means {got["parsed"]}', {'options': g, 'differs': diff})
        pw = f.get('password')
        if pw and len(pw) >= 6:
            c.count('secrets_scanned')
            others = ''.join(str(v) for k, v in f.items() if k != 'password')
            if pw not in others and (pw in got['repr'] or repr(pw)[1:-1] in got['repr']):
                c.violation('password-in-repr', f'{got["repr"]}', g)
            for k in ('user', 'host', 'port', 'database', 'file'):
                if f.get(k) not in (None, '') and f'{k}=' not in got['repr']:
                    c.violation('repr-incomplete', f'{k} missing in {got["repr"]}', g)
    # Through the configuration: what the command line really opens, and that nothing prints the password.
    for i in range(c.pick(4, 16)):
        name = 'f ' + ''.join(ch for ch in text(c.rng) if ch not in '?/\\\'"') + f'{i}.db'
        path = site.path / name
        key = c.rng.choice(['FILE', 'DATABASE'])
        r = site.cli('submit', '--initdb', stdin='echo 1\n', env={f'HYPERSHELL_DATABASE_{key}': str(path)})
        c.count('databases_opened')
        if r.status != 0 or not path.exists():
            c.violation('wrong-sqlite-file', f'{key}={path} opened something else: {sorted(os.listdir(site.dir))} {r.tail(300)}', {'path': name})
        c.case(('sqlite', key, name), sample={'sqlite_file': name})
    secret = 'Sup3rS3cret-Pw'
    for i, extra in enumerate([{}, {'HYPERSHELL_DATABASE_ECHO': 'true'}, {'HYPERSHELL_DATABASE_PORT': '1'}, {'HYPERSHELL_DATABASE_USER': None},
                               {'HYPERSHELL_DATABASE_DATABASE': None}, {'HYPERSHELL_DATABASE_FILE': 'x'}, {'HYPERSHELL_DATABASE_PROVIDER': 'oracle'}]):
        env = {'HYPERSHELL_DATABASE_PROVIDER': 'postgresql', 'HYPERSHELL_DATABASE_USER': 'me', 'HYPERSHELL_DATABASE_PASSWORD': secret,
               'HYPERSHELL_DATABASE_HOST': '127.0.0.1', 'HYPERSHELL_DATABASE_PORT': '9', 'HYPERSHELL_DATABASE_DATABASE': 'main', **extra}
        for cmd in (['task', 'search'], ['initdb']):
            r = site.cli(*cmd, env=env, stdin='')
            c.count('failing_commands')
            logs = ''.join(open(os.path.join(d, x), errors='replace').read() for d, _, fs in os.walk(site.path / 'site') for x in fs)
            if r.status == 0:
                c.violation('bad-database-accepted', f'{cmd} with {extra} exited 0: {r.tail(400)}', {'env': env})
            if secret in r.out + r.err + logs:
                c.violation('password-printed', f'{cmd} with {extra} printed the password: {r.tail(800)}', {'env': env, 'cmd': cmd})
    for exc in hs.parallel(connections(c) + files(c), 8):
        if exc is not None:
            c.inconclusive(getattr(exc, 'tb', str(exc))[-700:])
    c.require('connections seen', c.pick(20, 200))
    c.require('round_trips', n // 3)
    c.require('invalid_combinations', n // 30)
    c.require('secrets_scanned', n // 10)
    c.require('databases_opened', 4)


if __name__ == '__main__':
    core.main(core.Check('C26', LEVEL, RULE), body)
