"""C36: the output of a task that ran on another host is fetched over SSH: its very bytes, or an error."""
import datetime
import os
import random
import shutil
import subprocess
import sys
import time
import uuid

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, pop, run, sftpd
from workers import emit

TECHNIQUE = ('runtime monitor: `task info --stdout/--stderr` and `task run` against SSH servers on the loopback interface, which inject connection faults at chosen '
             'offsets, refuse, stall and are watched for what they were asked; every byte printed is compared with what the task wrote on the host that ran it')
LEVEL = 'exploration'
LEVEL_NOTE = 'Held on the contents, SSH configurations, faults and histories generated.'
RULE = ('random histories of requests for the output of remote tasks: content x SSH configuration x fault (cut, failed read, missing, refused, garbage, killed, overlapping) x '
        'offset x order of requests x decoys on other hosts; non-trivial when a fault was really injected or a transfer was really under way')
PY = sys.executable
PIPE = hs.VERIF / 'workers' / 'pipe.py'
EMIT = hs.VERIF / 'workers' / 'emit.py'
KINDS = ['plain', 'fault', 'fault', 'fault', 'missing', 'connect', 'kill', 'overlap', 'overlap', 'rerun', 'sshconf', 'sshconf', 'local', 'short', 'left', 'shared', 'rerun']


def gen(rng, n):
    kind = KINDS[n % len(KINDS)] if n < len(KINDS) else rng.choice(KINDS)
    size = lambda: rng.choice([0, 1, 200, 32768, 32769, 70000, 300000, 1200000])
    sc = {'n': n, 'kind': kind, 'seed': rng.getrandbits(40), 'content': [[rng.choice(emit.KINDS), size()], [rng.choice(emit.KINDS), size()]],
          'stream': rng.randrange(2), 'conf': rng.choice(['proxy', 'port', 'star']), 'others': rng.choice([0, 1, 2]), 'path': rng.choice(['/home/u/.hypershell/lib/task/', '/scratch/my dir/t\u00e4sk/', '/x/'])}
    if kind == 'fault':
        sc['fault'] = {'kind': rng.choice(['cut', 'cut', 'failure', 'denied']), 'where': 'read'}
        if rng.random() < .15:
            sc['fault'] = {'kind': 'cut', 'where': 'stat'}
        sc['content'][sc['stream']] = [rng.choice(['bin', 'text', 'crlf', 'plain']), rng.choice([200, 70000, 300000, 1200000])]
        sc['portion'] = rng.choice([0, 0.1, 0.5, 0.9, 0.999])
        sc['hit'] = rng.choice(['same', 'same', 'other'])
    if kind in ('kill', 'overlap', 'rerun'):
        sc['content'][sc['stream']] = [rng.choice(['bin', 'text', 'crlf']), rng.choice([70000, 300000, 1200000])]
        sc['portion'] = rng.choice([0, 0.3, 0.9])
        sc['signal'] = rng.choice([9, 9, 2, 15])
        sc['second'] = rng.randrange(2)
    if sc.get('fault', {}).get('kind') == 'cut':
        sc['conf'] = 'port'      # paramiko itself never notices the end of a ProxyCommand
    if kind == 'connect':
        sc['conf'] = 'port'
        sc['connect'] = rng.choice(['hangup', 'garbage', 'key', 'port'])
    if kind == 'rerun':
        sc['same_host'] = rng.random() < .5
        sc['content'].append([rng.choice(['bin', 'text']), rng.choice([0, 100, 80000])])
    return sc


class Case:
    def __init__(self, c, site, sc):
        self.c, self.site, self.sc = c, site, sc
        self.rng = random.Random(sc['seed'])
        self.hosts, self.log = [], []
        self.name = f'n{sc["n"]}'
        self.dir = site.path / 'conf' / self.name
        os.makedirs(self.dir)
        self.conf = self.dir / 'config'
        self.id = str(uuid.UUID(int=self.rng.getrandbits(128), version=4))
        self.paths = [f'{sc["path"]}{self.id}.{x}' for x in ('out', 'err')]
        self.data = [emit.content(str(sc['seed']), x, *sc['content'][i]) for i, x in enumerate(('out', 'err'))]
        style = sc['conf']
        for i in range(1 + sc['others']):
            user = self.rng.choice(['alice', 'bob', 'root'])
            keyfile = self.dir / f'key{i}'
            h = sftpd.Host(f'{self.name}{"abc"[i]}', sftpd.new_key(keyfile), user=user)
            h.keyfile = keyfile
            self.hosts.append(h)
        text = []
        for h in self.hosts:
            text += [f'Host {h.name}' + self.rng.choice(['', ' alias-' + h.name]), f'    User {h.user}']
            if style != 'star':
                text += [f'    IdentityFile {h.keyfile}']
            if style == 'port':
                text += ['    HostName 127.0.0.1', f'    Port {h.port}']
            else:
                text += [f'    HostName {h.name}.example.invalid', f'    ProxyCommand {PY} -SE {PIPE} {h.port}']
        if style == 'star':
            text += ['Host *'] + [f'    IdentityFile {h.keyfile}' for h in self.hosts]
        self.conf.write_text('\n'.join(text) + '\n')
        self.host = self.hosts[0]
        for h in self.hosts:
            for i, p in enumerate(self.paths):
                h.files[p] = (self.data[i] if h is self.host else emit.content(f'decoy{h.name}', 'x', 'text', 5000 + i), time.time() - 100)
        self.row(self.host, 100)

    def row(self, host, ago, outputs=True):
        r = dict.fromkeys(pop.COLUMNS)
        t = lambda s: (datetime.datetime.now() - datetime.timedelta(seconds=s)).strftime('%Y-%m-%d %H:%M:%S.%f')
        r.update(id=self.id, args='echo', submit_id=str(uuid.UUID(int=1)), submit_time=t(ago + 20), submit_host='vm', server_id=str(uuid.UUID(int=2)), server_host='vm', schedule_time=t(ago + 10),
                 client_id=str(uuid.UUID(int=3)), client_host=getattr(host, 'name', host), command='echo', start_time=t(ago), completion_time=t(ago - 0.5), exit_status=0,
                 attempt=1, retried=0, waited=20, duration=0, tag={})
        if outputs:
            r.update(outpath=self.paths[0], errpath=self.paths[1])
        con = self.site.connect()
        with con:
            con.execute('DELETE FROM task WHERE id = ?', (self.id,))
        con.close()
        pop.insert(self.site.db, [r])

    def start(self, stream):
        p = self.site.spawn('task', 'info', self.id, ['--stdout', '--stderr'][stream], env={'HYPERSHELL_SSH_CONFIG': self.conf, 'HYPERSHELL_LOGGING_LEVEL': 'CRITICAL'})
        p.stream = stream
        return p

    def judge(self, p, must, why, limit=60):
        """must: the bytes are due; otherwise an error will do."""
        if p.wait(limit) is None:
            self.fail('no-answer', f'{p.argv[3:]} has not ended after {limit} s ({why})', p)
            p.kill()
            return False
        got, want = open([p.outpath, p.errpath][p.stream], 'rb').read(), self.data[p.stream]
        if p.stream == 1 and p.status != 0:      # the standard error of the task goes to standard error, and so does the program's own report of a failure
            got = got if len(want) > 60 and want[:60] in got else b''
        self.log.append([['--stdout', '--stderr'][p.stream], why, p.status, len(got), len(want)])
        if p.status == 0 and got != want:
            what = 'the beginning of' if want.startswith(got) and got else 'nothing of' if not got else 'other bytes than'
            self.fail('wrong-bytes', f'`task info {p.argv[4]}` succeeds and prints {len(got)} bytes, {what} the {len(want)} the task wrote on the remote host ({why})', p)
        elif p.status != 0 and got:
            self.fail('partial-output', f'`task info {p.argv[4]}` fails (status {p.status}) after printing {len(got)} of {len(want)} bytes ({why})', p)
        elif p.status != 0 and must:
            self.fail('not-fetched', f'`task info {p.argv[4]}` fails with status {p.status} though the remote host is reachable and has the file ({why})', p)
        elif p.status == 0:
            self.c.count('outputs printed intact')
            return True
        else:
            self.c.count('errors reported')
        return p.status == 0

    def ask(self, stream, must=True, why='no fault'):
        return self.judge(self.start(stream), must, why)

    def fail(self, mechanism, text, p):
        self.c.violation(mechanism, text, {'scenario': self.sc, 'requests': self.log, 'stderr': p.err[-700:] if p.stream == 0 or p.status else '', 'ssh config': self.conf.read_text(),
                                           'hosts': [[h.name, h.user, h.logins[-4:], h.asked[-6:], h.fired] for h in self.hosts]})

    def play(self):
        sc, s, rng = self.sc, self.sc['stream'], self.rng
        kind, host, c = sc['kind'], self.host, self.c
        fired = lambda: sum(host.fired.values())
        if kind in ('plain', 'sshconf'):
            for st in [s, 1 - s, s]:
                self.ask(st)
        elif kind == 'fault':
            f = dict(sc['fault'])
            hit = s if sc['hit'] == 'same' else 1 - s
            f['at'] = int(len(self.data[hit]) * sc['portion'])
            host.faults[self.paths[hit]] = f
            why = f'{f["kind"]} at byte {f["at"]} of {"the same" if hit == s else "the other"} file'
            self.ask(s, must=False, why=why)
            if rng.random() < .4:
                self.ask(rng.randrange(2), must=False, why='again, ' + why)
            host.faults.clear()
            for st in [s, 1 - s] if rng.random() < .7 else [1 - s, s]:
                self.ask(st, why='after ' + why)
        elif kind == 'missing':
            gone = [p for p in self.paths if rng.random() < .6] or [self.paths[s]]
            kept = {p: host.files.pop(p) for p in gone}
            for st in [s, 1 - s]:
                p = self.start(st)
                ok = self.judge(p, False, f'{len(gone)} of the files missing')
                if ok and self.paths[st] in gone:
                    self.fail('wrong-bytes', 'the file is not on the remote host, and yet its output is printed', p)
            if rng.random() < .6:
                host.files.update(kept)
                for st in [s, 1 - s]:
                    self.ask(st, why='after the files appeared')
        elif kind == 'connect':
            key = host.key
            if sc['connect'] == 'key':
                host.key = Case.stranger
            elif sc['connect'] == 'port':
                host.close()
            else:
                host.connect_fault = sc['connect']
            self.ask(s, must=False, why=f'connection: {sc["connect"]}')
            if sc['connect'] != 'port':
                host.key, host.connect_fault = key, None
                for st in [s, 1 - s]:
                    self.ask(st, why=f'after connection: {sc["connect"]}')
            c.count('connections refused')
        elif kind in ('kill', 'overlap'):
            host.faults[self.paths[s]] = {'kind': 'stall', 'at': int(len(self.data[s]) * sc['portion'])}
            p = self.start(s)
            if host.reached.wait(30):
                c.count('transfers caught half-way')
                if kind == 'kill':
                    p.signal(sc['signal'])
                    p.wait(10)
                    if p.t_end is None and p.alive():
                        p.signal(9)
                    host.faults.clear()
                    host.release.set()
                    self.log.append([f'killed by signal {sc["signal"]} in the middle'])
                else:
                    host.faults.clear()
                    q = self.start(s if sc['second'] else 1 - s)
                    if q.wait(rng.choice([0.5, 3])) is None:
                        host.release.set()
                    self.judge(q, False, 'while another request is half-way')
                    host.release.set()
                    self.judge(p, False, 'while another request was made')
            else:
                p.kill()
                c.count('not caught')
            for st in [s, 1 - s]:
                self.ask(st, why=f'after {kind}')
        elif kind == 'rerun':
            if self.ask(s, why='first run'):
                u = self.site.cli('task', 'update', '--revert', '-w', f'id == {self.id}', '-f')
                if u.status != 0:
                    raise run.Broken('revert failed: ' + u.tail())
                new = host if sc['same_host'] or len(self.hosts) == 1 else self.hosts[1]
                time.sleep(1.1)
                self.data[s] = emit.content(str(sc['seed']), 'again', *sc['content'][2])
                self.data[1 - s] = b'again\n'
                for i in (0, 1):
                    new.files[self.paths[i]] = (self.data[i], time.time())
                self.row(new, 0.05)
                c.count('tasks run again')
                for st in [s, 1 - s]:
                    self.ask(st, why='the task was reverted and run again after its first output had been fetched')
        elif kind in ('left', 'shared'):
            # left: an earlier run of the task (whose client died) took place on this host; shared: one file system for all hosts
            lib = self.site.path / 'site' / 'lib' / 'task'
            os.makedirs(lib, exist_ok=True)
            ago = rng.choice([15, 100, 5000])
            for i, x in enumerate(('out', 'err')):
                if kind == 'shared' or i == s or rng.random() < .5:
                    f = lib / f'{self.id}.{x}'
                    f.write_bytes(self.data[i] if kind == 'shared' else emit.content('left', 'x', 'text', rng.choice([0, 4000])))
                    t = time.time() - (rng.choice([99.99, 90, 10, 0]) if kind == 'shared' else 100 + ago)
                    os.utime(f, (t, t))
            if kind == 'shared':
                host.close()
            for st in [s, 1 - s, s]:
                self.ask(st, why='an earlier run took place on this host' if kind == 'left' else 'the file is here')
        elif kind == 'local':
            # no output was captured, or the task ran here: nothing may come from elsewhere
            self.row(host, 50, outputs=False)
            p = self.start(s)
            if self.judge(p, False, 'no output captured'):
                self.fail('wrong-bytes', 'output printed for a task without captured output', p)
            if host.logins:
                c.count('needless connections')
        elif kind == 'short':
            host.faults[self.paths[s]] = {'kind': 'short', 'at': rng.choice([100, 5000, 32767])}
            if len(self.data[s]) > 100000:
                host.faults[self.paths[s]]['at'] = 32767
            self.ask(s, must=False, why='the host answers with short reads')
            host.faults.clear()
            self.ask(s, why='after short reads')
        for h in self.hosts:
            if h.written:
                self.fail('remote-write', f'files were opened for writing on the remote host: {h.written[:3]}', self.site.procs[-1])
        c.case((kind, sc['conf'], tuple(map(tuple, sc['content'])), str(sc.get('fault')), sc.get('portion'), sc['others'], sc.get('connect')),
               sample=f'{kind} {sc.get("fault", sc.get("connect", ""))} {sc["content"][s]}', nontrivial=bool(fired() or host.reached.is_set() or kind in ('rerun', 'sshconf', 'left', 'shared')))
        c.count(f'histories: {kind}')
        c.count('faults injected', fired())
        c.count('bytes served', sum(h.sent for h in self.hosts))

    def close(self):
        for h in self.hosts:
            h.close()


def live(c, n):
    """Real clients that run under another host name."""
    rng = random.Random(c.seed * 100 + n)
    with run.Run(f'c36l{n}') as r:
        base = r.site.path / 'far'
        names = [f'far{n}a', f'far{n}b']
        r.start_server('--forever', '-b', 1, '-w', 1)
        hs.wait_listening(r.server)
        conf, hosts, procs = [], [], []
        for name in names:
            os.makedirs(base / name / 'site')
            key = sftpd.new_key(base / name / 'key')
            h = sftpd.Host(name, key, user='u', fallback=str(base / name))
            hosts.append(h)
            conf += [f'Host {name}', '    User u', f'    IdentityFile {base / name / "key"}', f'    ProxyCommand {PY} -SE {PIPE} {h.port}']
            exe = r.site.remote_exe(sleep_cap=0.15)
            env = r.site.env(HYPERSHELL_SITE=str(base / name / 'site'), HYPERSHELL_DATABASE_FILE=None)
            procs.append(subprocess.Popen(['unshare', '-Ur', '--uts', 'sh', '-c', f'hostname {name} && exec "$@"', 'sh', exe, 'client', '-H', '127.0.0.1', '-p', str(r.server.port), '-k', r.server.auth,
                                           '-N', '2', '-b', '1', '-w', '1', '-d', '0', '--capture'], env=env, cwd=r.site.dir, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                          stderr=open(base / name / 'log', 'w'), start_new_session=True))
        try:
            (base / 'config').write_text('\n'.join(conf) + '\n')
            if not hs.wait_for(lambda: len(r.site.query('SELECT * FROM client')) == 2, 40):
                c.count('clients under another host name not possible')
                return
            env = {'HYPERSHELL_SSH_CONFIG': base / 'config'}

            def one(i):
                g = random.Random(c.seed * 1000 + n * 100 + i)
                ko, ke, so, se = g.choice(emit.KINDS), g.choice(emit.KINDS), g.choice([0, 5, 70000, 400000]), g.choice([0, 1, 60000])
                token = f'L{n}x{i}'
                p = r.site.cli('task', 'run', '-n', 1, '--', 'exec', PY, '-SE', EMIT, token, ko, so, ke, se, 1, 0, 0, env=env, timeout=90)
                want = [emit.content(token, 'out', ko, so), emit.content(token, 'err', ke, se)]
                out, err = open(p.outpath, 'rb').read(), open(p.errpath, 'rb').read()
                row = r.site.query('SELECT * FROM task WHERE args LIKE ?', f'% {token} %')
                host = row[0]['client_host'] if row else None
                replay = {'row': row, 'status': p.status, 'stderr': p.err[-500:], 'want': [len(x) for x in want], 'got': [len(out), len(err)]}
                c.case(('live', ko, so, ke, se, host), sample=f'task run on {host}', nontrivial=True)
                c.count('tasks run on another host')
                if host not in names:
                    c.violation('wrong-host', f'a task executed by a client on one of {names} is recorded with host {host!r}', replay)
                elif p.status != 0:
                    c.violation('not-fetched', f'`task run` executed on {host} ends with status {p.status}', replay)
                elif out != want[0] or not err.endswith(want[1]):
                    c.violation('wrong-bytes', f'`task run` executed on {host} prints {len(out)} and {len(err)} bytes, the task wrote {len(want[0])} and {len(want[1])}', replay)
                if row:
                    for st in (0, 1):
                        q = r.site.cli('task', 'info', row[0]['id'], ['--stdout', '--stderr'][st], env=dict(env, HYPERSHELL_LOGGING_LEVEL='CRITICAL'))
                        if q.status != 0 or open([q.outpath, q.errpath][st], 'rb').read() != want[st]:
                            c.violation('wrong-bytes', f'`task info {q.argv[4]}` of a task that ran on {host}: status {q.status}, {os.path.getsize([q.outpath, q.errpath][st])} of {len(want[st])} bytes', dict(replay, err2=q.err[-400:]))
                        c.count('outputs printed intact')
            for x in hs.parallel([lambda i=i: one(i) for i in range(c.pick(8, 40))], 4):
                if isinstance(x, Exception):
                    raise RuntimeError(x.tb)
        finally:
            for p in procs:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
            for h in hosts:
                h.close()


def body(c):
    scs = [gen(c.rng, n) for n in range(c.pick(110, 900))]
    with hs.Site('c36', audit=False) as site:
        os.makedirs(site.path / 'conf')
        Case.stranger = sftpd.new_key(site.path / 'stranger')

        def one(sc):
            case = Case(c, site, sc)
            try:
                case.play()
            finally:
                case.close()
        for x in hs.parallel([lambda sc=sc: one(sc) for sc in scs], 6):
            if isinstance(x, Exception):
                raise RuntimeError(x.tb)
    for n in range(c.pick(1, 4)):
        live(c, n)
    c.require('outputs printed intact', 150)
    c.require('faults injected', 20)
    c.require('transfers caught half-way', 8)
    c.require('tasks run again', 3)


if __name__ == '__main__':
    core.main(core.Check('C36', LEVEL, RULE, TECHNIQUE), body)
