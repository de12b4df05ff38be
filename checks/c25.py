"""C25: only holders of the key reach the queues; strangers learn nothing, place nothing and disturb nobody."""
import hashlib
import hmac
import json
import os
import pickle
import random
import socket
import struct
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import c33
from vlib import core, hs, run

TECHNIQUE = ('runtime monitor: hostile peers (wrong keys, requests without authentication, garbage, oversized and half-open connections, resets, storms, replayed sessions, real clients with a '
             'wrong key) work on the ports of live servers and clusters; every byte they receive is searched for task data, and the legitimate run is judged by the execution journal, records and registry')
LEVEL = 'exploration'
LEVEL_NOTE = 'Held on the keys, hostile peers and moments generated; at most some 250 connections are kept open at a time. No cryptanalysis.'
RULE = 'one case per hostile connection kind x key variant x run mode x moment, and one per cluster start; all non-trivial (each reached a listening server of a run in progress)'
BAD = '__HYPERSHELL__BAD__AUTHKEY__'
KEYS = ['hsvkey', '', 'x', 'k' * 200, 'two words', ' lead', 'caf\u00e9\u6f22', '0', '12345', "it's \"q\"", 'a\\b', 'true', '-', '%', '0123456789abcdef' * 4, '#CHALLENGE#']


def wrong(rng, key):
    """Keys that are not the key, most of them close to it."""
    # NOTE: not key + zero bytes, which is the same key to an HMAC
    out = [key + 'x', key + ' ', ' ' + key, key.upper(), key.swapcase(), key[:-1], key[1:], key[::-1], '', BAD, 'x', key * 2, key[:len(key) // 2] + 'Z' * (len(key) - len(key) // 2),
           key[:16] + 'Q' * 20, key.strip(), key.encode().hex(), hashlib.sha256(key.encode()).hexdigest(), 'random' + str(rng.random()), 'hypershell', 'None', key[:1], '"' + key + '"']
    return [k for k in dict.fromkeys(out) if k != key]


class Peer:
    """One hostile connection; keeps all it is sent."""

    def __init__(self, port, log):
        self.got = b''
        self.welcomed = False
        log.append(self)
        self.s = socket.create_connection(('127.0.0.1', port), 5)
        self.s.settimeout(3)

    def recv(self, n):
        data = b''
        while len(data) < n:
            x = self.s.recv(n - len(data))
            if not x:
                raise EOFError
            self.got += x
            data += x
        return data

    def frame(self):
        n, = struct.unpack('!i', self.recv(4))
        if not 0 <= n < 1 << 24:
            raise EOFError
        return self.recv(n)

    def send(self, data):
        self.s.sendall(struct.pack('!i', len(data)) + data)

    def drain(self, wait=1.0):
        self.s.settimeout(wait)
        try:
            while x := self.s.recv(65536):
                self.got += x
        except OSError:
            pass

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass


def mac(key, message, style):
    if style == 'md5':
        return hmac.new(key, message, 'md5').digest()
    return b'{sha256}' + hmac.new(key, message, 'sha256').digest()


REQUESTS = [(None, 'create', ('_get_scheduled',), {}), (None, 'create', ('_get_completed',), {}), (None, 'create', ('_get_heartbeat',), {}), (None, 'shutdown', (), {}), (None, 'dummy', (), {}),
            (None, 'debug_info', (), {}), (None, 'number_of_objects', (), {}), ('0', 'get', (), {}), ('0', 'put', ([b'{}'],), {}), (None, 'accept_connection', ('x',), {})]


def attack(kind, port, rng, log, key=None, tape=None, held=None):
    """One hostile visit."""
    try:
        p = Peer(port, log)
    except OSError:
        return False
    try:
        if kind in ('key', 'md5'):
            ch = p.frame()
            p.send(mac(key.encode(), ch[len(b'#CHALLENGE#'):], 'md5' if kind == 'md5' else 'sha256'))
            ans = p.frame()
            p.welcomed = ans == b'#WELCOME#'
            p.send(b'#CHALLENGE#{sha256}' + bytes(20))
            for req in rng.sample(REQUESTS, 3):
                p.send(pickle.dumps(req))
            p.drain()
        elif kind == 'no-auth':
            for req in rng.sample(REQUESTS, 4):
                p.send(pickle.dumps(req))
            p.drain()
        elif kind == 'welcome':      # pretend to be done
            p.send(b'#WELCOME#')
            p.frame()
            p.send(b'#CHALLENGE#{sha256}' + bytes(20))
            p.send(b'#WELCOME#')
            p.send(pickle.dumps(rng.choice(REQUESTS)))
            p.drain()
        elif kind == 'echo':         # send the server its own challenge and answers back
            ch = p.frame()
            p.send(ch)
            p.send(ch[len(b'#CHALLENGE#'):])
            p.drain()
        elif kind == 'garbage':
            p.s.sendall(rng.choice([rng.randbytes(rng.choice([1, 3, 5, 300, 100000])), b'GET / HTTP/1.1\r\nHost: x\r\n\r\n', b'\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03' + bytes(200), b'\0' * 5000, b'\n' * 10,
                                    struct.pack('!i', 40) + b'x' * 40, struct.pack('!i', -1) + struct.pack('!Q', 10) + b'x' * 10, struct.pack('!i', 0)]))
            p.drain(0.5)
        elif kind == 'bomb':
            p.s.sendall(rng.choice([struct.pack('!i', 0x7fffffff), struct.pack('!i', -1) + struct.pack('!Q', 1 << 62), struct.pack('!i', 257), struct.pack('!i', -5)]) + b'x' * rng.choice([0, 100, 70000]))
            held.append(p)
            return True
        elif kind == 'silent':
            held.append(p)
            return True
        elif kind == 'half':
            if rng.random() < .5:
                p.frame()
            p.s.sendall(rng.choice([b'\0', b'\0\0\0', struct.pack('!i', 40), struct.pack('!i', 40) + b'{sha256}']))
            held.append(p)
            return True
        elif kind == 'reset':
            p.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            if rng.random() < .5:
                p.s.sendall(b'\0\0')
        elif kind == 'storm':
            for _ in range(rng.choice([20, 40])):      # stay below the length of the queue for new connections (128), beyond which the system itself loses some
                q = Peer(port, log)
                held.append(q) if rng.random() < .5 else q.close()
        elif kind == 'replay':
            for piece in tape:
                p.s.sendall(piece)
            p.drain()
    except (OSError, EOFError, struct.error):
        pass
    p.close()
    return True


class Tap:
    """Relay between one legitimate client and the server that keeps what the client says."""

    def __init__(self, port):
        self.target, self.tapes = port, []
        self.sock = socket.create_server(('127.0.0.1', 0), backlog=100)
        self.port = self.sock.getsockname()[1]
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                a, _ = self.sock.accept()
            except OSError:
                return
            tape = []
            self.tapes.append(tape)
            try:
                b = socket.create_connection(('127.0.0.1', self.target))
            except OSError:
                a.close()
                continue
            threading.Thread(target=self.pump, args=(a, b, tape), daemon=True).start()
            threading.Thread(target=self.pump, args=(b, a, None), daemon=True).start()

    def pump(self, a, b, tape):
        try:
            while x := a.recv(65536):
                if tape is not None and sum(map(len, tape)) < 200000:
                    tape.append(x)
                b.sendall(x)
        except OSError:
            pass
        for s in (a, b):
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass

    def close(self):
        self.sock.close()


KINDS = ['key', 'key', 'key', 'md5', 'no-auth', 'no-auth', 'welcome', 'echo', 'garbage', 'garbage', 'bomb', 'silent', 'half', 'reset', 'storm', 'replay', 'client', 'client']


def gen(rng, n):
    return {'n': n, 'seed': rng.getrandbits(40), 'key': KEYS[n % len(KEYS)] if rng.random() < .8 else str(rng.getrandbits(80)), 'source': rng.choice(['option', 'env', 'file']), 'db': rng.random() < .65,
            'mode': rng.choice(['stdin', 'stdin', 'restart', 'forever']), 'clients': rng.choice([1, 2]), 'tasks': rng.choice([8, 16, 24]), 'early': rng.random() < .5, 'b': rng.choice([1, 3]),
            'kinds': rng.sample(KINDS, len(KINDS)), 'tap': rng.random() < .5, 'late': rng.random() < .5}


def serve(c, sc):
    rng = random.Random(sc['seed'])
    db = sc['db'] or sc['mode'] != 'stdin'
    key = sc['key']
    conf, env, opt = None, {}, ['-k', key]
    if sc['source'] == 'file':
        conf, opt = f'[server]\nauth = {json.dumps(key)}\n', []
    elif sc['source'] == 'env' and key and key == key.strip() and key.lower() not in ('true', 'none', 'null') and not key.isdigit():
        env, opt = {'HYPERSHELL_SERVER_AUTH': key}, []
    with run.Run('c25', db=db, config=conf, env=env) as r:
        site = r.site
        tasks = [run.Task(f'tok{sc["seed"]:x}n{i}', rng.choice([.2, .4]), rng.choice(['0', '0', '3']), text='secret') for i in range(sc['tasks'])]
        secrets = [f'tok{sc["seed"]:x}'.encode()]
        r.tasks = tasks
        text = ''.join(t.args + '\n' for t in tasks)
        args, stdin = ['-b', sc['b'], '-w', 1, '-r', 0], None
        if sc['mode'] != 'stdin':
            p = site.cli('submit', '-', stdin=text)
            if p.status != 0:
                raise run.Broken('submit-failed', p.tail())
            args += ['--' + sc['mode']]
        else:
            stdin = text
            args += ['-'] if rng.random() < .5 else []
        if not db:
            args.append('--no-db')
        port = hs.free_port()
        r.server = site.spawn('server', *args, '-p', port, *opt, stdin=stdin, perturb={'sleep_cap': .15}, name='server')
        r.server.port, r.server.auth = port, key
        if not hs.wait_listening(r.server):
            raise run.Broken('server-start', 'the server does not listen: ' + r.server.tail())
        log, held, impostors, visits = [], [], [], []
        tap = Tap(port) if sc['tap'] else None
        over = threading.Event()

        def impostor(k):
            """A real client with a wrong key."""
            e = {'HYPERSHELL_SERVER_AUTH': None, 'HYPERSHELL_CONFIG_FILE': ''}
            a = ['-k', k] if k != BAD else []
            q = site.spawn('client', '-H', '127.0.0.1', '-p', port, *a, '-N', 1, '-t', 'job STRANGER; {}', '-w', 1, env=e, name='impostor')
            q.key = k
            impostors.append(q)

        def visit(kind):
            k = rng.choice(wrong(rng, key))
            if kind == 'client':
                if len(impostors) < 3:
                    impostor(k)
                    visits.append((kind, k))
                return
            tape = None
            if kind == 'replay':
                tapes = [t for t in list(tap.tapes) if t] if tap else []
                if not tapes:
                    return
                tape = rng.choice(tapes)
            if attack(kind, port, rng, log, key=k, tape=tape, held=held):
                visits.append((kind, k if kind in ('key', 'md5') else ''))

        def siege():
            i = 0
            while not over.is_set() and i < 60:
                visit(sc['kinds'][i % len(sc['kinds'])])
                i += 1
                over.wait(rng.choice([0, .05, .2]))
        early = 0
        if sc['early']:
            for kind in sc['kinds'][:8]:
                visit(kind)
            early = len(visits)
        besieger = threading.Thread(target=siege, daemon=True)
        besieger.start()
        try:
            for i in range(sc['clients']):
                q = site.spawn('client', '-H', '127.0.0.1', '-p', tap.port if tap and i == 0 else port, *opt, '-N', 2, '-b', sc['b'], '-w', 1, '-d', 0, perturb={'sleep_cap': .15}, name='client')
                r.clients.append(q)
            if sc['mode'] == 'forever':
                hs.wait_for(lambda: len([x for x in site.query('SELECT * FROM task') if x['exit_status'] is not None]) == len(tasks) or not r.server.alive(), 60, .3)
                if sc['late']:
                    time.sleep(.5)
                alive = r.server.alive() and all(q.alive() for q in r.clients)
                if not alive:
                    c.violation('stopped', f'server or client ended during the visits of strangers: {[q.status for q in [r.server, *r.clients]]}', {'scenario': sc, 'visits': visits[-30:], 'tails': r.tails()})
                for q in [*r.clients, r.server]:
                    q.signal(2)
            r.settle(procs=[r.server, *r.clients], stall=25, limit=100)
        finally:
            over.set()
        t_over = time.time()
        besieger.join(30)
        for q in impostors:
            if q.wait(60) is None:
                c.violation('impostor-stays', f'a client with a wrong key has not ended 60 s after the server did ({q.key!r} for {key!r})', {'scenario': sc, 'tail': q.tail()})
                q.kill()
            elif q.status == 0:
                c.violation('impostor-success', f'a client with the wrong key {q.key!r} (server: {key!r}) exits with status 0', {'scenario': sc, 'tail': q.tail()})
            c.count('clients with a wrong key')
            for what in (q.out, q.err):
                if any(s.decode() in what for s in secrets):
                    c.violation('leak', f'a client with a wrong key {q.key!r} shows task data', {'scenario': sc, 'tail': q.tail()})
        for p in held:
            p.drain(0.02)
            p.close()
        if tap:
            tap.close()
        r.observe()
        for p in log:
            if p.welcomed:
                c.violation('admitted', f'a peer with a wrong key was welcomed (the key is {key!r})', {'scenario': sc, 'got': repr(p.got[:600]), 'visits': visits[-30:]})
                break
        for p in log:
            if any(s in p.got for s in secrets) or b'\x8c\x07#RETURN' in p.got:       # a result of the queue manager (a failure may be explained to the peer)
                c.violation('leak', f'a peer without the key received {p.got[:200]!r}', {'scenario': sc, 'visits': visits[-30:]})
                break
        mode = (sc['mode'], db)
        for i, (kind, k) in enumerate(visits):
            c.case((kind, k, key, mode, i < early), sample=f'{kind} on {sc["mode"]} server, key {key[:20]!r} tried {k[:20]!r}')
            c.count('hostile visits')
            c.count('visits: ' + kind)
        c.count('bytes received by strangers', sum(len(p.got) for p in log))
        c.count('runs under siege')
        c.count('connections kept open', len(held))
        out = []
        out += run.exactly_once(r)
        if 'STRANGER' in r.execs:
            out.append(('stranger-executed', 'a client with a wrong key executed a task'))
        if db:
            out += [(m, d) for m, d in run.records(r)] if sc['mode'] != 'forever' else []
            out += run.clients_consistent(r)
            if len(r.client_rows) != len(r.clients):
                out.append(('registry', f'{len(r.client_rows)} clients registered, {len(r.clients)} have the key'))
        if r.outcome != 'ended' and r.outcome != 'exited' and any(q.alive() for q in [r.server, *r.clients]):
            out += run.hung(r)
        if sc['mode'] != 'forever':
            for q in [r.server, *r.clients]:
                if q.status not in (0, None):
                    out.append(('exit-status', f'{q.name} ends with status {q.status} in a run that strangers visited'))
        r.server.kill()
        return run.report(c, {**sc, 'visits': visits[-40:]}, out)


def cluster(c, rng, n, kind, keys):
    """Two runs of the same cluster have different keys, and none that is known beforehand answers."""
    conf = '[server]\nauth = "configured-key"\n'
    with run.Run('c25k', config=conf if n % 2 else None, db=True) as r:
        site = r.site
        for name in ('remote site', 'launched', 'notes'):
            (site.path / name).mkdir()
        for name, text in (('ssh', c33.SSH), ('mpirun', c33.LAUNCH), ('start', c33.LAUNCH)):
            p = site.path / 'bin' / name
            p.write_text(text)
            p.chmod(0o755)
        rec = site.path / 'rec'
        rec.touch()
        exe = site.remote_exe(record=rec, sleep_cap=.3)
        token = f'tok{rng.getrandbits(40):x}'
        r.tasks = [run.Task(f'{token}n{i}', .6, '0') for i in range(6)]
        port = hs.free_port()
        args = {'local': [], 'launch': ['--launcher', 'start', '--remote-exe', exe], 'ssh': ['--ssh', 'h[1-2]', '--remote-exe', exe], 'mpi': ['--mpi', '--remote-exe', exe],
                'auto': ['-A', 'fixed', '-I', 1, '-X', 1, '-Y', 2, '-P', 1, '--launcher', 'start', '--remote-exe', exe]}[kind]
        env = {'HSV_REMOTE_SITE': str(site.path / 'remote site'), 'HSV_NOTES': str(site.path / 'notes'), 'HSV_LAUNCHED': str(site.path / 'launched'), 'HSV_SKIP': ''}
        (site.path / 'in').write_text(''.join(t.args + '\n' for t in r.tasks))
        r.server = site.spawn('cluster', site.path / 'in', *args, '-N', 1, '-p', port, '-b', 1, '-w', 1, '-d', 0, perturb={'sleep_cap': .5}, env=env, name='cluster')
        r.server.port = port
        if not hs.wait_listening(r.server):
            raise run.Broken('server-start', 'the cluster does not listen: ' + r.server.tail())
        log, held, tried = [], [], [BAD, '', 'configured-key', 'hsvkey', 'hypershell', site.tasks()[0]['submit_id'] if site.tasks() else 'x', os.uname().nodename, *list(keys)]
        while r.server.alive() and tried:
            attack('key', port, rng, log, key=tried.pop(0), held=held)
        r.tried = len(log)
        if kind == 'auto':
            hs.wait_for(lambda: all(x['exit_status'] is not None for x in site.tasks()) and len(site.tasks()) == 6, 60, .3)
        else:
            r.settle(procs=[r.server], stall=25, limit=100)
        r.observe()
        replay = {'kind': kind, 'argv': args, 'tail': r.server.tail()}
        for p in log:
            if p.welcomed:
                c.violation('cluster-key', f'the key of a launched cluster ({kind}) is one that was known before it started', replay)
            if token.encode() in p.got:
                c.violation('leak', f'a peer without the key of the cluster received {p.got[:200]!r}', replay)
        seen = set()
        for line in open(rec):
            argv = json.loads(line)['argv']
            for a, b in zip(argv, argv[1:]):
                if a in ('-k', '--auth'):
                    seen.add(b)
        c.count('clusters started: ' + kind)
        c.case(('cluster', kind, n), sample=f'{kind} cluster')
        if kind != 'local':
            c.count('keys of clusters seen', len(seen))
        for k in seen:
            if k in keys:
                c.violation('key-reused', f'two runs have the same key {k[:20]!r}...', replay)
            if len(k) < 16 or len(set(k)) < 6:
                c.violation('key-weak', f'the key of a launched cluster is {k!r}', replay)
        if len(seen) > 1:
            c.violation('key-differs', f'clients of one cluster were given {len(seen)} keys', replay)
        keys |= seen
        out = list(run.exactly_once(r))
        r.server.kill()
        run.report(c, replay, out)


def body(c):
    scs = [gen(c.rng, n) for n in range(c.pick(30, 300))]
    run.campaign(c, scs, lambda sc: serve(c, sc), workers=6, budget=c.pick(150, 2500))
    keys = set()
    for rnd in range(c.pick(2, 6)):
        jobs = [(random.Random(c.rng.getrandbits(60)), rnd * 5 + i, k) for i, k in enumerate(['local', 'launch', 'ssh', 'mpi', 'auto'])]

        def one(job):
            try:
                cluster(c, *job, keys)
            except run.Broken as e:
                c.violation(e.args[0], str(e.args[1])[:400], {'cluster': job[2]})
        for x in hs.parallel([lambda j=j: one(j) for j in jobs], 5):
            if isinstance(x, Exception):
                raise RuntimeError(x.tb)
    c.require('hostile visits', 300)
    c.require('clients with a wrong key', 15)
    c.require('visits: replay', 5)
    c.require('keys of clusters seen', 6)


if __name__ == '__main__':
    core.main(core.Check('C25', LEVEL, RULE, TECHNIQUE), body)
