"""C13: task output goes where it was asked to go, complete and unmixed."""
import collections
import os
import random
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run
from workers import emit

TECHNIQUE = 'runtime monitor: every task writes bytes determined by its token to both streams; captured files, shared output files and what `task info` prints are compared byte for byte / as a multiset of lines, with delayed process starts and executors ending at different times'
LEVEL = 'exploration'
LEVEL_NOTE = 'Held on the outputs and schedules explored; contents are generated per class (binary, CR/LF, non-UTF-8, empty, megabytes).'
RULE = 'one case per (stream content, mode) compared; non-trivial when the stream is not empty'


class Emit(run.Task):
    def __init__(self, token, ko, so, ke, se, chunks, pause, status):
        super().__init__(token, args=f'exec emit {token} {ko} {so} {ke} {se} {chunks} {pause} {status}')
        self.spec = str(status)
        self.want = [emit.content(token, 'out', ko, so), emit.content(token, 'err', ke, se)]


def body(c):
    n = c.pick(18, 240)
    scs = []
    for i in range(n):
        scs.append({'mode': c.rng.choice(['capture', 'capture', 'file', 'stdout', 'half']), 'db': c.rng.random() < 0.75, 'n': c.rng.choice([3, 6, 10, 20]), 'N': c.rng.choice([1, 2, 4, 8]), 'clients': c.rng.choice([1, 1, 2]),
                    'b': c.rng.choice([1, 2, 5]), 'cb': c.rng.choice([1, 2, 5]), 'popen_delay': c.rng.choice([None, 0.3, 1.0]), 'retries': c.rng.choice([0, 0, 1]), 'switch': c.rng.choice([None, 1e-5]), 'rerun': c.rng.random() < .3, 'seed': c.rng.randrange(1 << 30)})
    for i, sc in enumerate(scs[:6]):
        # executors end one after the other while the last tasks are still being started
        sc.update(rerun=i == 4, retries=sc['retries'] if i != 4 else 0)
        sc.update(mode=['file', 'capture', 'half'][i % 3], N=8, n=20 if i < 3 else 11, popen_delay=1.5, b=5, cb=5, clients=1, db=i != 1)

    def one(sc):
        rng = random.Random(sc['seed'])
        with run.Run('c13', db=sc['db']) as r:
            shutil.copy(hs.VERIF / 'workers' / 'emit.py', r.site.path / 'bin' / 'emit')
            os.chmod(r.site.path / 'bin' / 'emit', 0o755)
            tasks = []
            for k in range(sc['n']):
                if sc['mode'] == 'capture':
                    kinds = [rng.choice(emit.KINDS) for _ in range(2)]
                    sizes = [rng.choice([1, 100, 5000, 200000, 1500000 if rng.random() < 0.2 else 10]) for _ in range(2)]
                else:
                    kinds = ['lines', 'lines']
                    sizes = [rng.choice([0, 1, 5, 60, 400]) for _ in range(2)]
                status = rng.choice(['0', '0', '1', '3', 'sig9', 'sig15']) if sc['mode'] == 'capture' else '0'
                tasks.append(Emit(f't{k}', kinds[0], sizes[0], kinds[1], sizes[1], rng.choice([1, 3, 8]), rng.choice([0, 0, 0.01]) if kinds[0] != 'lines' or max(sizes) < 100 else 0, status))
            sargs = ['-b', sc['b'], '-w', 1] + (['-r', sc['retries']] if sc['db'] else ['--no-db'])
            r.start_server(*sargs, tasks=tasks)
            outs = []
            for i in range(sc['clients']):
                o, e = str(r.site.path / f'o{i}'), str(r.site.path / f'e{i}')
                extra = {'capture': ['--capture'], 'file': ['-o', o, '-e', e], 'stdout': [], 'half': ['-o', o]}[sc['mode']]
                p = {'seed': sc['seed'] + i}
                for k in ('popen_delay', 'switch'):
                    if sc[k]:
                        p[k] = sc[k]
                cl = r.start_client('-N', sc['N'], '-b', sc['cb'], '-w', 1, *extra, wait=i == 0, perturb=p)
                outs.append({'capture': None, 'file': (o, e), 'stdout': (cl.outpath, cl.errpath), 'half': (o, cl.errpath)}[sc['mode']])
            r.settle(stall=40)
            if r.outcome == 'timeout':
                c.inconclusive(f'no end within the limit: {sc}')
                return 0
            if sc['rerun'] and not sc['retries'] and sc['mode'] == 'capture' and sc['db'] and r.outcome == 'done':
                # everything is made new again and runs a second time with the same identity
                p = r.site.cli('task', 'update', '--completed', '--revert', '-f')
                if p.status != 0:
                    raise run.Broken('revert-failed', p.tail())
                c.count('reruns')
                r.start_server('--restart', '-b', sc['b'], '-w', 1)
                r.start_client('-N', sc['N'], '-b', sc['cb'], '-w', 1, '--capture')
                r.settle(stall=40)
            r.observe()
            bad = run.report(c, sc, run.hung(r))
            if bad:
                return bad
            c.count(sc['mode'])

            def streams():
                got = [collections.Counter(), collections.Counter()]
                for paths in outs:
                    for i in (0, 1):
                        try:
                            data = open(paths[i], 'rb').read()
                        except FileNotFoundError:
                            continue
                        for line in data.split(b'\n'):
                            if line.startswith(b'<t') or b'>' in line[-1:] and b'.out.' in line or b'.err.' in line and line.endswith(b'>'):
                                got[i][line] += 1
                for i in (0, 1):
                    want = collections.Counter()
                    for t in tasks:
                        want.update(t.want[i].split(b'\n')[:-1])
                        c.case((t.args, i, sc['mode']), nontrivial=bool(t.want[i]))
                    c.count('lines', sum(want.values()))
                    for line in list((want - got[i]))[:4]:
                        yield ('output-lost', f'{"stdout" if i == 0 else "stderr"} lacks {line[:100]!r} ({sum((want - got[i]).values())} lines of {sum(want.values())})')
                    for line in list((got[i] - want))[:4]:
                        yield ('output-mixed', f'{"stdout" if i == 0 else "stderr"} has unexpected {line[:100]!r}')

            def captured_db():
                paths = collections.Counter()
                info = 0
                for t in tasks:
                    for row in run.chain_of(r, t):
                        for i, (f, opt) in enumerate((('outpath', '--stdout'), ('errpath', '--stderr'))):
                            c.case((t.args, i, row['attempt']), sample={'task': t.args, 'stream': f, 'bytes': len(t.want[i])}, nontrivial=bool(t.want[i]))
                            paths[row[f]] += 1
                            if not row[f] or not os.path.exists(row[f]):
                                yield ('no-file', f'{f} of {t.args!r} is {row[f]!r}, which does not exist')
                                continue
                            data = open(row[f], 'rb').read()
                            c.count('captured_bytes', len(data))
                            if data != t.want[i]:
                                yield ('captured-bytes', f'{f} of {t.args!r}: {len(data)} bytes, expected {len(t.want[i])}; starts {data[:80]!r}')
                            if info < c.pick(5, 12) and (rng.random() < 0.4 or kinds_of(t)[i] in ('crlf', 'latin', 'bin', 'nul', 'mixed')):
                                info += 1
                                c.count('task_info')
                                p = r.site.cli('task', 'info', row['id'], opt)
                                got = open(p.outpath if i == 0 else p.errpath, 'rb').read()
                                if p.status != 0:
                                    yield ('info-failed', f'task info {opt} of {t.args!r}: {p.tail(500)}')
                                elif got != t.want[i] and not (i == 1 and logs_only(got, t.want[i])):
                                    yield ('info-bytes', f'task info {opt} of {t.args!r} printed {len(got)} bytes, the task wrote {len(t.want[i])}: first difference at {diff(got, t.want[i])}')
                for p, k in paths.items():
                    if k > 1:
                        yield ('shared-file', f'{p} is the output path of {k} records/streams')

            def captured_mem():
                root = r.site.path
                got = collections.Counter()
                for p in root.rglob('*'):
                    if p.suffix in ('.out', '.err') and p.is_file() and '.io' not in p.parts:
                        got[(p.suffix, p.read_bytes())] += 1
                want = collections.Counter()
                for t in tasks:
                    want[('.out', t.want[0])] += 1
                    want[('.err', t.want[1])] += 1
                    c.case((t.args, 'mem'))
                for k in want - got:
                    yield ('captured-bytes', f'no file {k[0]} with the {len(k[1])} bytes a task wrote: {k[1][:60]!r}')
                for k in got - want:
                    yield ('captured-bytes', f'a file {k[0]} holds {len(k[1])} bytes no single task wrote: {k[1][:60]!r}')
            stream = streams() if sc['mode'] != 'capture' else captured_db() if sc['db'] else captured_mem()
            recs = []
            if sc['db']:
                recs = [('wrong-status', f'{t.args!r} recorded {[x["exit_status"] for x in run.chain_of(r, t)]}, expected {t.attempts(sc["retries"] + 1)}') for t in tasks
                        if [x['exit_status'] for x in run.chain_of(r, t)] != t.attempts(sc['retries'] + 1)]
            return run.report(c, sc, stream, recs, run.exits(r))

    def kinds_of(t):
        p = t.args.split()
        return p[3], p[5]

    def diff(a, b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return f'{i}: {a[i:i + 20]!r} vs {b[i:i + 20]!r}'
        return f'{min(len(a), len(b))} (one is a prefix)'

    def logs_only(got, want):
        """Log lines of the command itself share its stderr."""
        return want in got and all(x.startswith((b'TRACE', b'DEBUG', b'INFO', b'WARNING', b'ERROR', b'CRITICAL')) for x in got.replace(want, b'', 1).split(b'\n') if x)
    run.campaign(c, scs, one, workers=6, budget=c.pick(200, 3000))
    for k in ('capture', 'file', 'task_info', 'lines'):
        c.require(k, 2)


if __name__ == '__main__':
    core.main(core.Check('C13', LEVEL, RULE), body)
