"""C01: submission stores every input line exactly once, in order, unaltered."""
import json
import os
import random
import re
import sqlite3
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, run

TECHNIQUE = 'runtime monitor: committed database history of concurrent, slow and hostile submissions compared with the exact input'
LEVEL = 'exploration'
LEVEL_NOTE = 'Held on the inputs and schedules explored; SQLite only. Lines are what Python text mode calls lines; lines that are not valid text are only required not to be lost silently.'
RULE = 'one case per submission (its lines, parameters, way of submitting and company); non-trivial when it has more than one line'

WORKER = hs.VERIF / 'workers' / 'submit_api.py'
ODD = ['', ' ', '\t', '{}', '{.}', '{nope}', '{{}}', '%s', '$HOME', '`x`', '"', "'", '\\', '\\n', '# c', ' lead', 'trail ', 'a\tb', 'é', '日本語', '\u2028', '\x0b', '\x1f', '\x85',
       '2021-01-01', '2021-01-01 00:00:00', '20210101', '2021-01-01T00:00:00+02:00', 'null', 'None', 'true', '12345', '1e5', '[1, 2]', '{"a": 1}', '-', '--', '-h', ';', '&&', '|', '\u200b', '😀', "';DROP TABLE task;--", '\x00x']
TEMPLATES = [('{}', lambda s: s), ('run {}', lambda s: 'run ' + s), ('{} > {}.out', lambda s: f'{s} > {s}.out'), ('  {}  ', lambda s: s), ('x y', lambda s: 'x y')]
TAGS = [{}, {}, {'a': '1x'}, {'site': 'zzz', 'group': 37}, {'flag': ''}, {'f': 1.5, 'b': True, 'n': None, 's': 'A-b_c.d+e'}]


def gen_lines(rng, n, prefix):
    out = []
    for i in range(n):
        x = rng.random()
        if x < 0.15:
            s = rng.choice(ODD)
            if s == '\x00x':
                s = 'x'
        elif x < 0.3:
            s = ''.join(rng.choice(ODD[1:-1]) for _ in range(rng.randint(1, 5)))
        elif x < 0.33:
            s = prefix + 'L' * rng.choice([1000, 70000])
        else:
            s = f'{prefix}{i} ' + ' '.join(str(rng.randrange(1000)) for _ in range(rng.randint(0, 4)))
        out.append(s)
    return out


def norm(lines, expand):
    return [expand(s.strip()).strip() for s in lines]


def lock(site, seconds):
    site.cli('initdb')
    con = sqlite3.connect(site.db, timeout=60, isolation_level=None, check_same_thread=False)
    con.execute('BEGIN IMMEDIATE')

    def free():
        time.sleep(seconds)
        con.execute('COMMIT')
        con.close()
    th = threading.Thread(target=free)
    th.start()
    return th


def body(c):
    n = c.pick(70, 900)
    scs = []
    for i in range(n):
        subs = []
        for k in range(c.rng.choice([1, 1, 1, 2, 3])):
            subs.append({'how': c.rng.choice(['cli-stdin', 'cli-stdin', 'cli-file', 'cli-slow', 'list', 'tuple', 'generator', 'objects', 'file', 'thread', 'single']),
                         'n': c.rng.choice([0, 1, 2, 3, 5, 10, 10, 40, 200]), 'b': c.rng.choice([1, 2, 3, 5, 10, 64, 1000]), 'w': c.rng.choice([1, 1, 2, 5]),
                         't': c.rng.randrange(len(TEMPLATES)) if c.rng.random() < 0.5 else 0, 'tag': c.rng.randrange(len(TAGS)),
                         'nl': c.rng.random() < 0.8, 'crlf': c.rng.random() < 0.1, 'switch': c.rng.choice([None, None, 1e-5])})
        scs.append({'seed': c.rng.randrange(1 << 30), 'subs': subs, 'sql_delay': c.rng.choice([None, None, [0.3, 0.05]]),
                    # another program holds the write lock for a while (less than the time SQLite waits for it)
                    'lock': round(c.rng.uniform(1.5, 3.5), 1) if len(subs) == 1 and c.rng.random() < 0.3 else None})
    for i, hows in enumerate([['cli-stdin'] * 3, ['generator', 'cli-slow'], ['list', 'cli-file', 'thread', 'single'], ['single'], ['file']]):
        scs[i]['subs'] = [{'how': h, 'n': 60, 'b': 7, 'w': 1, 't': k % 2, 'tag': k, 'nl': True, 'crlf': False, 'switch': None} for k, h in enumerate(hows)]

    for i, how in ((5, 'cli-stdin'), (6, 'list')):
        scs[i].update(lock=3.2, subs=[{'how': how, 'n': 60, 'b': 3, 'w': 5, 't': 0, 'tag': 0, 'nl': True, 'crlf': False, 'switch': None}])

    def one(sc):
        rng = random.Random(sc['seed'])
        site = hs.Site('c01')
        locker = None
        try:
            if sc['lock']:
                locker = lock(site, sc['lock'])
                c.count('locked')
            jobs = []
            for k, sub in enumerate(sc['subs']):
                prefix = f's{k}-'
                tags = TAGS[sub['tag']]
                lines = gen_lines(rng, sub['n'], prefix)
                tpl, expand = TEMPLATES[sub['t']]
                pert = {'seed': sc['seed'] + k}
                if sc['sql_delay']:
                    pert['sql_delay'] = sc['sql_delay']
                if sub['switch']:
                    pert['switch'] = sub['switch']
                how = sub['how']
                eol = '\r\n' if sub['crlf'] else '\n'
                text = eol.join(lines) + (eol if sub['nl'] and lines else '')
                if how.startswith('cli') or how == 'file':
                    # what a text file is to Python: any line ending ends a line, a missing last one does not matter
                    import io
                    lines = list(io.TextIOWrapper(io.BytesIO(text.encode()), encoding='utf-8'))
                    lines = [x.rstrip('\n') if x.endswith('\n') else x for x in lines]
                if how in ('single',):
                    lines = [x for x in lines if x.strip() and not x.startswith('-')][:6]
                    tpl, expand = TEMPLATES[0]
                want = norm(lines, expand)
                jobs.append((sub, how, tags, lines, text, tpl, want, pert))

            results = [None] * len(jobs)

            def go(k):
                sub, how, tags, lines, text, tpl, want, pert = jobs[k]
                taglist = [f'{a}:{json.dumps(b) if not isinstance(b, str) else b}' if b != '' else a for a, b in tags.items()]
                opts = ['-b', sub['b'], '-w', sub['w']] + (['-t', tpl] if tpl != '{}' else []) + (['--tag', *taglist] if taglist else [])
                if how == 'cli-stdin':
                    p = site.cli('submit', *opts, stdin=text, perturb=pert)
                elif how == 'cli-file':
                    f = site.path / f'in{k}'
                    f.write_bytes(text.encode())
                    p = site.cli('submit', str(f), *opts, perturb=pert)
                elif how == 'cli-slow':
                    fifo = site.path / f'fifo{k}'
                    os.mkfifo(fifo)
                    data = text.encode()
                    cuts = sorted(random.Random(k).sample(range(1, len(data)), min(3, len(data) - 1))) if len(data) > 1 else []

                    def feed():
                        with open(fifo, 'wb') as f:
                            for a, b in zip([0, *cuts], [*cuts, len(data)]):
                                f.write(data[a:b])
                                f.flush()
                                time.sleep(0.3)
                    th = threading.Thread(target=feed, daemon=True)
                    th.start()
                    p = site.cli('submit', *opts, stdin=fifo, perturb=pert)
                elif how == 'single':
                    ids, ok = [], True
                    for x in lines:
                        p = site.cli('task', 'submit', *([] if not taglist else []), '--', x, *([] if not taglist else []), perturb=pert) if not taglist else \
                            site.cli('task', 'submit', '-t', *taglist, '--', x, perturb=pert)
                        ok = ok and p.status == 0
                        ids.append(p.out.strip())
                    results[k] = {'ok': ok, 'count': len(ids), 'ids': ids, 'p': p if lines else None}
                    return
                else:
                    spec = {'lines': lines, 'how': how, 'bundlesize': sub['b'], 'bundlewait': sub['w'], 'template': tpl, 'tags': tags or None,
                            'bursts': [(0.3, 2), (1.2, 3), (0.5, 1)], 'path': str(site.path / f'in{k}')}
                    (site.path / f'in{k}').write_bytes(text.encode())
                    (site.path / f'spec{k}').write_text(json.dumps(spec))
                    p = site.spawn(str(site.path / f'spec{k}'), script=str(WORKER), perturb=pert)
                    p.wait(120)
                    m = re.search(r'RESULT (.*)', p.out)
                    results[k] = {**(json.loads(m.group(1)) if m else {'ok': None}), 'p': p}
                    return
                m = re.search(r'Submitted (\d+) tasks\s*(?:\x1b.*)?$', p.err.strip())
                results[k] = {'ok': None if p.status is None else p.status == 0, 'count': int(m.group(1)) if m else None, 'p': p}
            ths = [threading.Thread(target=go, args=(k,)) for k in range(len(jobs))]
            [t.start() for t in ths]
            [t.join() for t in ths]
            if locker:
                locker.join()
            rows = [h['new'] for h in site.audit() if h['op'] == 'INSERT' and h['tab'] == 'task']
            stored = {r['id']: r for r in site.tasks()}
        finally:
            site.close()

        def verdict():
            if len(stored) != len(rows):
                yield ('rows', f'{len(rows)} inserted, {len(stored)} stored')
            by = {}
            for r in rows:
                by.setdefault(r['submit_id'], []).append(r)
            groups = [v for v in by.values()]
            singles = {}
            for k, (sub, how, tags, lines, text, tpl, want, pert) in enumerate(jobs):
                res = results[k]
                c.case((how, tpl, want, tags, sub['b'], sub['w'], len(jobs)), sample={'submission': sub, 'lines': want[:3], 'result': {a: b for a, b in res.items() if a != 'p'}}, nontrivial=len(want) > 1)
                c.count('submissions')
                c.count('lines', len(want))
                if not res['ok']:
                    yield ('submit-failed', f'{how} of {len(want)} lines: {res.get("error")} {res["p"].tail() if res["p"] else ""}')
                    continue
                if how == 'single':
                    got = [stored.get(i) for i in res['ids']]
                    for r in got:
                        if r:
                            singles[r['submit_id']] = 1
                    got = [r for r in got if r]
                else:
                    # the group of rows of one submitting process: recognised by content, each process has its own identity
                    exact = [g for g in groups if [r['args'] for r in g] == want and json.loads(g[0]['tag']) == (tags or {})]
                    if want and exact:
                        got = exact[0]
                        groups.remove(got)
                    elif not want:
                        got = []
                    else:
                        cand = max(groups, key=lambda g: len({r['args'] for r in g} & set(want)), default=[])
                        have, need = [r['args'] for r in cand], want
                        yield ('lines', f'{how} b={sub["b"]} w={sub["w"]} t={tpl!r}: stored {len(have)} of {len(need)}; missing {[x for x in need if x not in have][:3]!r} extra {[x for x in have if x not in need][:3]!r} '
                                        f'order ok={have == need} tags {[json.loads(r["tag"]) for r in cand[:1]]} wanted {tags}')
                        continue
                if [r['args'] for r in got] != want:
                    yield ('lines', f'{how}: stored {[r["args"] for r in got][:5]} expected {want[:5]}')
                for r in got:
                    t = json.loads(r['tag'])
                    if t != (tags or {}) or {a: type(b) for a, b in t.items()} != {a: type(b) for a, b in tags.items()}:
                        yield ('tags', f'{how}: tags {t}, given {tags}')
                        break
                    if r['attempt'] != 1 or r['retried'] or r['schedule_time'] or r['exit_status'] is not None or r['previous_id'] or r['next_id']:
                        yield ('state', f'{how}: {r}')
                        break
                times = [r['submit_time'] for r in got]
                if times != sorted(times):
                    yield ('time-order', f'{how}: submission times not in input order')
                if res['count'] is not None and res['count'] != len(want):
                    yield ('count', f'{how}: reported {res["count"]}, input has {len(want)}')
                if res['count'] is not None:
                    c.count('reported_counts')
            left = [g for g in groups if g[0]['submit_id'] not in singles]
            if left and len([1 for j in jobs if j[6] and j[1] != 'single']) < len(by) - len(singles):
                yield ('foreign', f'rows of no submission: {[[r["args"] for r in g][:3] for g in left]}')
        return run.report(c, sc, list(verdict()))
    run.campaign(c, scs, one, workers=6, budget=c.pick(150, 3000))

    # a submission that cannot be stored ends with an error, it does not pretend or wait for ever
    def failing(kind):
        site = hs.Site('c01', audit=False)
        try:
            if kind == 'template':
                p = site.cli('submit', '-t', '{%nope' if False else '{nope}', '-b', 1, stdin='a\nb\nc\n', timeout=40)
            elif kind == 'tag':
                p = site.cli('submit', '-b', 2, '--tag', 'a:bad value!', stdin='a\nb\nc\n', timeout=40)
            elif kind == 'store':
                import sqlite3
                con = sqlite3.connect(site.db)
                con.execute("CREATE TRIGGER full BEFORE INSERT ON task WHEN (SELECT count(*) FROM task) >= 4 BEGIN SELECT RAISE(ABORT, 'disk is full'); END")
                con.commit()
                con.close()
                p = site.cli('submit', '-b', 2, stdin=''.join(f'x{i}\n' for i in range(40)), timeout=40)
            elif kind == 'text':
                p = site.cli('submit', '-b', 1, stdin=b'ok\n\xff\xfe\nthen\nmore\nand\n', timeout=40)
            else:
                p = site.cli('submit', str(site.path / 'missing'), timeout=40)
            rows = [r['args'] for r in site.tasks()]
            c.case(('fail', kind), sample={'failing': kind, 'status': p.status, 'stored': rows[:6]})
            c.count('failing_submissions')
            if p.status is None:
                c.violation('failure-hangs', f'submission that cannot succeed ({kind}) does not end: {p.tail(600)}', kind)
            elif p.status == 0 and not (kind == 'text' and len(rows) == 5):
                c.violation('failure-silent', f'submission that cannot succeed ({kind}) reports success, stored {rows[:6]}: {p.tail(300)}', kind)
        finally:
            site.close()
    res = hs.parallel([lambda k=k: failing(k) for k in ('template', 'tag', 'store', 'text', 'missing')])
    for r in res:
        if isinstance(r, Exception):
            c.inconclusive('harness error: ' + r.tb[-600:])
    c.require('lines', 800)
    c.require('submissions', 40)
    c.require('reported_counts', 20)


if __name__ == '__main__':
    core.main(core.Check('C01', LEVEL, RULE), body)
