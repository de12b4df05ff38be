"""C19: task search returns exactly the matching tasks, in order, truncated, for any combination of conditions."""
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, pop

TECHNIQUE = ('runtime monitor: differential oracle over the real command line. Random populations are written into the database, '
             'random searches are executed, and the rows listed are compared with a reference reading of the conditions over the raw table')
LEVEL = 'exploration'
LEVEL_NOTE = ('Held on the searches generated. Ordering operators on date fields, patterns on numeric fields and tag keys containing a double '
              'quote or backslash are outside the domain.')
RULE = 'random conditions (all operators, null, booleans, numbers, text), tags (naked, typed values), aliases, ordering, limit, fields and formats; non-trivial when the result is neither empty nor everything'


def one(c, site, table, rng):
    rows = list(table.values())
    sel = pop.Select(rng, rows)
    order = rng.choice([None, None] + pop.COLUMNS[:-1])
    desc = bool(order) and rng.random() < .4
    limit = rng.choice([None, None, None, 0, 1, 3, 10, 1000])
    matching = [r for r in rows if sel.ok(r)]
    tail = list(sel.args)
    if order:
        tail += [rng.choice(['-s', '--order-by']), order] + (['--desc'] if desc else [])
    if limit is not None:
        tail += [rng.choice(['-l', '--limit']), str(limit)]
    fields = ['id'] + rng.sample(pop.COLUMNS[1:], rng.choice([0, 1, 3])) if rng.random() < .6 else []
    mode = rng.choice(['json', 'json', 'count', 'csv', 'plain'])
    if rng.random() < .5:
        rng.shuffle(fields)
    args = ['task', 'search', *fields, *tail]
    if mode == 'count':
        args.append(rng.choice(['-c', '--count']))
    elif mode == 'plain':
        fields = ['id']
        args = ['task', 'search', 'id', *tail]
    else:
        args += [f'--{mode}'] if rng.random() < .5 else ['-f', mode]
    p = site.cli(*args)
    key = (len(sel.conds), len(sel.tags), sel.alias, order, desc, limit is not None, mode, tuple(x.op + x.field for x in sel.conds),
           tuple((t.naked, type(t.value).__name__) for t in sel.tags))
    c.case(key, sample=' '.join(args)[:160], nontrivial=0 < len(matching) < len(rows))
    for x in sel.conds:
        c.count('operator ' + x.op)
    for t in sel.tags:
        c.count('tag naked' if t.naked else 'tag ' + type(t.value).__name__)
    replay = {'args': args, 'status': p.status, 'stderr': p.err[-400:], 'stdout': p.out[:600]}
    if p.status != 0:
        c.violation('search-failed', f'`hs {" ".join(args)}` ended with status {p.status}: {p.err.strip()[-200:]}', replay)
        return
    if mode == 'count':
        want = len(matching) if limit is None else min(limit, len(matching))
        if p.out.strip() != str(want):
            c.violation('count', f'`hs {" ".join(args)}` prints {p.out.strip()!r}, {want} tasks match', replay)
        return
    names = fields or pop.COLUMNS
    try:
        if mode == 'json':
            data = json.loads(p.out)
            bad = [list(d) for d in data if list(d) != names]
            if bad:
                c.violation('fields', f'fields {bad[0]} listed, {names} requested', replay)
                return
            ids = [d['id'] for d in data]
        elif mode == 'csv':
            import csv
            import io
            data = list(csv.reader(io.StringIO(p.out, newline='')))
            if data[0] != names:
                c.violation('fields', f'header {data[0]}, {names} requested', replay)
                return
            ids = [d[names.index('id')] for d in data[1:]]
        else:
            ids = p.out.split('\n')[:-1]
    except (ValueError, IndexError) as e:
        c.violation('unreadable', f'output of `hs {" ".join(args)}` cannot be read: {e}', replay)
        return
    got = [table.get(i) or {'id': i} for i in ids]
    for problem in pop.check_order(got, matching, order, desc, limit):
        c.violation('result', f'`hs {" ".join(args)}`: {problem}', dict(replay, expected=[r['id'] for r in matching][:20], got=ids[:20]))


def keys_values(c, site, table, rng):
    want = {k for r in table.values() for k in r['tag']}
    p = site.cli('task', 'search', '--tag-keys')
    got = p.out.split('\n')[:-1]
    c.case(('tag-keys', len(want)), sample='--tag-keys')
    c.count('tag key listings')
    if p.status != 0 or sorted(got) != sorted(want):
        c.violation('tag-keys', f'--tag-keys lists {sorted(got)}, the distinct keys are {sorted(want)} (status {p.status})', {'stderr': p.err[-300:]})
    for k in want:
        vals = [r['tag'][k] for r in table.values() if k in r['tag'] and r['tag'][k] is not None]
        p = site.cli('task', 'search', k, '--tag-values')
        got = [x for x in p.out.split('\n')[:-1] if x != 'None']

        def norm(v):
            if v is True or v is False or v in ('True', 'False'):
                return str(int(v in (True, 'True')))
            return str(v)
        distinct = []
        for v in vals:
            if not any(pop.same(v, d) for d in distinct):
                distinct.append(v)

        def num(s):
            try:
                return repr(float(s))
            except ValueError:
                return s
        a, b = sorted({num(norm(x)) for x in got}), sorted({num(norm(x)) for x in distinct})
        c.case(('tag-values', k, len(b)), sample=f'{k} --tag-values')
        c.count('tag value listings')
        if p.status != 0 or a != b:
            c.violation('tag-values', f'--tag-values {k!r} lists {a[:12]}, the distinct values are {b[:12]} (status {p.status})', {'stderr': p.err[-300:], 'stdout': p.out[:500]})
        # distinct: never more lines than distinct values plus the 0/false and 1/true pairs
        if len(got) > len(distinct) + 2:
            c.violation('tag-values', f'--tag-values {k!r} repeats values ({len(got)} lines for {len(distinct)} distinct values)', {'stdout': p.out[:500]})


def body(c):
    for size in c.pick((6, 40, 150), (0, 1, 6, 40, 150, 600, 2500)):
        with hs.Site('c19', audit=False) as site:
            pop.insert(site.db, pop.rows(c.rng, size))
            table = pop.read(site.db)
            n = c.pick(200, 900)
            rngs = [random.Random(c.rng.getrandbits(64)) for _ in range(n)]
            for r in hs.parallel([lambda r=r: one(c, site, table, r) for r in rngs] + [lambda: keys_values(c, site, table, c.rng)], 8):
                if isinstance(r, Exception):
                    raise RuntimeError(r.tb)
            if not pop.identical({k: v for k, v in pop.read(site.db).items()}, table):
                c.violation('modified', 'searching changed the task table')
    for op in pop.OPS:
        c.require('operator ' + op, 10)
    for t in ('naked', 'int', 'float', 'bool', 'str', 'NoneType'):
        c.require('tag ' + t, 3)


if __name__ == '__main__':
    core.main(core.Check('C19', LEVEL, RULE, TECHNIQUE), body)
