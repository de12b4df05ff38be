"""C24: tags are validated completely, irrespective of order, and keep value and type all the way."""
import copy
import json
import os
import random
import string
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, pop, run

TECHNIQUE = ('runtime monitor: generated tag sets are offered to every entry point (Python interface, submit, task submit, update), acceptance is compared with a '
             'reference validator and the raw stored JSON with the value given; runs with retries are watched for any change of a tag')
LEVEL = 'exploration'
LEVEL_NOTE = 'Held on the tag sets generated. NaN and infinity, strings of blanks only and keys with a double quote or backslash are outside the domain.'
RULE = 'tag sets of 0-5 tags, mostly valid with at most one defect placed at a random position; non-trivial when the set has at least two tags'
WORKER = hs.VERIF / 'workers' / 'tagset.py'
ADD = hs.VERIF / 'workers' / 'add_task.py'
OK = string.ascii_letters + string.digits + '_.+-'


def good_value(rng):
    return rng.choice([0, 1, -1, 7, 10**12, 0.5, -2.25, 1.0, 1e-3, 1e22, True, False, None, '', 'a', 'A.b-c_d+e', 'z' * 120, 'z' * 119, '1', '1.0', 'true', 'null', '.', '-', '+', '_',
                       ''.join(rng.choice(OK) for _ in range(rng.randrange(1, 30)))])


def bad_value(rng):
    """-> Python expression of a value that is not acceptable."""
    return rng.choice(['[]', '[1]', '{}', "{'a': 1}", '(1,)', "b'x'", 'datetime.datetime(2024, 1, 1)', "decimal.Decimal('1')", '{1}', '1j', 'object()',
                       repr('z' * 121), repr('z' * 5000), "'a b'", "'a/b'", "'a:b'", "'a,b'", "'é'", "'a\\n'", "'\\na'", "'a\\tb'", "'a\\x00'", "' a'", "'a '", "'$(x)'", "'a=b'", "'漢'", "'a;b'", "'%'", "'\"'",
                       "'٣'", "'ａ'", repr('a' * 119 + 'é'), "'a@b'", "'~'", "'a*'"])


def key(rng):
    return rng.choice(pop.KEYS + ['k' + str(rng.randrange(100)), 'UPPER', 'a-b-c', 'long' * 40])


def tagset(rng, defect=None):
    """-> (expression, value or None when invalid, number of tags)"""
    tags = {}
    for _ in range(rng.choice([0, 1, 2, 2, 3, 5])):
        tags[key(rng)] = good_value(rng)
    items = [(repr(k), repr(v)) for k, v in tags.items()]
    if defect is None:
        return '{' + ', '.join(f'{k}: {v}' for k, v in items) + '}', tags, len(items)
    if defect == 'value':
        items.insert(rng.randrange(len(items) + 1), (repr('bad'), bad_value(rng)))
    elif defect == 'key':
        items.insert(rng.randrange(len(items) + 1), (rng.choice(['1', 'None', 'True', "b'k'", '1.5', '(1,)']), repr(good_value(rng))))
    else:
        return rng.choice(["[('a', 1)]", "['a']", "'a'", "'a:1'", '1', "{'a', 'b'}", "('a', 1)", "b'a'", 'True', '3.5']), None, 1
    return '{' + ', '.join(f'{k}: {v}' for k, v in items) + '}', None, len(items)


def interface(c, site, how, n):
    rng = c.rng
    sets = [tagset(rng, rng.choice([None, None, 'value', 'value', 'key', 'type'])) for _ in range(n)]
    path = site.path / f'sets-{how}.json'
    path.write_text(json.dumps([s[0] for s in sets]))
    db = str(site.path / f'{how}.db')
    env = {'HYPERSHELL_DATABASE_FILE': db}
    site.cli('initdb', env=env)
    p = site.script(WORKER, path, how, env=env, timeout=400, perturb={'sleep_cap': 0.05})
    res = dict(json.loads(x[7:]) for x in p.out.splitlines() if x.startswith('RESULT '))
    rows = {r['args']: r for r in pop.read(db).values()}
    for i, (expr, value, size) in enumerate(sets):
        c.case((how, expr), sample=f'{how}: {expr[:150]}', nontrivial=size > 1)
        if i not in res:
            c.violation('no-answer', f'{how}: no answer for the tag set {expr[:200]} ({p.tail(300)})', {'expr': expr})
            return
        row = rows.get(f'echo {i}')
        if value is None:
            c.count('invalid sets')
            if res[i] == 'ok':
                c.violation('accepted', f'{how}: tag set {expr[:300]} is accepted', {'expr': expr, 'row': row})
            elif row is not None:
                c.violation('stored', f'{how}: rejected tag set {expr[:300]} left a task behind', {'expr': expr, 'row': row})
        else:
            c.count('valid sets')
            if res[i] != 'ok':
                c.violation('rejected', f'{how}: valid tag set {expr[:300]} is rejected: {res[i]}', {'expr': expr})
            elif how != 'check' and (row is None or not pop.identical(row['tag'], value)):
                c.violation('altered', f'{how}: tag set {expr[:300]} is stored as {row and row["tag"]!r}', {'expr': expr})
    if how != 'check' and len(rows) != sum(s[1] is not None for s in sets):
        c.violation('stored', f'{how}: {len(rows)} tasks stored, {sum(s[1] is not None for s in sets)} valid sets', {})


def cmdline(c, site, rng, n):
    """Tag sets on the command line: submit, task submit, task update (bulk and single)."""
    db = str(site.path / f'c{n}.db')
    env = {'HYPERSHELL_DATABASE_FILE': db}
    site.cli('initdb', env=env)
    how = rng.choice(['submit', 'submit', 'task submit', 'task submit', 'update', 'legacy'])
    tags = {}
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        v = good_value(rng)
        if v == '' or pop.render(v) is not None:
            tags[key(rng)] = v
    if not tags or (how == 'legacy' and len(tags) > 1):
        tags = {'k': 7}
    args = [(k if how not in ('update', 'legacy') and rng.random() < .5 else k + ':') if v == '' and isinstance(v, str) else f'{k}:{pop.render(v)}' for k, v in tags.items()]
    bad = rng.random() < .45
    if bad:
        junk = rng.choice(['a/b', 'a b', 'é', 'z' * 121, 'a:b', 'a,b', 'a@b', 'a;b', '%', 'a\nb', "it's", '[1]', '{}'])
        if how == 'legacy':
            args = []
        args.insert(rng.randrange(len(args) + 1), f'bad:{junk}')
    lines = ''.join(f'echo {i}\n' for i in range(rng.choice([1, 3, 30])))
    before = {}
    if how in ('update', 'legacy'):
        pop.insert(db, pop.rows(rng, 4))
        before = pop.read(db)
    if how == 'submit':
        cmd = ['submit', '-b', 4, '--tag', *args]
        p = site.cli(*cmd, stdin=lines, env=env, perturb={'sleep_cap': 0.05}, timeout=60)
    elif how == 'task submit':
        cmd = ['task', 'submit', '-t', *args, '--', 'echo', 'a']
        p = site.cli(*cmd, env=env)
    elif how == 'update':
        cmd = ['task', 'update', *args, '-f']
        p = site.cli(*cmd, env=env)
    else:
        i = rng.choice(sorted(before))
        cmd = ['task', 'update', i, 'tag', args[0]]
        p = site.cli(*cmd, env=env)
    after = pop.read(db)
    c.case(('cmdline', how, tuple(args)), sample=' '.join(map(str, cmd))[:160], nontrivial=len(args) > 1)
    c.count(('invalid ' if bad else 'valid ') + how)
    shown = ' '.join(map(str, cmd))[:250]
    replay = {'args': cmd, 'status': p.status, 'stderr': p.err[-400:]}
    if p.status is None:
        c.violation('hung', f'`hs {shown}` does not end', replay)
        return
    if bad:
        if p.status == 0:
            c.violation('accepted', f'`hs {shown}` is accepted', replay)
        if not pop.identical(after, before):
            c.violation('stored', f'`hs {shown}` changed the database (status {p.status})', replay)
        return
    if p.status != 0:
        c.violation('rejected', f'`hs {shown}` is rejected (status {p.status}): {p.err[-200:]}', replay)
        return
    want = {i: dict(before[i]['tag'], **tags) if how == 'update' or (how == 'legacy' and i == cmd[2]) else before[i]['tag'] for i in before}
    if how == 'submit' and len(after) != lines.count('\n') or how == 'task submit' and len(after) != 1:
        c.violation('altered', f'`hs {shown}` stored {len(after)} tasks', replay)
    for i, row in after.items():
        if not pop.identical(row['tag'], want.get(i, tags)):
            c.violation('altered', f'`hs {shown}`: tags are stored as {row["tag"]!r}, expected {want.get(i, tags)!r}', replay)
            return
    # what is found under each of these tags
    for k, v in list(tags.items())[:2]:
        r = pop.render(v)
        q = site.cli('task', 'search', 'id', 'tag', '-t', k if r is None else f'{k}:{r}', '--json', env=env)
        got = {d['id']: d['tag'] for d in json.loads(q.out)} if q.status == 0 else None
        expect = {i: x['tag'] for i, x in after.items() if k in x['tag'] and (r is None or pop.same(x['tag'][k], v))}
        c.count('found again')
        if got is None or not pop.identical(got, expect):
            c.violation('not-found', f'searching for {k}:{v!r} right after `hs {shown}` shows {str(got)[:200]}, expected {str(expect)[:200]}', replay)


def flight(c, sc):
    """Tags of tasks which run, fail and are retried."""
    rng = random.Random(sc['seed'])
    with run.Run('c24') as r:
        tasks = run.gen_tasks(rng, sc['n'], fail=0.5, sleep=(0, 0.05), flaky=0.2)
        for t in tasks:
            t.tags = {key(rng): good_value(rng) for _ in range(rng.choice([0, 1, 2, 4]))}
        p = r.site.spawn('-', script=str(ADD), stdin=json.dumps([{'args': t.args, 'tag': t.tags} for t in tasks]))
        if p.wait(60) != 0:
            raise run.Broken('submit-failed', p.tail())
        r.tasks = tasks
        r.start_server('--restart', '-r', sc['r'], '-b', sc['b'], '-w', 1, *(['--eager'] if rng.random() < .3 else []))
        for _ in range(2):
            r.start_client('-N', 2, '-b', rng.choice([1, 3]), '-w', 1)
        r.settle()
        if r.outcome == 'timeout':
            c.inconclusive(f'no end within the limit: {sc}')
            return 0
        r.observe()
        c.count('runs')

        def oracle():
            yield from run.hung(r)
            want = {t.args: t.tags for t in tasks}
            for row in r.rows:
                have = row['tag'] if isinstance(row['tag'], dict) else json.loads(row['tag'])
                c.case(('flight', row['args'], row['attempt'], sc['seed']), sample={'tags': str(have)[:100], 'attempt': row['attempt']}, nontrivial=row['attempt'] > 1)
                c.count('records')
                if row['attempt'] > 1:
                    c.count('retried records')
                if not pop.identical(have, want[row['args']]):
                    yield ('altered-in-run', f'attempt {row["attempt"]} of `{row["args"][:60]}` has tags {have!r}, submitted were {want[row["args"]]!r}')
        return run.report(c, sc, oracle())


def body(c):
    with hs.Site('c24', audit=False) as site:
        for how, n in (('check', c.pick(1500, 20000)), ('model', c.pick(200, 1500)), ('submit', c.pick(25, 150))):
            interface(c, site, how, n)
        rngs = [random.Random(c.rng.getrandbits(64)) for _ in range(c.pick(160, 1000))]
        for r in hs.parallel([lambda r=r, n=n: cmdline(c, site, r, n) for n, r in enumerate(rngs)], 8):
            if isinstance(r, Exception):
                raise RuntimeError(r.tb)
    scs = [{'seed': c.rng.randrange(1 << 30), 'n': c.rng.choice([6, 12]), 'r': c.rng.choice([1, 2]), 'b': c.rng.choice([1, 3, 10])} for _ in range(c.pick(6, 60))]
    run.campaign(c, scs, lambda sc: flight(c, sc), workers=4)
    c.require('valid sets', 100)
    c.require('invalid sets', 100)
    c.require('found again', 40)
    c.require('retried records', 5)
    for how in ('submit', 'task submit', 'update', 'legacy'):
        c.require('invalid ' + how, 3)
        c.require('valid ' + how, 3)


if __name__ == '__main__':
    core.main(core.Check('C24', LEVEL, RULE, TECHNIQUE), body)
