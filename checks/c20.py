"""C20: task update changes exactly the selected tasks, exactly as told."""
import copy
import datetime
import json
import os
import random
import re
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, pop

TECHNIQUE = ('runtime monitor: differential oracle over the real command line. The raw table before and after every random update is compared '
             'row by row with a reference application of the requested changes to the selected rows')
LEVEL = 'exploration'
LEVEL_NOTE = ('Held on the update commands generated (one command at a time on a quiet database). Values of the wrong type for a field, new date '
              'values and tag keys containing a double quote or backslash are outside the domain.')
RULE = 'random selections x random combinations of field, tag, remove, cancel, revert and delete with limit, order and confirmation answers, plus rejected arguments; non-trivial when some but not all tasks are selected'

REVERT = ['schedule_time', 'server_host', 'server_id', 'client_host', 'client_id', 'command', 'start_time', 'completion_time',
          'exit_status', 'outpath', 'errpath', 'waited', 'duration']
FIELDS = {
    'args': ['echo new', 'x=1', 'a:b', '1', '007', 'é漢', 'two  words', 'say "hi"', "it's"],
    'exit_status': ['0', '1', '-10', '255', 'null'], 'waited': ['0', '17', 'null', 'None'], 'duration': ['3', '86400', 'null'],
    'attempt': ['1', '2', '9'], 'retried': ['true', 'false'], 'client_host': ['n1', 'null', 'none', '0'], 'server_host': ['n2', 'NULL'],
    'command': ['run it', 'null'], 'outpath': ['/tmp/o', 'null'], 'submit_host': ['h', 'null'], 'start_time': ['null'], 'completion_time': ['none'],
    'schedule_time': ['null'], 'errpath': ['/tmp/e e'], 'client_id': ['null', 'abc'], 'server_id': ['null'],
}


def want_value(field, text):
    if field in pop.TEXT:
        return None if text.lower() in ('none', 'null') else text
    v = pop.coerce(text)
    return int(v) if isinstance(v, bool) else v


class Update:
    def __init__(self, rng, rows):
        self.action = rng.choice([None, None, None, '--cancel', '--revert', '--delete'])
        self.fields, self.tags, self.remove = {}, {}, []
        names = list(FIELDS)
        if self.action == '--cancel':
            names = [f for f in names if f not in ('schedule_time', 'exit_status')]
        if self.action == '--revert':
            names = [f for f in names if f not in REVERT]
        if self.action != '--delete':
            for f in rng.sample(names, rng.choice([0, 0, 1, 1, 2])):
                self.fields[f] = rng.choice(FIELDS[f])
            for k in rng.sample(pop.KEYS, rng.choice([0, 0, 1, 1, 2, 3])):
                v = pop.tag_value(rng)
                if v == '':
                    self.tags[k] = ('', '')
                elif pop.render(v) is not None:
                    self.tags[k] = (v, pop.render(v))
            self.remove = [k for k in rng.sample(pop.KEYS, rng.choice([0, 0, 0, 1, 2])) if k not in self.tags]
            if rng.random() < .3:
                have = [k for r in rows for k in r['tag'] if k not in self.tags]
                if have:
                    self.remove.append(rng.choice(have))
            self.remove = sorted(set(self.remove))
            if not (self.action or self.fields or self.tags or self.remove):
                self.tags['x'] = (5, '5')
        pos = [f'{f}={v}' for f, v in self.fields.items()] + [f'{k}:{v[1]}' for k, v in self.tags.items()]
        rng.shuffle(pos)
        self.args = pos
        self.opts = ([self.action] if self.action else []) + (['--remove-tag', *self.remove] if self.remove else [])

    def apply(self, row, now=None):
        """-> expected row, None when deleted; schedule_time of a cancelled task is left as the marker NOW."""
        if self.action == '--delete':
            return None
        r = copy.deepcopy(row)
        for f, v in self.fields.items():
            r[f] = want_value(f, v)
        for k, v in self.tags.items():
            r['tag'][k] = v[0]
        for k in self.remove:
            r['tag'].pop(k, None)
        if self.action == '--cancel':
            r['schedule_time'], r['exit_status'] = 'NOW', -1
        if self.action == '--revert':
            for f in REVERT:
                r[f] = None
        return r


def matches(have, want, t0, t1):
    """-> names of columns which differ."""
    out = []
    for k in pop.COLUMNS:
        if want[k] == 'NOW' and k == 'schedule_time':
            try:
                t = datetime.datetime.fromisoformat(have[k])
                if not t0 - datetime.timedelta(seconds=1) <= t.replace(tzinfo=None) <= t1 + datetime.timedelta(seconds=1):
                    out.append(k)
            except (TypeError, ValueError):
                out.append(k)
        elif not pop.identical(have[k], want[k]):
            if not (k == 'tag' and pop.same(have[k], want[k])):      # 1.0 may come back as 1
                out.append(k)
    return out


def one(c, site, db, rng, n):
    """One update on a private copy of the database."""
    mine = str(site.path / f'u{n}.db')
    shutil.copy(db, mine)
    before = pop.read(mine)
    rows = list(before.values())
    sel, up = pop.Select(rng, rows, most=2), Update(rng, rows)
    limit = rng.choice([None, None, None, 0, 1, 2, 5, 120, 1000])
    order = rng.choice([None, *pop.COLUMNS[:-1]]) if limit else None
    desc = bool(order) and rng.random() < .5
    answer = rng.choice(['force'] * 5 + ['yes\n', 'y\n', 'YES\n', ' Y \n', 'n\n', 'no\n', '\n', 'maybe\n', '', 'yess\n', 'nyes\n'])
    opts = up.opts + sel.args
    if limit is not None:
        opts += [rng.choice(['-l', '--limit']), str(limit)]
    if order:
        opts += ['--order-by', order] + (['--desc'] if desc else [])
    if answer == 'force':
        opts += [rng.choice(['-f', '--no-confirm'])]
    args = ['task', 'update', *up.args, *opts]
    matching = [r for r in rows if sel.ok(r)]
    size = len(matching) if limit is None else min(limit, len(matching))
    go = answer == 'force' or answer.strip().lower() in ('y', 'yes')
    t0 = datetime.datetime.now()
    p = site.cli(*args, stdin=None if answer == 'force' else answer, env={'HYPERSHELL_DATABASE_FILE': mine})
    t1 = datetime.datetime.now()
    after = pop.read(mine)
    os.remove(mine)
    c.case((up.action, tuple(up.fields), len(up.tags), len(up.remove), limit, bool(order), desc, answer, len(sel.conds), len(sel.tags), sel.alias),
           sample=' '.join(args)[:200], nontrivial=0 < size < len(rows))
    for x, y in (('cancel', up.action == '--cancel'), ('revert', up.action == '--revert'), ('delete', up.action == '--delete'), ('field', up.fields),
                 ('tag', up.tags), ('remove tag', up.remove), ('limited', limit is not None), ('refused', not go), ('fields and tags', up.fields and up.tags),
                 ('ordered', order), ('limited delete', limit and up.action == '--delete'), ('tags and removal', up.tags and up.remove)):
        if y and size:
            c.count(x)
    cmd = f'`hs {" ".join(args)}`' + ('' if answer == 'force' else f' answered {answer!r}')
    replay = {'args': args, 'answer': answer, 'status': p.status, 'stderr': p.err[-500:], 'stdout': p.out[-300:]}
    if not go or size == 0:
        if not pop.identical(after, before):
            ch = [i for i in before if not pop.identical(after.get(i), before[i])]
            c.violation('changed-anyway', f'{cmd}: {len(ch)} task(s) changed although nothing was to be changed', replay)
        if size == 0 and p.status != 0:
            c.violation('update-failed', f'{cmd} ended with status {p.status}: {p.err.strip()[-200:]}', replay)
    if answer != 'force' and size:
        m = re.search(r'affects (\d+) tasks', p.out)
        if not m or int(m.group(1)) != size:
            c.violation('count', f'{cmd} announces {m.group(0) if m else p.out!r}, {size} tasks are selected', replay)
    if not go or size == 0:
        return
    if p.status != 0:
        c.violation('update-failed', f'{cmd} ended with status {p.status}: {p.err.strip()[-200:]}', replay)
        return
    selected = {r['id'] for r in matching}
    extra = [i for i in after if i not in before]
    if extra:
        c.violation('new-rows', f'{cmd}: {len(extra)} task(s) appeared', replay)
    changed, free = [], []
    for i, row in before.items():
        want = up.apply(row)
        if i in after and pop.identical(after[i], row):
            if want is not None and not matches(row, want, t0, t1):
                free.append(i)
            continue
        changed.append(i)
        if i not in selected:
            c.violation('wrong-task', f'{cmd}: a task not selected was {"changed" if i in after else "deleted"}', dict(replay, row=row, now=after.get(i)))
            return
        if want is None:
            if i in after:
                c.violation('wrong-change', f'{cmd}: a task was changed, not deleted', dict(replay, row=row, now=after[i]))
            continue
        if i not in after:
            c.violation('wrong-change', f'{cmd}: a task disappeared', dict(replay, row=row))
            return
        bad = matches(after[i], want, t0, t1)
        if bad:
            c.violation('wrong-change', f'{cmd}: {bad[0]} is {after[i][bad[0]]!r}, expected {want[bad[0]]!r} (was {row[bad[0]]!r})', dict(replay, row=row, now=after[i]))
            return
    free_sel = [i for i in free if i in selected]
    if len(changed) > size or len(changed) + len(free_sel) < size:
        c.violation('number', f'{cmd}: {len(changed)} task(s) changed, {size} were to be changed', replay)
    elif order and changed:
        k = pop.sort_key(order)
        left = [i for i in selected if i not in changed and i not in free]
        if left:
            a, b = [k(before[i]) for i in changed], [k(before[i]) for i in left]
            if (min(a) < max(b)) if desc else (max(a) > min(b)):
                c.violation('order', f'{cmd}: not the first {limit} by {order} were changed', replay)


def rejected(c, site, db, rng):
    some = rng.choice(list(pop.read(db)))
    none = '00000000-0000-4000-8000-000000000000'
    long = 'z' * 121
    bad = [['id=x', '-f'], ['nofield=1', '-f'], ['x', '-f'], ['exit_status == 0', '-f'], ['duration>=1', '-f'], ['x:1', '--desc', '-f'],
           ['x:1', '-s', 'args', '-f'], [f'x:{long}', '-f'], ['x:a b', '-f'], ['x:', 'y:a/b', '-f'], ['x:1', 'y:é', '-f'], ['x:a\n', '-f'], ['--cancel', '--revert', '-f'],
           ['--cancel', '--delete', '-f'], ['x:1', '-F', '-S', '-f'], ['x:1', '-w', 'exit_status', '-f'], ['x:1', '-w', 'exit_status == 0', 'zzz', '-f'],
           ['x:1', '-w', 'nofield == 1', '-f'], ['x:1', '-s', 'nofield', '-l', '1', '-f'], ['x:1', '-l', 'many', '-f'], [some, '--cancel', '-f'],
           [none, 'exit_status', '1'], [some, 'nofield', '1'], [none, 'tag', 'x:1'], [some, 'tag', 'x:a/b'], ['args=null', '-f'], ['attempt=null', 'x:1', '-f'],
           ['x:1', 'args=none', '--remove-tag', 'y', '-f'], ['tag=foo', '-f'], ['tag=x:1', '-f'], ['x:1', '-t', 'site:a/b', '-f'], ['exit_status=1', 'retried=maybe', '-f'],
           ['x:1', 'submit_time=whenever', '-f'], ['exit_status=0', 'x:a;b', '-l', '3', '-f'], ['x:1', '--nonsense', '-f']]
    before = pop.read(db)
    for n, args in enumerate(bad):
        p = site.cli('task', 'update', *args, env={'HYPERSHELL_DATABASE_FILE': db})
        c.case(('rejected', n), sample=' '.join(args)[:120])
        c.count('rejected arguments')
        after = pop.read(db)
        replay = {'args': args, 'status': p.status, 'stderr': p.err[-500:]}
        if p.status == 0:
            c.violation('accepted', f'`hs task update {" ".join(args)[:150]!r}` is accepted (status 0)', replay)
        if not pop.identical(after, before):
            c.violation('rejected-but-changed', f'`hs task update {" ".join(args)[:150]!r}` changed the table (status {p.status})', replay)
            before = after


def legacy(c, site, db, rng):
    for _ in range(c.pick(10, 40)):
        before = pop.read(db)
        i = rng.choice(list(before))
        want = copy.deepcopy(before[i])
        if rng.random() < .5:
            f = rng.choice(list(FIELDS))
            v = rng.choice(FIELDS[f])
            want[f] = want_value(f, v)
        else:
            k, val = rng.choice(pop.KEYS), pop.tag_value(rng)
            if val == '' or pop.render(val) is None:
                val = 4
            f, v = 'tag', f'{k}:{pop.render(val)}'
            want['tag'][k] = val
        p = site.cli('task', 'update', i, f, v, env={'HYPERSHELL_DATABASE_FILE': db})
        after = pop.read(db)
        c.case(('legacy', f), sample=f'UUID {f} {v}')
        c.count('single task updates')
        before[i] = want
        for j in before:
            bad = matches(after[j], before[j], None, None) if j in after else ['id']
            if bad:
                c.violation('legacy', f'`hs task update ID {f} {v!r}`: {bad[0]} of {"the" if i == j else "another"} task is {after[j][bad[0]]!r}, expected {before[j][bad[0]]!r} (status {p.status})',
                            {'args': [i, f, v], 'stderr': p.err[-400:]})
                return


def body(c):
    with hs.Site('c20', audit=False) as site:
        for size in c.pick((5, 30, 250), (1, 5, 30, 250, 1500)):
            db = str(site.path / f'p{size}.db')
            shutil.copy(site.db, db)
            pop.insert(db, pop.rows(c.rng, size))
            rngs = [random.Random(c.rng.getrandbits(64)) for _ in range(c.pick(180, 900))]
            jobs = [lambda r=r, n=n: one(c, site, db, r, f'{size}-{n}') for n, r in enumerate(rngs)]
            for r in hs.parallel(jobs, 8):
                if isinstance(r, Exception):
                    raise RuntimeError(r.tb)
            if size == 30:
                legacy(c, site, db, c.rng)
                rejected(c, site, db, c.rng)
    for x in ('cancel', 'revert', 'delete', 'field', 'tag', 'remove tag', 'limited', 'ordered', 'refused', 'fields and tags'):
        c.require(x, 10)
    c.require('rejected arguments', 20)


if __name__ == '__main__':
    core.main(core.Check('C20', LEVEL, RULE, TECHNIQUE), body)
