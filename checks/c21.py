"""C21: JSON, CSV, YAML and plain output of task data is faithful to the stored values."""
import csv
import datetime
import io
import json
import os
import random
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs, pop

TECHNIQUE = ('runtime monitor: round trip. The listings printed by the real command line for randomly written tables are parsed back and compared '
             'with the raw stored values')
LEVEL = 'exploration'
LEVEL_NOTE = ('Held on the tables and field selections generated. A null and the text "null" are the same in CSV and plain text; control characters '
              'are only required to be one line in plain text.')
RULE = 'tables of tasks in every state with ordinary and hostile text x field subsets and orders x format x delimiter; non-trivial when some value holds a delimiter, quote, line break or non-ASCII character'

CTRL = re.compile(r'[\x00-\x1f\x7f\x85\u2028\u2029]')


def stored(row, f):
    """The value a faithful format shows."""
    v = row[f]
    if f == 'retried':
        return bool(v)
    return v


def same(shown, row, f, typed=True):
    v = stored(row, f)
    if f in pop.TIMES and v is not None:
        try:
            if isinstance(shown, datetime.datetime):
                return shown.replace(tzinfo=None) == datetime.datetime.fromisoformat(v)
            return isinstance(shown, str) and ' ' in shown and datetime.datetime.fromisoformat(shown) == datetime.datetime.fromisoformat(v)
        except ValueError:
            return False
    if typed:
        return pop.identical(shown, v)
    if isinstance(v, str):
        return shown == v
    try:
        return pop.identical(json.loads(shown), v)
    except ValueError:
        return False


def line_ok(shown, row, f):
    """One value of a plain listing: exact, except that control characters may be written as an escape."""
    v = stored(row, f)
    if isinstance(v, str) and f not in pop.TIMES and CTRL.search(v):
        pattern = ''.join('(?:.{1,6})' if CTRL.match(ch) else re.escape(ch) for ch in v)
        return re.fullmatch(pattern, shown) is not None
    return same(shown, row, f, typed=False)


def listing(c, site, table, rng):
    fields = rng.sample(pop.COLUMNS, rng.choice([1, 2, 4, 8, len(pop.COLUMNS)]))
    if rng.random() < .6 and 'args' not in fields:
        fields[rng.randrange(len(fields))] = 'args'
    full = rng.random() < .25
    fmt = rng.choice(['json', 'csv', 'plain', 'plain'] if not full else ['json', 'csv', 'normal', 'plain'])
    delim = None
    if full:
        fields = list(pop.COLUMNS)
    args = ['task', 'search'] + ([] if full else fields)
    if fmt in ('json', 'csv') and rng.random() < .5:
        args.append('--' + fmt)
    elif fmt == 'plain' and not full and fields != pop.COLUMNS and rng.random() < .5:
        pass
    elif fmt == 'normal' and rng.random() < .5:
        pass
    else:
        args += ['-f', fmt]
    if fmt == 'csv' and rng.random() < .5:
        delim = rng.choice([';', '|', '\t', ':', ' '])
    if fmt == 'plain' and rng.random() < .4:
        delim = rng.choice(['|', '::', ' ## ', '\x1e'])
    if delim:
        args += [rng.choice(['-d', '--delimiter']), delim]
    args += ['-s', 'id']
    rows = [table[i] for i in sorted(table)]
    hostile = any(isinstance(r[f], str) and re.search(r'[",;|\t\n\r]|[^ -~]', r[f]) for r in rows for f in fields if f in pop.TEXT)
    p = site.cli(*args)
    c.case((fmt, tuple(fields) if not full else 'all', delim), sample=' '.join(args)[:140], nontrivial=hostile)
    c.count('listing ' + fmt)
    cmd = '`hs ' + ' '.join(args) + '`'
    replay = {'args': args, 'status': p.status, 'stderr': p.err[-300:], 'stdout': p.out[:500]}
    if p.status != 0:
        c.violation('listing-failed', f'{cmd} ended with status {p.status}: {p.err.strip()[-200:]}', replay)
        return
    raw = open(p.outpath, 'rb').read().decode('utf-8', 'strict')
    if fmt == 'json':
        try:
            data = json.loads(raw)
        except ValueError as e:
            c.violation('json', f'{cmd} prints no JSON: {e}', replay)
            return
        shown = [[d.get(f, KeyError) for f in fields] for d in data]
        if any(list(d) != fields for d in data):
            c.violation('json', f'{cmd}: fields {list(data[0])}', replay)
        ok = same
    elif fmt == 'csv':
        data = list(csv.reader(io.StringIO(raw, newline=''), delimiter=delim or ','))
        if not data or data[0] != fields:
            c.violation('csv', f'{cmd}: header is {data[:1]}', replay)
            return
        shown = data[1:]
        ok = lambda a, r, f: same(a, r, f, typed=False)
    elif fmt == 'plain':
        lines = raw.split('\n')
        if lines.pop() != '':
            c.violation('plain', f'{cmd}: last line is not ended', replay)
        d = delim or '\t'
        shown = [x.split(d) for x in lines] if len(fields) > 1 else [[x] for x in lines]
        ok = line_ok
        if len(lines) == len(rows) and len(fields) > 1:
            # a value may hold the delimiter itself: match the whole line instead
            for n, (x, r) in enumerate(zip(lines, rows)):
                if len(shown[n]) != len(fields):
                    if any(isinstance(r[f], (str, dict)) and d in (r[f] if isinstance(r[f], str) else json.dumps(r[f])) for f in fields) and d not in '\t\n\x1e':
                        shown[n] = None
    else:
        blocks = raw.split('---\n')[1:]
        if not any('\n---\n' in (r[f] or '') for r in rows for f in pop.TEXT) and len(blocks) != len(rows):
            c.violation('normal', f'{cmd}: {len(blocks)} records, {len(rows)} tasks', replay)
            return
        for b, r in zip(blocks, rows):
            for problem in normal_record(b, r):
                c.violation('normal', f'{cmd}: {problem}', dict(replay, row=r, block=b))
                return
        return
    if len(shown) != len(rows):
        c.violation(fmt, f'{cmd}: {len(shown)} records, {len(rows)} tasks', replay)
        return
    for got, r in zip(shown, rows):
        if got is None:
            continue
        if len(got) != len(fields):
            c.violation(fmt, f'{cmd}: {len(got)} values in a record of {len(fields)} fields: {got}', replay)
            return
        for a, f in zip(got, fields):
            c.count('values')
            if not ok(a, r, f):
                c.violation(fmt, f'{cmd}: field {f} is shown as {a!r}, stored is {r[f]!r}', replay)
                return


LABEL = {'id': 'id', 'args': 'args', 'command': 'command', 'exit_status': 'exit_status', 'attempt': 'attempt', 'retried': 'retried',
         'outpath': 'outpath', 'errpath': 'errpath', 'previous_id': 'previous_id', 'next_id': 'next_id', 'submit_time': 'submitted', 'schedule_time': 'scheduled'}
PAIRS = {'submit_host': ('submit_host', 'submit_id'), 'server_host': ('server_host', 'server_id'), 'client_host': ('client_host', 'client_id')}


def normal_record(block, r):
    """The semi-structured record: label, colon, value."""
    lines = {}
    for x in block.split('\n'):
        m = re.match(r' *([a-z_]+): (.*)$', x)
        if m:
            lines.setdefault(m.group(1), m.group(2))
    for f, label in LABEL.items():
        if label not in lines:
            yield f'no line for {f}'
        elif not line_ok(lines[label], r, f):
            yield f'{f} is shown as {lines[label]!r}, stored is {r[f]!r}'
    for label, (a, b) in PAIRS.items():
        want = f'{"null" if r[a] is None else r[a]} ({"null" if r[b] is None else r[b]})'
        if lines.get(label) != want:
            yield f'{label} line is {lines.get(label)!r}, stored is {want!r}'
    for label, f, g in (('started', 'start_time', 'waited'), ('completed', 'completion_time', 'duration')):
        m = re.fullmatch(r'(.*) \((\w+): (.*)\)', lines.get(label, ''))
        if not m or m.group(2) != g:
            yield f'{label} line is {lines.get(label)!r}'
            continue
        want = 'null' if r[g] is None else str(datetime.timedelta(seconds=r[g]))
        if not line_ok(m.group(1), r, f):
            yield f'{f} is shown as {m.group(1)!r}, stored is {r[f]!r}'
        if m.group(3) != want:
            yield f'{g} is shown as {m.group(3)!r}, stored is {r[g]!r}'
    if not tags_ok(lines.get('tags', lines.get('tag', '')), r['tag']):
        yield f'tags are shown as {lines.get("tags")!r}, stored are {r["tag"]!r}'


def tags_ok(text, tag):
    """Key, or key:value, in order, separated by comma and space."""
    parts = text.split(', ') if text else []
    if len(parts) != len(tag):
        return False
    for x, (k, v) in zip(parts, tag.items()):
        if v == '' and isinstance(v, str):
            if x not in (k, k + ':'):
                return False
        else:
            if not x.startswith(k + ':'):
                return False
            have = x[len(k) + 1:]
            if not (have == str(v) if isinstance(v, str) else pop.same(pop.coerce(have), v)):
                return False
    return True


def info(c, site, table, rng):
    import yaml
    r = table[rng.choice(sorted(table))]
    kind = rng.choice(['json', 'yaml', 'extract', 'extract', 'extract', 'normal', 'tag'])
    f = 'tag' if kind == 'tag' else rng.choice([x for x in pop.COLUMNS if x != 'tag'] + ['args'] * 6)
    sub = rng.choice(['normal', 'json', 'yaml'])
    args = ['task', 'info', r['id']]
    if kind in ('json', 'yaml'):
        args += rng.choice([['--' + kind], ['-f', kind], ['--format', kind]])
    elif kind in ('extract', 'tag'):
        args += [rng.choice(['-x', '--extract']), f] + (['-f', sub] if kind == 'tag' else [])
    p = site.cli(*args)
    c.case(('info', kind, f if kind in ('extract', 'tag') else '', sub if kind == 'tag' else '', r['args']), sample=' '.join(args[:2] + args[3:])[:80] + ' on ' + repr(r['args'])[:40],
           nontrivial=bool(re.search(r'["\\\n\t]|[^ -~]', r['args'])))
    c.count('info ' + kind)
    cmd = '`hs ' + ' '.join(args) + '`'
    raw = open(p.outpath, 'rb').read().decode('utf-8', 'strict')
    replay = {'args': args, 'status': p.status, 'stderr': p.err[-300:], 'stdout': raw[:500], 'row': r}
    if p.status != 0:
        c.violation('info-failed', f'{cmd} ended with status {p.status}: {p.err.strip()[-200:]}', replay)
        return
    try:
        if kind in ('json', 'yaml'):
            d = json.loads(raw) if kind == 'json' else yaml.safe_load(raw)
            if sorted(d) != sorted(pop.COLUMNS):
                c.violation('info', f'{cmd}: fields {list(d)}', replay)
                return
            for x in pop.COLUMNS:
                c.count('values')
                if not same(d[x], r, x):
                    c.violation('info', f'{cmd}: field {x} is shown as {d[x]!r}, stored is {r[x]!r}', replay)
        elif kind == 'tag':
            if sub == 'normal':
                good = raw.endswith('\n') and tags_ok(raw[:-1], r['tag'])
            else:
                good = pop.identical(json.loads(raw) if sub == 'json' else yaml.safe_load(raw), r['tag'])
            if not good:
                c.violation('extract', f'{cmd} prints {raw!r}, stored is {r["tag"]!r}', replay)
        elif kind == 'extract':
            if not (raw.endswith('\n') and same(raw[:-1], r, f, typed=False)):
                c.violation('extract', f'{cmd} prints {raw!r}, stored is {r[f]!r}', replay)
        else:
            for problem in normal_record(raw, r):
                c.violation('info', f'{cmd}: {problem}', replay)
                return
    except ValueError as e:
        c.violation('info', f'output of {cmd} cannot be read: {e}', replay)


def body(c):
    for size in c.pick((0, 25, 120), (0, 1, 25, 120, 800)):
        with hs.Site('c21', audit=False) as site:
            rows = pop.rows(c.rng, size, wild=True)
            for r, a in zip(rows, pop.WILD_ARGS):
                r['args'] = a
            if size == 120:      # tables are laid out for a terminal: only required to appear, whatever the text
                rows[3]['args'], rows[4]['args'] = 'ls [/tmp] [bold]x', '[/]'
            pop.insert(site.db, rows)
            table = pop.read(site.db)
            rngs = [random.Random(c.rng.getrandbits(64)) for _ in range(c.pick(220, 900))]
            jobs = [lambda r=r: listing(c, site, table, r) for r in rngs[:len(rngs) // (1 if size else 10)]]
            if size:
                jobs += [lambda r=r: info(c, site, table, r) for r in rngs]
            for r in hs.parallel(jobs, 8):
                if isinstance(r, Exception):
                    raise RuntimeError(r.tb)
            p = site.cli('task', 'search', 'args', '-f', 'table', env={'COLUMNS': '300'})
            c.count('tables')
            if p.status != 0:
                c.violation('table', f'`hs task search args -f table` ended with status {p.status}: {p.err.strip()[-200:]}', {'stderr': p.err[-500:]})
            else:
                for r in table.values():
                    if not CTRL.search(r['args']) and r['args'].isascii() and r['args'].strip() and r['args'] not in p.out:
                        c.violation('table', f'`hs task search args -f table`: {r["args"]!r} is not shown', {'stdout': p.out[:3000]})
                        break
    for f in ('json', 'csv', 'plain', 'normal'):
        c.require('listing ' + f, 10)
    for f in ('json', 'yaml', 'extract', 'normal', 'tag'):
        c.require('info ' + f, 10)


if __name__ == '__main__':
    core.main(core.Check('C21', LEVEL, RULE, TECHNIQUE), body)
