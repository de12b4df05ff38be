"""Random task populations written straight into a database, and a reference reading of search conditions."""
import datetime
import json
import random
import re
import sqlite3
import uuid

COLUMNS = ['id', 'args', 'submit_id', 'submit_time', 'submit_host', 'server_id', 'server_host', 'schedule_time',
           'client_id', 'client_host', 'command', 'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath',
           'attempt', 'retried', 'waited', 'duration', 'previous_id', 'next_id', 'tag']
TEXT = ['id', 'args', 'submit_id', 'submit_host', 'server_id', 'server_host', 'client_id', 'client_host', 'command',
        'outpath', 'errpath', 'previous_id', 'next_id']
INTS = ['exit_status', 'attempt', 'waited', 'duration']
TIMES = ['submit_time', 'schedule_time', 'start_time', 'completion_time']

KEYS = ['x', 'y', 'site', 'a.b', 'my-key', 'k_1', 'file', 'X', 'x2', 'two words', 'n[0]', '$', 'é', "it's", '100%']
HOSTS = ['node1', 'node2', 'node10', 'vm', 'Node1', 'n%']
PLAIN_ARGS = ['echo 1', 'echo 2', 'sleep 10', 'true', 'false', 'echo', 'bin/run.sh a.txt', 'bin/run.sh b.txt',
              'a,b;c', 'x == y', 'null', 'none', 'None', '1', '007', '1.5', 'true', '2023-01-01', 'ECHO 1', 'echo é漢',
              'a%b', 'a_b', '100%', '*', '[ab]', '$HOME', "it's", '-v', '--', '{}', '~', 'a.b', 'a\\b', 'Zz', 'zZ']
WILD_ARGS = ['echo "hi"', '"quoted"', '"', '""', 'ends "', '"starts', "'", 'tab\there', 'two\nlines', 'a\\nb', 'cr\rhere', 'back\\', 'comma, "q"',
             '- item', 'key: value', '# comment', '&anchor', '!tag', '|', '> x', '%', '@x', '`x`', 'é"漢', '😀', '\x7f', '\x01', '\x85x', '\u2028y', 'x\u2029',
             '{"a": 1}', '[1, 2]', '~', 'yes', 'no', 'on', 'off', '0x10', '1e3', '1_000', '12:30:45', '.inf', 'nan', '=', '<<', 'a\n\nb', 'a \nb', '\ufeffz', ' lead']


def stamp(rng, base, n):
    return base + datetime.timedelta(seconds=n, microseconds=rng.choice([0, 1, 500000, 999999, rng.randrange(10**6)]))


def tag_value(rng):
    return rng.choice([0, 1, 2, -5, 10, 0.5, 1.0, 2.5, -0.25, 1e20, 123456789012, 0.30000000000000004, True, False, None, '',
                       'a', 'b', 'A', 'ab', 'a.b', 'x+y', '1', '1.0', 'true', 'null', '0', 'v_1', '-', 'z' * 120,
                       'echo', '2023-01-01'])


def rows(rng, n, wild=False, keys=KEYS):
    """Rows in every life-cycle state, in database representation except that tag is a dict."""
    base = datetime.datetime(2024, 2, 28, 23, 59, 0)
    ids = [str(uuid.UUID(int=rng.getrandbits(128), version=4)) for _ in range(n)]
    subs = [str(uuid.UUID(int=rng.getrandbits(128), version=4)) for _ in range(3)]
    srv = [str(uuid.UUID(int=rng.getrandbits(128), version=4)) for _ in range(2)]
    cli = [str(uuid.UUID(int=rng.getrandbits(128), version=4)) for _ in range(3)]
    fmt = lambda d: d.strftime('%Y-%m-%d %H:%M:%S.%f')
    out = []
    for i in range(n):
        r = dict.fromkeys(COLUMNS)
        args = rng.choice(WILD_ARGS if wild and rng.random() < .7 else PLAIN_ARGS)
        t0 = stamp(rng, base, rng.choice([i, i, rng.randrange(n)]))
        r.update(id=ids[i], args=args, submit_id=rng.choice(subs), submit_time=fmt(t0), submit_host=rng.choice(HOSTS + [None]),
                 attempt=1, retried=0)
        state = rng.choice(['new', 'new', 'scheduled', 'confirmed', 'done', 'done', 'done', 'failed', 'failed', 'cancelled', 'retried'])
        if state != 'new':
            t1 = stamp(rng, t0, rng.randrange(1, 100))
            r['schedule_time'] = fmt(t1)
            if state != 'cancelled' or rng.random() < .3:
                r.update(server_id=rng.choice(srv), server_host=rng.choice(HOSTS))
        if state in ('confirmed', 'done', 'failed', 'retried'):
            r.update(client_id=rng.choice(cli), client_host=rng.choice(HOSTS))
        if state in ('done', 'failed', 'retried'):
            w, d = rng.choice([0, 0, 1, 5, rng.randrange(9999)]), rng.choice([0, 1, 2, rng.randrange(99999)])
            t2 = t0 + datetime.timedelta(seconds=w)
            r.update(command=rng.choice([args, args + ' >out', f'run "{args}"']), start_time=fmt(t2), completion_time=fmt(t2 + datetime.timedelta(seconds=d)),
                     waited=w, duration=d, exit_status=0 if state == 'done' else rng.choice([1, 1, 2, 127, 255, -9, -15, -1]))
            if rng.random() < .3:
                r.update(outpath=f'/tmp/{ids[i]}.out', errpath=f'/tmp/{ids[i]}.err')
        if state == 'cancelled':
            r['exit_status'] = -1
        if state == 'retried':
            r['retried'] = 1
        if rng.random() < .2:
            r['attempt'] = rng.randrange(2, 5)
        r['tag'] = {k: tag_value(rng) for k in rng.sample(keys, rng.choice([0, 0, 1, 1, 2, 3]))}
        out.append(r)
    for a, b in zip(out, out[1:]):           # some chains, in both directions
        if a['retried'] and a['next_id'] is None and b['previous_id'] is None:
            a['next_id'], b['previous_id'], b['attempt'] = b['id'], a['id'], a['attempt'] + 1
    return out


def insert(db, rows):
    con = sqlite3.connect(db, timeout=60)
    with con:
        con.executemany(f'INSERT INTO task ({",".join(COLUMNS)}) VALUES ({",".join("?" * len(COLUMNS))})',
                        [[json.dumps(r[c]) if c == 'tag' else r[c] for c in COLUMNS] for r in rows])
    con.close()


def read(db):
    con = sqlite3.connect(db, timeout=60)
    con.row_factory = sqlite3.Row
    out = {}
    for r in con.execute('SELECT * FROM task'):
        d = {c: r[c] for c in COLUMNS}
        d['tag'] = json.loads(d['tag'])
        out[d['id']] = d
    con.close()
    return out


def same(a, b):
    """Equality with type (true is not 1), 1 equals 1.0."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) is type(b) and a == b


def identical(a, b):
    """Same value and same type, also inside tags."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(identical(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def coerce(text):
    low = text.lower()
    if low in ('null', 'none'):
        return None
    if low in ('true', 'false'):
        return low == 'true'
    if re.fullmatch(r'[+-]?\d+', text):
        return int(text)
    if re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', text):
        return float(text)
    return text


OPS = ['==', '!=', '>', '>=', '<', '<=', '~']


class Cond:
    """One -w condition."""

    def __init__(self, field, op, text, style=0):
        self.field, self.op, self.text = field, op, text
        self.arg = f'{field}{op}{text}' if style == 0 else f'{field} {op} {text}' if style == 1 else f'{field}  {op}{text}'

    def ok(self, row):
        have = row[self.field]
        if self.field in TEXT:
            want = None if self.text.lower() in ('none', 'null') else self.text
        else:
            want = coerce(self.text)
        if self.field == 'retried':
            have = bool(have)
            want = want if want is None else bool(want)
        if want is None:
            return (have is None) == (self.op == '==')
        if have is None:
            return False
        return {'==': lambda: have == want, '!=': lambda: have != want, '>': lambda: have > want, '>=': lambda: have >= want,
                '<': lambda: have < want, '<=': lambda: have <= want, '~': lambda: re.search(want, have) is not None}[self.op]()


def cond(rng, rows):
    style = rng.randrange(3)
    kind = rng.random()
    if kind < .12:
        return Cond(rng.choice(COLUMNS[:-1]), rng.choice(['==', '!=']), rng.choice(['null', 'none', 'None', 'NULL']), style)
    if kind < .2:
        return Cond('retried', rng.choice(['==', '!=']), rng.choice(['true', 'false', 'True', '1', '0']), style)
    if kind < .6:
        f = rng.choice(INTS)
        have = [r[f] for r in rows if r[f] is not None]
        v = rng.choice(have) if have and rng.random() < .8 else rng.randrange(-10, 50)
        v += rng.choice([0, 0, 0, 1, -1])
        text = str(v) if rng.random() < .85 else f'{v}.0' if rng.random() < .5 else f'{v}.5'
        return Cond(f, rng.choice(OPS[:-1]), text, style)
    f = rng.choice(['args', 'args', 'submit_host', 'client_host', 'server_host', 'command', 'id', 'submit_id', 'client_id', 'outpath', 'next_id'])
    have = [r[f] for r in rows if r[f] is not None and '\n' not in r[f] and r[f].strip() == r[f] and r[f].lower() not in ('null', 'none') and r[f][:1] not in '=']
    v = rng.choice(have) if have and rng.random() < .9 else 'node1'
    if rng.random() < .35:
        pat = rng.choice([re.escape(v), '^' + re.escape(v[:4]), re.escape(v[-3:]) + '$', '[0-9]+', 'echo|sleep', '^.$', 'é', 'Node', '^node[12]$', r'\.txt', 'a.b', '(?i)ECHO'])
        return Cond(f, '~', pat, style) if pat.strip() == pat else Cond(f, '~', 'e', style)
    return Cond(f, rng.choice(OPS[:-1]), v, style)


def render(value):
    """The command-line spelling of a tag value that is read back as that value; None when there is none."""
    if value is True or value is False:
        return 'true' if value else 'false'
    if value is None:
        return 'null'
    if isinstance(value, (int, float)):
        return repr(value)
    return value if value != '' and coerce(value) == value and isinstance(coerce(value), str) else None


class TagCond:
    def __init__(self, key, value=None, naked=True):
        self.key, self.value, self.naked = key, value, naked
        self.arg = key if naked else f'{key}:{render(value)}'

    def ok(self, row):
        if self.key not in row['tag']:
            return False
        return self.naked or same(row['tag'][self.key], self.value)


def tag_cond(rng, rows, keys=KEYS):
    pairs = [(k, v) for r in rows for k, v in r['tag'].items()]
    if rng.random() < .4 or not pairs:
        return TagCond(rng.choice(keys))
    kind = rng.choice(sorted({type(v).__name__ for _, v in pairs}))
    k, v = rng.choice([x for x in pairs if type(x[1]).__name__ == kind])
    if rng.random() < .2:
        v = tag_value(rng)
    if rng.random() < .1:
        k = rng.choice(keys)
    return TagCond(k, v, False) if render(v) is not None else TagCond(k)


ALIASES = {'-F': lambda r: r['exit_status'] is not None and r['exit_status'] != 0, '-S': lambda r: r['exit_status'] == 0,
           '-C': lambda r: r['exit_status'] is not None, '-R': lambda r: r['exit_status'] is None}
LONG = {'-F': '--failed', '-S': '--succeeded', '-C': '--completed', '-R': '--remaining'}


class Select:
    """A random selection: -w / -t / alias."""

    def __init__(self, rng, rows, most=3, keys=KEYS):
        # most selections are drawn so that a task picked at random satisfies them
        aim = rng.choice(rows) if rows and rng.random() < .75 else None

        def draw(fn):
            for _ in range(30):
                x = fn()
                if aim is None or x.ok(aim):
                    break
            return x
        self.conds = [draw(lambda: cond(rng, rows)) for _ in range(rng.choice([0, 1, 1, 2, most]))]
        self.tags = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            t = draw(lambda: tag_cond(rng, [aim] if aim and aim['tag'] and rng.random() < .7 else rows, keys))
            if t.key not in [x.key for x in self.tags]:
                self.tags.append(t)
        self.alias = rng.choice([None, None, *[a for a in ALIASES if aim is None or ALIASES[a](aim)]])
        groups = []
        if self.conds:
            groups.append([rng.choice(['-w', '--where']), *[c.arg for c in self.conds]])
        if self.tags:
            groups.append([rng.choice(['-t', '--with-tag']), *[t.arg for t in self.tags]])
        if self.alias:
            groups.append([rng.choice([self.alias, LONG[self.alias]])])
        rng.shuffle(groups)
        self.args = [a for g in groups for a in g]

    def ok(self, row):
        return all(c.ok(row) for c in self.conds) and all(t.ok(row) for t in self.tags) and (not self.alias or ALIASES[self.alias](row))


def sort_key(field):
    def key(row):
        v = row[field]
        return (0,) if v is None else (1, v)
    return key


def check_order(got, matching, order, desc, limit):
    """Problems of an ordered, truncated listing (`got` and `matching` are rows)."""
    want = len(matching) if limit is None else min(limit, len(matching))
    ids = [r['id'] for r in got]
    if len(set(ids)) != len(ids):
        yield 'the same task is listed more than once'
    known = {r['id'] for r in matching}
    extra = [i for i in ids if i not in known]
    if extra:
        yield f'{len(extra)} task(s) listed which do not satisfy the conditions'
    if len(ids) != want:
        yield f'{len(ids)} task(s) listed, {want} expected'
    if order and not extra and len(ids) == want:
        k = sort_key(order)
        ref = sorted((k(r) for r in matching), reverse=desc)[:want]
        have = [k(r) for r in got]
        if have != ref:
            yield f'tasks not in {"descending" if desc else "ascending"} order of {order}'
