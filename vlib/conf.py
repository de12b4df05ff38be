"""Random configuration trees, TOML files and a reference merge."""
import json

THEMES = ['monokai', 'vim', 'default', 'emacs']


def text(rng):
    return rng.choice(['a', 'some value', 'x.y', 'é漢', 'with "quotes"', "it's", 'back\\slash', 'a=b', '# no comment', '/some/path', 'tab\there', 'C:\\new', '%d', '~', '{x}',
                       'UPPER', 'trail ', ' lead', "''", 'a,b', 'a]b', '-', 'null ', 'yes', '00:01:00', 'key: value', '😀', 'p@ss:w/rd?#', 'w' * 200, '$HOME'])


def num(rng, lo=0, hi=99999):
    return rng.randrange(lo, hi)


# option -> value generator; every value generated is acceptable to the program
OPTIONS = {
    'server.port': lambda r: num(r, 1024, 65535), 'server.bind': text, 'server.auth': text, 'server.bundlesize': num, 'server.queuesize': num, 'server.attempts': num,
    'server.eager': lambda r: r.random() < .5, 'server.wait': num, 'server.evict': lambda r: r.choice([60, 600, 0.5, 86400]), 'server.bundlewait': num,
    'submit.bundlesize': num, 'submit.bundlewait': lambda r: r.choice([1, 2.5, 10]),
    'client.bundlesize': num, 'client.bundlewait': num, 'client.heartrate': num, 'client.timeout': num,
    'task.timeout': num, 'task.signalwait': num, 'task.cwd': text,
    'autoscale.policy': lambda r: r.choice(['fixed', 'dynamic']), 'autoscale.factor': lambda r: r.choice([1, 2.0, 0.25]), 'autoscale.period': num,
    'autoscale.launcher': text, 'autoscale.size.init': num, 'autoscale.size.min': num, 'autoscale.size.max': num,
    'console.theme': lambda r: r.choice(THEMES), 'logging.level': lambda r: r.choice(['error', 'critical', 'warning', 'ERROR', 'info']),
    'logging.datefmt': lambda r: r.choice(['%H:%M', '%Y-%m-%d', 'x y']), 'logging.color': lambda r: r.random() < .5,
    'logging.format': lambda r: r.choice(['%(message)s', '%(levelname)s %(message)s', 'é %(message)s']),
    'logging.style': lambda r: r.choice(['default', 'system', 'detailed', 'detailed-compact']),
    'export.foo': text, 'export.bar': num, 'export.path': lambda r: [text(r) for _ in range(r.randrange(4))], 'export.flag': lambda r: r.random() < .5,
    'ssh.config': text, 'ssh.args': text, 'ssh.nodelist.one': lambda r: [f'n{i}' for i in range(r.randrange(4))], 'ssh.nodelist.two': lambda r: ['h1', 'h2'],
    'custom.a': text, 'custom.b': num, 'custom.deep.er.x': text, 'custom.deep.er.y': lambda r: r.choice([1.5, -2, 10**10]), 'custom.deep.z': text,
}
STYLES = {'default', 'system', 'detailed', 'detailed-compact'}


def put(tree, path, value):
    *parents, last = path.split('.')
    for p in parents:
        tree = tree.setdefault(p, {})
    tree[last] = value


def get(tree, path):
    for p in path.split('.'):
        if not isinstance(tree, dict) or p not in tree:
            raise KeyError(path)
        tree = tree[p]
    return tree


def has(tree, path):
    try:
        get(tree, path)
        return True
    except KeyError:
        return False


def merge(*trees):
    out = {}
    for t in trees:
        for k, v in t.items():
            out[k] = merge(out[k] if isinstance(out.get(k), dict) else {}, v) if isinstance(v, dict) else v
    return out


def literal(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, list):
        return '[' + ', '.join(map(literal, v)) + ']'
    return json.dumps(v, ensure_ascii=False)


def dump(tree, rng=None, notes=None):
    """TOML text. With `notes` (a list) comments are sprinkled in and their texts recorded."""
    lines = []

    def note(indent=''):
        if notes is not None and rng.random() < .35:
            lines.append(f'{indent}# note ~ {rng.choice(["port = 1", "[section]", "é", "about", ""])}'.rstrip())
        if notes is not None and rng.random() < .3:
            lines.append('')

    blocks = []

    def leaf(key, value):
        note()
        s = f'{key} = {value}'
        if notes is not None and rng.random() < .25:
            s += '  # tail ~'
        lines.append(s)

    def emit(t, name):
        nonlocal lines
        inside = {}
        if notes is not None:
            inside = {k: rng.choice(['dotted', 'inline']) for k in t if name and isinstance(t[k], dict) and t[k] and rng.random() < .2
                      and not any(isinstance(v, (dict, list)) for v in t[k].values())}
        leaves = [k for k in t if not isinstance(t[k], dict) or k in inside]
        lines = []
        if name and (leaves or not t):
            note()
            lines.append(f'[{name}]')
        for k in leaves:
            if inside.get(k) == 'inline':
                leaf(k, '{' + ', '.join(f'{x} = {literal(v)}' for x, v in t[k].items()) + '}')
            elif inside.get(k) == 'dotted':
                for x, v in t[k].items():
                    leaf(f'{k}.{x}', literal(v))
            else:
                leaf(k, literal(t[k]))
        blocks.append(lines)
        for k in t:
            if isinstance(t[k], dict) and k not in inside:
                emit(t[k], f'{name}.{k}' if name else k)
    emit(tree, '')
    lines = []
    if notes is not None:
        head, *rest = blocks      # options outside of any section come first
        if rng.random() < .3:     # sections in any order
            rng.shuffle(rest)
        blocks = [head, *rest]
        note()
    lines = [ln for b in blocks for ln in b] + lines
    for n, ln in enumerate(lines if notes is not None else ()):      # number the comments in order
        at = max(ln.rfind('# note ~'), ln.rfind('# tail ~'))
        if at >= 0:
            lines[n] = ln[:at] + ln[at:].replace('~', str(len(notes)), 1)
            notes.append(lines[n][at:])
    return '\n'.join(lines) + '\n'


def env_name(path):
    return 'HYPERSHELL_' + path.upper().replace('.', '_')


def env_value(v):
    """Text of an environment variable and the value it stands for."""
    return ('true' if v is True else 'false' if v is False else str(v)), v


def shown(v):
    """How a single value is printed by `config get`."""
    return v if isinstance(v, str) else json.dumps(v)
