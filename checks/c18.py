"""C18: template expansion against a reference model of the documented pattern language."""
import json
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs

TECHNIQUE = 'runtime monitor: generated templates and arguments through the real expander, submit and client, checked online against a reference model'
LEVEL = 'exploration'
LEVEL_NOTE = ('Held on the generated template/argument pairs of this run (API level, plus submit -t and client -t end to end); '
              'the reference model is written from docs/_include/templates.rst and trusts os.path and the system shell.')

RULE = ('templates are random concatenations of literal text and documented patterns, arguments are paths, word lists, numbers and '
        'hostile text (braces, pattern look-alikes, @, %, quotes); non-trivial when the template has a pattern and the pair is new')


def coerce(a):
    low = a.lower()
    if low in ('null', 'none'):
        return None
    if low in ('true', 'false'):
        return low == 'true'
    for f in (int, float):
        try:
            return f(a)
        except ValueError:
            pass
    return a


class Err:
    """Expansion must fail."""


def ext(a):
    return os.path.splitext(a)[1]


SIMPLE = {
    '{}': lambda a: a,
    '{.}': lambda a: os.path.dirname(a),
    '{..}': lambda a: os.path.dirname(os.path.dirname(a)),
    '{/}': lambda a: os.path.basename(a),
    '{/-}': lambda a: os.path.splitext(os.path.basename(a))[0],
    '{-}': lambda a: os.path.splitext(a)[0],
    '{+}': ext,
    '{++}': lambda a: ext(a)[1:],
}


def slice_pattern(rng):
    def num():
        return str(rng.choice([0, 1, 2, 3, 4, 10, -1, -2, -3, -10]))
    kind = rng.random()
    if kind < 0.35:
        key = num()
        idx = int(key)

        def f(a):
            c = a.split()
            return c[idx] if -len(c) <= idx < len(c) else Err
    else:
        a_, b_ = (num() if rng.random() < 0.6 else '' for _ in range(2))
        c_ = rng.choice(['1', '2', '3', '-1', '-2', '']) if rng.random() < 0.5 else None
        key = f'{a_}:{b_}' + ('' if c_ is None else f':{c_}')
        sl = slice(*(int(v) if v else None for v in (a_, b_, c_ or '')))

        def f(a):
            return ' '.join(a.split()[sl])
    return '{[' + key + ']}', f


LAMBDA = [
    ('x', lambda x: x),
    ('x + 1', lambda x: x + 1),
    ('x * math.pi', lambda x: x * math.pi),
    ('x == 1', lambda x: x == 1),
    ('x != 1', lambda x: x != 1),
    ('str(x) >= "a"', lambda x: str(x) >= 'a'),
    ('"a" <= str(x)', lambda x: 'a' <= str(x)),
    ('type(x).__name__', lambda x: type(x).__name__),
    ('repr(x)', repr),
    ('path.basename(str(x))', lambda x: os.path.basename(str(x))),
    ('os.path.join("a", str(x))', lambda x: os.path.join('a', str(x))),
    ('str(x) + "=" + str(x)', lambda x: f'{x}={x}'),
    ('str(x)[::-1]', lambda x: str(x)[::-1]),
    ('"%s" % x', lambda x: '%s' % x),
    ('x.upper()', lambda x: x.upper()),
    ('len(x.split())', lambda x: len(x.split())),
    ('dt.timedelta(seconds=x)', lambda x: __import__('datetime').timedelta(seconds=x)),
    ('undefined_name', lambda x: 1 / 0),
]


def lambda_pattern(rng):
    expr, f = rng.choice(LAMBDA)
    sp = rng.choice(['', ' ', '  '])

    def g(a):
        try:
            return str(f(coerce(a)))
        except Exception:
            return Err
    return '{=' + sp + expr + (sp or (' ' if expr.endswith('=') else '')) + '=}', g


SAFE = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/._- ')
SHELL = [
    ('echo @', lambda a: ' '.join(a.split())),
    ('echo A@B@', lambda a: ' '.join(f'A{a}B{a}'.split())),
    ('printf "%s-%s" 1 2', lambda a: '1-2'),
    ('date -u -d "2020-01-02" +%F', lambda a: '2020-01-02'),
    ('printf "  pad  "', lambda a: 'pad'),
    ('echo 100%', lambda a: '100%'),
    ('false', lambda a: Err),
    ('echo a=b=c', lambda a: 'a=b=c'),
]


def shell_pattern(rng):
    cmd, f = rng.choice(SHELL)
    sp = rng.choice([' ', '  '])

    def g(a):
        return f(a)
    return '{%' + sp + cmd + sp + '%}', g, '@' in cmd


UNKNOWN = ['{foo}', '{...}', '{+++}', '{[a]}', '{[0}', '{0]}', '{=x}', '{x=}', '{%x}', '{x%}', '{//}', '{--}', '{0}', '{name}',
           '{[0]x}', '{[]}', '{[1:2:3:4]}', '{[1.5]}', '{[x]}', '{= x =}tail', '{= x = y}', '{% echo a % b}', '{/+}', '{.-}', '{1}',
           '{[0], [1]}', '{@}', '{*}', '{%% echo}', '{[1-2]}', '{-/}', '{[0][1]}']
UNKNOWN.remove('{= x =}tail')

LITERALS = ['', ' ', 'echo ', '--out=', '"', "'", '/tmp/', '$HOME', '%', '=', '@', '[0]', '}', '\\', '\t', 'é ', '.', '++', '#', '$(x)', '-> ', '%%', '==', '[', ']', ':', '漢']


def make_args(rng):
    kind = rng.randrange(8)
    if kind == 0:
        return rng.choice(['', '1', '2', '0', '-3', '4.67', '1e3', 'null', 'None', 'TRUE', 'false', 'nan', '007', '1_000', '0x10', 'x'])
    if kind in (1, 2, 3):
        parts = [rng.choice(['some', 'path', 'to', 'a.b', '.hid', 'x y', '..', '', 'dir.d', 'é', '{}', 'A']) for _ in range(rng.randrange(4))]
        name = rng.choice(['file', 'f.h5', 'a.tar.gz', '.bashrc', 'x.', '..', 'no ext', 'f.h5.', 'a..b', '{.}', 'file.{}', 'x.{+}', '.a.b', ''])
        return ('/' if rng.random() < 0.5 else '') + '/'.join([*parts, name])
    if kind in (4, 5):
        return rng.choice(['', ' ', '  ']).join(rng.choice(['a', 'bb', '--opt', '-x', '1', '{[0]}', '{}', 'é', '"q"', 'a=b']) + ' ' for _ in range(rng.randrange(7))).strip()
    if kind == 6:
        return ''.join(rng.choice(['{}', '{.}', '{= 1 =}', '{% echo hacked %}', '@', '%', '{', '}', ' ', 'z', '\\', '{foo}', '\\1', '$0', '%s']) for _ in range(rng.randrange(1, 6))).strip()
    return ''.join(chr(rng.choice([*range(33, 127), 0xe9, 0x6f22, 0x1f600])) for _ in range(rng.randrange(1, 20)))


def build(rng):
    """-> (template, args, expected or Err, nontrivial)"""
    args = make_args(rng)
    if rng.random() < 0.12:
        bad = rng.choice(UNKNOWN)
        pre, post = rng.choice(['', 'echo ', '{} ']), rng.choice(['', ' {}', ' x'])
        return pre + bad + post, args, Err, True
    text, want, pats = '', '', 0
    shell_ok = set(args) <= SAFE and args == args.strip()
    for _ in range(rng.randrange(1, 6)):
        r = rng.random()
        if r < 0.35:
            lit = rng.choice(LITERALS)
            text += lit
            want = want if want is Err else want + lit
            continue
        pats += 1
        if r < 0.65:
            p = rng.choice(list(SIMPLE))
            f = SIMPLE[p]
        elif r < 0.82:
            p, f = slice_pattern(rng)
        elif r < 0.94 or not shell_ok:
            p, f = lambda_pattern(rng)
        else:
            p, f, _ = shell_pattern(rng)
        got = f(args)
        text += p
        want = Err if (want is Err or got is Err) else want + got
    if rng.random() < 0.1:   # an unmatched opening brace is plain text
        text += '{'
        want = want if want is Err else want + '{'
    return text, args, want, pats > 0


DOCUMENTED = [
    ('{.}', '/some/path/to/file.h5', '/some/path/to'), ('{..}', '/some/path/to/file.h5', '/some/path'),
    ('{/}', '/some/path/to/file.h5', 'file.h5'), ('{/-}', '/some/path/to/file.h5', 'file'),
    ('{-}', '/some/path/to/file.h5', '/some/path/to/file'), ('{+}', '/some/path/to/file.h5', '.h5'),
    ('{++}', '/some/path/to/file.h5', 'h5'), ('{}', 'a  b', 'a  b'),
    ('{[0]}', 'a b c d e', 'a'), ('{[1]}', 'a b c d e', 'b'), ('{[-1]}', 'a b c d e', 'e'), ('{[1:3]}', 'a b c d e', 'b c'),
    ('{[:4]}', 'a b c d e', 'a b c d'), ('{[-2:]}', 'a b c d e', 'd e'), ('{[::2]}', 'a b c d e', 'a c e'), ('{[1::2]}', 'a b c d e', 'b d'),
    ('{% basename @ %}', '/some/file.h5', 'file.h5'), ('{= x * math.pi =}', '2', str(2 * math.pi)), ('no pattern', 'x', 'no pattern'),
    ('{[::-1]}', 'a b c', 'c b a'), ('{= x == 1 =}', '1', 'True'), ('{% date -u -d 2020-01-02 +%F %}', 'x', '2020-01-02'),
]


def body(c):
    site = hs.Site('c18', audit=False)
    n = c.pick(6000, 120000)
    cases = [(t, a, w, True) for t, a, w in DOCUMENTED]
    cases += [(bad, 'a b c', Err, True) for bad in UNKNOWN]
    # every simple pattern against every argument kind
    while len(cases) < n:
        cases.append(build(c.rng))
    src = '\n'.join(json.dumps([t, a]) for t, a, _, _ in cases) + '\n'
    p = site.script(hs.VERIF / 'workers' / 'template.py', stdin=src, timeout=c.pick(200, 800))
    out = [json.loads(l) for l in p.out.splitlines()]
    if p.status != 0 or len(out) != len(cases):
        raise core.Inconclusive('worker failed: ' + p.tail(600))
    for (t, a, want, nt), got in zip(cases, out):
        c.case((t, a), sample={'template': t, 'args': a, 'result': got}, nontrivial=nt)
        if want is Err:
            c.count('errors_expected')
            if got[0] == 'ok':
                c.violation('silent-substitution', f'{t!r} on {a!r} gave {got[1]!r}, expected an error', {'template': t, 'args': a})
        else:
            c.count('values_compared')
            if got[0] != 'ok':
                c.violation('rejected', f'{t!r} on {a!r} failed with {got[1:]}, expected {want!r}', {'template': t, 'args': a})
            elif got[1] != want:
                c.violation('wrong-value', f'{t!r} on {a!r} gave {got[1]!r}, expected {want!r}', {'template': t, 'args': a, 'want': want})
    # end to end: submit -t (stored argument text), client -t (executed command)
    pool = [x for x in cases if x[3] and x[2] is not Err and '\n' not in x[1] and '\x00' not in x[2] and '%' not in x[0]]
    for rnd in range(c.pick(4, 30)):
        t = c.rng.choice(pool)[0]
        lines = [a for a in (make_args(c.rng) for _ in range(12)) if a.strip() == a and a and '\n' not in a and '\r' not in a]
        res = site.script(hs.VERIF / 'workers' / 'template.py', stdin='\n'.join(json.dumps([t, a]) for a in lines) + '\n')
        got = [json.loads(l) for l in res.out.splitlines()]
        lines = [(a, g[1].strip()) for a, g in zip(lines, got) if g[0] == 'ok']
        if not lines:
            continue
        before = len(site.tasks())
        r = site.cli('submit', '-t', t, stdin='\n'.join(a for a, _ in lines) + '\n')
        stored = [x['args'] for x in site.tasks()[before:]]
        c.count('submitted_lines', len(stored))
        if r.status != 0 or stored != [w for _, w in lines]:
            c.violation('submit-template', f'submit -t {t!r} of {lines} stored {stored} ({r.status})', {'template': t, 'lines': lines})
    for bad in c.rng.sample(UNKNOWN, 4):
        before = len(site.tasks())
        r = site.cli('submit', '-t', bad, stdin='a b c\n')
        c.count('rejected_submissions')
        if r.status == 0 or len(site.tasks()) != before:
            c.violation('unknown-accepted', f'submit -t {bad!r} exit {r.status}, stored {len(site.tasks()) - before}', {'template': bad})
    log = site.path / 'popen.log'
    lines = [f'/d{i}/s.{i}/f_{i}.tar.gz w{i} {{}} z' for i in range(8)]
    tmpl = 'true {} | {/} | {[1]} | {[-1]} | {++} | {= len(x) =}'
    sv = site.server('-', '--no-confirm', stdin='\n'.join(lines) + '\n', env={'HYPERSHELL_DATABASE_FILE': str(site.path / 'e2e.db')})
    hs.wait_listening(sv)
    cl = site.client(sv, '-t', tmpl, '-N', 2, perturb={'popen_log': str(log)})
    state = hs.settle([sv, cl], lambda: log.stat().st_size if log.exists() else 0)
    ran = sorted(json.loads(l)['argv'][-1] for l in log.open()) if log.exists() else []
    want = sorted(f"true {a} | {os.path.basename(a)} | {a.split()[1]} | {a.split()[-1]} | {ext(a)[1:]} | {len(a)}" for a in lines)
    c.count('executed_commands', len(ran))
    if state == 'timeout':
        raise core.Inconclusive('end-to-end run did not end')
    if ran != want:
        c.violation('client-template', f'client executed {ran[:3]}.. expected {want[:3]}..', {'template': tmpl, 'lines': lines})
    site.close()
    c.require('values_compared', n // 4)
    c.require('errors_expected', 100)
    c.require('submitted_lines', 5)
    c.require('executed_commands', 8)


if __name__ == '__main__':
    core.main(core.Check('C18', LEVEL, RULE), body)
