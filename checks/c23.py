"""C23: setting an option changes that option and nothing else."""
import json
import os
import random
import re
import sys
import tomllib

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import conf, core, hs, pop

TECHNIQUE = ('runtime monitor: around every `config set` of a random history the configuration files of all sites are parsed and compared: the option set, every other option, '
             'the comments, the untouched lines, the backups, the other sites; the option is then read back with `config get`')
LEVEL = 'exploration'
LEVEL_NOTE = 'Held on the histories generated. The system file is a stand-in (the real path is redirected into the scratch site); values are ones the command line spells unambiguously.'
RULE = 'random TOML documents with comments, sequences of sets of existing, new and nested options in random sites; non-trivial when the document already had content'


def plain(tree):
    return {k: plain(v) if isinstance(v, dict) else v for k, v in tree.items()}


def equal(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(map(equal, a, b))
    return pop.same(a, b)


def listing(site, where):
    """Every file beside the configuration files."""
    out = {}
    for d in {p.parent for p in where.values()}:
        if d.is_dir():
            for p in d.iterdir():
                if p.is_file() and (p in where.values() or p.name.startswith('.config')):
                    out[p] = p.read_bytes()
    return out


def scalar_above(tree, path):
    for part in path.split('.')[:-1]:
        if part not in tree:
            return False
        tree = tree[part]
        if not isinstance(tree, dict):
            return True
    return False


def late(before, path, name):
    """Is a section of the option declared after, and apart from, its own subsections?"""
    heads = re.findall(r'^\[([^\[\]]+)\]', before.get(path, b'').decode(), re.M)
    sections = ['.'.join(name.split('.')[:k]) for k in range(1, name.count('.') + 1)]
    return any(s in heads and any(h.startswith(s + '.') for h in heads[:heads.index(s)]) for s in sections)


def fixed(c):
    """A section apart from, and after, its subsections."""
    with hs.Site('c23f', db=False) as site:
        path = site.path / 'site' / 'config.toml'
        path.write_text('[custom.deep]\nz = 1\n[server]\nport = 5\n[custom]\na = 1\n')
        r = site.cli('config', 'set', 'custom.new', '2', '--local', env={'HYPERSHELL_CONFIG_FILE': None})
        try:
            good = r.status == 0 and tomllib.loads(path.read_text()) == {'custom': {'deep': {'z': 1}, 'a': 1, 'new': 2}, 'server': {'port': 5}}
        except ValueError:
            good = False
        if not good:
            c.violation('section-after-subsections', f'`config set custom.new 2` leaves {path.read_text()!r} where [custom] stands apart from and after [custom.deep]', {})


def scenario(c, n, rng):
    with hs.Site('c23', db=False) as site:
        (site.path / 'etc').mkdir()
        (site.path / 'home' / '.hypershell').mkdir(parents=True)
        where = {'system': site.path / 'etc' / 'etc.toml', 'user': site.path / 'home' / '.hypershell' / 'config.toml', 'local': site.path / 'site' / 'config.toml'}
        env, perturb = {'HYPERSHELL_CONFIG_FILE': None, 'HYPERSHELL_LOGGING_LEVEL': None}, {'system_config': str(where['system'])}
        names = list(conf.OPTIONS)
        notes = {s: [] for s in where}
        for s, p in where.items():
            if rng.random() < .7:
                tree = {}
                for name in rng.sample(names, rng.randrange(0, 16)):
                    conf.put(tree, name, conf.OPTIONS[name](rng))
                p.write_text(conf.dump(tree, rng, notes[s]))
        settable = [p for p in names if p not in ('export.path', 'ssh.nodelist.one', 'ssh.nodelist.two')]
        fresh = ['custom.new', 'custom.very.deeply.nested.option', 'brand.new', 'client.unknown', 'export.NEW_VAR', 'autoscale.size.other', 'a-b.c_d', 'server.tls.key']
        history = []
        for step in range(rng.choice([1, 3, 6])):
            before = listing(site, where)
            s = rng.choice(['user', 'user', 'system', 'local'])
            old = tomllib.loads(before[where[s]].decode()) if where[s] in before else {}
            have = [p for p in settable if conf.has(old, p)]
            name = rng.choice(have) if have and rng.random() < .4 else rng.choice(fresh) if rng.random() < .4 else rng.choice(settable)
            if scalar_above(old, name) or conf.has(old, name) and isinstance(conf.get(old, name), dict):
                continue
            value = conf.OPTIONS[name](rng) if name in conf.OPTIONS else rng.choice([conf.text(rng), conf.num(rng), -7, True, False, 1.25])
            if isinstance(value, str) and not isinstance(pop.coerce(value), str):
                continue
            spelled, _ = conf.env_value(value)
            args = [name, spelled, *([] if s == 'user' and rng.random() < .5 else ['--' + s])]
            if spelled.startswith('-'):
                args = [*args[2:], '--', *args[:2]]
            history.append(args)
            replay = {'files': {str(p.name) + '@' + k: before[p].decode() for k, p in where.items() if p in before}, 'history': history}
            r = site.cli('config', 'set', *args, env=env, perturb=perturb)
            after = listing(site, where)
            c.count('sets')
            c.case(('set', n, step), sample=' '.join(args)[:200], nontrivial=bool(old))
            if r.status != 0:
                c.violation('set', f'`config set {args}` fails with status {r.status}: {r.err[-300:]}', replay)
                return
            text = after.get(where[s], b'').decode()
            replay['after'] = text
            try:
                new = tomllib.loads(text)
            except ValueError as e:
                c.violation('section-after-subsections' if late(before, where[s], name) else 'parse', f'after `config set {args}` the file is not valid TOML: {e}', replay)
                return
            want = plain(old)
            conf.put(want, name, value)
            if not equal(want, new):
                c.violation('options', f'after `config set {args}` the options are {json.dumps(new)[:400]}, expected {json.dumps(want)[:400]}', replay)
                return
            # comments: each one still there, once, in order
            mine = [(m, text.count(m + '\n')) for m in notes[s]]
            found = re.findall(r'# (?:note|tail) \d+[^\n]*', text)
            c.count('comments', len(mine))
            if found != notes[s]:
                c.violation('comments', f'after `config set {args}` the comments are {found}, were {notes[s]}', replay)
                return
            # lines that do not concern the option
            last = name.split('.')[-1]
            keep = lambda t: [ln for ln in t.splitlines() if ln.strip() and '{' not in ln and not re.match(rf'\s*([\w-]+\.)*{re.escape(last)}\b', ln)]
            was, now = keep(before.get(where[s], b'').decode()), keep(text)
            it = iter(now)
            lost = [ln for ln in was if ln not in it]
            c.count('untouched lines', len(was))
            if lost:
                c.violation('lines', f'after `config set {args}` these lines are gone or moved: {lost[:3]}', replay)
                return
            # backups and other files
            fresh_files = {p for p in after if p not in before} - {where[s]}
            if where[s] in before:
                good = len(fresh_files) == 1 and all(p.parent == where[s].parent and after[p] == before[where[s]] for p in fresh_files)
                c.count('backups')
            else:
                good = not fresh_files or all(after[p] == b'' for p in fresh_files)
            if not good:
                c.violation('backup', f'after `config set {args}` the new files are {[(p.name, after[p].decode()[:80]) for p in fresh_files]}, expected one copy of the previous file', replay)
                return
            changed = [str(p) for p in before if p != where[s] and after.get(p) != before[p]]
            if changed:
                c.violation('other-files', f'`config set {args}` changed or removed {changed}', replay)
                return
            g = site.cli('config', 'get', name, '--' + s, env=env, perturb=perturb)
            shown = open(g.outpath, 'rb').read().decode()
            c.count('read back')
            if g.status != 0 or not (shown == value + '\n' if isinstance(value, str) else jsame(shown, value)):
                c.violation('get', f'after `config set {args}`, `config get {name} --{s}` prints {shown!r} (status {g.status}) {g.err[-200:]}', replay)
                return


def jsame(text, value):
    try:
        return pop.same(json.loads(text), value)
    except ValueError:
        return False


def body(c):
    fixed(c)
    rngs = [random.Random(c.rng.getrandbits(64)) for _ in range(c.pick(160, 1600))]
    for r in hs.parallel([lambda n=n, g=g: scenario(c, n, g) for n, g in enumerate(rngs)], 8):
        if isinstance(r, Exception):
            raise RuntimeError(r.tb)
    c.require('sets', 100)
    c.require('comments', 100)
    c.require('backups', 50)


if __name__ == '__main__':
    core.main(core.Check('C23', LEVEL, RULE, TECHNIQUE), body)
