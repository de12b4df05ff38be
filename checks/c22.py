"""C22: configuration precedence and provenance."""
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import conf, core, hs, pop

TECHNIQUE = ('runtime monitor: the configuration seen inside the running program and reported by `config get` and `config which` is compared with a reference '
             'merge of randomly generated system, user, local, explicit and environment sources')
LEVEL = 'exploration'
LEVEL_NOTE = ('Held on the sources generated. The system file is a stand-in (the real path is redirected into the scratch site); options with an underscore in the name and '
              'values an environment variable cannot spell are not set from the environment.')
RULE = 'random subsets of options in each of the sources, overlapping; non-trivial when an option is defined by two or more sources'
WORKER = hs.VERIF / 'workers' / 'dumpconf.py'
SITES = ('system', 'user', 'local')


def scenario(c, n, rng):
    with hs.Site('c22', db=False) as site:
        where = {'system': site.path / 'etc.toml', 'user': site.path / 'home' / '.hypershell' / 'config.toml', 'local': site.path / 'site' / 'config.toml', 'explicit': site.path / 'mine.toml'}
        where['user'].parent.mkdir(parents=True)
        names = list(conf.OPTIONS)
        rng.shuffle(names)
        names = names[:rng.choice([4, 12, len(names)])]
        trees = {}
        for s in (*SITES, 'explicit'):
            trees[s] = {}
            if rng.random() < .8:
                for p in names:
                    if rng.random() < rng.choice([.2, .6]):
                        conf.put(trees[s], p, conf.OPTIONS[p](rng))
                where[s].write_text(conf.dump(trees[s], rng, []))
        env, etree = {}, {}
        for p in names:
            if rng.random() < .3 and p not in ('export.path', 'ssh.nodelist.one', 'ssh.nodelist.two') and 'er.' not in p:
                v = conf.OPTIONS[p](rng)
                if isinstance(v, str) and not isinstance(pop.coerce(v), str):
                    continue
                t, v = conf.env_value(v)
                v = t if p.startswith('export.') else v      # meant for the environment of tasks: verbatim
                env[conf.env_name(p)] = t
                conf.put(etree, p, v)
        if rng.random() < .2:
            env['HYPERSHELL_CLIENT_TIMEOUT'] = rng.choice(['', 'null'])
            conf.put(etree, 'client.timeout', None)
        explicit = rng.random() < .3
        perturb = {'system_config': str(where['system'])}
        base = {'HYPERSHELL_CONFIG_FILE': None, 'HYPERSHELL_LOGGING_LEVEL': None}
        default = read(site, dict(base), {'system_config': str(site.path / 'none.toml')}, hide=where)
        run_env = dict(base, **env)
        if explicit:
            run_env['HYPERSHELL_CONFIG_FILE'] = str(where['explicit']) if rng.random() < .8 else ''
            chosen = trees['explicit'] if run_env['HYPERSHELL_CONFIG_FILE'] else {}
            layers = [('local', chosen), ('env', etree)]
        else:
            layers = [(s, trees[s]) for s in SITES] + [('env', etree)]
        style = conf.merge(default, *[t for _, t in layers])['logging']['style'].lower()
        pre = {'logging': {'format': FORMATS[style]}}
        layers = [('default', default), ('preload', pre)] + layers
        want = conf.merge(*[t for _, t in layers])
        got = read(site, run_env, perturb)
        overlap = sum(1 for p in names if sum(conf.has(t, p) for _, t in layers[2:]) > 1)
        c.case(('merge', n), sample=f'{len(names)} options, {overlap} defined more than once, env {sorted(env)[:3]}', nontrivial=overlap > 0)
        c.count('configurations')
        c.count('overlapping options', overlap)
        replay = {'files': {s: conf.dump(trees[s]) for s in trees}, 'env': {k: v for k, v in run_env.items()}}
        if got is None:
            c.violation('load', 'the configuration cannot be loaded', replay)
            return
        for p in conf.OPTIONS:
            if conf.has(want, p) != conf.has(got, p) or conf.has(want, p) and not pop.same(plain(conf.get(got, p)), plain(conf.get(want, p))):
                c.violation('value', f'option {p} is {conf.has(got, p) and conf.get(got, p)!r}, expected {conf.has(want, p) and conf.get(want, p)!r}', replay)
                return
        extra = [p for p in leaves(got) if not conf.has(want, p) and not p.startswith(('site', 'config', 'home'))]
        if extra:
            c.violation('value', f'unexpected options {extra[:5]}', replay)
        ask = [p for p in names if conf.has(want, p)]
        more = ['logging.format', 'server.port', 'task.timeout', 'server.auth', 'client.timeout']
        for p in rng.sample(ask, min(len(ask), 5)) + [rng.choice(more)]:
            value = conf.get(want, p)
            source = [s for s, t in layers if conf.has(t, p)][-1]
            r = site.cli('config', 'get', p, *(['-r'] if rng.random() < .3 else []), env=run_env, perturb=perturb)
            c.count('config get')
            shown = raw(r)
            ok = r.status == 0 and (shown == value + '\n' if isinstance(value, str) else jsame(shown, value))
            if not ok:
                c.violation('get', f'`config get {p}` prints {shown!r} (status {r.status}), the value is {value!r}', dict(replay, err=r.err[-300:]))
                return
            w = site.cli('config', 'which', p, '--site', env=run_env, perturb=perturb)
            c.count('config which')
            if w.status != 0 or w.out.strip() != source:
                c.violation('which', f'`config which {p} --site` prints {w.out!r} (status {w.status}), the source is {source}', dict(replay, err=w.err[-300:]))
                return
            w = site.cli('config', 'which', p, env=run_env, perturb=perturb)
            path = {'system': where['system'], 'user': where['user'], 'local': run_env['HYPERSHELL_CONFIG_FILE'] if explicit else where['local'], 'env': conf.env_name(p)}.get(source, '')
            text = raw(w).strip()
            shown = conf.shown(value).strip()
            good = w.status == 0 and source in text.rsplit(' (', 1)[-1] if source not in SITES else w.status == 0 and f'({source}: {path} |' in text
            if source == 'env':
                good = w.status == 0 and f'(env: {path} |' in text
            if '[' not in shown and not text.startswith(shown):
                good = False
            if not good:
                c.violation('which', f'`config which {p}` prints {text!r} (status {w.status}), the value is {value!r} from {source} {path}', dict(replay, err=w.err[-300:]))
                return
        # one source alone
        s = rng.choice(SITES)
        t = (chosen if explicit else trees['local']) if s == 'local' else trees[s]
        f = (run_env['HYPERSHELL_CONFIG_FILE'] if explicit else where['local']) if s == 'local' else where[s]
        for p in rng.sample(names, min(3, len(names))):
            r = site.cli('config', 'get', p, '--' + s, env=run_env, perturb=perturb)
            c.count('config get of one site')
            if conf.has(t, p) and f and os.path.exists(f):
                v = conf.get(t, p)
                if r.status != 0 or not (raw(r) == v + '\n' if isinstance(v, str) else jsame(raw(r), v)):
                    c.violation('get-site', f'`config get {p} --{s}` prints {raw(r)!r} (status {r.status}), that file says {v!r}', replay)
            elif r.status == 0:
                c.violation('get-site', f'`config get {p} --{s}` prints {raw(r)!r} (status 0), it is not defined there', replay)
        # a whole section
        sec = rng.choice(['server', 'client', 'autoscale', '.'])
        r = site.cli('config', 'get', sec, env=run_env, perturb=perturb)
        c.count('config get of a section')
        try:
            import tomllib
            tree = tomllib.loads(raw(r))
        except ValueError as e:
            c.violation('get-section', f'`config get {sec}` prints no valid TOML: {e}', dict(replay, out=raw(r)[:1500]))
            return
        for p in leaves(want):
            if sec == '.' and p.startswith(('server.', 'task.', 'submit.', 'client.', 'autoscale.', 'custom.', 'console.')) or p.startswith(sec + '.'):
                v = conf.get(want, p)
                if v is None:
                    continue
                if not conf.has(tree, p) or not pop.same(plain(conf.get(tree, p)), plain(v)):
                    c.violation('get-section', f'`config get {sec}` shows {p} as {conf.has(tree, p) and conf.get(tree, p)!r}, the value is {v!r}', dict(replay, status=r.status, out=raw(r)[:3000], err=r.err[-1500:]))
                    return


FORMATS = {}


def raw(p):
    return open(p.outpath, 'rb').read().decode()


def plain(v):
    return json.dumps(v) if isinstance(v, list) else v


def jsame(text, value):
    try:
        return pop.same(plain(json.loads(text)), plain(value))
    except ValueError:
        return False


def leaves(tree, prefix=''):
    for k, v in tree.items():
        if isinstance(v, dict):
            yield from leaves(v, f'{prefix}{k}.')
        else:
            yield f'{prefix}{k}'


def read(site, env, perturb, hide=None):
    if hide is not None:      # the defaults: nothing configured
        env = dict(env, HYPERSHELL_CONFIG_FILE='')
    p = site.script(WORKER, env=env, perturb=perturb, timeout=60)
    for line in p.out.splitlines():
        if line.startswith('CONFIG '):
            tree = json.loads(line[7:])
            for k in ('site', 'config'):       # HYPERSHELL_SITE and HYPERSHELL_CONFIG_FILE
                tree.pop(k, None)
            return tree
    return None


def body(c):
    with hs.Site('c22s', db=False) as site:
        for style in conf.STYLES:
            FORMATS[style] = read(site, {'HYPERSHELL_CONFIG_FILE': '', 'HYPERSHELL_LOGGING_LEVEL': None, 'HYPERSHELL_LOGGING_STYLE': style}, None)['logging']['format']
        if len(set(FORMATS.values())) != len(FORMATS):
            c.violation('value', f'logging styles do not select different formats: {FORMATS}', {})
    rngs = [random.Random(c.rng.getrandbits(64)) for _ in range(c.pick(60, 600))]
    for r in hs.parallel([lambda n=n, g=g: scenario(c, n, g) for n, g in enumerate(rngs)], 8):
        if isinstance(r, Exception):
            raise RuntimeError(r.tb)
    c.require('overlapping options', 50)
    c.require('config which', 100)


if __name__ == '__main__':
    core.main(core.Check('C22', LEVEL, RULE, TECHNIQUE), body)
