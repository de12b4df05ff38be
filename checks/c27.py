"""C27: host list patterns against a reference expander."""
import json
import os
import stat
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, hs

TECHNIQUE = 'runtime monitor: generated host patterns through the real parser (API, configuration groups, SSH launch) compared with a structural reference'
LEVEL = 'exploration'
LEVEL_NOTE = ('Held on the generated patterns; the expected hosts are computed from the generated structure, not by parsing the pattern. '
              'SSH launch is observed through a recording stand-in for the ssh program.')
RULE = 'random comma lists of host names with zero to three bracket groups of numbers, ranges (padded, descending, overlapping) and plain names; non-trivial when it has a bracket or a comma'


def number(rng, pad):
    v = rng.choice([0, 1, 5, 9, 10, 11, 99, 100, rng.randrange(1500)])
    return v, (str(v).zfill(pad) if pad else str(v))


def bracket(rng):
    """-> (text, [segments])"""
    parts, segs = [], []
    pad = rng.choice([0, 0, 2, 3, 4])
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4])):
        if rng.random() < 0.55:
            lo = rng.choice([0, 1, 5, 8, 9, 98, 99, rng.randrange(300)])
            hi = lo + rng.choice([0, 1, 2, 3, 5, 12])
            a = str(lo).zfill(pad) if pad else str(lo)
            b = str(hi).zfill(pad) if pad else str(hi)
            # zero padding is kept: the width of a padded lower bound
            width = len(a) if a[0] == '0' else 0
            segs += [str(v).zfill(width) for v in range(lo, hi + 1)]
            parts.append(f'{b}-{a}' if rng.random() < 0.1 and hi > lo else f'{a}-{b}')
        else:
            _, t = number(rng, pad)
            parts.append(t)
            segs.append(t)
    return '[' + ','.join(parts) + ']', segs


def host(rng):
    name = rng.choice(['a', 'node', 'cluster-a', 'gpu_', 'x-1-', 'r0', 'n', '10.0.0.', 'h.sub.'])
    hosts, text = [name], name
    for _ in range(rng.choice([0, 0, 1, 1, 1, 1, 2, 3])):
        b, segs = bracket(rng)
        if len(hosts) * len(segs) > 400:
            break
        suffix = rng.choice(['', '.local', '.xyz', '-ib', 'n', '.a-b.example.org'])
        text += b + suffix
        hosts = [f'{h}{s}{suffix}' for h in hosts for s in segs]
    if rng.random() < 0.03:
        b, segs = bracket(rng)
        return b, segs
    return text, hosts


def body(c):
    n = c.pick(4000, 60000)
    cases = []
    for t, w in [('cluster-a[00-04].xyz', [f'cluster-a0{i}.xyz' for i in range(5)]),
                 ('some-[00-04,08].local', ['some-%02d.local' % i for i in (0, 1, 2, 3, 4, 8)]),
                 ('some-[00-04,08].local,other-[02,05].local', ['some-%02d.local' % i for i in (0, 1, 2, 3, 4, 8)] + ['other-02.local', 'other-05.local']),
                 ('a', ['a']), ('a,b,c', ['a', 'b', 'c']), ('host.domain', ['host.domain']), ('a[x]', ['a[x]']), ('a-b', ['a-b'])]:
        cases.append((t, w))
    big = [f'n{i}' for i in range(3000)]
    cases.append((','.join(big), big))
    while len(cases) < n:
        hosts, texts = [], []
        for _ in range(c.rng.choice([1, 1, 1, 2, 2, 3, 5, 8])):
            t, h = host(c.rng)
            texts.append(t)
            hosts += h
        text = ','.join(texts)
        if c.rng.random() < 0.03:
            text += ','
        cases.append((text, hosts))
    site = hs.Site('c27', db=False)
    reqs = [(m, t, w) for t, w in cases for m in ('pattern', 'cmdline')]
    p = site.script(hs.VERIF / 'workers' / 'nodelist.py', stdin='\n'.join(json.dumps([m, t]) for m, t, w in reqs) + '\n', timeout=600)
    out = [json.loads(l) for l in p.out.splitlines()]
    if p.status != 0 or len(out) != len(reqs):
        raise core.Inconclusive('worker failed: ' + p.tail(600))
    for (m, t, w), got in zip(reqs, out):
        c.case((m, t), sample={'pattern': t[:200], 'hosts': got[1][:6] if got[0] == 'ok' else got}, nontrivial='[' in t or ',' in t)
        c.count('expansions')
        c.count('hosts', len(w))
        if got[0] != 'ok':
            c.violation('failed', f'{t[:200]!r} ({m}) -> {got}', {'pattern': t[:2000], 'method': m})
        elif got[1] != w:
            c.violation('wrong-hosts', f'{t[:200]!r} ({m}) -> {got[1][:8]} expected {w[:8]} ({len(got[1])} vs {len(w)})', {'pattern': t[:2000], 'want': w[:50]})
    # groups from the configuration
    groups = {}
    cfg = '[ssh.nodelist]\n'
    for i in range(c.pick(30, 200)):
        t, w = c.rng.choice(cases[9:])
        if len(t) > 300:
            continue
        if c.rng.random() < 0.5:
            cfg += f'g{i} = {json.dumps(t)}\n'
            groups[f'g{i}'] = w
        else:
            names = [x for x in w[:5] if '[' not in x]
            cfg += f'g{i} = {json.dumps(names)}\n'
            groups[f'g{i}'] = names
    s2 = hs.Site('c27b', db=False, config=cfg)
    p = s2.script(hs.VERIF / 'workers' / 'nodelist.py', stdin='\n'.join(json.dumps(['config', g]) for g in [*groups, 'missing']) + '\n')
    out = [json.loads(l) for l in p.out.splitlines()]
    for (g, w), got in zip([*groups.items(), ('missing', None)], out):
        c.case(('group', g, tuple(w or ())))
        c.count('config_groups')
        if w is None:
            if got[0] == 'ok':
                c.violation('missing-group', f'unknown group gave {got[1]}', cfg)
        elif w and got != ['ok', w]:
            c.violation('wrong-group', f'group {g} -> {got[1][:8]} expected {w[:8]}', cfg)
    # what is really launched: one ssh per host, in any order
    rec = site.path / 'ssh.log'
    fake = site.path / 'bin'
    fake.mkdir(exist_ok=True)
    (fake / 'ssh').write_text(f'#!/bin/bash\nfor a in "$@"; do case "$a" in -*) ;; *) echo "$a" >> {rec}; break;; esac; done\nexit 0\n')
    (fake / 'ssh').chmod(0o755)
    env = {'PATH': f'{fake}:{site.env()["PATH"]}'}
    for i in range(c.pick(2, 8)):
        t, w = next((t, w) for t, w in iter(lambda: c.rng.choice(cases[9:]), None) if 2 <= len(w) <= 9 and '[' in t and len(set(w)) == len(w))
        if rec.exists():
            rec.unlink()
        q = site.spawn('cluster', '-', '--no-db', '--ssh', t, '-p', hs.free_port(), stdin='true\n', env=env, perturb={'sleep_cap': 0.3})
        hs.wait_for(lambda: not q.alive() or (rec.exists() and len(rec.read_text().split()) >= len(w)), 30)
        hs.time.sleep(0.5)
        q.kill()
        got = rec.read_text().split() if rec.exists() else []
        c.count('ssh_launches', len(got))
        c.case(('ssh', t), sample={'ssh': t, 'launched': got})
        if sorted(got) != sorted(w):
            c.violation('ssh-launch', f'--ssh {t!r} launched on {got}, expected {w} {q.tail(500)}', {'pattern': t})
    c.require('expansions', n)
    c.require('config_groups', 10)
    c.require('ssh_launches', 2)


if __name__ == '__main__':
    core.main(core.Check('C27', LEVEL, RULE), body)
