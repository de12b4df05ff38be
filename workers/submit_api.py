"""argv[1]: JSON spec file. Submits through the Python interface; prints JSON {ok, count | error, t0, t1}."""
import json
import sys
import time
from hypershell import submit as mod

spec = json.load(open(sys.argv[1]))
lines = spec['lines']


def slow():
    it = iter(lines)
    for delay, count in spec.get('bursts') or []:
        time.sleep(delay)
        for _ in range(count):
            try:
                yield next(it)
            except StopIteration:
                return
    yield from it


class Odd:
    """Not a string: the interface takes anything with a string form."""
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


kw = {k: spec[k] for k in ('bundlesize', 'bundlewait', 'template', 'tags') if k in spec}
how = spec['how']
t0 = time.time()
try:
    if how == 'file':
        n = mod.submit_file(spec['path'], **kw)
    elif how == 'thread':
        th = mod.SubmitThread.new(lines, **kw)
        th.join()
        n = th.task_count
    else:
        source = {'list': lambda: lines, 'tuple': lambda: tuple(lines), 'generator': slow, 'objects': lambda: map(Odd, lines)}[how]()
        n = mod.submit_from(source, **kw)
    res = {'ok': True, 'count': n}
except Exception as exc:  # noqa
    res = {'ok': False, 'error': f'{type(exc).__name__}: {exc}'[:500]}
res.update(t0=t0, t1=time.time())
print('RESULT ' + json.dumps(res), flush=True)
