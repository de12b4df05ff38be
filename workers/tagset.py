"""argv[1]: JSON list of Python expressions. Each names a tag set, stored through the interface named by argv[2]; prints one RESULT line each."""
import datetime          # noqa: used by the expressions
import decimal           # noqa
import json
import sys
from hypershell import submit as mod
from hypershell.data.model import Task

for n, expr in enumerate(json.load(open(sys.argv[1]))):
    tag = eval(expr)
    try:
        if sys.argv[2] == 'model':
            Task.add(Task.new(args=f'echo {n}', tag=tag))
        elif sys.argv[2] == 'check':
            Task.ensure_valid_tag(tag)
        else:
            mod.submit_from([f'echo {n}'], tags=tag)
        res = 'ok'
    except Exception as exc:   # noqa
        res = f'{type(exc).__name__}: {exc}'
    print('RESULT ' + json.dumps([n, res[:200]]), flush=True)
