"""stdin: JSON lines [template, args]; stdout: JSON lines ["ok", text] or ["err", class, message]."""
import json
import sys
from hypershell.core.template import Template

for line in sys.stdin:
    template, args = json.loads(line)
    try:
        res = ['ok', Template(template).expand(args)]
    except Template.Error as exc:
        res = ['err', type(exc).__name__, str(exc)[:200]]
    except BaseException as exc:  # noqa
        res = ['raise', type(exc).__name__, str(exc)[:200]]
    sys.stdout.write(json.dumps(res) + '\n')
