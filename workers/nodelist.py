"""stdin: JSON lines [method, arg]; stdout: JSON ["ok", hosts] | ["err", class, text]. 'config' takes the group name."""
import json
import sys
from hypershell.cluster.ssh import NodeList

for line in sys.stdin:
    method, arg = json.loads(line)
    try:
        f = {'pattern': NodeList.from_pattern, 'cmdline': NodeList.from_cmdline, 'config': NodeList.from_config}[method]
        res = ['ok', list(f(arg))]
    except BaseException as exc:  # noqa
        res = ['err', type(exc).__name__, str(exc)[:200]]
    sys.stdout.write(json.dumps(res) + '\n')
