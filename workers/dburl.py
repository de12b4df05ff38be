"""stdin: JSON lines {via, fields}; stdout: JSON per line with the encoded URL parsed back by SQLAlchemy."""
import json
import sys
from cmdkit.config import Namespace
from sqlalchemy.engine import make_url
from hypershell.data.core import DatabaseURL

for line in sys.stdin:
    req = json.loads(line)
    try:
        if req['via'] == 'ns':
            url = DatabaseURL.from_namespace(Namespace(req['fields']))
        else:
            url = DatabaseURL(**req['fields'])
        text = url.encode()
        res = {'ok': True, 'url': text, 'repr': repr(url), 'str': str(url)}
        try:
            m = make_url(text)
            res['parsed'] = {'provider': m.drivername, 'user': m.username, 'password': m.password, 'host': m.host,
                             'port': m.port, 'database': m.database, 'parameters': dict(m.query)}
        except Exception as exc:  # noqa
            res['parse_error'] = f'{type(exc).__name__}: {exc}'
    except AttributeError as exc:
        res = {'ok': False, 'error': 'AttributeError', 'text': str(exc)}
    except BaseException as exc:  # noqa
        res = {'ok': False, 'error': type(exc).__name__, 'text': str(exc)[:300]}
    sys.stdout.write(json.dumps(res) + '\n')
