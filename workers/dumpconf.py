"""Print the configuration as seen by the program, as JSON."""
import json
from hypershell.core.config import config
print('CONFIG ' + json.dumps(config))
