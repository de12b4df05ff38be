"""stdin: JSON {args, tag}: store one task through the model."""
import json
import sys
from hypershell.data.model import Task

spec = json.load(sys.stdin)
for item in spec if isinstance(spec, list) else [spec]:
    task = Task.new(args=item['args'], tag=item.get('tag') or None)
    Task.add(task)
