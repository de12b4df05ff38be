"""Read client command lines (JSON lists, one per line) with the real parser; print what was understood."""
import json
import sys

from hypershell.client import ClientApp

for line in sys.stdin:
    try:
        ns = ClientApp.interface.parse_args(json.loads(line))
        print(json.dumps({k: v for k, v in vars(ns).items()}, default=str), flush=True)
    except Exception as exc:
        print(json.dumps({'error': repr(exc)}), flush=True)
