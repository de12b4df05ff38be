"""trapper.py LOG TOKEN SECONDS STATUS IGNORED[,IGNORED]: journal every signal received; die of those not ignored (or exit STATUS)."""
import os
import signal
import sys
import time

log, token, seconds, status, ignored = sys.argv[1], sys.argv[2], float(sys.argv[3]), int(sys.argv[4]), sys.argv[5].split(',')


def note(what):
    fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    os.write(fd, f'{what} {token} {os.environ.get("TASK_ID")} {time.time():.4f} {os.getpid()}\n'.encode())
    os.close(fd)


def on(sig, frame):
    name = signal.Signals(sig).name[3:]
    note(name)
    if name in ignored:
        return
    note('E')
    if 'exit' in ignored:
        os._exit(40 + sig)
    signal.signal(sig, signal.SIG_DFL)
    os.kill(os.getpid(), sig)


signal.signal(signal.SIGINT, on)
signal.signal(signal.SIGTERM, on)
note('S')
end = time.monotonic() + seconds
while time.monotonic() < end:
    time.sleep(min(0.2, max(0, end - time.monotonic())))
note('E')
os._exit(status)
