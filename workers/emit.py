#!/usr/bin/python3 -SE
"""emit TOKEN KIND SIZE KIND SIZE CHUNKS PAUSE STATUS: write deterministic bytes to stdout and stderr."""
import os
import random
import signal
import sys
import time

KINDS = ('bin', 'text', 'crlf', 'latin', 'nonl', 'empty', 'nul', 'mixed')


def content(token, stream, kind, size):
    rng = random.Random(f'{token}:{stream}:{kind}:{size}')
    if kind == 'empty' or size == 0:
        return b''
    if kind == 'bin':
        return rng.randbytes(size)
    if kind == 'nul':
        return bytes(rng.choice((0, 10, 13, 65)) for _ in range(min(size, 2000)))
    if kind == 'lines':
        return b''.join(f'<{token}.{stream}.{i}.{rng.getrandbits(64 if i % 7 else 640):x}>\n'.encode() for i in range(size))
    eol = {'crlf': b'\r\n', 'mixed': b'\n\r'}.get(kind, b'\n')
    word = b'caf\xe9' if kind == 'latin' else 'caf\u00e9 \u65e5'.encode() if kind == 'text' else b'plain'
    parts, total = [], 0
    while total < size:      # not `+=`: quadratic, and a task that computes for 20 s looks like a hang
        parts.append(word + b' %d' % rng.getrandbits(32) + eol)
        total += len(parts[-1])
    data = b''.join(parts)
    return data.rstrip(b'\r\n') if kind == 'nonl' else data


def main():
    token, ko, so, ke, se, chunks, pause, status = sys.argv[1:9]
    data = [content(token, 'out', ko, int(so)), content(token, 'err', ke, int(se))]
    pieces = []
    for fd, kind, d in ((1, ko, data[0]), (2, ke, data[1])):
        if kind == 'lines':
            pieces.append([(fd, x + b'\n') for x in d.split(b'\n')[:-1]])
        else:
            step = max(1, len(d) // int(chunks) + 1)
            pieces.append([(fd, d[i:i + step]) for i in range(0, len(d), step)])
    while pieces[0] or pieces[1]:
        for p in pieces:
            if p:
                fd, d = p.pop(0)
                while d:
                    d = d[os.write(fd, d):]
        if float(pause):
            time.sleep(float(pause))
    if status.startswith('sig'):
        os.kill(os.getpid(), int(status[3:]))
        signal.pause()
    os._exit(int(status))


if __name__ == '__main__':
    main()
