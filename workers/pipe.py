#!/usr/bin/python3 -SE
"""pipe PORT: connect standard input and output to a loopback port (an SSH ProxyCommand)."""
import os
import socket
import sys
import threading

s = socket.create_connection(('127.0.0.1', int(sys.argv[1])))


def up():
    while data := os.read(0, 65536):
        s.sendall(data)
    s.shutdown(socket.SHUT_WR)


threading.Thread(target=up, daemon=True).start()
while data := s.recv(65536):
    while data:
        data = data[os.write(1, data):]
os._exit(0)
