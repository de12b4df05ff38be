"""A remote host for the monitors: an SSH server with SFTP on the loopback interface, with faults on demand."""
import os
import socket
import threading
import time

import logging

import paramiko

logging.getLogger('paramiko').setLevel(logging.CRITICAL + 1)


def new_key(path):
    key = paramiko.ECDSAKey.generate(bits=256)
    key.write_private_key_file(str(path))
    return key


def hang_up(transport):
    try:
        transport.sock.shutdown(socket.SHUT_RDWR)
    except OSError:
        pass


class Handle(paramiko.SFTPHandle):
    def read(self, offset, length):
        host, fault = self.host, self.fault
        at = fault.get('at', 0)
        end = offset + length
        kind = fault.get('kind')
        if kind == 'slow':
            time.sleep(fault['delay'])
        if kind in ('cut', 'failure', 'stall', 'kill') and end > at:
            with host.lock:
                host.fired[kind] = host.fired.get(kind, 0) + 1
            if kind == 'cut':
                hang_up(self.transport)
                return paramiko.SFTP_FAILURE
            if kind == 'failure':
                return paramiko.SFTP_FAILURE
            host.reached.set()
            host.release.wait(30)
        if kind == 'short':
            length = max(1, min(length, at or 1000))
        data = self.data[offset:offset + length]
        with host.lock:
            host.sent += len(data)
        return data if data else paramiko.SFTP_EOF

    def stat(self):
        a = paramiko.SFTPAttributes()
        a.st_size, a.st_mode, a.st_mtime, a.st_atime = len(self.data), 0o100644, int(self.mtime), int(self.mtime)
        return a


class Files(paramiko.SFTPServerInterface):
    def __init__(self, server, *a, **kw):
        super().__init__(server, *a, **kw)
        self.server = server

    def look(self, path):
        host = self.server.host
        entry = host.files.get(path)
        with host.lock:
            host.asked.append(path)
        if entry is None and host.fallback and path.startswith(host.fallback):
            try:
                entry = (open(path, 'rb').read(), os.stat(path).st_mtime)
            except OSError:
                return None
        return entry

    def attributes(self, path):
        host = self.server.host
        if host.fault(path, 'stat').get('kind') == 'cut':
            hang_up(self.server.transport)
            return paramiko.SFTP_FAILURE
        entry = self.look(path)
        if entry is None:
            return paramiko.SFTP_NO_SUCH_FILE
        h = Handle()
        h.data, h.mtime = entry
        return h.stat()

    stat = lstat = attributes

    def canonicalize(self, path):
        return path if path.startswith('/') else '/home/' + path

    def open(self, path, flags, attr):
        host = self.server.host
        if flags & (os.O_WRONLY | os.O_RDWR):
            host.written.append(path)
            return paramiko.SFTP_PERMISSION_DENIED
        fault = host.fault(path, 'read')
        if fault.get('kind') == 'denied':
            with host.lock:
                host.fired['denied'] = host.fired.get('denied', 0) + 1
            return paramiko.SFTP_PERMISSION_DENIED
        entry = self.look(path)
        if entry is None:
            with host.lock:
                host.fired['missing'] = host.fired.get('missing', 0) + 1
            return paramiko.SFTP_NO_SUCH_FILE
        h = Handle(flags)
        h.data, h.mtime = entry
        h.host, h.fault, h.transport = host, fault, self.server.transport
        return h


class Gate(paramiko.ServerInterface):
    def __init__(self, host):
        self.host = host

    def check_auth_publickey(self, username, key):
        host = self.host
        good = key == host.key and (host.user is None or username == host.user)
        with host.lock:
            host.logins.append((username, good))
        return paramiko.AUTH_SUCCESSFUL if good else paramiko.AUTH_FAILED

    def check_auth_password(self, username, password):
        return paramiko.AUTH_FAILED

    def get_allowed_auths(self, username):
        return 'publickey'

    def check_channel_request(self, kind, chanid):
        return paramiko.OPEN_SUCCEEDED if kind == 'session' else paramiko.OPEN_FAILED_ADMINISTRATIVELY_PROHIBITED


class Host:
    """files: path -> (bytes, mtime); faults: list of {path?, kind, at}, each fires for one file or connection."""

    server_key = None

    def __init__(self, name, key, user=None, fallback=None):
        self.name, self.key, self.user, self.fallback = name, key, user, fallback
        self.files, self.faults, self.fired = {}, {}, {}
        self.asked, self.logins, self.written = [], [], []
        self.sent = self.connections = 0
        self.lock = threading.Lock()
        self.reached, self.release = threading.Event(), threading.Event()
        self.connect_fault = None
        if Host.server_key is None:
            Host.server_key = paramiko.ECDSAKey.generate(bits=256)
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(50)
        self.port = self.sock.getsockname()[1]
        threading.Thread(target=self.accept, daemon=True).start()

    def fault(self, path, where):
        """Fault in force for a file (until cleared), stat faults apart."""
        f = self.faults.get(path, {})
        return f if (f.get('where', 'read') == where) else {}

    def accept(self):
        while True:
            try:
                s, _ = self.sock.accept()
            except OSError:
                return
            self.connections += 1
            threading.Thread(target=self.serve, args=(s,), daemon=True).start()

    def serve(self, s):
        kind = self.connect_fault
        if kind:
            with self.lock:
                self.fired[kind] = self.fired.get(kind, 0) + 1
        try:
            if kind == 'hangup':
                s.close()
                return
            if kind == 'garbage':
                s.sendall(b'HTTP/1.1 400 Bad Request\r\n\r\n' * 30)
                s.close()
                return
            t = paramiko.Transport(s)
            t.banner_timeout = 60
            t.add_server_key(self.server_key)
            t.set_subsystem_handler('sftp', paramiko.SFTPServer, Files)
            gate = Gate(self)
            gate.transport = t
            t.start_server(server=gate)
        except Exception:   # noqa: the other side may vanish at any time
            s.close()

    def close(self):
        self.release.set()
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()
