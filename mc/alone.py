"""Running something in a process where no calculator has ever existed.

A small server is forked as soon as this module is imported, before the explorer has made a calculator; for every request it
forks a child, which runs the requested function and sends back its result.  What a history does there cannot have been
influenced by any other calculator.
"""
import importlib
import os
import pickle
import pkgutil
import select
import signal
import socket
import struct
import sys
import traceback

_lib = None


def _recv(sock):
    head = _exactly(sock, 4)
    return pickle.loads(_exactly(sock, struct.unpack('!I', head)[0]))


def _exactly(sock, n):
    out = b''
    while len(out) < n:
        part = sock.recv(n - len(out))
        if not part:
            raise EOFError
        out += part
    return out


def _send(sock, obj):
    data = pickle.dumps(obj)
    sock.sendall(struct.pack('!I', len(data)) + data)


def _serve(listener, alive):
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    import modularcalculator.features as f                 # every module is loaded, no calculator is made
    for m in pkgutil.walk_packages(f.__path__, 'modularcalculator.features.'):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    for d in next(os.walk(list(f.__path__)[0]))[1]:
        for m in pkgutil.iter_modules([os.path.join(list(f.__path__)[0], d)]):
            try:
                importlib.import_module('modularcalculator.features.%s.%s' % (d, m.name))
            except Exception:
                pass
    while True:
        ready, _, _ = select.select([listener, alive], [], [])
        if alive in ready:
            os._exit(0)
        conn, _ = listener.accept()
        if os.fork() == 0:
            try:
                signal.alarm(120)
                listener.close()
                module, name, args = _recv(conn)
                try:
                    sys.modules.pop(module, None)          # it was only half imported when this server was forked
                    fn = getattr(importlib.import_module(module), name)
                    out = ('ok', fn(*args))
                except Exception as e:
                    out = ('error', repr(e) + traceback.format_exc())
                _send(conn, out)
            finally:
                os._exit(0)
        conn.close()


def _start():
    listener = socket.socket(socket.AF_UNIX)
    name = '\0mc-alone-%d-%s' % (os.getpid(), os.urandom(6).hex())
    listener.bind(name)
    listener.listen(64)
    r, w = os.pipe()
    if os.fork() == 0:
        try:
            os.close(w)
            _serve(listener, r)
        finally:
            os._exit(1)
    os.close(r)
    listener.close()
    return name, w


_name, _alive = _start()          # the server ends when the last process holding _alive does


def call(module, name, *args):
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(150)
    s.connect(_name)
    _send(s, (module, name, args))
    kind, out = _recv(s)
    s.close()
    if kind != 'ok':
        raise RuntimeError(out)
    return out
