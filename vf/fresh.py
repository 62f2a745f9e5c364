"""Run a function in a process that has executed nothing of the solver before.

The server process is forked before the first solver call; it forks a child for every request.
"""
import os
import pickle
import struct


def _read(fd, n):
    b = b''
    while len(b) < n:
        t = os.read(fd, n - len(b))
        if not t:
            raise EOFError
        b += t
    return b


def _send(fd, o):
    b = pickle.dumps(o)
    b = struct.pack('<q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack('<q', _read(fd, 8))[0]))


class Fresh:
    def __init__(self, fn):
        self.owner = os.getpid()
        a, b = os.pipe()
        c, d = os.pipe()
        if os.fork() == 0:
            os.close(b)
            os.close(c)
            try:
                while True:
                    req = _recv(a)
                    r, w = os.pipe()
                    pid = os.fork()
                    if pid == 0:
                        try:
                            _send(w, ('ok', fn(req)))
                        except BaseException as e:
                            _send(w, ('error', '%s: %s' % (type(e).__name__, e)))
                        os._exit(0)
                    os.close(w)
                    try:
                        res = _recv(r)
                    except EOFError:
                        res = ('error', 'the process died')
                    os.close(r)
                    os.waitpid(pid, 0)
                    _send(d, res)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c

    def __call__(self, req):
        _send(self.w, req)
        return _recv(self.r)
