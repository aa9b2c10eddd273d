"""A process image kept as it was before anything ran: every request is
answered by a fresh fork of it."""
import os
import pickle
import struct


def _read(fd, n):
    buf = b""
    while len(buf) < n:
        got = os.read(fd, n - len(buf))
        if not got:
            raise EOFError
        buf += got
    return buf


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack("<Q", _read(fd, 8))[0]))


class Zygote:
    """fn(request) runs in a fresh fork per request; its value comes back."""

    def __init__(self, fn):
        self.memo = {}
        down, self.w = os.pipe()
        self.r, up = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(down)
            os.close(up)
            return
        try:
            os.close(self.w)
            os.close(self.r)
            while True:
                try:
                    req = _recv(down)
                except EOFError:
                    break
                pid = os.fork()
                if pid == 0:
                    try:
                        try:
                            res = ("ok", fn(req))
                        except BaseException as e:  # noqa: BLE001
                            res = ("error", f"{type(e).__name__}: {e}")
                        _send(up, res)
                    finally:
                        os._exit(0)
                _, st = os.waitpid(pid, 0)
                if st != 0:
                    _send(up, ("died", st))
        finally:
            os._exit(0)

    def ask(self, req, key=None):
        """(status, value); remembered under key."""
        if key is not None and key in self.memo:
            return self.memo[key]
        _send(self.w, req)
        res = _recv(self.r)
        if key is not None:
            self.memo[key] = res
        return res
