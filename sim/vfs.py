"""Disk seam: every file under a scratch root that the library (or numpy on its behalf) opens goes through a raw layer whose
reads, writes, flushes and closes can fail, come back short or run out of space, as the plan says."""
import builtins
import errno
import io
import os

from .core import HarnessError

ERR = {"eio": errno.EIO, "enospc": errno.ENOSPC, "edquot": errno.EDQUOT, "eacces": errno.EACCES, "estale": errno.ESTALE}


class Raw(io.RawIOBase):
    """one open file of the simulated disk"""

    def __init__(self, vfs, path, mode):
        self.vfs, self.path, self.m = vfs, path, mode
        self.fd = None
        vfs.hit("open", self)
        fl = os.O_RDONLY
        if "w" in mode:
            fl = os.O_WRONLY | os.O_CREAT | os.O_TRUNC
        elif "a" in mode:
            fl = os.O_WRONLY | os.O_CREAT | os.O_APPEND
        elif "x" in mode:
            fl = os.O_WRONLY | os.O_CREAT | os.O_EXCL
        if "+" in mode:
            fl = (fl & ~os.O_WRONLY) | os.O_RDWR
        self.fd = os.open(path, fl | os.O_CLOEXEC, 0o644)
        self.name = path
        vfs.opened.append(self)

    def readable(self):
        return "r" in self.m or "+" in self.m

    def writable(self):
        return "r" not in self.m or "+" in self.m

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, n=None):
        n = self.tell() if n is None else n
        os.ftruncate(self.fd, n)
        return n

    def readinto(self, b):
        lim = self.vfs.hit("read", self)
        data = os.read(self.fd, min(len(b), lim) if lim else len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        lim = self.vfs.hit("write", self)
        b = bytes(b)
        if lim:
            b = b[:max(1, lim)]
        room = self.vfs.room
        if room is not None:
            if room <= 0 and b:
                self.vfs.fired("full", self)
                raise OSError(errno.ENOSPC, "injected: no space left on device", self.path)
            b = b[:room]
            self.vfs.room -= len(b)
        return os.write(self.fd, b)

    def close(self):
        if self.closed:
            return
        try:
            if self.fd is not None and self.writable():
                self.vfs.hit("close", self)
        finally:
            fd, self.fd = self.fd, None
            try:
                io.RawIOBase.close(self)
            finally:
                if fd is not None:
                    os.close(fd)


class VFS(object):
    def __init__(self, root, bufsize=64):
        self.root = os.path.realpath(root) + os.sep
        self.bufsize = bufsize
        self.plan = None
        self.reset()

    def reset(self):
        self.count = {"open": 0, "read": 0, "write": 0, "close": 0}
        self.log = []
        self.hits = []
        self.room = None
        self.opened = []

    def arm(self, plan):
        """plan: dict(call=open|read|write|close, at=n, err=kind, persist=bool, short=n, room=n)"""
        self.reset()
        self.plan = plan
        self.room = (plan or {}).get("room")

    def disarm(self):
        self.plan = None
        self.room = None

    def fired(self, what, f):
        self.hits.append(what)

    def hit(self, call, f):
        i = self.count[call]
        self.count[call] += 1
        p = self.plan
        if not p:
            return 0
        if p.get("only") and not os.path.basename(f.path).startswith(p["only"]):
            return 0
        if p.get("call") == call and p.get("err") and (i == p["at"] or (p.get("persist") and i > p["at"])):
            self.fired(p["err"], f)
            raise OSError(ERR[p["err"]], "injected %s at %s %d" % (p["err"], call, i), f.path)
        if p.get("short") and call in ("read", "write"):
            self.fired("short-" + call, f)
            return 1 + (i * 7 + p["short"]) % p["short"]
        return 0

    def inside(self, path):
        try:
            return os.path.realpath(os.fspath(path)).startswith(self.root)
        except TypeError:
            return False

    def _open(self, real):
        def opener(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if isinstance(file, int) or not self.inside(file):
                return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
            raw = Raw(self, os.fspath(file), mode)
            try:
                if raw.readable() and raw.writable():
                    buf = io.BufferedRandom(raw, self.bufsize)
                elif raw.readable():
                    buf = io.BufferedReader(raw, self.bufsize)
                else:
                    buf = io.BufferedWriter(raw, self.bufsize)
                if "b" in mode:
                    return buf
                t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, False)
                if raw.readable():
                    t._CHUNK_SIZE = max(1, self.bufsize)
                t.mode = mode
                return t
            except BaseException:
                raw.close()
                raise
        return opener

    def __enter__(self):
        from numpy.lib import _datasource
        self.saved = (builtins.open, io.open)
        fo = _datasource._file_openers
        fo._load()
        self.fo, self.fosaved = fo, dict(fo._file_openers)
        new = self._open(builtins.open)
        builtins.open = new
        io.open = new
        for k, v in list(fo._file_openers.items()):
            if v is self.saved[1]:
                fo._file_openers[k] = new
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self.saved
        self.fo._file_openers.clear()
        self.fo._file_openers.update(self.fosaved)
        for f in self.opened:
            try:
                if not f.closed:
                    self.plan = None
                    f.close()
            except Exception:
                pass
