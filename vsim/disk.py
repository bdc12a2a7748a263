"""A simulated disk over a scratch directory.

Every file operation below `root` goes through the simulator: it can fail
(EIO, ENOSPC), be cut short, or be the last thing the process ever does.  After
a crash the process is dead: nothing it still tries to do (finally blocks,
flushes of buffers, clean-up) reaches the disk.  Directory listings come in an
order chosen by the seed.
"""
import _io
import builtins
import errno
import io
import os
import random


class Crash(BaseException):
    """The simulated process died."""


class SimRaw(io.RawIOBase):
    def __init__(self, disk, fd, name, mode, closefd=True):
        self.disk, self.fd, self.name, self.mode = disk, fd, name, mode
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")
        self._closefd = closefd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        self.disk.op("truncate", self.name)
        R["ftruncate"](self.fd, self.tell() if size is None else size)
        return size

    def readinto(self, b):
        self.disk.alive()
        data = R["read"](self.fd, len(b))
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        return self.disk.write(self.fd, bytes(b), self.name)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def close(self):
        if not self.closed:
            super().close()
            if self._closefd:
                self.disk.fds.pop(self.fd, None)
                R["close"](self.fd)


OS = ("open", "write", "read", "close", "replace", "rename", "unlink", "remove", "mkdir", "rmdir", "fsync", "fdatasync", "truncate", "ftruncate", "link", "symlink", "listdir", "scandir")
R = {n: getattr(os, n) for n in OS}
ropen = builtins.open
READONLY = {"open", "listdir", "scandir", "read", "close", "write"}


class Disk:
    def __init__(self, root, st, faults=(), capacity=None, seed=0):
        """faults: list of [operation index, kind, amount]"""
        self.root = os.path.realpath(root) + os.sep
        self.st, self.faults, self.capacity = st, [list(f) for f in faults], capacity
        self.r = random.Random(seed)
        self.n = 0
        self.dead = False
        self.fds = {}
        self.log = []
        self.fired = []

    # -- policy
    def alive(self):
        if self.dead:
            raise Crash()

    def mine(self, path, dir_fd=None):
        if isinstance(path, int):
            return self.fds.get(path)
        try:
            p = os.fsdecode(path)
        except TypeError:
            return None
        if dir_fd is not None:
            p = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), p)
        p = os.path.abspath(p)
        d = os.path.realpath(os.path.dirname(p))
        p = os.path.join(d, os.path.basename(p))
        return p if (p + os.sep).startswith(self.root) else None

    def die(self):
        self.dead = True
        self.st.fault("crash")
        raise Crash()

    def due(self, what):
        self.alive()
        self.n += 1
        self.log.append(what)
        for f in self.faults:
            if f[0] == self.n or (f[0] < 0 and self.n >= -f[0]):
                self.fired.append((what, f[1]))
                return f
        return None

    def op(self, what, path, fn=None):
        """An operation that changes the disk."""
        f = self.due(what)
        k = f[1] if f else None
        if k == "crash":
            self.die()
        if k in ("eio", "enospc"):
            if not (k == "enospc" and what in ("unlink", "remove", "rmdir")):
                self.st.fault(k)
                e = errno.EIO if k == "eio" else errno.ENOSPC
                raise OSError(e, os.strerror(e) + " (simulated)", path)
        out = fn() if fn else None
        if k == "crash after":
            self.die()
        return out

    def write(self, fd, data, path):
        f = self.due("write")
        k, amount = (f[1], f[2]) if f else (None, 0)
        part = int(amount * len(data))
        if k in ("crash", "crash after"):
            if k == "crash":  # torn
                self.put(fd, data[:part])
                self.st.fault("torn write")
            else:
                self.put(fd, data)
            self.die()
        if k in ("eio", "enospc"):
            self.put(fd, data[:part])
            self.st.fault(k)
            e = errno.EIO if k == "eio" else errno.ENOSPC
            raise OSError(e, os.strerror(e) + " (simulated)", path)
        if k == "short" and len(data) > 1:
            self.st.fault("short write")
            return self.put(fd, data[: max(1, part)])
        return self.put(fd, data)

    def put(self, fd, data):
        if self.capacity is not None:
            room = max(self.capacity, 0)
            if len(data) > room:
                if room == 0:
                    self.st.fault("disk full")
                    raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC) + " (simulated)")
                data = data[:room]
            self.capacity -= len(data)
        while data:
            k = R["write"](fd, data)
            if k == len(data):
                return k
            return k
        return 0

    # -- files
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = self.mine(file)
        if p is None:
            return ropen(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.alive()
        if isinstance(file, int):
            fd = file
        elif opener is not None:
            fd = opener(file, self.flags(mode))
        else:
            fd = self.p_open(file, self.flags(mode), 0o666)
        if "a" in mode:
            os.lseek(fd, 0, 2)
        raw = SimRaw(self, fd, file, mode, closefd)
        if buffering == 0:
            if "b" not in mode:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = io.DEFAULT_BUFFER_SIZE if buffering < 2 else buffering
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif raw.writable():
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)

    @staticmethod
    def flags(mode):
        base = os.O_RDWR if "+" in mode else (os.O_WRONLY if any(c in mode for c in "wax") else os.O_RDONLY)
        if "w" in mode:
            base |= os.O_CREAT | os.O_TRUNC
        if "a" in mode:
            base |= os.O_CREAT | os.O_APPEND
        if "x" in mode:
            base |= os.O_CREAT | os.O_EXCL
        return base | os.O_CLOEXEC

    def p_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self.mine(path, dir_fd)
        if p is None:
            return R["open"](path, flags, mode, dir_fd=dir_fd)
        self.alive()

        def go():
            fd = R["open"](path, flags, mode, dir_fd=dir_fd)
            self.fds[fd] = p
            return fd

        if flags & (os.O_CREAT | os.O_TRUNC):
            return self.op("create", p, go)
        return go()

    def p_close(self, fd):
        self.fds.pop(fd, None)
        return R["close"](fd)

    def p_write(self, fd, data):
        if fd in self.fds:
            return self.write(fd, bytes(data), self.fds[fd])
        return R["write"](fd, data)

    def p_read(self, fd, n):
        if fd in self.fds:
            self.alive()
        return R["read"](fd, n)

    def p_listdir(self, path="."):
        out = R["listdir"](path)
        if self.mine(path):
            self.alive()
            out.sort()
            self.r.shuffle(out)
        return out

    def p_scandir(self, path="."):
        p = self.mine(path)
        if isinstance(path, int) or p is None:
            return R["scandir"](path)
        self.alive()
        with R["scandir"](path) as it:
            out = sorted(it, key=lambda e: os.fsdecode(e.name))
        self.r.shuffle(out)
        return _Scan(out)

    def _two(self, name):
        def g(src, dst, *a, **k):
            p = self.mine(dst, k.get("dst_dir_fd")) or self.mine(src, k.get("src_dir_fd"))
            if p is None:
                return R[name](src, dst, *a, **k)
            return self.op(name, p, lambda: R[name](src, dst, *a, **k))

        return g

    def _one(self, name):
        def g(path, *a, **k):
            p = self.mine(path, k.get("dir_fd"))
            if p is None:
                return R[name](path, *a, **k)
            return self.op(name, p, lambda: R[name](path, *a, **k))

        return g

    def __enter__(self):
        new = {}
        for n in OS:
            if n in ("replace", "rename", "link", "symlink"):
                new[n] = self._two(n)
            elif n in READONLY:
                new[n] = getattr(self, "p_" + n)
            else:
                new[n] = self._one(n)
        for n, f in new.items():
            setattr(os, n, f)
        builtins.open = io.open = _io.open = self.open
        return self

    def __exit__(self, *a):
        for n in OS:
            setattr(os, n, R[n])
        builtins.open = io.open = _io.open = ropen
        for fd in list(self.fds):
            # descriptors the dead process left open
            try:
                R["close"](fd)
            except OSError:
                pass
        self.fds.clear()


class _Scan:
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass
