"""Node side of the simulated disk: replaces Python's file functions for simulated paths.

A path is simulated if it lies under one of the roots given to install(); resource files of the
package are served from a snapshot.  Everything else goes to the real functions.
"""

import _io
import builtins
import errno
import fcntl
import io
import os
import random
import stat as stat_module
import tempfile
import time

import baton

FIRST_FD = 1000000
REAL = {}
_lock = baton.REAL_RLOCK()


class Shim:
    def __init__(self, rpc, roots, resources, resource_root, resource_rpc, pid, seed):
        self.rpc_ = rpc
        self.roots = roots
        self.resources = resources  # relative path -> bytes
        self.resource_root = resource_root
        self.resource_rpc = resource_rpc
        self.resource_fds = {}
        self.resource_dirs = {""}
        for name in resources:
            parts = name.split("/")
            for i in range(1, len(parts)):
                self.resource_dirs.add("/".join(parts[:i]))
        self.mtime = 1.6e9
        self.exclude = ()  # real paths even if below a root
        self.pid = pid
        self.encoding = "utf-8"  # of the locale
        self.rng = random.Random(seed)

    def rpc(self, op, *args, path=None):
        active = baton.ACTIVE
        if active is not None and op != "clock":
            active.on_call(op)
        with _lock:
            if active is not None:
                active.outside = True
            try:
                status, value = self.rpc_(op, args)
            finally:
                if active is not None:
                    active.outside = False
        if active is not None and op != "clock":
            active.on_call(op)
        if status == "err":
            if path is None:
                raise OSError(value, os.strerror(value))
            raise OSError(value, os.strerror(value), path)
        return value

    # which world a path belongs to
    def where(self, path):
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        elif not isinstance(path, str):
            if isinstance(path, int):
                if path >= FIRST_FD:
                    return ("res" if path in self.resource_fds else "fd"), path
                return None, path
            try:
                path = os.fspath(path)
            except TypeError:
                return None, path
            if isinstance(path, bytes):
                path = os.fsdecode(path)
        if path.startswith(self.resource_root):
            name = path[len(self.resource_root) :].strip("/")
            if name.startswith(("encount", "txt")) or name in self.resources:
                return "res", name
            return None, path
        for root in self.roots:
            if self.exclude and path.startswith(self.exclude):
                return None, path
            if path == root or path.startswith(root + "/"):
                return "sim", self.clean(path)
        return None, path

    @staticmethod
    def clean(path):
        out = []
        for part in path.split("/"):
            if part in ("", "."):
                continue
            if part == "..":
                if out:
                    out.pop()
                continue
            out.append(part)
        return "/" + "/".join(out) + ("/" if path.endswith("/") and out else "")


SHIM = None


def stat_result(described):
    mode, ino, dev, nlink, uid, gid, size, mtime = described
    whole = int(mtime)
    return os.stat_result(
        (mode, ino, dev, nlink, uid, gid, size, whole, whole, whole),
        {"st_atime": mtime, "st_mtime": mtime, "st_ctime": mtime,
         "st_atime_ns": int(mtime * 1e9), "st_mtime_ns": int(mtime * 1e9),
         "st_ctime_ns": int(mtime * 1e9)},
    )


def resource_stat(name):
    shim = SHIM
    if name in shim.resource_dirs:
        return stat_result((stat_module.S_IFDIR | 0o755, 5, 1, 1, 0, 0, 0, shim.mtime))
    if name in shim.resources:
        return stat_result((stat_module.S_IFREG | 0o644, 6 + hash(name) % 1000, 1, 1, 0, 0,
                            len(shim.resources[name]), shim.mtime))
    real = os.path.join(shim.resource_root, name)
    return REAL["stat"](real)


# ------------------------------------------------------------------ file objects
class SimRaw(io.RawIOBase):
    """What FileIO is to a real descriptor"""

    def __init__(self, fd, name, readable, writable, appending=False, closefd=True):
        super().__init__()
        self._fd, self.name = fd, name
        self._readable, self._writable, self._appending = readable, writable, appending
        self._closefd = closefd
        self.mode = "rb+" if readable and writable else "wb" if writable else "rb"

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def readable(self):
        return self._readable

    def writable(self):
        return self._writable

    def seekable(self):
        return True

    def isatty(self):
        return False

    def readinto(self, buffer):
        data = os.read(self.fileno(), len(buffer))
        buffer[: len(data)] = data
        return len(data)

    def readall(self):
        size = os.fstat(self.fileno()).st_size
        parts, total, room = [], 0, size + 1
        while True:
            if total >= room:  # it grew meanwhile: more room, as FileIO makes it
                room += 256 + total if total < 65536 else max(8192, total >> 3)
            part = os.read(self.fileno(), room - total)
            if not part:
                return b"".join(parts)
            parts.append(part)
            total += len(part)

    def write(self, data):
        return os.write(self.fileno(), bytes(data))

    def seek(self, offset, whence=0):
        return os.lseek(self.fileno(), offset, whence)

    def tell(self):
        return os.lseek(self.fileno(), 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self.fileno(), size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self._closefd:
                    os.close(self._fd)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    where, path = SHIM.where(file)
    if where is None and opener is None:
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    kinds = set(mode)
    updating = "+" in kinds
    binary = "b" in kinds
    action = kinds & set("rwax")
    if kinds - set("rwaxbt+") or len(action) != 1 or (binary and "t" in kinds):
        raise ValueError("invalid mode: %r" % mode)
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
    (action,) = action
    flags = os.O_CLOEXEC
    flags |= os.O_RDWR if updating else os.O_RDONLY if action == "r" else os.O_WRONLY
    flags |= {"r": 0, "w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND,
              "x": os.O_CREAT | os.O_EXCL}[action]
    if isinstance(file, int):
        fd = file
    elif opener is not None:
        fd = opener(file, flags)
        if fd < FIRST_FD:
            return REAL["open"](fd, mode, buffering, encoding, errors, newline, closefd)
    else:
        fd = os.open(file, flags, 0o666)
    if not isinstance(file, int) or closefd:
        if stat_module.S_ISDIR(os.fstat(fd).st_mode):
            os.close(fd)
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
    raw = SimRaw(fd, file, action == "r" or updating, action != "r" or updating, action == "a", closefd)
    if action == "a":
        raw.seek(0, 2)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if updating:
        buffered = io.BufferedRandom(raw, size)
    elif action == "r":
        buffered = io.BufferedReader(raw, size)
    else:
        buffered = io.BufferedWriter(raw, size)
    if binary:
        return buffered
    if encoding in (None, "locale"):
        encoding = SHIM.encoding
    text = io.TextIOWrapper(buffered, encoding, errors, newline, buffering == 1)
    text.mode = mode
    return text


# ------------------------------------------------------------------ os functions
def absolute(path, dir_fd):
    if dir_fd is not None:
        raise NotImplementedError("dir_fd on a simulated path")
    return path


def o_open(path, flags, mode=0o777, *, dir_fd=None):
    where, name = SHIM.where(path)
    if where is None:
        return REAL["os.open"](path, flags, mode, dir_fd=dir_fd)
    if where == "res":
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), path)
        if SHIM.resource_rpc:
            SHIM.rpc("res-open", name, path=path)
        if name not in SHIM.resources:
            if name in SHIM.resource_dirs:
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
            return REAL["os.open"](path, flags, mode)
        fd = FIRST_FD * 2
        while fd in SHIM.resource_fds:
            fd += 1
        SHIM.resource_fds[fd] = [name, 0]
        return fd
    return SHIM.rpc("open", name, flags, mode, path=path)


def o_close(fd):
    if fd in SHIM.resource_fds:
        del SHIM.resource_fds[fd]
        return None
    if fd >= FIRST_FD:
        return SHIM.rpc("close", fd)
    return REAL["os.close"](fd)


def o_read(fd, count):
    if fd in SHIM.resource_fds:
        entry = SHIM.resource_fds[fd]
        data = SHIM.resources[entry[0]][entry[1] : entry[1] + count]
        if SHIM.resource_rpc:
            allowed = SHIM.rpc("res-read", entry[0], len(data))
            data = data[:allowed]
        entry[1] += len(data)
        return data
    if fd >= FIRST_FD:
        return SHIM.rpc("read", fd, count)
    return REAL["os.read"](fd, count)


def o_dup(fd):
    """A real descriptor with the content"""
    if fd in SHIM.resource_fds:
        name, at = SHIM.resource_fds[fd][:2]
        data = SHIM.resources[name]
    elif fd >= FIRST_FD:
        at = o_lseek(fd, 0, 1)
        data = o_pread(fd, stat_result(SHIM.rpc("fstat", fd)).st_size, 0)
    else:
        return REAL["os.dup"](fd)
    copy = os.memfd_create("copy")
    REAL["os.write"](copy, data)
    REAL["os.lseek"](copy, at, 0)
    return copy


def np_fromfile(file, dtype=float, count=-1, sep="", offset=0, **kwargs):
    """numpy.fromfile with errors of reads as numpy 1.26 treats them: they end the reading, the
    rest of the array stays as it was allocated"""
    import numpy as np

    if isinstance(file, (str, bytes, os.PathLike)):
        if SHIM.where(file)[0] is None:
            return REAL["np.fromfile"](file, dtype, count, sep, offset, **kwargs)
        with sim_open(file, "rb") as opened:
            return np_fromfile(opened, dtype, count, sep, offset, **kwargs)
    raw = getattr(file, "raw", file)
    if not isinstance(raw, SimRaw) or sep:
        return REAL["np.fromfile"](file, dtype, count, sep, offset, **kwargs)
    dtype = np.dtype(dtype)
    start = file.tell() + offset
    size = raw.seek(0, 2)
    if count < 0:
        count = (size - start) // dtype.itemsize
    content = bytearray(b"\xa5" * (count * dtype.itemsize))
    at = 0
    try:
        raw.seek(start)
        while at < len(content):
            data = os.read(raw.fileno(), min(4096, len(content) - at))
            if not data:
                break
            content[at : at + len(data)] = data
            at += len(data)
    except OSError:
        pass
    file.seek(start + at)
    return np.frombuffer(bytes(content), dtype).copy()


def mapping(real):
    def mmap(fileno, length, *args, **kwargs):
        if fileno < FIRST_FD:
            return real(fileno, length, *args, **kwargs)
        copy = o_dup(fileno)
        try:
            return real(copy, length, *args, **kwargs)
        finally:
            REAL["os.close"](copy)

    return mmap


def o_write(fd, data):
    if fd >= FIRST_FD:
        return SHIM.rpc("write", fd, bytes(data))
    return REAL["os.write"](fd, data)


def o_pread(fd, count, offset):
    if fd >= FIRST_FD:
        old = o_lseek(fd, 0, 1)
        o_lseek(fd, offset, 0)
        try:
            return o_read(fd, count)
        finally:
            o_lseek(fd, old, 0)
    return REAL["os.pread"](fd, count, offset)


def o_lseek(fd, offset, whence):
    if fd in SHIM.resource_fds:
        entry = SHIM.resource_fds[fd]
        entry[1] = {0: 0, 1: entry[1], 2: len(SHIM.resources[entry[0]])}[whence] + offset
        return entry[1]
    if fd >= FIRST_FD:
        return SHIM.rpc("lseek", fd, offset, whence)
    return REAL["os.lseek"](fd, offset, whence)


def o_ftruncate(fd, size):
    if fd >= FIRST_FD:
        return SHIM.rpc("ftruncate", fd, size)
    return REAL["os.ftruncate"](fd, size)


def o_truncate(path, size):
    where, name = SHIM.where(path)
    if where == "fd":
        return o_ftruncate(name, size)
    if where == "sim":
        return SHIM.rpc("truncate", name, size, path=path)
    return REAL["os.truncate"](path, size)


def o_fsync(fd):
    if isinstance(fd, int) and fd < FIRST_FD:
        return REAL["os.fsync"](fd)
    return SHIM.rpc("fsync", fd if isinstance(fd, int) else fd.fileno())


def o_fstat(fd):
    if fd in SHIM.resource_fds:
        return resource_stat(SHIM.resource_fds[fd][0])
    if fd >= FIRST_FD:
        return stat_result(SHIM.rpc("fstat", fd))
    return REAL["os.fstat"](fd)


def o_stat(path, *, dir_fd=None, follow_symlinks=True):
    where, name = SHIM.where(path)
    if where == "fd" or (where == "res" and isinstance(name, int)):
        return o_fstat(name)
    if where == "res":
        if SHIM.resource_rpc and name in SHIM.resources:
            SHIM.rpc("res-stat", name, path=path)
        return resource_stat(name)
    if where == "sim":
        return stat_result(SHIM.rpc("stat", name, path=absolute(path, dir_fd)))
    return REAL["stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)


def o_lstat(path, *, dir_fd=None):
    return o_stat(path, dir_fd=dir_fd, follow_symlinks=False)


def simple(op, real):
    def function(path, *args, dir_fd=None, **kwargs):
        where, name = SHIM.where(path)
        if where == "sim":
            if op == "mkdir":
                args = (args[0] if args else kwargs.get("mode", 0o777),)
            elif op == "chmod":
                args = (args[0] if args else kwargs["mode"],)
            elif op == "access":
                args = (args[0] if args else kwargs["mode"],)
                try:
                    return SHIM.rpc("access", name, *args)
                except OSError:
                    return False
            elif op == "utime":
                times = args[0] if args else kwargs.get("times")
                args = (None if times is None else times[1],)
            return SHIM.rpc(op, name, *args, path=absolute(path, dir_fd))
        if where == "res":
            if op == "access":
                return True
            raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), path)
        if where == "fd":
            return None
        if dir_fd is not None:
            kwargs["dir_fd"] = dir_fd
        return real(path, *args, **kwargs)

    return function


def double(op, real):
    def function(source, target, **kwargs):
        where, name = SHIM.where(source)
        where2, name2 = SHIM.where(target)
        if where == "sim" and where2 == "sim":
            return SHIM.rpc(op, name, name2, path=source)
        if where is None and where2 is None:
            return real(source, target, **kwargs)
        raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), source)

    return function


def o_symlink(source, target, *args, **kwargs):
    if SHIM.where(target)[0] == "sim":
        raise PermissionError(errno.EPERM, os.strerror(errno.EPERM), target)
    return REAL["os.symlink"](source, target, *args, **kwargs)


def o_readlink(path, *, dir_fd=None):
    if SHIM.where(path)[0] in ("sim", "res"):
        o_lstat(path)
        raise OSError(errno.EINVAL, os.strerror(errno.EINVAL), path)
    return REAL["os.readlink"](path, dir_fd=dir_fd)


def listing(path):
    where, name = SHIM.where(path)
    if where == "sim" or where == "fd":
        return SHIM.rpc("listdir", name, path=path)
    if where == "res":
        found = {}
        prefix = name + "/" if name else ""
        for resource in list(SHIM.resources) + sorted(SHIM.resource_dirs):
            if resource.startswith(prefix) and resource != name:
                found[resource[len(prefix) :].split("/")[0]] = True
        return [(child, None) for child in sorted(found)]
    return None


def o_listdir(path="."):
    found = listing(path)
    if found is None:
        return REAL["os.listdir"](path)
    return [name for name, _ in found]


class SimEntry:
    def __init__(self, directory, name, described):
        self.name, self.path = name, os.path.join(directory, name)
        self._described = described

    def stat(self, *, follow_symlinks=True):
        return os.stat(self.path)

    def is_dir(self, *, follow_symlinks=True):
        mode = self._described[0] if self._described else os.stat(self.path).st_mode
        return stat_module.S_ISDIR(mode)

    def is_file(self, *, follow_symlinks=True):
        return not self.is_dir()

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def inode(self):
        return self._described[1] if self._described else 7

    def __fspath__(self):
        return self.path


class SimScan:
    def __init__(self, entries):
        self.entries = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None

    def close(self):
        pass


def o_scandir(path="."):
    found = listing(path)
    if found is None:
        return REAL["os.scandir"](path)
    return SimScan([SimEntry(os.fspath(path), name, described) for name, described in found])


def o_fdopen(fd, mode="r", buffering=-1, encoding=None, *args, **kwargs):
    return sim_open(fd, mode, buffering, encoding, *args, **kwargs)


def f_flock(fd, operation):
    number = fd if isinstance(fd, int) else fd.fileno()
    if number < FIRST_FD:
        return REAL["fcntl.flock"](fd, operation)
    unlock = bool(operation & fcntl.LOCK_UN)
    exclusive = bool(operation & fcntl.LOCK_EX)
    blocking = not operation & fcntl.LOCK_NB
    if blocking and baton.ACTIVE is not None:
        # another thread may hold it
        while not SHIM.rpc("flock", number, exclusive, unlock, False):
            if not baton.ACTIVE.give_way():
                break
        else:
            return None
    if not SHIM.rpc("flock", number, exclusive, unlock, blocking):
        raise BlockingIOError(errno.EWOULDBLOCK, os.strerror(errno.EWOULDBLOCK))
    return None


def f_lockf(fd, cmd, *args):
    return f_flock(fd, cmd)


def f_fcntl(fd, cmd, arg=0):
    number = fd if isinstance(fd, int) else fd.fileno()
    if number < FIRST_FD:
        return REAL["fcntl.fcntl"](fd, cmd, arg)
    return 0


# ------------------------------------------------------------------ clocks, identity, randomness
def clock(scale, kind):
    def function():
        value = SHIM.rpc("clock")
        return int(value * 1e9) if scale else value

    function.__name__ = kind
    return function


def t_sleep(seconds):
    SHIM.rpc("sleep", float(seconds))
    if baton.ACTIVE is not None:
        baton.ACTIVE.give_way()


def o_urandom(count):
    return bytes(SHIM.rng.getrandbits(8) for _ in range(count))


class Names:
    characters = "abcdefghijklmnopqrstuvwxyz0123456789_"

    def __iter__(self):
        return self

    def __next__(self):
        return "".join(SHIM.rng.choice(self.characters) for _ in range(8))


def install(shim):
    global SHIM
    SHIM = shim
    if REAL:
        return
    REAL.update({
        "open": io.open, "stat": os.stat,
    })
    for name in ("open", "close", "dup", "read", "write", "pread", "lseek", "ftruncate", "truncate",
                 "fsync", "fstat", "symlink", "readlink", "listdir", "scandir"):
        REAL["os." + name] = getattr(os, name)
    REAL["fcntl.flock"], REAL["fcntl.fcntl"] = fcntl.flock, fcntl.fcntl
    builtins.open = io.open = _io.open = sim_open
    os.stat, os.lstat, os.fstat = o_stat, o_lstat, o_fstat
    os.open, os.close, os.read, os.write, os.lseek = o_open, o_close, o_read, o_write, o_lseek
    os.pread, os.dup = o_pread, o_dup
    import mmap

    import numpy

    REAL["np.fromfile"], numpy.fromfile = numpy.fromfile, np_fromfile
    mmap.mmap = mapping(mmap.mmap)
    os.ftruncate, os.truncate = o_ftruncate, o_truncate
    os.fsync = os.fdatasync = o_fsync
    os.sync = lambda: SHIM.rpc("sync")
    os.listdir, os.scandir = o_listdir, o_scandir
    os.symlink, os.readlink = o_symlink, o_readlink
    os.fdopen = o_fdopen
    for name in ("mkdir", "rmdir", "unlink", "chmod", "access", "utime"):
        setattr(os, name, simple(name, getattr(os, name)))
    os.remove = os.unlink
    os.rename = double("rename", os.rename)
    os.replace = double("rename", os.replace)
    os.link = double("link", os.link)
    os.getpid = lambda: SHIM.pid
    os.urandom = random._urandom = o_urandom
    fcntl.flock, fcntl.lockf, fcntl.fcntl = f_flock, f_lockf, f_fcntl
    for name in ("time", "monotonic", "perf_counter"):
        setattr(time, name, clock(False, name))
        setattr(time, name + "_ns", clock(True, name))
    time.sleep = t_sleep
    tempfile._name_sequence = Names()
    tempfile.tempdir = None
    import shutil

    shutil._use_fd_functions = False
    if hasattr(shutil.rmtree, "avoids_symlink_attacks"):
        shutil.rmtree.avoids_symlink_attacks = False
    random.seed(shim.rng.getrandbits(64))
