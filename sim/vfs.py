"""The simulated disk (controller side).

Every file system call of a node arrives here as one atomic step.  Each inode has volatile
content (what processes see) and durable content (what the last sync left); directory changes
are durable only after a sync of the directory.  power_loss() chooses one of the states the
unsynced changes may leave behind.
"""

import errno
import hashlib
import stat

O_WRONLY, O_RDWR, O_ACCMODE = 1, 2, 3
O_CREAT, O_EXCL, O_TRUNC, O_APPEND, O_DIRECTORY = 0o100, 0o200, 0o1000, 0o2000, 0o200000

MUTATING = {"mkdir", "rmdir", "unlink", "rename", "write", "ftruncate", "truncate", "link",
            "chmod", "utime"}


class FsError(Exception):
    def __init__(self, number):
        super().__init__(errno.errorcode[number])
        self.errno = number


class Inode:
    def __init__(self, number, directory, now):
        self.number = number
        self.directory = directory
        self.entries = {} if directory else None
        self.data = bytearray()
        self.durable = b""
        self.mtime = now
        self.mode = (stat.S_IFDIR | 0o755) if directory else (stat.S_IFREG | 0o644)


class OpenFile:
    def __init__(self, inode, flags, path):
        self.inode, self.flags, self.path, self.pos = inode, flags, path, 0
        self.locked = None


class Vfs:
    def __init__(self, page=512, capacity=None):
        self.page, self.capacity = page, capacity
        self.count = 0
        self.now = 1.7e9
        self.readonly = False
        self.root = self.inode(True)
        self.durable_entries = {self.root.number: {}}
        self.journal = []  # directory changes not yet synced: (dir inode, name, inode or None)
        self.locks = {}  # inode number -> list of (OpenFile, exclusive)

    def inode(self, directory):
        self.count += 1
        return Inode(self.count, directory, self.now)

    # ------------------------------------------------------------ names
    def parts(self, path):
        return [p for p in path.split("/") if p and p != "."]

    def lookup(self, path):
        node = self.root
        for part in self.parts(path):
            if not node.directory:
                raise FsError(errno.ENOTDIR)
            if len(part.encode("utf-8", "surrogateescape")) > 255:
                raise FsError(errno.ENAMETOOLONG)
            if part not in node.entries:
                raise FsError(errno.ENOENT)
            node = node.entries[part]
        return node

    def parent(self, path):
        parts = self.parts(path)
        if not parts:
            raise FsError(errno.EEXIST)
        if len(parts[-1].encode("utf-8", "surrogateescape")) > 255:
            raise FsError(errno.ENAMETOOLONG)
        node = self.lookup("/".join(parts[:-1]))
        if not node.directory:
            raise FsError(errno.ENOTDIR)
        return node, parts[-1]

    def set_entry(self, directory, name, inode):
        if inode is None:
            directory.entries.pop(name, None)
        else:
            directory.entries[name] = inode
        directory.mtime = self.now
        self.journal.append((directory, name, inode))

    def used(self):
        return sum(len(inode.data) for _, inode in self.walk() if not inode.directory)

    def walk(self, path="", node=None):
        node = node or self.root
        for name in sorted(node.entries):
            child = node.entries[name]
            here = path + "/" + name
            yield here, child
            if child.directory:
                yield from self.walk(here, child)

    def files(self):
        return [(path, inode) for path, inode in self.walk() if not inode.directory]

    def digest(self):
        full = hashlib.sha256()
        for path, inode in self.walk():
            full.update(path.encode("utf-8", "surrogateescape") + b"\0")
            full.update(b"d" if inode.directory else hashlib.sha256(inode.data).digest())
        return full.hexdigest()[:16]

    # ------------------------------------------------------------ calls
    def call(self, fds, op, args):
        if self.readonly and (op in MUTATING or (op == "open" and args[1] & (O_ACCMODE | O_CREAT | O_TRUNC))):
            if op == "open" and not args[1] & O_TRUNC:
                try:
                    if not args[1] & O_ACCMODE and self.lookup(args[0]):
                        return getattr(self, "op_" + op)(fds, *args)
                except FsError:
                    pass
            raise FsError(errno.EROFS)
        return getattr(self, "op_" + op)(fds, *args)

    def file(self, fds, fd):
        if fd not in fds:
            raise FsError(errno.EBADF)
        return fds[fd]

    def op_open(self, fds, path, flags, mode):
        try:
            inode = self.lookup(path)
            if flags & O_CREAT and flags & O_EXCL:
                raise FsError(errno.EEXIST)
            if inode.directory and flags & (O_ACCMODE | O_CREAT):
                raise FsError(errno.EISDIR)
            if not inode.directory and flags & O_DIRECTORY:
                raise FsError(errno.ENOTDIR)
            if path.endswith("/") and not inode.directory:
                raise FsError(errno.ENOTDIR)
            if flags & O_TRUNC and flags & O_ACCMODE and not inode.directory:
                inode.data = bytearray()
                inode.mtime = self.now
        except FsError as exc:
            if exc.errno != errno.ENOENT or not flags & O_CREAT:
                raise
            directory, name = self.parent(path)
            if name in directory.entries:
                raise
            if self.capacity is not None and self.used() >= self.capacity:
                raise FsError(errno.ENOSPC)
            inode = self.inode(False)
            inode.mode = stat.S_IFREG | (mode & 0o755)
            self.set_entry(directory, name, inode)
        fd = 1000000
        while fd in fds:
            fd += 1
        fds[fd] = OpenFile(inode, flags, path)
        return fd

    def op_close(self, fds, fd):
        handle = self.file(fds, fd)
        self.unlock(handle)
        del fds[fd]

    def release(self, fds):
        """A process is gone"""
        for handle in fds.values():
            self.unlock(handle)
        fds.clear()

    def op_read(self, fds, fd, count):
        handle = self.file(fds, fd)
        if handle.inode.directory:
            raise FsError(errno.EISDIR)
        if handle.flags & O_ACCMODE == O_WRONLY:
            raise FsError(errno.EBADF)
        data = bytes(handle.inode.data[handle.pos : handle.pos + count])
        handle.pos += len(data)
        return data

    def op_write(self, fds, fd, data):
        handle = self.file(fds, fd)
        if not handle.flags & O_ACCMODE:
            raise FsError(errno.EBADF)
        content = handle.inode.data
        if handle.flags & O_APPEND:
            handle.pos = len(content)
        if self.capacity is not None:
            room = self.capacity - self.used() + max(0, len(content) - handle.pos)
            if room <= 0 and data:
                raise FsError(errno.ENOSPC)
            data = data[: max(0, room)]
        if handle.pos > len(content):
            content.extend(b"\0" * (handle.pos - len(content)))
        content[handle.pos : handle.pos + len(data)] = data
        handle.pos += len(data)
        handle.inode.mtime = self.now
        return len(data)

    def op_lseek(self, fds, fd, offset, whence):
        handle = self.file(fds, fd)
        base = {0: 0, 1: handle.pos, 2: len(handle.inode.data)}[whence]
        if base + offset < 0:
            raise FsError(errno.EINVAL)
        handle.pos = base + offset
        return handle.pos

    def op_ftruncate(self, fds, fd, size):
        content = self.file(fds, fd).inode.data
        del content[size:]
        content.extend(b"\0" * (size - len(content)))

    def op_truncate(self, fds, path, size):
        inode = self.lookup(path)
        if inode.directory:
            raise FsError(errno.EISDIR)
        del inode.data[size:]
        inode.data.extend(b"\0" * (size - len(inode.data)))

    def op_fsync(self, fds, fd):
        inode = self.file(fds, fd).inode
        if inode.directory:
            kept = []
            for change in self.journal:
                if change[0] is inode:
                    self.apply_durable(change)
                else:
                    kept.append(change)
            self.journal = kept
        else:
            inode.durable = bytes(inode.data)

    def describe(self, inode):
        return (inode.mode, inode.number, 1, 1, 0, 0, len(inode.data), inode.mtime)

    def op_stat(self, fds, path):
        return self.describe(self.lookup(path))

    def op_fstat(self, fds, fd):
        return self.describe(self.file(fds, fd).inode)

    def op_access(self, fds, path, mode):
        self.lookup(path)
        return not (self.readonly and mode & 2)

    def op_mkdir(self, fds, path, mode):
        directory, name = self.parent(path)
        if name in directory.entries:
            raise FsError(errno.EEXIST)
        if self.capacity is not None and self.used() >= self.capacity:
            raise FsError(errno.ENOSPC)
        self.set_entry(directory, name, self.inode(True))

    def op_rmdir(self, fds, path):
        directory, name = self.parent(path)
        inode = self.lookup(path)
        if not inode.directory:
            raise FsError(errno.ENOTDIR)
        if inode.entries:
            raise FsError(errno.ENOTEMPTY)
        self.set_entry(directory, name, None)

    def op_unlink(self, fds, path):
        directory, name = self.parent(path)
        if self.lookup(path).directory:
            raise FsError(errno.EISDIR)
        self.set_entry(directory, name, None)

    def op_rename(self, fds, source, target):
        inode = self.lookup(source)
        old_dir, old_name = self.parent(source)
        new_dir, new_name = self.parent(target)
        existing = new_dir.entries.get(new_name)
        if existing is inode:
            return
        if existing is not None:
            if existing.directory and not inode.directory:
                raise FsError(errno.EISDIR)
            if inode.directory and not existing.directory:
                raise FsError(errno.ENOTDIR)
            if existing.directory and existing.entries:
                raise FsError(errno.ENOTEMPTY)
        self.set_entry(new_dir, new_name, inode)
        self.set_entry(old_dir, old_name, None)

    def op_link(self, fds, source, target):
        inode = self.lookup(source)
        directory, name = self.parent(target)
        if name in directory.entries:
            raise FsError(errno.EEXIST)
        self.set_entry(directory, name, inode)

    def op_listdir(self, fds, path):
        inode = self.lookup(path) if isinstance(path, str) else self.file(fds, path).inode
        if not inode.directory:
            raise FsError(errno.ENOTDIR)
        return [(name, self.describe(inode.entries[name])) for name in sorted(inode.entries)]

    def op_chmod(self, fds, path, mode):
        inode = self.lookup(path)
        inode.mode = stat.S_IFMT(inode.mode) | mode

    def op_utime(self, fds, path, mtime):
        self.lookup(path).mtime = self.now if mtime is None else mtime

    # ------------------------------------------------------------ advisory locks
    def unlock(self, handle):
        held = self.locks.get(handle.inode.number, [])
        held[:] = [entry for entry in held if entry[0] is not handle]

    def op_flock(self, fds, fd, exclusive, unlock):
        """True if the lock is held now, False if the caller has to wait"""
        handle = self.file(fds, fd)
        self.unlock(handle)
        if unlock:
            return True
        held = self.locks.setdefault(handle.inode.number, [])
        if held and (exclusive or any(entry[1] for entry in held)):
            return False
        held.append((handle, exclusive))
        return True

    # ------------------------------------------------------------ faults
    def apply_durable(self, change):
        directory, name, inode = change
        entries = self.durable_entries.setdefault(directory.number, {})
        if inode is None:
            entries.pop(name, None)
        else:
            entries[name] = inode

    def sync_all(self):
        for change in self.journal:
            self.apply_durable(change)
        self.journal = []
        for _, inode in self.walk():
            if not inode.directory:
                inode.durable = bytes(inode.data)

    def power_loss(self, rng):
        """Keep what was synced and a choice of what was not"""
        if rng.random() < 0.6:  # an ordered journal: some prefix of the changes
            kept = self.journal[: rng.randrange(len(self.journal) + 1)]
        else:
            kept = [change for change in self.journal if rng.random() < 0.5]
        seen = {inode.number: inode for _, inode in self.walk()}
        for change in kept:
            self.apply_durable(change)
        self.journal = []

        def rebuild(inode):
            if not inode.directory:
                return
            inode.entries = dict(self.durable_entries.get(inode.number, {}))
            for name, child in inode.entries.items():
                seen[child.number] = child
                rebuild(child)

        rebuild(self.root)
        for _, inode in self.walk():
            if not inode.directory:
                inode.data = bytearray(self.surviving(rng, inode.durable, bytes(inode.data)))
                inode.durable = bytes(inode.data)
        self.locks = {}

    def surviving(self, rng, old, new):
        if old == new:
            return new
        style = rng.random()
        if style < 0.25:
            return new
        if style < 0.4:
            return old
        length = rng.choice([len(new), len(new), len(old), rng.randrange(max(len(old), len(new)) + 1)])
        result = bytearray()
        for start in range(0, length, self.page):
            pick = rng.random()
            stop = min(start + self.page, length)
            for source in ((new, old) if pick < 0.6 else (old, new) if pick < 0.8 else ()):
                if len(source) > start:
                    part = source[start:stop]
                    break
            else:
                part = b""
            result += part + b"\0" * (stop - start - len(part))
        if rng.random() < 0.3 and result:  # torn inside a page
            cut = rng.randrange(len(result))
            tail = old[cut : len(result)]
            result[cut:] = tail + b"\0" * (len(result) - cut - len(tail))
        return bytes(result)

    def damage(self, rng, how, which):
        """Corrupt, by the storage itself, the content of an entry; returns what was done"""
        files = self.files()
        if not files:
            return None
        path, inode = files[which % len(files)]
        data = inode.data
        other = files[(which + 1 + rng.randrange(max(1, len(files) - 1))) % len(files)][1]
        if how == "flip":
            if not data:
                return None
            for _ in range(rng.choice([1, 1, 1, 3])):
                # headers, trailers and anything between
                at = rng.choice([rng.randrange(len(data)), rng.randrange(min(40, len(data))),
                                 len(data) - 1 - rng.randrange(min(40, len(data)))])
                data[at] ^= 1 << rng.randrange(8)
        elif how == "overwrite":
            if not data:
                return None
            at = rng.randrange(len(data))
            for i in range(at, min(len(data), at + rng.randrange(1, 64))):
                data[i] = rng.randrange(256)
        elif how == "truncate":
            del data[rng.choice([0, rng.randrange(len(data) + 1), max(0, len(data) - rng.randrange(1, 40))]) :]
        elif how == "extend":
            data.extend(rng.choice([b"\0" * 40, bytes(rng.randrange(256) for _ in range(33)), bytes(data)]))
        elif how == "zero":
            at = rng.randrange(len(data) // self.page + 1) * self.page
            for i in range(at, min(len(data), at + self.page)):
                data[i] = 0
        elif how == "zeroall":
            data[:] = b"\0" * len(data)
        elif how == "swap":
            inode.data, other.data = other.data, inode.data
        elif how == "copy":
            inode.data = bytearray(other.data)
        elif how == "page":  # a page of another entry in place of this one's
            at = rng.randrange(len(data) // self.page + 1) * self.page
            data[at : at + self.page] = other.data[at : at + self.page]
        elif how == "digest":  # another entry's tail
            if len(data) > 64 and len(other.data) > 64:
                data[-32:] = other.data[-32:]
        elif how == "pickle":  # a well-formed but different payload before the old tail
            import pickle

            data[:-32] = pickle.dumps({"other": 1} if rng.random() < 0.5 else (("x",), None))
        elif how == "field":  # change plausible small integers only
            if len(data) < 80:
                return None
            at = rng.randrange(40, len(data) - 36)
            data[at] = (data[at] + rng.choice([1, 255])) % 256
        return path
