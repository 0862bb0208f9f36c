"""
In-memory file system below ROOT. All os-level entry points are patched and dispatch on the path (or fake fd).

Each system call made by a simulated task is an event (scheduling / kill point) and a fault point.
Crash model: a killed process loses its user-space buffers, everything already passed to a completed system call stays.
Effects of one system call are atomic, except writes, which can be short.
"""

from __future__ import annotations
import builtins
import errno
import io
import os
import stat as stat_mod
import posix
import fcntl as _fcntl

from .core import cur_task, Sim, SimKilled, HarnessError, WaitObj

ROOT = "/simfs"
_FD_BASE = 1_000_000
BLOCK = 512

_orig = {}
_vfs = None  # active VFS


def _err(no, path=None, path2=None):
    e = OSError(no, os.strerror(no), path)
    if path2 is not None:
        e.filename2 = path2
    return e


class Inode:
    __slots__ = ("ino", "is_dir", "data", "entries", "mtime_ns", "atime_ns", "ctime_ns", "mode", "alloc", "nlink", "parent", "flock_owner", "flock_w", "tag", "symlink")

    def __init__(self, ino, is_dir, now_ns, parent=None):
        self.ino = ino
        self.is_dir = is_dir
        self.data = None if is_dir else bytearray()
        self.entries = {} if is_dir else None
        self.mtime_ns = self.atime_ns = self.ctime_ns = now_ns
        self.mode = (stat_mod.S_IFDIR | 0o755) if is_dir else (stat_mod.S_IFREG | 0o644)
        self.alloc = 0
        self.nlink = 1
        self.parent = parent
        self.flock_owner = None
        self.flock_w = None
        self.tag = None
        self.symlink = None

    def blocks(self):
        return -(-max(len(self.data), self.alloc) // BLOCK) if not self.is_dir else 0


class OpenFile:
    """open file description"""

    __slots__ = ("inode", "pos", "flags", "path", "proc", "fd", "mount", "dir_listing")

    def __init__(self, inode, flags, path, proc, fd, mount):
        self.inode = inode
        self.flags = flags
        self.pos = 0
        self.path = path
        self.proc = proc
        self.fd = fd
        self.mount = mount


class Mount:
    def __init__(self, name, capacity=None):
        self.name = name
        self.capacity = capacity  # bytes or None
        self.other_used = 0  # used by others
        self.orphan = 0
        self.latency = None

    def __repr__(self):
        return "<Mount %s>" % self.name


class VFS:
    def __init__(self, sim):
        self.sim = sim
        self.next_ino = 1
        self.next_fd = _FD_BASE
        self.god_fds = {}
        self.root = self._new_inode(True)
        self.mounts = {}
        self.default_mount = Mount("")
        self.op_counts = {}
        self.observers = []  # f(op, path, proc, **info): called after the effect, no events
        self.god_time = None
        self.fault_filter = None  # f(op, path, proc) -> bool
        self.latency = None  # f(op, path, nbytes) -> seconds or 0
        self.chunk_io = None  # max bytes per read/write syscall

    # ---------------------------------------------------------------- helpers
    def _now_ns(self):
        return int((self.sim.now + self.sim.epoch0) * 1e9)

    def _new_inode(self, is_dir, parent=None):
        i = Inode(self.next_ino, is_dir, self._now_ns(), parent)
        self.next_ino += 1
        return i

    def add_mount(self, name, capacity=None):
        """top-level dir in ROOT"""
        m = Mount(name, capacity)
        self.mounts[name] = m
        d = self._new_inode(True, self.root)
        self.root.entries[name] = d
        return m

    def mount_of(self, path):
        parts = self._parts(path)
        return self.mounts.get(parts[0], self.default_mount) if parts else self.default_mount

    def used(self, mount):
        total = mount.other_used

        def rec(d):
            s = 0
            for e in d.entries.values():
                s += rec(e) if e.is_dir else e.blocks() * BLOCK
            return s

        if mount.name in self.root.entries:
            total += rec(self.root.entries[mount.name])
        # unlinked but still open
        seen = set()
        for p in self.sim.procs:
            for of in p.fds.values():
                if of.inode.nlink == 0 and of.mount is mount and of.inode.ino not in seen:
                    seen.add(of.inode.ino)
                    total += of.inode.blocks() * BLOCK
        return total

    def free(self, mount):
        if mount.capacity is None:
            return 1 << 50
        return max(mount.capacity - self.used(mount), 0)

    @staticmethod
    def _parts(path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = path.decode()
        path = posixpath_normpath(path)
        assert path == ROOT or path.startswith(ROOT + "/"), path
        return [x for x in path[len(ROOT) :].split("/") if x]

    def _lookup(self, path, err_path=None, follow=True):
        n = self.root
        parts = self._parts(path)
        i = 0
        hops = 0
        while i < len(parts):
            if not n.is_dir:
                raise _err(errno.ENOTDIR, err_path or path)
            n2 = n.entries.get(parts[i])
            if n2 is None:
                raise _err(errno.ENOENT, err_path or path)
            if n2.symlink is not None and (follow or i < len(parts) - 1):
                hops += 1
                if hops > 40:
                    raise _err(errno.ELOOP, err_path or path)
                parts = self._link_target(parts[:i], n2) + parts[i + 1 :]
                n, i = self.root, 0
                continue
            n = n2
            i += 1
        return n

    def _link_target(self, dir_parts, node):
        t = node.symlink
        if not t.startswith("/"):
            t = "/".join([ROOT] + dir_parts) + "/" + t
        if not (t == ROOT or t.startswith(ROOT + "/")):
            raise _err(errno.ENOENT, t)
        return self._parts(t)

    def _lookup_parent(self, path):
        parts = self._parts(path)
        if not parts:
            raise _err(errno.EBUSY, path)
        n = self._lookup("/".join([ROOT] + parts[:-1]), path)
        if not n.is_dir:
            raise _err(errno.ENOTDIR, path)
        return n, parts[-1]

    def _sys(self, op, path, faults=(), nbytes=0, proc=None):
        """
        scheduling point + fault point for one system call
        :return: fault kind or None (errors are raised directly)
        """
        t = cur_task()
        if t is None:
            if proc is not None and not proc.alive:
                raise _err(errno.EBADF, path)
            return None
        if t.killed or not t.proc.alive or (proc is not None and not proc.alive):
            raise SimKilled()
        sim = t.sim
        self.op_counts[op] = self.op_counts.get(op, 0) + 1
        sim.event("sys:" + op, path)
        if self.latency is not None:
            d = self.latency(op, path, nbytes)
            if d:
                sim.block(None, timeout=d, info="io " + op)
        if faults and sim.cfg.faults and not t.no_preempt:
            if self.fault_filter is None or self.fault_filter(op, path, t.proc):
                f = sim.fault(["%s" % x for x in faults], path)
                if f in ("enospc", "eio", "estale", "eacces", "enomem"):
                    no = {"enospc": errno.ENOSPC, "eio": errno.EIO, "estale": errno.ESTALE, "eacces": errno.EACCES, "enomem": errno.ENOMEM}[f]
                    sim._log("sys-fault", "%s %s %s" % (op, path, f))
                    raise _err(no, path)
                return f
        return None

    def _obs(self, op, path, **info):
        if self.observers:
            t = cur_task()
            p = t.proc if t is not None else None
            for o in self.observers:
                o(op, path, p, **info)

    # ---------------------------------------------------------------- fds
    def _fd_table(self):
        t = cur_task()
        if t is not None and (t.killed or not t.proc.alive):
            raise SimKilled()
        return t.proc.fds if t is not None else self.god_fds

    def _get_fd(self, fd):
        of = self._fd_table().get(fd)
        if of is None:
            of = self.god_fds.get(fd)
        if of is None:
            raise _err(errno.EBADF)
        return of

    def proc_gone(self, p):
        for of in list(p.fds.values()):
            self._unflock(of)
        p.fds.clear()

    def _unflock(self, of):
        if of.inode.flock_owner is of:
            of.inode.flock_owner = None
            if of.inode.flock_w is not None:
                self.sim.wake_all(of.inode.flock_w)

    # ---------------------------------------------------------------- syscalls
    def open(self, path, flags, mode=0o777):
        path = os.fspath(path)
        self._sys("open", path, ("enospc", "eio") if flags & os.O_CREAT else ("eio", "estale"))
        parent, name = self._lookup_parent(path)
        node = parent.entries.get(name)
        if node is not None and node.symlink is not None and not (flags & os.O_CREAT and flags & os.O_EXCL):
            if flags & os.O_NOFOLLOW:
                raise _err(errno.ELOOP, path)
            node = self._lookup(path)  # creation through a dangling link is not modelled
        created = False
        if node is None:
            if not flags & os.O_CREAT:
                raise _err(errno.ENOENT, path)
            node = self._new_inode(False, parent)
            parent.entries[name] = node
            parent.mtime_ns = self._now_ns()
            created = True
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise _err(errno.EEXIST, path)
            if node.is_dir and (flags & (os.O_WRONLY | os.O_RDWR)):
                raise _err(errno.EISDIR, path)
            if not node.is_dir and flags & os.O_DIRECTORY:
                raise _err(errno.ENOTDIR, path)
        if flags & os.O_TRUNC and not node.is_dir and (flags & (os.O_WRONLY | os.O_RDWR)):
            if len(node.data) or node.alloc:
                node.data = bytearray()
                node.alloc = 0
            node.mtime_ns = self._now_ns()
        fd = self.next_fd
        self.next_fd += 1
        t = cur_task()
        of = OpenFile(node, flags, path, t.proc if t else None, fd, self.mount_of(path))
        if flags & os.O_APPEND:
            of.pos = len(node.data)
        self._fd_table()[fd] = of
        self._obs("open", path, inode=node, flags=flags, created=created, trunc=bool(flags & os.O_TRUNC))
        return fd

    def close(self, fd):
        tab = self._fd_table()
        if fd not in tab:
            raise _err(errno.EBADF)
        t = cur_task()
        if t is not None and not t.killed:
            self._sys("close", tab[fd].path)
        of = tab.pop(fd, None)
        if of is not None:
            self._unflock(of)

    def read(self, fd, n):
        of = self._get_fd(fd)
        f = self._sys("read", of.path, ("eio", "short_read"), nbytes=n, proc=of.proc)
        if of.inode.is_dir:
            raise _err(errno.EISDIR, of.path)
        if self.chunk_io and n > self.chunk_io:
            n = self.chunk_io
        if f == "short_read" and n > 1:
            n = max(1, n // 3)
        data = bytes(of.inode.data[of.pos : of.pos + n])
        of.pos += len(data)
        return data

    def write(self, fd, data):
        of = self._get_fd(fd)
        data = bytes(data)
        f = self._sys("write", of.path, ("enospc", "eio", "short_write"), nbytes=len(data), proc=of.proc)
        if not of.flags & (os.O_WRONLY | os.O_RDWR):
            raise _err(errno.EBADF, of.path)
        if not data:
            return 0
        if self.chunk_io and len(data) > self.chunk_io:
            data = data[: self.chunk_io]
        if f == "short_write" and len(data) > 1:
            data = data[: max(1, len(data) // 2)]
        node = of.inode
        if of.flags & os.O_APPEND:
            of.pos = len(node.data)
        end = of.pos + len(data)
        if end > max(len(node.data), node.alloc) and of.mount.capacity is not None:
            avail = self.free(of.mount) + node.blocks() * BLOCK
            if end > avail:
                data = data[: max(avail - of.pos, 0)]
                end = of.pos + len(data)
                if not data:
                    raise _err(errno.ENOSPC, of.path)
        if of.pos > len(node.data):
            node.data.extend(b"\0" * (of.pos - len(node.data)))
        node.data[of.pos : end] = data
        of.pos = end
        node.mtime_ns = self._now_ns()
        self._obs("write", of.path, inode=node, nbytes=len(data))
        return len(data)

    def lseek(self, fd, pos, how):
        of = self._get_fd(fd)
        if how == 0:
            of.pos = pos
        elif how == 1:
            of.pos += pos
        elif how == 2:
            of.pos = len(of.inode.data) + pos
        else:
            raise _err(errno.EINVAL)
        return of.pos

    def ftruncate(self, fd, length):
        of = self._get_fd(fd)
        self._sys("ftruncate", of.path, ("eio",), proc=of.proc)
        node = of.inode
        if length < len(node.data):
            del node.data[length:]
        else:
            node.data.extend(b"\0" * (length - len(node.data)))
        node.alloc = 0
        node.mtime_ns = self._now_ns()
        self._obs("ftruncate", of.path, inode=node, length=length)

    def posix_fallocate(self, fd, offset, length):
        of = self._get_fd(fd)
        self._sys("fallocate", of.path, ("enospc", "eio"), proc=of.proc)
        node = of.inode
        want = offset + length
        extra = -(-want // BLOCK) * BLOCK - node.blocks() * BLOCK
        if of.mount.capacity is not None and extra > self.free(of.mount):
            raise _err(errno.ENOSPC)
        if want > len(node.data):
            node.data.extend(b"\0" * (want - len(node.data)))
        node.alloc = max(node.alloc, want)
        node.mtime_ns = self._now_ns()
        self._obs("fallocate", of.path, inode=node)

    def _stat_of(self, node):
        if node.is_dir:
            size, blocks, nlink = 4096, 8, 2
        else:
            size, blocks, nlink = len(node.data), node.blocks(), node.nlink
        s = 1_000_000_000
        return os.stat_result(
            (node.mode, node.ino, 77, nlink, 0, 0, size, node.atime_ns // s, node.mtime_ns // s, node.ctime_ns // s),
            {
                "st_atime": node.atime_ns / 1e9,
                "st_mtime": node.mtime_ns / 1e9,
                "st_ctime": node.ctime_ns / 1e9,
                "st_atime_ns": node.atime_ns,
                "st_mtime_ns": node.mtime_ns,
                "st_ctime_ns": node.ctime_ns,
                "st_blksize": 4096,
                "st_blocks": blocks,
                "st_rdev": 0,
            },
        )

    def lstat(self, path, *, dir_fd=None):
        return self.stat(path, follow_symlinks=False)

    def symlink(self, src, dst):
        self._sys("symlink", dst, ("enospc",))
        parent, name = self._lookup_parent(dst)
        if name in parent.entries:
            raise _err(errno.EEXIST, src, dst)
        node = self._new_inode(False, parent)
        node.symlink = os.fspath(src)
        node.mode = stat_mod.S_IFLNK | 0o777
        parent.entries[name] = node
        parent.mtime_ns = self._now_ns()
        self._obs("symlink", dst, inode=node)

    def readlink(self, path):
        self._sys("readlink", path)
        node = self._lookup(path, follow=False)
        if node.symlink is None:
            raise _err(errno.EINVAL, path)
        return node.symlink

    def stat(self, path, follow_symlinks=True, dir_fd=None):
        if isinstance(path, int):
            return self.fstat(path)
        self._sys("stat", path, ("estale",))
        node = self._lookup(path, follow=follow_symlinks)
        r = self._stat_of(node)
        self._obs("stat", path, inode=node)
        return r

    def fstat(self, fd):
        of = self._get_fd(fd)
        return self._stat_of(of.inode)

    def statvfs(self, path):
        self._sys("statvfs", path)
        if not isinstance(path, int):
            self._lookup(path)
            m = self.mount_of(path)
        else:
            m = self._get_fd(path).mount
        total = m.capacity if m.capacity is not None else 1 << 50
        free = self.free(m)
        bs = BLOCK
        return os.statvfs_result((bs, bs, total // bs, free // bs, free // bs, 1 << 30, 1 << 30, 1 << 30, 0, 255))

    def access(self, path, mode=0, **_kw):
        self._sys("access", path)
        try:
            self._lookup(path)
        except OSError:
            return False
        return True

    def mkdir(self, path, mode=0o777, *, dir_fd=None):
        self._sys("mkdir", path, ("enospc",))
        parent, name = self._lookup_parent(path)
        if name in parent.entries:
            raise _err(errno.EEXIST, path)
        parent.entries[name] = self._new_inode(True, parent)
        parent.mtime_ns = self._now_ns()
        self._obs("mkdir", path)

    def rmdir(self, path, *, dir_fd=None):
        self._sys("rmdir", path)
        parent, name = self._lookup_parent(path)
        node = parent.entries.get(name)
        if node is None:
            raise _err(errno.ENOENT, path)
        if not node.is_dir:
            raise _err(errno.ENOTDIR, path)
        if node.entries:
            raise _err(errno.ENOTEMPTY, path)
        del parent.entries[name]
        parent.mtime_ns = self._now_ns()
        self._obs("rmdir", path)

    def unlink(self, path, *, dir_fd=None):
        self._sys("unlink", path, ("eio",))
        parent, name = self._lookup_parent(path)
        node = parent.entries.get(name)
        if node is None:
            raise _err(errno.ENOENT, path)
        if node.is_dir:
            raise _err(errno.EISDIR, path)
        del parent.entries[name]
        node.nlink -= 1
        parent.mtime_ns = self._now_ns()
        self._obs("unlink", path, inode=node)

    def rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        self._sys("rename", src, ("eio", "enospc"))
        if not (is_vpath(src) and is_vpath(dst)):
            raise _err(errno.EXDEV, src, dst)
        sp, sn = self._lookup_parent(src)
        node = sp.entries.get(sn)
        if node is None:
            raise _err(errno.ENOENT, src, dst)
        dp, dn = self._lookup_parent(dst)
        if self.mount_of(src) is not self.mount_of(dst):
            raise _err(errno.EXDEV, src, dst)
        old = dp.entries.get(dn)
        if old is not None:
            if old.is_dir and not node.is_dir:
                raise _err(errno.EISDIR, src, dst)
            if node.is_dir and not old.is_dir:
                raise _err(errno.ENOTDIR, src, dst)
            if old.is_dir and old.entries:
                raise _err(errno.ENOTEMPTY, src, dst)
            if old is node:
                return
            old.nlink -= 1
        del sp.entries[sn]
        dp.entries[dn] = node
        node.parent = dp
        sp.mtime_ns = dp.mtime_ns = self._now_ns()
        self._obs("rename", dst, inode=node, src=src, old=old)

    def link(self, src, dst, **_kw):
        self._sys("link", dst, ("enospc",))
        node = self._lookup(src)
        dp, dn = self._lookup_parent(dst)
        if dn in dp.entries:
            raise _err(errno.EEXIST, src, dst)
        dp.entries[dn] = node
        node.nlink += 1
        self._obs("link", dst, inode=node, src=src)

    def utime(self, path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            of = self._get_fd(path)
            self._sys("utime", of.path, ("eio", "estale", "utime_fail"))
            node, path = of.inode, of.path
        else:
            f = self._sys("utime", path, ("eio", "estale", "utime_fail"))
            if f == "utime_fail":
                raise _err(errno.EIO, path)
            node = self._lookup(path)
        if ns is not None:
            node.atime_ns, node.mtime_ns = ns
        elif times is not None:
            node.atime_ns, node.mtime_ns = int(times[0] * 1e9), int(times[1] * 1e9)
        else:
            node.atime_ns = node.mtime_ns = self._now_ns()
        self._obs("utime", path, inode=node)

    def listdir(self, path="."):
        self._sys("listdir", path)
        node = self._lookup(path)
        if not node.is_dir:
            raise _err(errno.ENOTDIR, path)
        return list(node.entries)

    def scandir(self, path="."):
        self._sys("scandir", path)
        node = self._lookup(path)
        if not node.is_dir:
            raise _err(errno.ENOTDIR, path)
        return _ScanDir(self, os.fspath(path), list(node.entries.items()))

    def chmod(self, path, mode, **_kw):
        self._sys("chmod", path)
        node = self._lookup(path) if not isinstance(path, int) else self._get_fd(path).inode
        node.mode = stat_mod.S_IFMT(node.mode) | (mode & 0o7777)

    def truncate(self, path, length):
        fd = self.open(path, os.O_RDWR)
        try:
            self.ftruncate(fd, length)
        finally:
            self.close(fd)

    def fsync(self, fd):
        of = self._get_fd(fd)
        self._sys("fsync", of.path, ("eio", "enospc"))

    def flock(self, fd, op):
        of = self._get_fd(fd)
        self._sys("flock", of.path)
        node = of.inode
        if op & _fcntl.LOCK_UN:
            self._unflock(of)
            return
        while node.flock_owner is not None and node.flock_owner is not of:
            if op & _fcntl.LOCK_NB:
                raise BlockingIOError(errno.EWOULDBLOCK, os.strerror(errno.EWOULDBLOCK))
            if node.flock_w is None:
                node.flock_w = WaitObj()
            self.sim.block(node.flock_w, info="flock")
        node.flock_owner = of

    # ---------------------------------------------------------------- god-mode helpers (no events) for harness
    def peek(self, path):
        """content or None"""
        try:
            n = self._lookup(path)
        except OSError:
            return None
        return None if n.is_dir else bytes(n.data)

    def inode(self, path):
        try:
            return self._lookup(path)
        except OSError:
            return None

    def put(self, path, data, mtime=None):
        parts = self._parts(path)
        n = self.root
        for part in parts[:-1]:
            if part not in n.entries:
                n.entries[part] = self._new_inode(True, n)
            n = n.entries[part]
        node = self._new_inode(False, n)
        node.data = bytearray(data)
        if mtime is not None:
            node.mtime_ns = int(mtime * 1e9)
        old = n.entries.get(parts[-1])
        if old is not None:
            old.nlink -= 1
        n.entries[parts[-1]] = node
        return node

    def god_unlink(self, path):
        """Remove a file at once, without any scheduling point, fault or observer (an act of the world)."""
        d, name = self._lookup_parent(path)
        d.entries.pop(name).nlink -= 1
        d.mtime_ns = self._now_ns()

    def god_makedirs(self, path):
        n = self.root
        for part in self._parts(path):
            if part not in n.entries:
                n.entries[part] = self._new_inode(True, n)
            n = n.entries[part]

    def walk_files(self, path=ROOT):
        """[(path, inode)] sorted"""
        out = []

        def rec(p, n):
            for name in sorted(n.entries):
                e = n.entries[name]
                if e.is_dir:
                    rec(p + "/" + name, e)
                else:
                    out.append((p + "/" + name, e))

        n = self.inode(path)
        if n is not None:
            rec(path, n)
        return out


class _DirEntry:
    __slots__ = ("name", "path", "_node", "_vfs")

    def __init__(self, vfs, name, path, node):
        self._vfs = vfs
        self.name = name
        self.path = path
        self._node = node

    def __fspath__(self):
        return self.path

    def _target(self, follow):
        if self._node.symlink is not None and follow:
            return self._vfs.inode(self.path)
        return self._node

    def is_dir(self, *, follow_symlinks=True):
        n = self._target(follow_symlinks)
        return n is not None and n.is_dir

    def is_file(self, *, follow_symlinks=True):
        n = self._target(follow_symlinks)
        return n is not None and not n.is_dir and n.symlink is None

    def is_symlink(self):
        return self._node.symlink is not None

    def is_junction(self):
        return False

    def inode(self):
        return self._node.ino

    def stat(self, *, follow_symlinks=True):
        return self._vfs.stat(self.path, follow_symlinks=follow_symlinks)


class _ScanDir:
    def __init__(self, vfs, path, items):
        self._it = iter([_DirEntry(vfs, n, path.rstrip("/") + "/" + n, node) for n, node in items])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *_a):
        pass

    def close(self):
        pass


class SimRaw(io.RawIOBase):
    """like io.FileIO"""

    def __init__(self, vfs, fd, mode, closefd=True, name=None):
        self._vfs_obj = vfs
        self._fd = fd
        self._of = vfs._get_fd(fd)
        self.mode = mode
        self.name = name if name is not None else fd
        self._closefd = closefd
        self._r = "r" in mode or "+" in mode
        self._w = "w" in mode or "a" in mode or "x" in mode or "+" in mode

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        p = self._of.proc
        if p is not None and not p.alive:
            t = cur_task()
            if t is not None:
                raise SimKilled()
            raise _err(errno.EBADF)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        self._check()
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        data = self._vfs_obj.read(self._fd, len(b))
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        self._check()
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        return self._vfs_obj.write(self._fd, bytes(b))

    def seek(self, pos, how=0):
        self._check()
        return self._vfs_obj.lseek(self._fd, pos, how)

    def tell(self):
        self._check()
        return self._of.pos

    def truncate(self, size=None):
        self._check()
        if size is None:
            size = self.tell()
        self._vfs_obj.ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            p = self._of.proc
            if self._closefd and (p is None or p.alive):
                tab = p.fds if p is not None else self._vfs_obj.god_fds
                if self._fd in tab:
                    t = cur_task()
                    if t is not None and t.proc is p and not t.killed:
                        self._vfs_obj.close(self._fd)
                    else:
                        of = tab.pop(self._fd)
                        self._vfs_obj._unflock(of)


def _mode_flags(mode):
    plus = "+" in mode
    if "x" in mode:
        return (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_EXCL
    if "w" in mode:
        return (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC
    if "a" in mode:
        return (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_APPEND
    return os.O_RDWR if plus else os.O_RDONLY


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    is_fd = isinstance(file, int) and not isinstance(file, bool) and file >= _FD_BASE
    if not is_fd and (isinstance(file, int) or not is_vpath(file)):
        return _orig["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    vfs = _vfs
    binary = "b" in mode
    if is_fd:
        fd = file
        path = vfs._get_fd(fd).path
    else:
        path = os.fsdecode(file)
        if opener is not None:
            fd = opener(path, _mode_flags(mode) | os.O_CLOEXEC)
        else:
            fd = vfs.open(path, _mode_flags(mode))
        if vfs._get_fd(fd).inode.is_dir:
            vfs._fd_table().pop(fd, None)
            raise _err(errno.EISDIR, path)
    raw = SimRaw(vfs, fd, mode.replace("b", "").replace("t", "") + "b", closefd=closefd, name=file)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line_buffering = buffering == 1 and not binary
    bs = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
    if "+" in mode:
        buf = io.BufferedRandom(raw, bs)
    elif raw.writable():
        buf = io.BufferedWriter(raw, bs)
    else:
        buf = io.BufferedReader(raw, bs)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering)
    text.mode = mode
    return text


def is_vpath(p):
    if _vfs is None:
        return False
    try:
        p = os.fspath(p)
    except TypeError:
        return False
    if isinstance(p, bytes):
        return p.startswith(b"/simfs/") or p == b"/simfs"
    return p.startswith("/simfs/") or p == "/simfs"


def _is_vfd(fd):
    return isinstance(fd, int) and fd >= _FD_BASE and _vfs is not None


from posixpath import normpath as posixpath_normpath  # noqa


def _path_func(name):
    orig = getattr(os, name)
    _orig[name] = orig
    mname = {"remove": "unlink", "replace": "rename"}.get(name, name)

    def f(path=".", *a, **k):
        if not isinstance(path, (int, str)):
            path = os.fsdecode(path)
        if (isinstance(path, int) and _is_vfd(path)) or (not isinstance(path, int) and is_vpath(path)):
            return getattr(_vfs, mname)(path, *a, **k)
        if mname in ("rename", "link") and a and is_vpath(a[0]):
            raise _err(errno.EXDEV, path, a[0])
        return orig(path, *a, **k)

    f.__name__ = name
    return f


def _kw_rename(name):
    orig = getattr(os, name)
    _orig[name] = orig

    def f(src, dst, **k):
        if is_vpath(src) or is_vpath(dst):
            src, dst = os.fsdecode(src), os.fsdecode(dst)
            if not (is_vpath(src) and is_vpath(dst)):
                raise _err(errno.EXDEV, src, dst)
            return (_vfs.link if name == "link" else _vfs.rename)(src, dst)
        return orig(src, dst, **k)

    f.__name__ = name
    return f


def _fd_func(name, mname=None):
    orig = getattr(os, name)
    _orig[name] = orig
    mname = mname or name

    def f(fd, *a, **k):
        if _is_vfd(fd):
            return getattr(_vfs, mname)(fd, *a, **k)
        return orig(fd, *a, **k)

    f.__name__ = name
    return f


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    _orig["open"] = builtins.open
    _orig["os_open"] = os.open
    builtins.open = sim_open
    io.open = sim_open
    for name in ["stat", "lstat", "remove", "unlink", "mkdir", "rmdir", "utime", "listdir", "scandir", "access", "chmod", "statvfs"]:
        setattr(os, name, _path_func(name))
    for name in ["rename", "replace", "link"]:
        setattr(os, name, _kw_rename(name))
    for name in ["close", "read", "write", "lseek", "ftruncate", "fstat", "fsync", "posix_fallocate"]:
        setattr(os, name, _fd_func(name))
    _orig["fdatasync"] = os.fdatasync
    os.fdatasync = lambda fd: _vfs.fsync(fd) if _is_vfd(fd) else _orig["fdatasync"](fd)
    _orig["posix_fadvise"] = os.posix_fadvise
    os.posix_fadvise = lambda fd, *a: None if _is_vfd(fd) else _orig["posix_fadvise"](fd, *a)
    _orig["truncate"] = os.truncate

    def _truncate(path, length):
        if _is_vfd(path):
            return _vfs.ftruncate(path, length)
        if is_vpath(path):
            return _vfs.truncate(path, length)
        return _orig["truncate"](path, length)

    os.truncate = _truncate

    def _os_open(path, flags, mode=0o777, *, dir_fd=None):
        if is_vpath(path):
            return _vfs.open(os.fsdecode(path), flags, mode)
        return _orig["os_open"](path, flags, mode, dir_fd=dir_fd)

    os.open = _os_open
    for name in ["sendfile", "copy_file_range"]:
        if hasattr(os, name):
            _orig[name] = getattr(os, name)

            def f(a, b, *r, _n=name, **k):
                if _is_vfd(a) or _is_vfd(b):
                    raise _err(errno.ENOTSUP if _n == "sendfile" else errno.EXDEV)
                return _orig[_n](a, b, *r, **k)

            setattr(os, name, f)
    _orig["readlink"] = os.readlink

    def _readlink(path, **k):
        if is_vpath(path):
            return _vfs.readlink(os.fsdecode(path))
        return _orig["readlink"](path, **k)

    os.readlink = _readlink
    _orig["symlink"] = os.symlink

    def _symlink(src, dst, *a, **k):
        if is_vpath(dst):
            return _vfs.symlink(os.fsdecode(src), os.fsdecode(dst))
        return _orig["symlink"](src, dst, *a, **k)

    os.symlink = _symlink
    _orig["flock"] = _fcntl.flock

    def _fd_of(x):
        return x if isinstance(x, int) else x.fileno()

    _fcntl.flock = lambda fd, op: _vfs.flock(_fd_of(fd), op) if _is_vfd(_fd_of(fd)) else _orig["flock"](fd, op)
    _orig["lockf"] = _fcntl.lockf
    _fcntl.lockf = lambda fd, cmd, *a: _vfs.flock(_fd_of(fd), cmd) if _is_vfd(_fd_of(fd)) else _orig["lockf"](fd, cmd, *a)
    # fd-based recursive delete is not modelled; use the portable path-based implementation
    import shutil

    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    _orig["walk"] = os.walk
    # pathlib / tempfile / glob look these functions up dynamically in the os module


def set_active(vfs):
    global _vfs
    _vfs = vfs


def install_torch():
    """
    torch.save/load in simulated tasks: serialise to memory, and do the file I/O via Python file objects,
    so that each write is a system call (and no C++ frame is on the stack when a process gets killed).
    """
    import torch

    if getattr(torch.save, "_sim", False):
        return
    orig_save = torch.save
    orig_load = torch.load

    def save(obj, f, *a, **k):
        if cur_task() is None and not (isinstance(f, (str, os.PathLike)) and is_vpath(f)):
            return orig_save(obj, f, *a, **k)
        buf = io.BytesIO()
        orig_save(obj, buf, *a, **k)
        data = buf.getvalue()

        def write(fh):
            n = max(len(data) // 3, 1)
            for i in range(0, len(data), n):
                fh.write(data[i : i + n])

        if isinstance(f, (str, os.PathLike)):
            with builtins.open(f, "wb", buffering=0) as fh:
                raw = fh

                class _W:
                    def write(self, b):
                        b = memoryview(b)
                        while len(b):
                            m = raw.write(b)
                            b = b[m:]

                write(_W())
        else:
            write(f)

    def load(f, *a, **k):
        if isinstance(f, (str, os.PathLike)) and is_vpath(f):
            with builtins.open(f, "rb") as fh:
                data = fh.read()
            return orig_load(io.BytesIO(data), *a, **k)
        return orig_load(f, *a, **k)

    save._sim = True
    torch.save = save
    torch.load = load
    torch.serialization.save = save
    torch.serialization.load = load


def install_h5py():
    """
    h5py.File on a path of the VFS: the HDF5 library works on a memory buffer, which is read from / written to the VFS
    by system calls of the simulated process (no C frame is on the stack when a process gets killed).
    What HDF5 has not written yet when the process dies is lost.
    """
    import h5py

    if getattr(h5py.File, "_sim", False):
        return
    orig = h5py.File

    class File(orig):
        _sim = True

        def __init__(self, name, mode="r", *a, **k):
            self._sim_out = None
            if not (isinstance(name, (str, os.PathLike)) and is_vpath(name)):
                super().__init__(name, mode, *a, **k)
                return
            name = os.fspath(name)
            buf = io.BytesIO()
            if mode in ("r", "r+", "a") and (mode != "a" or os.path.exists(name)):
                with builtins.open(name, "rb") as fh:
                    buf = io.BytesIO(fh.read())
                if mode == "a":
                    mode = "r+"
            elif mode in ("x", "w-"):
                os.close(os.open(name, os.O_CREAT | os.O_EXCL | os.O_RDWR))
                mode = "w"
            else:
                os.close(os.open(name, os.O_CREAT | os.O_TRUNC | os.O_RDWR))
                mode = "w"
            super().__init__(buf, mode, *a, **k)
            if mode != "r":
                from .core import cur_proc

                self._sim_out = (buf, name, cur_proc())

        def _sim_write(self, out):
            buf, name, proc = out
            t = cur_task()
            if proc is not None and (t is None or t.killed or t.proc is not proc or not proc.alive):
                return  # died before
            data = memoryview(buf.getvalue())
            fd = os.open(name, os.O_RDWR)
            try:
                n = max(len(data) // 4, 1)
                while len(data):
                    m = os.write(fd, data[:n])
                    data = data[m:]
            finally:
                os.close(fd)

        def flush(self):
            super().flush()
            if self._sim_out:
                self._sim_write(self._sim_out)

        def close(self):
            super().close()
            out, self._sim_out = getattr(self, "_sim_out", None), None
            if out:
                self._sim_write(out)

    h5py.File = File
