"""In-memory POSIX kernel: the simulated operating system.

Everything a simulated process can see of the outside world (files, streams,
clock, ids) lives here.  No method reads a real clock, real file or real
random source.  System calls either return a marshal-able value, raise KErr
(an errno) or return BLOCK (the caller is parked until the call can make
progress).
"""
import errno
import os
import stat as st

BLOCK = object()

O_ACC = os.O_RDONLY | os.O_WRONLY | os.O_RDWR
NAME_MAX = 255
PATH_MAX = 4096


class KErr(Exception):
  def __init__(self, eno):
    Exception.__init__(self, errno.errorcode.get(eno, str(eno)))
    self.errno = eno


class Inode(object):
  __slots__ = ("ino", "dev", "kind", "mode", "uid", "gid", "data", "entries",
               "target", "nlink", "mtime", "atime", "ctime", "parent",
               "synced", "dirty", "writes", "lockers")

  def __init__(self, ino, dev, kind, mode, uid, gid):
    self.ino = ino
    self.dev = dev
    self.kind = kind            # 'f' file, 'd' directory, 'l' symlink
    self.mode = mode
    self.uid = uid
    self.gid = gid
    self.data = bytearray() if kind == "f" else None
    self.entries = {} if kind == "d" else None
    self.target = None
    self.nlink = 2 if kind == "d" else 1
    self.mtime = self.atime = self.ctime = 0
    self.parent = None
    self.synced = b""           # file content guaranteed to survive power loss
    self.dirty = False
    self.writes = 0
    self.lockers = {}


FMT = {"f": st.S_IFREG, "d": st.S_IFDIR, "l": st.S_IFLNK}


class Stream(object):
  """A pipe/terminal end given to a process as stdin/stdout/stderr."""

  def __init__(self, kind, data=b"", cap=None, broken_after=None, nonblock=False):
    self.kind = kind            # 'pipe' or 'tty'
    self.data = bytearray(data)
    self.pos = 0
    self.broken_after = broken_after    # reader goes away after N bytes
    self.nonblock = nonblock
    self.stall_at = None        # for a non-blocking stream: EAGAIN points
    self.writers = 0
    self.eof_sticky = False


class OFD(object):
  """Open file description (shared by dup)."""
  __slots__ = ("ino", "stream", "flags", "pos", "refs", "path")

  def __init__(self, ino=None, stream=None, flags=0, path=None):
    self.ino = ino
    self.stream = stream
    self.flags = flags
    self.pos = 0
    self.refs = 0
    self.path = path


class KProc(object):
  def __init__(self, pid, cwd, uid, gid, umask):
    self.pid = pid
    self.cwd = cwd
    self.uid = uid
    self.gid = gid
    self.umask = umask
    self.fds = {}
    self.nofile = 256


class Kernel(object):
  def __init__(self, listing_key=0):
    self.now = 1700000000 * 10**9     # simulated nanoseconds
    self.next_ino = 2
    self.journal = []                 # ordered metadata operations
    self.committed = 0                # journal prefix known durable
    self.capacity = {}                # dev -> remaining bytes (None: unlimited)
    self.readonly = set()             # devs mounted read-only
    self.listing_key = listing_key
    self.probes = {}
    self.root = Inode(1, 1, "d", 0o755, 0, 0)
    self.root.parent = self.root
    self.inodes = {1: self.root}
    self.mutations = 0
    self.base = None

  # ---------------------------------------------------------------- helpers
  def _new(self, kind, mode, uid, gid, dev):
    ino = Inode(self.next_ino, dev, kind, mode, uid, gid)
    ino.mtime = ino.atime = ino.ctime = self.now
    self.next_ino += 1
    self.inodes[ino.ino] = ino
    return ino

  def _log(self, *op):
    self.journal.append(op)
    self.mutations += 1

  # ------------------------------------------------------------- world setup
  def setup_dir(self, path, mode=0o755, uid=1000, dev=None):
    node = self.root
    parts = [p for p in path.split("/") if p]
    for idx, part in enumerate(parts):
      child = node.entries.get(part)
      if child is None:
        child = self._new("d", 0o755, 1000 if idx else 0, 1000 if idx else 0,
                          node.dev)
        child.parent = node
        node.entries[part] = child
        node.nlink += 1
        if idx == len(parts) - 1:
          child.mode = mode
          child.uid = uid
          if dev is not None:
            child.dev = dev
      node = child
    return node

  def setup_file(self, path, data, mode=0o644, uid=1000):
    head, tail = path.rsplit("/", 1)
    parent = self.setup_dir(head) if head else self.root
    node = self._new("f", mode, uid, uid, parent.dev)
    node.data = bytearray(data)
    parent.entries[tail] = node
    return node

  def setup_link(self, path, target):
    head, tail = path.rsplit("/", 1)
    parent = self.setup_dir(head) if head else self.root
    node = self._new("l", 0o777, 1000, 1000, parent.dev)
    node.target = target
    parent.entries[tail] = node
    return node

  def setup_hardlink(self, path, old):
    head, tail = path.rsplit("/", 1)
    parent = self.setup_dir(head) if head else self.root
    node = self.lookup(old)
    parent.entries[tail] = node
    node.nlink += 1

  def seal(self):
    """The world is built: all of it is durable and the journal is empty."""
    for node in self.inodes.values():
      if node.kind == "f":
        node.synced = bytes(node.data)
        node.dirty = False
    self.journal = []
    self.committed = 0
    self.base = self._freeze()

  def _freeze(self):
    out = {}
    for num, node in self.inodes.items():
      out[num] = (node.kind, node.mode, node.uid, node.gid, node.dev,
                  {k: v.ino for k, v in node.entries.items()}
                  if node.kind == "d" else None,
                  node.target, node.mtime, node.parent.ino if node.parent else 0)
    return out

  # ------------------------------------------------- observation (no effects)
  def lookup(self, path, follow=True):
    """Privileged path lookup for the harness; None when absent."""
    try:
      return self._walk(self.root, path, follow, None)
    except KErr:
      return None

  def content(self, path):
    node = self.lookup(path)
    if node is None or node.kind != "f":
      return None
    return bytes(node.data)

  def snapshot(self, skip=()):
    """path -> (kind, perm bits, content/target, ino) for the whole tree."""
    out = {}
    stack = [("", self.root)]
    while stack:
      prefix, node = stack.pop()
      for name in sorted(node.entries):
        child = node.entries[name]
        path = prefix + "/" + name
        if path in skip:
          continue
        if child.kind == "d":
          out[path] = ("d", child.mode, None, child.ino)
          stack.append((path, child))
        elif child.kind == "f":
          out[path] = ("f", child.mode, bytes(child.data), child.ino)
        else:
          out[path] = ("l", 0, child.target, child.ino)
    return out

  # ---------------------------------------------------------- path resolution
  def _may(self, proc, node, want):
    if proc is None or proc.uid == 0:
      return True
    if node.uid == proc.uid:
      bits = node.mode >> 6
    elif node.gid == proc.gid:
      bits = node.mode >> 3
    else:
      bits = node.mode
    return (bits & want) == want

  def _walk(self, start, path, follow, proc, depth=0):
    node, parent, name = self._walk2(start, path, follow, proc, depth)
    if node is None:
      raise KErr(errno.ENOENT)
    return node

  def _walk2(self, start, path, follow, proc, depth=0):
    """-> (node or None, parent dir, final name)."""
    if path == "":
      raise KErr(errno.ENOENT)
    if len(path.encode("utf-8", "surrogateescape")) >= PATH_MAX:
      raise KErr(errno.ENAMETOOLONG)
    if "\0" in path:
      raise KErr(errno.EINVAL)
    node = self.root if path.startswith("/") else start
    parts = [p for p in path.split("/") if p and p != "."]
    mustdir = path.endswith("/") or path.endswith("/.")
    parent, name = node.parent, "."
    if not parts:
      return node, parent, "."
    idx = 0
    while idx < len(parts):
      part = parts[idx]
      last = idx == len(parts) - 1
      if node.kind != "d":
        raise KErr(errno.ENOTDIR)
      if not self._may(proc, node, 1):
        raise KErr(errno.EACCES)
      if len(part.encode("utf-8", "surrogateescape")) > NAME_MAX:
        raise KErr(errno.ENAMETOOLONG)
      if part == "..":
        node = node.parent
        parent, name = node.parent, "."
        idx += 1
        continue
      child = node.entries.get(part)
      if child is None:
        if last and not mustdir:
          return None, node, part
        if last:
          return None, node, part + "/"
        raise KErr(errno.ENOENT)
      if child.kind == "l" and (not last or follow or mustdir):
        depth += 1
        if depth > 40:
          raise KErr(errno.ELOOP)
        target = child.target
        rest = "/".join(parts[idx + 1:])
        full = target + ("/" + rest if rest else "")
        if mustdir and not full.endswith("/"):
          full += "/"
        return self._walk2(node, full, follow, proc, depth)
      parent, name = node, part
      node = child
      idx += 1
    if mustdir and node.kind != "d":
      raise KErr(errno.ENOTDIR)
    return node, parent, name

  def _start(self, proc, dir_fd):
    if dir_fd is None:
      return proc.cwd
    ofd = self._fd(proc, dir_fd)
    if ofd.ino is None or ofd.ino.kind != "d":
      raise KErr(errno.ENOTDIR)
    return ofd.ino

  def _fd(self, proc, fd):
    ofd = proc.fds.get(fd)
    if ofd is None:
      raise KErr(errno.EBADF)
    return ofd

  def _node_of(self, proc, target, follow, dir_fd=None):
    """target: path or fd."""
    if isinstance(target, int):
      ofd = self._fd(proc, target)
      return ofd.ino if ofd.ino is not None else ofd.stream
    return self._walk(self._start(proc, dir_fd), target, follow, proc)

  def path_of(self, node):
    """Canonical path of a directory inode."""
    parts = []
    while node is not self.root:
      for name, child in node.parent.entries.items():
        if child is node:
          parts.append(name)
          break
      else:
        raise KErr(errno.ENOENT)
      node = node.parent
    return "/" + "/".join(reversed(parts))

  def _wr_ok(self, proc, parent):
    if parent.dev in self.readonly:
      raise KErr(errno.EROFS)
    if not self._may(proc, parent, 3):
      raise KErr(errno.EACCES)

  def _sticky_ok(self, proc, parent, node):
    if parent.mode & 0o1000 and proc.uid not in (0, node.uid, parent.uid):
      raise KErr(errno.EPERM)

  # ------------------------------------------------------------------ fds
  def _newfd(self, proc, ofd, low=0):
    fd = low
    while fd in proc.fds:
      fd += 1
    if fd >= proc.nofile:
      raise KErr(errno.EMFILE)
    ofd.refs += 1
    proc.fds[fd] = ofd
    return fd

  def install(self, proc, fd, ofd):
    ofd.refs += 1
    proc.fds[fd] = ofd

  def drop_process(self, proc):
    for fd in list(proc.fds):
      self._close(proc, fd)

  def _close(self, proc, fd):
    ofd = proc.fds.pop(fd)
    ofd.refs -= 1
    if ofd.refs == 0 and ofd.ino is not None:
      ofd.ino.lockers.pop(id(ofd), None)
      if ofd.ino.nlink <= 0 and ofd.ino.kind == "f":
        pass

  # -------------------------------------------------------------- system calls
  def sys_open(self, proc, path, flags, mode, dir_fd=None):
    acc = flags & O_ACC
    follow = not flags & getattr(os, "O_NOFOLLOW", 0)
    tmpfile = getattr(os, "O_TMPFILE", 0)
    if tmpfile and (flags & tmpfile) == tmpfile:
      raise KErr(errno.EOPNOTSUPP)
    if flags & os.O_CREAT and flags & os.O_EXCL:
      follow = False
    start = self._start(proc, dir_fd)
    node, parent, name = self._walk2(start, path, follow, proc)
    if node is None:
      if not flags & os.O_CREAT:
        raise KErr(errno.ENOENT)
      if name.endswith("/"):
        raise KErr(errno.EISDIR)
      self._wr_ok(proc, parent)
      cap = self.capacity.get(parent.dev)
      if cap is not None and cap < 0:
        raise KErr(errno.ENOSPC)
      node = self._new("f", mode & 0o7777 & ~proc.umask, proc.uid, proc.gid,
                       parent.dev)
      parent.entries[name] = node
      parent.mtime = self.now
      self._log("create", parent.ino, name, node.ino, node.mode, node.uid,
                node.gid, node.dev, "f", None)
    else:
      if flags & os.O_CREAT and flags & os.O_EXCL:
        raise KErr(errno.EEXIST)
      if node.kind == "l":
        raise KErr(errno.ELOOP)
      if node.kind == "d" and (acc != os.O_RDONLY or flags & os.O_CREAT):
        raise KErr(errno.EISDIR)
      if flags & os.O_DIRECTORY and node.kind != "d":
        raise KErr(errno.ENOTDIR)
      want = {os.O_RDONLY: 4, os.O_WRONLY: 2, os.O_RDWR: 6}[acc]
      if not self._may(proc, node, want):
        raise KErr(errno.EACCES)
      if want & 2 and node.dev in self.readonly:
        raise KErr(errno.EROFS)
      if len([1]) and flags & os.O_TRUNC and node.kind == "f" and want & 2:
        self._truncate(node, 0)
    if proc.nofile <= len(proc.fds):
      raise KErr(errno.EMFILE)
    ofd = OFD(ino=node, flags=flags, path=path)
    return self._newfd(proc, ofd)

  def _truncate(self, node, size):
    if size == len(node.data):
      if size == 0:
        node.mtime = node.ctime = self.now
      return
    if size < len(node.data):
      self._charge(node, size - len(node.data))
      del node.data[size:]
    else:
      self._charge(node, size - len(node.data))
      node.data.extend(b"\0" * (size - len(node.data)))
    node.dirty = True
    node.mtime = node.ctime = self.now
    self._log("truncate", node.ino, size)

  def _charge(self, node, delta):
    cap = self.capacity.get(node.dev)
    if cap is None:
      return
    if delta > 0 and cap < delta:
      raise KErr(errno.ENOSPC)
    self.capacity[node.dev] = cap - delta

  def sys_read(self, proc, fd, size, limit=None):
    ofd = self._fd(proc, fd)
    if ofd.flags & O_ACC == os.O_WRONLY:
      raise KErr(errno.EBADF)
    if limit is not None and size > 0:
      size = max(1, min(size, limit))
    if ofd.stream is not None:
      strm = ofd.stream
      chunk = bytes(strm.data[strm.pos:strm.pos + size])
      strm.pos += len(chunk)
      return chunk
    node = ofd.ino
    if node.kind == "d":
      raise KErr(errno.EISDIR)
    chunk = bytes(node.data[ofd.pos:ofd.pos + size])
    ofd.pos += len(chunk)
    node.atime = self.now
    return chunk

  def sys_pread(self, proc, fd, size, off, limit=None):
    ofd = self._fd(proc, fd)
    if ofd.stream is not None:
      raise KErr(errno.ESPIPE)
    if limit is not None and size > 0:
      size = max(1, min(size, limit))
    return bytes(ofd.ino.data[off:off + size])

  def sys_write(self, proc, fd, data, limit=None):
    ofd = self._fd(proc, fd)
    if ofd.flags & O_ACC == os.O_RDONLY:
      raise KErr(errno.EBADF)
    size = len(data)
    if limit is not None and size > 0:
      size = max(1, min(size, limit))
    if ofd.stream is not None:
      strm = ofd.stream
      if strm.broken_after is not None:
        room = strm.broken_after - len(strm.data)
        if room <= 0:
          raise KErr(errno.EPIPE)
        size = min(size, room)
      strm.data.extend(data[:size])
      self.mutations += 1
      return size
    return self._write_file(proc, ofd, data, size, None)

  def sys_pwrite(self, proc, fd, data, off, limit=None):
    ofd = self._fd(proc, fd)
    if ofd.stream is not None:
      raise KErr(errno.ESPIPE)
    size = len(data)
    if limit is not None and size > 0:
      size = max(1, min(size, limit))
    return self._write_file(proc, ofd, data, size, off)

  def _write_file(self, proc, ofd, data, size, off):
    node = ofd.ino
    if node.kind != "f":
      raise KErr(errno.EBADF)
    pos = off if off is not None else (
        len(node.data) if ofd.flags & os.O_APPEND else ofd.pos)
    grow = max(0, pos + size - len(node.data))
    cap = self.capacity.get(node.dev)
    if cap is not None and grow > cap:
      size -= grow - max(cap, 0)
      if size <= 0 and len(data):
        raise KErr(errno.ENOSPC)
      grow = max(0, pos + size - len(node.data))
    if cap is not None:
      self.capacity[node.dev] = cap - grow
    if pos > len(node.data):
      node.data.extend(b"\0" * (pos - len(node.data)))
    node.data[pos:pos + size] = data[:size]
    if off is None:
      ofd.pos = pos + size
    node.dirty = True
    node.writes += 1
    node.mtime = node.ctime = self.now
    self.mutations += 1
    if node.mode & 0o6000 and proc.uid != 0:
      node.mode &= ~0o6000
    return size

  def sys_lseek(self, proc, fd, off, whence):
    ofd = self._fd(proc, fd)
    if ofd.stream is not None:
      raise KErr(errno.ESPIPE)
    if whence == 0:
      pos = off
    elif whence == 1:
      pos = ofd.pos + off
    else:
      pos = (len(ofd.ino.data) if ofd.ino.kind == "f" else 0) + off
    if pos < 0:
      raise KErr(errno.EINVAL)
    ofd.pos = pos
    return pos

  def sys_close(self, proc, fd):
    self._fd(proc, fd)
    self._close(proc, fd)

  def sys_dup(self, proc, fd):
    return self._newfd(proc, self._fd(proc, fd))

  def sys_dup2(self, proc, fd, fd2):
    ofd = self._fd(proc, fd)
    if fd == fd2:
      return fd2
    if fd2 in proc.fds:
      self._close(proc, fd2)
    ofd.refs += 1
    proc.fds[fd2] = ofd
    return fd2

  def sys_dupmin(self, proc, fd, low):
    return self._newfd(proc, self._fd(proc, fd), low)

  def sys_pipe(self, proc):
    strm = Stream("pipe")
    rfd = self._newfd(proc, OFD(stream=strm, flags=os.O_RDONLY))
    wfd = self._newfd(proc, OFD(stream=strm, flags=os.O_WRONLY))
    return rfd, wfd

  def _statvals(self, node):
    if isinstance(node, Stream):
      mode = (st.S_IFCHR | 0o620) if node.kind == "tty" else st.S_IFIFO | 0o600
      return (mode, 77, 9, 1, 1000, 1000, 0, self.now, self.now, self.now, 4096)
    if node.kind == "f":
      size = len(node.data)
    elif node.kind == "l":
      size = len(node.target)
    else:
      size = 4096
    return (FMT[node.kind] | node.mode, node.ino, node.dev, node.nlink,
            node.uid, node.gid, size, node.atime, node.mtime, node.ctime, 4096)

  def sys_stat(self, proc, path, follow=True, dir_fd=None):
    return self._statvals(self._node_of(proc, path, follow, dir_fd))

  def sys_fstat(self, proc, fd):
    return self._statvals(self._node_of(proc, fd, True))

  def sys_access(self, proc, path, mode, dir_fd=None, follow=True):
    node = self._node_of(proc, path, follow, dir_fd)
    if mode and not self._may(proc, node, mode & 7):
      raise KErr(errno.EACCES)
    if mode & 2 and node.dev in self.readonly:
      raise KErr(errno.EROFS)

  def sys_chmod(self, proc, path, mode, follow=True, dir_fd=None):
    node = self._node_of(proc, path, follow, dir_fd)
    if isinstance(node, Stream):
      raise KErr(errno.EPERM)
    if node.dev in self.readonly:
      raise KErr(errno.EROFS)
    if proc.uid not in (0, node.uid):
      raise KErr(errno.EPERM)
    if node.kind == "l":
      raise KErr(errno.EOPNOTSUPP)
    node.mode = mode & 0o7777
    node.ctime = self.now
    self._log("chmod", node.ino, node.mode)

  def sys_chown(self, proc, path, uid, gid, follow=True, dir_fd=None):
    node = self._node_of(proc, path, follow, dir_fd)
    if isinstance(node, Stream):
      raise KErr(errno.EPERM)
    if (uid not in (-1, node.uid) and proc.uid != 0) or (
        gid not in (-1, node.gid) and proc.uid != 0):
      raise KErr(errno.EPERM)
    if uid != -1:
      node.uid = uid
    if gid != -1:
      node.gid = gid
    self.mutations += 1

  def sys_utime(self, proc, path, times, follow=True, dir_fd=None):
    node = self._node_of(proc, path, follow, dir_fd)
    if isinstance(node, Stream):
      return
    if proc.uid not in (0, node.uid):
      raise KErr(errno.EPERM)
    if times is None:
      node.atime = node.mtime = self.now
    else:
      node.atime, node.mtime = times
    self.mutations += 1

  def sys_mkdir(self, proc, path, mode, dir_fd=None):
    node, parent, name = self._walk2(
        self._start(proc, dir_fd), path.rstrip("/") or "/", False, proc)
    if node is not None:
      raise KErr(errno.EEXIST)
    self._wr_ok(proc, parent)
    node = self._new("d", mode & 0o7777 & ~proc.umask, proc.uid, proc.gid,
                     parent.dev)
    node.parent = parent
    parent.entries[name] = node
    parent.nlink += 1
    self._log("create", parent.ino, name, node.ino, node.mode, node.uid,
              node.gid, node.dev, "d", None)

  def sys_rmdir(self, proc, path, dir_fd=None):
    node, parent, name = self._walk2(
        self._start(proc, dir_fd), path, False, proc)
    if node is None:
      raise KErr(errno.ENOENT)
    if node.kind != "d":
      raise KErr(errno.ENOTDIR)
    self._wr_ok(proc, parent)
    if node.entries:
      raise KErr(errno.ENOTEMPTY)
    if name == "." or node is self.root:
      raise KErr(errno.EBUSY)
    self._sticky_ok(proc, parent, node)
    del parent.entries[name]
    parent.nlink -= 1
    node.nlink = 0
    self._log("unlink", parent.ino, name)

  def sys_unlink(self, proc, path, dir_fd=None):
    node, parent, name = self._walk2(
        self._start(proc, dir_fd), path, False, proc)
    if node is None:
      raise KErr(errno.ENOENT)
    if node.kind == "d":
      raise KErr(errno.EISDIR)
    self._wr_ok(proc, parent)
    self._sticky_ok(proc, parent, node)
    del parent.entries[name]
    node.nlink -= 1
    node.ctime = self.now
    parent.mtime = self.now
    if node.nlink == 0 and node.kind == "f":
      self._charge(node, -len(node.data))
    self._log("unlink", parent.ino, name)

  def sys_rename(self, proc, src, dst, src_dir_fd=None, dst_dir_fd=None):
    node, par1, name1 = self._walk2(
        self._start(proc, src_dir_fd), src, False, proc)
    if node is None:
      raise KErr(errno.ENOENT)
    node2, par2, name2 = self._walk2(
        self._start(proc, dst_dir_fd), dst.rstrip("/") or "/", False, proc)
    if name1 == "." or name2 == ".":
      raise KErr(errno.EBUSY)
    self._wr_ok(proc, par1)
    self._wr_ok(proc, par2)
    self._sticky_ok(proc, par1, node)
    if par1.dev != par2.dev or node.dev != par2.dev:
      raise KErr(errno.EXDEV)
    if node2 is node:
      return
    if node2 is not None:
      self._sticky_ok(proc, par2, node2)
      if node2.kind == "d":
        if node.kind != "d":
          raise KErr(errno.EISDIR)
        if node2.entries:
          raise KErr(errno.ENOTEMPTY)
        par2.nlink -= 1
      elif node.kind == "d":
        raise KErr(errno.ENOTDIR)
      node2.nlink -= 1
      if node2.nlink == 0 and node2.kind == "f":
        self._charge(node2, -len(node2.data))
    if node.kind == "d":
      probe = par2
      while probe is not self.root:
        if probe is node:
          raise KErr(errno.EINVAL)
        probe = probe.parent
      par1.nlink -= 1
      par2.nlink += 1
      node.parent = par2
    del par1.entries[name1]
    par2.entries[name2] = node
    node.ctime = par1.mtime = par2.mtime = self.now
    self._log("rename", par1.ino, name1, par2.ino, name2, node.ino)

  def sys_link(self, proc, src, dst, follow=False, src_dir_fd=None,
               dst_dir_fd=None):
    node = self._walk(self._start(proc, src_dir_fd), src, follow, proc)
    if node.kind == "d":
      raise KErr(errno.EPERM)
    node2, par2, name2 = self._walk2(
        self._start(proc, dst_dir_fd), dst, False, proc)
    if node2 is not None:
      raise KErr(errno.EEXIST)
    self._wr_ok(proc, par2)
    if par2.dev != node.dev:
      raise KErr(errno.EXDEV)
    par2.entries[name2] = node
    node.nlink += 1
    self._log("link", par2.ino, name2, node.ino)

  def sys_symlink(self, proc, target, path, dir_fd=None):
    node, parent, name = self._walk2(
        self._start(proc, dir_fd), path, False, proc)
    if node is not None:
      raise KErr(errno.EEXIST)
    self._wr_ok(proc, parent)
    node = self._new("l", 0o777, proc.uid, proc.gid, parent.dev)
    node.target = target
    parent.entries[name] = node
    self._log("create", parent.ino, name, node.ino, 0o777, proc.uid, proc.gid,
              parent.dev, "l", target)

  def sys_readlink(self, proc, path, dir_fd=None):
    node = self._walk(self._start(proc, dir_fd), path, False, proc)
    if node.kind != "l":
      raise KErr(errno.EINVAL)
    return node.target

  def sys_listdir(self, proc, path):
    node = self._node_of(proc, path, True)
    if isinstance(node, Stream) or node.kind != "d":
      raise KErr(errno.ENOTDIR)
    if not self._may(proc, node, 4):
      raise KErr(errno.EACCES)
    out = []
    for name in sorted(node.entries):
      child = node.entries[name]
      key = (hash_small(name, self.listing_key) if self.listing_key else 0)
      out.append((key, name, child.kind, child.ino))
    out.sort()
    return [(name, kind, ino) for _, name, kind, ino in out]

  def sys_truncate(self, proc, path, size):
    node = self._node_of(proc, path, True)
    if isinstance(node, Stream) or node.kind != "f":
      raise KErr(errno.EINVAL)
    if isinstance(path, str) and not self._may(proc, node, 2):
      raise KErr(errno.EACCES)
    if isinstance(path, int) and \
        self._fd(proc, path).flags & O_ACC == os.O_RDONLY:
      raise KErr(errno.EINVAL)
    self._truncate(node, size)

  def sys_fsync(self, proc, fd):
    ofd = self._fd(proc, fd)
    if ofd.ino is None:
      raise KErr(errno.EINVAL)
    if ofd.ino.kind == "f":
      ofd.ino.synced = bytes(ofd.ino.data)
      ofd.ino.dirty = False
    self.committed = len(self.journal)

  def sys_sync(self, proc):
    for node in self.inodes.values():
      if node.kind == "f":
        node.synced = bytes(node.data)
        node.dirty = False
    self.committed = len(self.journal)

  def sys_chdir(self, proc, path):
    node = self._node_of(proc, path, True)
    if isinstance(node, Stream) or node.kind != "d":
      raise KErr(errno.ENOTDIR)
    if not self._may(proc, node, 1):
      raise KErr(errno.EACCES)
    proc.cwd = node

  def sys_getcwd(self, proc):
    return self.path_of(proc.cwd)

  def sys_umask(self, proc, mask):
    old = proc.umask
    proc.umask = mask & 0o777
    return old

  def sys_isatty(self, proc, fd):
    ofd = proc.fds.get(fd)
    return bool(ofd is not None and ofd.stream is not None
                and ofd.stream.kind == "tty")

  def sys_getblocking(self, proc, fd):
    ofd = self._fd(proc, fd)
    return not bool(ofd.flags & os.O_NONBLOCK)

  def sys_setblocking(self, proc, fd, val):
    ofd = self._fd(proc, fd)
    if val:
      ofd.flags &= ~os.O_NONBLOCK
    else:
      ofd.flags |= os.O_NONBLOCK

  def sys_getfl(self, proc, fd):
    return self._fd(proc, fd).flags

  def sys_setfl(self, proc, fd, flags):
    ofd = self._fd(proc, fd)
    keep = O_ACC | os.O_CREAT | os.O_EXCL | os.O_TRUNC
    ofd.flags = (ofd.flags & keep) | (flags & ~keep)

  def sys_flock(self, proc, fd, op):
    """op: 1 shared, 2 exclusive, 4 non-blocking, 8 unlock."""
    ofd = self._fd(proc, fd)
    if ofd.ino is None:
      return None
    lockers = ofd.ino.lockers
    if op & 8:
      lockers.pop(id(ofd), None)
      return None
    others = [kind for key, kind in lockers.items() if key != id(ofd)]
    if others and (op & 2 or 2 in others):
      if op & 4:
        raise KErr(errno.EAGAIN)
      return BLOCK
    lockers[id(ofd)] = op & 3
    return None

  def sys_statvfs(self, proc, path):
    node = self._node_of(proc, path, True)
    cap = self.capacity.get(getattr(node, "dev", 1))
    free = 1 << 20 if cap is None else max(cap, 0) // 4096
    return (4096, 4096, 1 << 20, free, free, 1 << 20, 1 << 19, 1 << 19, 0, 255)

  def sys_clock(self, proc):
    return self.now

  # ----------------------------------------------------------------- power loss
  def power_loss(self, rng):
    """Replace the tree by one that may be found after the power returns.

    Metadata operations reach the disk in order: some prefix of the journal,
    at least up to the last fsync, has.  File data that was not fsynced may be
    all there, missing (old length or zero length), cut short, or zero-filled.
    """
    keep = rng.randint(self.committed, len(self.journal))
    if rng.random() < 0.5:
      keep = len(self.journal)
    old = self.inodes
    base = self.base
    nodes = {}
    for num, (kind, mode, uid, gid, dev, _, target, mtime, _) in base.items():
      node = Inode(num, dev, kind, mode, uid, gid)
      node.target = target
      node.mtime = node.atime = node.ctime = mtime
      nodes[num] = node
    for num, ent in base.items():
      if ent[5] is not None:
        nodes[num].entries = {k: nodes[v] for k, v in ent[5].items()}
        nodes[num].parent = nodes[ent[8]] if ent[8] else None
    truncated = set()
    for op in self.journal[:keep]:
      what = op[0]
      if what == "create":
        _, par, name, num, mode, uid, gid, dev, kind, target = op
        node = Inode(num, dev, kind, mode, uid, gid)
        node.target = target
        node.mtime = self.now
        if kind == "d":
          node.parent = nodes[par]
        nodes[num] = node
        nodes[par].entries[name] = node
      elif what == "unlink":
        nodes[op[1]].entries.pop(op[2], None)
      elif what == "rename":
        _, par1, name1, par2, name2, num = op
        nodes[par1].entries.pop(name1, None)
        nodes[par2].entries[name2] = nodes[num]
        if nodes[num].kind == "d":
          nodes[num].parent = nodes[par2]
      elif what == "link":
        nodes[op[1]].entries[op[2]] = nodes[op[3]]
      elif what == "chmod":
        if op[1] in nodes:
          nodes[op[1]].mode = op[2]
      elif what == "truncate":
        truncated.add(op[1])
    lost = 0
    for num in sorted(nodes):
      node = nodes[num]
      if node.kind != "f":
        continue
      prev = old[num]
      cur = bytes(prev.data)
      if not prev.dirty:
        node.data = bytearray(prev.synced)
        continue
      choices = [cur, prev.synced]
      if num in truncated or num not in base:
        choices += [b"", b"\0" * len(cur), cur[:rng.randint(0, len(cur))]]
        if num in truncated:
          choices.remove(prev.synced)
      else:
        cut = rng.randint(0, len(cur))
        choices += [cur[:cut] + prev.synced[cut:]]
      pick = choices[rng.randrange(len(choices))]
      if pick != cur:
        lost += 1
      node.data = bytearray(pick)
    self.inodes = nodes
    self.root = nodes[1]
    self.root.parent = self.root
    for node in nodes.values():
      node.nlink = 0
    stack = [self.root]
    self.root.nlink = 2
    while stack:
      cur = stack.pop()
      for child in cur.entries.values():
        if child.kind == "d":
          child.nlink = 2
          cur.nlink += 1
          stack.append(child)
        else:
          child.nlink += 1
    dropped = len(self.journal) - keep
    self.seal()
    return dropped, lost


def hash_small(text, key):
  """FNV-1a: a stable hash, independent of PYTHONHASHSEED."""
  acc = (2166136261 ^ key) & 0xffffffff
  for byte in text.encode("utf-8", "surrogateescape"):
    acc = ((acc ^ byte) * 16777619) & 0xffffffff
  return acc
