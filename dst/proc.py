"""The inside of a simulated process.

`become(...)` runs in a forked copy of a pristine interpreter.  It replaces
everything through which Python code reaches the operating system by stubs
which send one message per system call to the supervisor and wait for its
answer, runs one of the repository's command line entry points, emulates the
end of the interpreter (exit status, flushing of the standard streams) and
terminates.  The repository's own code is not modified.
"""
import atexit
import builtins
import errno
import gc
import io
import marshal
import os
import posix
import resource
import signal
import stat as st
import struct
import sys
import time
import types

import _random

_real_open = io.open
_real = {}
for _name in dir(posix):
  _real[_name] = getattr(posix, _name)
_rread = posix.read
_rwrite = posix.write
_rexit = posix._exit

PASS_PREFIXES = tuple(sorted({
    "/repo/", sys.prefix + "/", sys.base_prefix + "/lib/python3",
    "/usr/lib/python3", "/usr/share/zoneinfo", "/opt/venv/",
    os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/"}))


class Chan(object):
  """Length-prefixed marshal messages over a pair of pipes."""

  def __init__(self, rfd, wfd):
    self.rfd = rfd
    self.wfd = wfd

  def send(self, obj):
    data = marshal.dumps(obj)
    data = struct.pack("<I", len(data)) + data
    view = memoryview(data)
    while view:
      view = view[_rwrite(self.wfd, view):]

  def _get(self, size):
    out = b""
    while len(out) < size:
      chunk = _rread(self.rfd, size - len(out))
      if not chunk:
        return None
      out += chunk
    return out

  def recv(self):
    head = self._get(4)
    if head is None:
      return None
    body = self._get(struct.unpack("<I", head)[0])
    if body is None:
      return None
    return marshal.loads(body)


CHAN = None
CFG = None


class Interrupted(KeyboardInterrupt):
  pass


LATER = [0]


def arm(count):
  """Interrupt at the `count`-th call of a function of the code under test from
  here, unless there is a system call before."""
  def tracer(frame, event, _arg):
    if event == "call" and "cmakelang" in frame.f_code.co_filename and LATER[0]:
      LATER[0] -= 1
      if not LATER[0]:
        sys.settrace(None)
        K("interrupted")
  LATER[0] = count
  sys.settrace(tracer)


def K(name, *args):
  if LATER[0]:
    LATER[0] = 0
    sys.settrace(None)
  CHAN.send((name, args))
  rep = CHAN.recv()
  if rep is None:
    _rexit(250)
  code, val = rep
  if code == 0:
    return val
  if code == 1:
    raise OSError(val, os.strerror(val))
  if code == 2:
    raise KeyboardInterrupt()
  if code == 3:
    raise MemoryError()
  if code == 5:
    arm(val[1])
    return val[0]
  raise RuntimeError("bad reply")


def KP(name, path, *args):
  """System call with a path for the error message."""
  try:
    return K(name, path, *args)
  except OSError as ex:
    if ex.errno is not None and ex.filename is None:
      raise OSError(ex.errno, ex.strerror, path) from None
    raise


def _p(path, fdok=False):
  """-> str path or int fd"""
  if isinstance(path, int) and not isinstance(path, bool):
    if fdok:
      return path
    raise TypeError("expected str, bytes or os.PathLike object, not int")
  path = os.fspath(path)
  if isinstance(path, bytes):
    path = path.decode("utf-8", "surrogateescape")
  if "\0" in path:
    raise ValueError("embedded null byte")
  return path


def is_real(path):
  if not isinstance(path, str) or not path.startswith("/"):
    return False
  if "/.." in path:
    return False
  return path.startswith(PASS_PREFIXES) or (path + "/") in PASS_PREFIXES


def make_stat(v):
  atime, mtime, ctime = v[7], v[8], v[9]
  return os.stat_result(
      (v[0], v[1], v[2], v[3], v[4], v[5], v[6],
       atime // 10**9, mtime // 10**9, ctime // 10**9),
      {"st_atime": atime / 1e9, "st_mtime": mtime / 1e9,
       "st_ctime": ctime / 1e9, "st_atime_ns": atime, "st_mtime_ns": mtime,
       "st_ctime_ns": ctime, "st_blksize": CFG.get("blksize", 4096),
       "st_blocks": (v[6] + 511) // 512, "st_rdev": 0})


# ------------------------------------------------------------------- os.* stubs
def os_stat(path, *, dir_fd=None, follow_symlinks=True):
  path = _p(path, True)
  if is_real(path):
    return _real["stat"](path, follow_symlinks=follow_symlinks)
  return make_stat(KP("stat", path, follow_symlinks, dir_fd))


def os_lstat(path, *, dir_fd=None):
  return os_stat(path, dir_fd=dir_fd, follow_symlinks=False)


def os_fstat(fd):
  return make_stat(K("fstat", fd))


def os_access(path, mode, *, dir_fd=None, effective_ids=False,
              follow_symlinks=True):
  path = _p(path, True)
  if is_real(path):
    return _real["access"](path, mode)
  try:
    K("access", path, mode, dir_fd, follow_symlinks)
  except OSError:
    return False
  return True


def os_open(path, flags, mode=0o777, *, dir_fd=None):
  path = _p(path)
  if is_real(path) and not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
    raise OSError(errno.ENOSYS, "os.open of a real file is not simulated", path)
  return KP("open", path, flags, mode, dir_fd)


def os_read(fd, n):
  return K("read", fd, n)


def os_pread(fd, n, off):
  return K("pread", fd, n, off)


def os_readv(fd, bufs):
  total = 0
  for buf in bufs:
    view = memoryview(buf).cast("B")
    data = K("read", fd, len(view))
    view[:len(data)] = data
    total += len(data)
    if len(data) < len(view):
      break
  return total


def os_write(fd, data):
  return K("write", fd, bytes(data))


def os_pwrite(fd, data, off):
  return K("pwrite", fd, bytes(data), off)


def os_writev(fd, bufs):
  return K("write", fd, b"".join(bytes(b) for b in bufs))


def os_sendfile(out_fd, in_fd, offset, count, **_kw):
  if offset is None:
    data = K("read", in_fd, count)
  else:
    data = K("pread", in_fd, count, offset)
  if not data:
    return 0
  return K("write", out_fd, data)


def os_copy_file_range(src, dst, count, offset_src=None, offset_dst=None):
  if offset_src is None:
    data = K("read", src, count)
  else:
    data = K("pread", src, count, offset_src)
  if not data:
    return 0
  if offset_dst is None:
    return K("write", dst, data)
  return K("pwrite", dst, data, offset_dst)


def os_lseek(fd, pos, how):
  return K("lseek", fd, pos, how)


def os_close(fd):
  return K("close", fd)


def os_closerange(low, high):
  for fd in range(low, min(high, 1024)):
    try:
      K("close", fd)
    except OSError:
      pass


def os_dup(fd):
  return K("dup", fd)


def os_dup2(fd, fd2, inheritable=True):
  return K("dup2", fd, fd2)


def os_pipe():
  return K("pipe")


def os_pipe2(flags):
  return K("pipe")


def _dirfd_guard(path):
  if is_real(path):
    raise OSError(errno.EROFS, os.strerror(errno.EROFS), path)


def os_chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
  path = _p(path, True)
  _dirfd_guard(path)
  KP("chmod", path, mode, follow_symlinks, dir_fd)


def os_fchmod(fd, mode):
  K("chmod", fd, mode, True, None)


def os_lchmod(path, mode):
  os_chmod(path, mode, follow_symlinks=False)


def os_chown(path, uid, gid, *, dir_fd=None, follow_symlinks=True):
  path = _p(path, True)
  _dirfd_guard(path)
  KP("chown", path, uid, gid, follow_symlinks, dir_fd)


def os_fchown(fd, uid, gid):
  K("chown", fd, uid, gid, True, None)


def os_lchown(path, uid, gid):
  os_chown(path, uid, gid, follow_symlinks=False)


def os_utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
  path = _p(path, True)
  _dirfd_guard(path)
  if ns is not None:
    val = (int(ns[0]), int(ns[1]))
  elif times is not None:
    val = (int(times[0] * 10**9), int(times[1] * 10**9))
  else:
    val = None
  KP("utime", path, val, follow_symlinks, dir_fd)


def os_mkdir(path, mode=0o777, *, dir_fd=None):
  path = _p(path)
  _dirfd_guard(path)
  KP("mkdir", path, mode, dir_fd)


def os_rmdir(path, *, dir_fd=None):
  path = _p(path)
  _dirfd_guard(path)
  KP("rmdir", path, dir_fd)


def os_unlink(path, *, dir_fd=None):
  path = _p(path)
  _dirfd_guard(path)
  KP("unlink", path, dir_fd)


def os_rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
  src, dst = _p(src), _p(dst)
  _dirfd_guard(src)
  _dirfd_guard(dst)
  try:
    K("rename", src, dst, src_dir_fd, dst_dir_fd)
  except OSError as ex:
    raise OSError(ex.errno, ex.strerror, src, None, dst) from None


def os_link(src, dst, *, src_dir_fd=None, dst_dir_fd=None,
            follow_symlinks=True):
  src, dst = _p(src), _p(dst)
  _dirfd_guard(src)
  _dirfd_guard(dst)
  try:
    K("link", src, dst, follow_symlinks and False, src_dir_fd, dst_dir_fd)
  except OSError as ex:
    raise OSError(ex.errno, ex.strerror, src, None, dst) from None


def os_symlink(src, dst, target_is_directory=False, *, dir_fd=None):
  dst = _p(dst)
  _dirfd_guard(dst)
  KP("symlink", _p(src), dst, dir_fd)


def os_readlink(path, *, dir_fd=None):
  raw = os.fspath(path)
  name = _p(path)
  if is_real(name):
    return _real["readlink"](raw)
  out = KP("readlink", name, dir_fd)
  return out.encode() if isinstance(raw, bytes) else out


def os_listdir(path="."):
  asbytes = isinstance(path, bytes)
  if path is None:
    path = "."
  path = _p(path, True)
  if is_real(path):
    return _real["listdir"](path)
  names = [ent[0] for ent in KP("listdir", path)]
  return [n.encode() for n in names] if asbytes else names


class SimDirEntry(object):
  def __init__(self, dirpath, name, kind, ino):
    self.name = name
    self.path = os.path.join(dirpath, name) if dirpath is not None else name
    self._kind = kind
    self._ino = ino

  def __fspath__(self):
    return self.path

  def inode(self):
    return self._ino

  def is_symlink(self):
    return self._kind == "l"

  def is_junction(self):
    return False

  def is_dir(self, *, follow_symlinks=True):
    if self._kind == "l" and follow_symlinks:
      try:
        return st.S_ISDIR(os_stat(self.path).st_mode)
      except FileNotFoundError:
        return False
    return self._kind == "d"

  def is_file(self, *, follow_symlinks=True):
    if self._kind == "l" and follow_symlinks:
      try:
        return st.S_ISREG(os_stat(self.path).st_mode)
      except FileNotFoundError:
        return False
    return self._kind == "f"

  def stat(self, *, follow_symlinks=True):
    return os_stat(self.path, follow_symlinks=follow_symlinks)

  def __repr__(self):
    return "<DirEntry {!r}>".format(self.name)


class SimScandir(object):
  def __init__(self, items):
    self._items = iter(items)

  def __iter__(self):
    return self

  def __next__(self):
    return next(self._items)

  def close(self):
    self._items = iter(())

  def __enter__(self):
    return self

  def __exit__(self, *_):
    self.close()


def os_scandir(path="."):
  if path is None:
    path = "."
  path = _p(path, True)
  if is_real(path):
    return _real["scandir"](path)
  ents = KP("listdir", path)
  base = path if isinstance(path, str) else ""
  return SimScandir([SimDirEntry(base, n, k, i) for n, k, i in ents])


def os_truncate(path, length):
  path = _p(path, True)
  _dirfd_guard(path)
  KP("truncate", path, length)


def os_ftruncate(fd, length):
  K("truncate", fd, length)


def os_posix_fallocate(fd, offset, length):
  size = K("fstat", fd)[6]
  if offset + length > size:
    K("truncate", fd, offset + length)


def _fileno(fd):
  return fd if isinstance(fd, int) else fd.fileno()


def os_fsync(fd):
  K("fsync", _fileno(fd))


def os_sync():
  K("sync")


def os_chdir(path):
  KP("chdir", _p(path, True))


def os_getcwd():
  return K("getcwd")


def os_getcwdb():
  return K("getcwd").encode()


def os_umask(mask):
  return K("umask", mask)


def os_isatty(fd):
  return K("isatty", fd)


def os_get_blocking(fd):
  return K("getblocking", fd)


def os_set_blocking(fd, val):
  K("setblocking", fd, bool(val))


def os_get_inheritable(fd):
  return False


def os_set_inheritable(fd, val):
  return None


def os_get_terminal_size(fd=1):
  if CFG.get("columns") and K("isatty", fd):
    return os.terminal_size((CFG["columns"], 24))
  raise OSError(errno.ENOTTY, os.strerror(errno.ENOTTY))


def os_statvfs(path):
  v = KP("statvfs", _p(path, True))
  return os.statvfs_result(v)


def os_notsup(*_a, **_kw):
  raise OSError(errno.EOPNOTSUPP, os.strerror(errno.EOPNOTSUPP))


def os_nosys(*_a, **_kw):
  CHAN.send(("note", ("unsupported",)))
  CHAN.recv()
  raise OSError(errno.ENOSYS, os.strerror(errno.ENOSYS))


def os_getpid():
  return CFG["pid"]


def os_getppid():
  return 1


def os_kill(pid, sig):
  if pid in (CFG["pid"], 0):
    if sig == 0:
      return
    CHAN.send(("signal", (int(sig),)))
    CHAN.recv()
    _rexit(251)
  raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))


def os_exit_now(code):
  CHAN.send(("exit", (int(code) & 0xff,)))
  CHAN.recv()
  _rexit(0)


def os_urandom(n):
  return CFG["_rng"].randbytes(n)


def os_device_encoding(fd):
  return CFG["locale"] if K("isatty", fd) else None


def os_cpu_count():
  return CFG.get("cpus", 4)


def os_uname():
  return os.uname_result(("Linux", CFG.get("host", "simnode"), "6.0", "#1",
                          "x86_64"))


OS_STUBS = {
    "stat": os_stat, "lstat": os_lstat, "fstat": os_fstat, "access": os_access,
    "open": os_open, "read": os_read, "pread": os_pread, "readv": os_readv,
    "write": os_write, "pwrite": os_pwrite, "writev": os_writev,
    "sendfile": os_sendfile, "copy_file_range": os_copy_file_range,
    "lseek": os_lseek, "close": os_close, "closerange": os_closerange,
    "dup": os_dup, "dup2": os_dup2, "pipe": os_pipe, "pipe2": os_pipe2,
    "chmod": os_chmod, "fchmod": os_fchmod, "lchmod": os_lchmod,
    "chown": os_chown, "fchown": os_fchown, "lchown": os_lchown,
    "utime": os_utime, "mkdir": os_mkdir, "rmdir": os_rmdir,
    "unlink": os_unlink, "remove": os_unlink, "rename": os_rename,
    "replace": os_rename, "link": os_link, "symlink": os_symlink,
    "readlink": os_readlink, "listdir": os_listdir, "scandir": os_scandir,
    "truncate": os_truncate, "ftruncate": os_ftruncate,
    "posix_fallocate": os_posix_fallocate, "fsync": os_fsync,
    "fdatasync": os_fsync, "sync": os_sync, "chdir": os_chdir,
    "fchdir": os_chdir, "getcwd": os_getcwd, "getcwdb": os_getcwdb,
    "umask": os_umask, "isatty": os_isatty, "get_blocking": os_get_blocking,
    "set_blocking": os_set_blocking, "get_inheritable": os_get_inheritable,
    "set_inheritable": os_set_inheritable,
    "get_terminal_size": os_get_terminal_size, "statvfs": os_statvfs,
    "fstatvfs": os_statvfs, "listxattr": os_notsup, "getxattr": os_notsup,
    "setxattr": os_notsup, "removexattr": os_notsup, "mkfifo": os_notsup,
    "mknod": os_notsup, "chroot": os_notsup, "memfd_create": os_notsup,
    "posix_fadvise": lambda *a: None,
    "getpid": os_getpid, "getppid": os_getppid, "kill": os_kill,
    "killpg": os_kill, "_exit": os_exit_now, "abort": lambda: os_kill(0, 6),
    "urandom": os_urandom, "getrandom": lambda n, flags=0: os_urandom(n),
    "device_encoding": os_device_encoding, "cpu_count": os_cpu_count,
    "uname": os_uname, "getuid": lambda: CFG.get("uid", 1000),
    "geteuid": lambda: CFG.get("uid", 1000), "getgid": lambda: 1000,
    "getegid": lambda: 1000, "getlogin": lambda: CFG.get("login", "user"),
    "system": os_nosys, "fork": os_nosys, "forkpty": os_nosys,
    "execv": os_nosys, "execve": os_nosys, "posix_spawn": os_nosys,
    "posix_spawnp": os_nosys, "sched_yield": lambda: K("yield_"),
}


# ------------------------------------------------------------------ file objects
class SimFileIO(io.RawIOBase):
  """FileIO on simulated descriptors; follows the C implementation."""

  def __init__(self, file, mode="r", closefd=True, opener=None):
    self._fd = -1
    self._closefd = closefd
    self._seekable = None
    if isinstance(file, bool) or isinstance(file, float):
      raise TypeError("integer or path expected")
    if isinstance(file, int) and file < 0:
      raise ValueError("negative file descriptor")
    plain = [c for c in mode if c in "xrwa"]
    if len(plain) != 1 or mode.count("+") > 1 or set(mode) - set("xrwab+"):
      raise ValueError("invalid mode: {}".format(mode))
    kind = plain[0]
    self._readable = kind == "r" or "+" in mode
    self._writable = kind != "r" or "+" in mode
    self._mode = {"x": "xb", "a": "ab", "r": "rb", "w": "wb"}[kind]
    if "+" in mode:
      self._mode += "+"
    if self._readable and self._writable:
      flags = os.O_RDWR
    elif self._readable:
      flags = os.O_RDONLY
    else:
      flags = os.O_WRONLY
    flags |= {"x": os.O_EXCL | os.O_CREAT, "w": os.O_CREAT | os.O_TRUNC,
              "a": os.O_APPEND | os.O_CREAT, "r": 0}[kind]
    flags |= os.O_CLOEXEC
    owned = False
    if isinstance(file, int):
      fd = file
    else:
      if not closefd:
        raise ValueError("Cannot use closefd=False with file name")
      if opener is None:
        fd = os_open(file, flags, 0o666)
      else:
        fd = opener(file, flags)
        if not isinstance(fd, int):
          raise TypeError("expected integer from opener")
        if fd < 0:
          raise ValueError("opener returned {}".format(fd))
      owned = True
    try:
      mode_bits = K("fstat", fd)[0]
      if st.S_ISDIR(mode_bits):
        raise OSError(errno.EISDIR, os.strerror(errno.EISDIR), file)
    except BaseException:
      if owned:
        K("close", fd)
      raise
    self._fd = fd
    self.name = file
    if kind == "a":
      try:
        K("lseek", fd, 0, 2)
      except OSError as ex:
        if ex.errno != errno.ESPIPE:
          raise

  def _chk(self):
    if self.closed:
      raise ValueError("I/O operation on closed file")

  @property
  def closefd(self):
    return self._closefd

  @property
  def mode(self):
    return self._mode

  @property
  def _blksize(self):
    return CFG.get("blksize", 4096)

  def fileno(self):
    self._chk()
    return self._fd

  def isatty(self):
    self._chk()
    return K("isatty", self._fd)

  def readable(self):
    self._chk()
    return self._readable

  def writable(self):
    self._chk()
    return self._writable

  def seekable(self):
    self._chk()
    if self._seekable is None:
      try:
        K("lseek", self._fd, 0, 1)
        self._seekable = True
      except OSError:
        self._seekable = False
    return self._seekable

  def read(self, size=-1):
    self._chk()
    if not self._readable:
      raise io.UnsupportedOperation("File not open for reading")
    if size is None or size < 0:
      return self.readall()
    try:
      return K("read", self._fd, size)
    except BlockingIOError:
      return None

  def readinto(self, buf):
    self._chk()
    if not self._readable:
      raise io.UnsupportedOperation("File not open for reading")
    view = memoryview(buf).cast("B")
    try:
      data = K("read", self._fd, len(view))
    except BlockingIOError:
      return None
    view[:len(data)] = data
    return len(data)

  def readall(self):
    self._chk()
    if not self._readable:
      raise io.UnsupportedOperation("File not open for reading")
    out = []
    size = CFG.get("readall", 65536)
    while True:
      try:
        data = K("read", self._fd, size)
      except BlockingIOError:
        if out:
          break
        return None
      if not data:
        break
      out.append(data)
    return b"".join(out)

  def write(self, data):
    self._chk()
    if not self._writable:
      raise io.UnsupportedOperation("File not open for writing")
    try:
      return K("write", self._fd, bytes(data))
    except BlockingIOError:
      return None

  def seek(self, pos, whence=0):
    self._chk()
    return K("lseek", self._fd, pos, whence)

  def tell(self):
    self._chk()
    return K("lseek", self._fd, 0, 1)

  def truncate(self, size=None):
    self._chk()
    if not self._writable:
      raise io.UnsupportedOperation("File not open for writing")
    if size is None:
      size = self.tell()
    K("truncate", self._fd, size)
    return size

  def close(self):
    if self.closed:
      return
    if not self._closefd or self._fd < 0:
      io.RawIOBase.close(self)
      self._fd = -1
      return
    try:
      io.RawIOBase.close(self)
    finally:
      fd, self._fd = self._fd, -1
      K("close", fd)

  def __repr__(self):
    return "<_io.FileIO name={!r} mode={!r}>".format(
        getattr(self, "name", None), self._mode)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
  if not isinstance(file, int):
    file = os.fspath(file)
  if not isinstance(mode, str):
    raise TypeError("open() argument 'mode' must be str")
  if isinstance(file, str) and is_real(file):
    if set(mode) & set("wax+"):
      raise OSError(errno.EROFS, os.strerror(errno.EROFS), file)
    return _real_open(file, mode, buffering, encoding, errors, newline)
  modes = set(mode)
  if modes - set("axrwb+t") or len(mode) > len(modes):
    raise ValueError("invalid mode: {!r}".format(mode))
  text, binary = "t" in modes, "b" in modes
  if text and binary:
    raise ValueError("can't have text and binary mode at once")
  kinds = [c for c in "xrwa" if c in modes]
  if len(kinds) != 1:
    raise ValueError(
        "must have exactly one of create/read/write/append mode")
  if binary and (encoding is not None or errors is not None
                 or newline is not None):
    raise ValueError("binary mode doesn't take that argument")
  if newline not in (None, "", "\n", "\r", "\r\n"):
    raise ValueError("illegal newline value: {!r}".format(newline))
  if not binary:
    if encoding is None or encoding == "locale":
      encoding = CFG["locale"]
    import codecs
    codecs.lookup(encoding)
  raw = SimFileIO(file, kinds[0] + ("+" if "+" in modes else ""), closefd,
                  opener)
  result = raw
  try:
    line_buffering = False
    if buffering == 1 or (buffering < 0 and raw.isatty()):
      buffering = -1
      line_buffering = True
    if buffering < 0:
      buffering = raw._blksize
    if buffering == 0:
      if binary:
        return result
      raise ValueError("can't have unbuffered text I/O")
    if "+" in modes:
      buf = io.BufferedRandom(raw, buffering)
    elif raw._writable:
      buf = io.BufferedWriter(raw, buffering)
    else:
      buf = io.BufferedReader(raw, buffering)
    result = buf
    if binary:
      return result
    wrapper = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    result = wrapper
    wrapper.mode = mode
    return result
  except BaseException:
    result.close()
    raise


# ------------------------------------------------------------------------- time
def t_time():
  return K("clock") / 1e9


def t_time_ns():
  return K("clock")


def t_sleep(secs):
  K("sleep", float(secs))


def install_import(_cfg):
  """The routes of the import system, and of what uses its parts (runpy,
  importlib.util.spec_from_file_location, ...)."""
  import importlib
  ext = importlib._bootstrap_external
  sim_os = types.ModuleType("posix")
  sim_os.__dict__.update(ext._os.__dict__)
  for name, stub in OS_STUBS.items():
    if name in sim_os.__dict__:
      sim_os.__dict__[name] = stub
  sim_io = types.ModuleType("_io")
  sim_io.__dict__.update(ext._io.__dict__)
  sim_io.FileIO = PassFileIO
  sim_io.open_code = open_code
  sim_io.open = sim_open
  ext._os = sim_os
  ext._io = sim_io
  io.open_code = open_code
  keep = ext.SourceFileLoader.set_data

  def set_data(self, path, data, **kwargs):
    if not is_real(path):
      keep(self, path, data, **kwargs)

  ext.SourceFileLoader.set_data = set_data
  sys.dont_write_bytecode = False


def open_code(path):
  return sim_open(path, "rb")


def PassFileIO(file, mode="r", closefd=True, opener=None):
  if isinstance(file, str) and is_real(file):
    return _real_open(file, mode.replace("b", "") + "b", 0)
  return SimFileIO(file, mode, closefd, opener)


def install(cfg):
  """Replace every route to the operating system in this process."""
  import random
  import tempfile
  seedstr = cfg["rngseed"]
  cfg["_rng"] = random.Random(seedstr)

  for name, stub in OS_STUBS.items():
    if hasattr(os, name):
      old = getattr(os, name)
      for setname in ("supports_dir_fd", "supports_fd",
                      "supports_follow_symlinks", "supports_effective_ids"):
        group = getattr(os, setname)
        if old in group:
          group.add(stub)
      setattr(os, name, stub)
  io.open = sim_open
  builtins.open = sim_open
  io.FileIO = SimFileIO
  import tokenize
  tokenize._builtin_open = sim_open
  install_import(cfg)
  # tempfile holds io as _io; _random holds the C generator seeded by the OS.
  real_seed = random.Random.seed

  def seeded(self, a=None, version=2):
    if a is None:
      a = cfg["_rng"].getrandbits(64)
    return real_seed(self, a, version)

  random.Random.seed = seeded
  random._urandom = os_urandom
  random.seed(cfg["_rng"].getrandbits(64))
  tempfile._name_sequence = None
  tempfile.tempdir = None

  import uuid
  uuid.getnode = lambda: 0x0242ac110002
  uuid._generate_time_safe = None

  time.time = t_time
  time.time_ns = t_time_ns
  time.monotonic = t_time
  time.monotonic_ns = t_time_ns
  time.perf_counter = t_time
  time.perf_counter_ns = t_time_ns
  time.process_time = t_time
  time.sleep = t_sleep
  import logging
  if getattr(logging, "_startTime", None) is not None:
    logging._startTime = 1700000000.0

  import fcntl

  def flock(fd, op):
    K("flock", _fileno(fd), (1 if op & fcntl.LOCK_SH else 0) |
      (2 if op & fcntl.LOCK_EX else 0) | (4 if op & fcntl.LOCK_NB else 0) |
      (8 if op & fcntl.LOCK_UN else 0))

  def fcntl_(fd, cmd, arg=0):
    fd = _fileno(fd)
    if cmd == fcntl.F_GETFL:
      return K("getfl", fd)
    if cmd == fcntl.F_SETFL:
      K("setfl", fd, arg)
      return 0
    if cmd in (fcntl.F_GETFD, fcntl.F_SETFD):
      return 0
    if cmd in (fcntl.F_DUPFD, fcntl.F_DUPFD_CLOEXEC):
      return K("dupmin", fd, arg)
    raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))

  fcntl.flock = flock
  fcntl.lockf = lambda fd, op, *a: flock(fd, op)
  fcntl.fcntl = fcntl_
  import locale
  locale.getpreferredencoding = lambda do_setlocale=True: cfg["locale"]
  if hasattr(locale, "getencoding"):
    locale.getencoding = lambda: cfg["locale"]

  import _posixsubprocess
  import subprocess
  _posixsubprocess.fork_exec = os_nosys
  subprocess._fork_exec = os_nosys
  import select
  select.select = lambda r, w, x, timeout=None: (list(r), list(w), [])
  import socket
  socket.gethostname = lambda: cfg.get("host", "simnode")

  os.environ.clear()
  os.environ.update(cfg["env"])
  os.environ._data = EnvSpy(os.environ._data)


class EnvSpy(dict):
  """Remembers which environment variables the program asks for."""

  def __init__(self, data):
    dict.__init__(self, data)
    self.asked = set()

  def __getitem__(self, key):
    self.asked.add(key)
    return dict.__getitem__(self, key)

  def __contains__(self, key):
    self.asked.add(key)
    return dict.__contains__(self, key)

  def get(self, key, default=None):
    self.asked.add(key)
    return dict.get(self, key, default)


def std_streams(cfg):
  out = []
  for fd, name, rmode in ((0, "stdin", "r"), (1, "stdout", "w"),
                          (2, "stderr", "w")):
    if not cfg["fds"][fd]:
      out.append(None)
      continue
    raw = SimFileIO(fd, rmode, closefd=False)
    raw.name = "<%s>" % name
    tty = raw.isatty()
    if rmode == "r":
      buf = io.BufferedReader(raw, cfg.get("blksize", 8192))
    elif fd == 1 and cfg.get("unbuffered"):
      buf = raw          # as with PYTHONUNBUFFERED
    else:
      buf = io.BufferedWriter(raw, cfg.get("stdbuf", 8192))
    errors = "backslashreplace" if fd == 2 else (
        "surrogateescape" if cfg["locale"] == "ascii" else "strict")
    out.append(io.TextIOWrapper(
        buf, cfg["locale"], errors, newline=None if fd == 0 else "\n",
        line_buffering=tty or fd == 2, write_through=buf is raw))
    out[-1].mode = rmode
  return out


def entry(tool):
  if tool == "format":
    from cmakelang.format import __main__ as mod
    return mod.main
  if tool == "lint":
    from cmakelang.lint import __main__ as mod
    return mod.main
  if tool == "annotate":
    from cmakelang import annotate
    return annotate.main
  if tool == "genparsers":
    from cmakelang import genparsers
    return genparsers.main
  if tool == "ctest-to":
    from cmakelang import ctest_to
    return ctest_to.main
  raise ValueError(tool)


PROGNAME = {"format": "cmake-format", "lint": "cmake-lint",
            "annotate": "cmake-annotate", "genparsers": "cmake-genparsers",
            "ctest-to": "ctest-to"}


def become(chan, cfg, func=None):
  """Never returns."""
  global CHAN, CFG
  CHAN = chan
  CFG = cfg
  code = 255
  try:
    gc.disable()
    resource.setrlimit(resource.RLIMIT_CPU, (cfg["cpu"], cfg["cpu"] + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (cfg["mem"], cfg["mem"]))
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    atexit._clear()
    import logging
    atexit.register(logging.shutdown)
    main = func or entry(cfg["tool"])
    sys.argv = [cfg.get("bindir", "/opt/venv/bin/") +
                PROGNAME.get(cfg["tool"], "x")] + list(cfg["argv"])
    install(cfg)
    sys.stdin, sys.stdout, sys.stderr = std_streams(cfg)
    sys.__stdin__, sys.__stdout__, sys.__stderr__ = (
        sys.stdin, sys.stdout, sys.stderr)
    CHAN.send(("start", ()))
    if CHAN.recv() is None:
      _rexit(250)
  except BaseException:
    import traceback
    text = traceback.format_exc()
    try:
      CHAN.send(("broken", (text,)))
    finally:
      _rexit(252)
  try:
    code = run_main(main)
    code = finalize(code)
    asked = getattr(os.environ._data, "asked", ())
    CHAN.send(("note", ({"env": sorted(
        k.decode("utf-8", "replace") for k in asked)},)))
    CHAN.recv()
    CHAN.send(("exit", (code,)))
    CHAN.recv()
  except BaseException:
    import traceback
    text = traceback.format_exc()
    try:
      CHAN.send(("broken", (text,)))
    finally:
      _rexit(252)
  _rexit(0)


def _err(text):
  try:
    if sys.stderr is not None:
      sys.stderr.write(text)
      sys.stderr.flush()
  except BaseException:
    pass


def run_main(main):
  """What the console-script wrapper and the interpreter do around main()."""
  try:
    sys.exit(main())
  except SystemExit as ex:
    val = ex.code
    if val is None:
      return 0
    if isinstance(val, int):
      return val & 0xff
    _err("{}\n".format(val))
    return 1
  except BaseException as ex:
    import traceback
    try:
      text = "".join(traceback.format_exception(type(ex), ex, ex.__traceback__))
    except BaseException:
      text = "traceback failed: {}\n".format(type(ex).__name__)
    ex.__traceback__ = None
    _err(text)
    return 130 if isinstance(ex, KeyboardInterrupt) else 1


def finalize(code):
  try:
    atexit._run_exitfuncs()
  except BaseException:
    pass
  gc.collect()
  status = 0
  for name in ("stdout", "stderr"):
    stream = getattr(sys, name)
    if stream is None:
      continue
    try:
      if not stream.closed:
        stream.flush()
    except BaseException as ex:
      if name == "stdout":
        _err("Exception ignored in: <stdout>\n{}: {}\n".format(
            type(ex).__name__, ex))
        status = 120
  return status or code
