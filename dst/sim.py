"""The supervisor: kernel + seeded scheduler + fault injector.

A World holds one Kernel.  `run()` executes a batch of simulated processes in
it under a list of faults; several batches may follow each other in the same
World (crash, recovery, next command).  A run is a pure function of
(world description, processes, faults, seed, code in /repo).
"""
import errno
import hashlib
import os
import random
import select
import signal
import sys

from . import proc as procmod
from .kernel import BLOCK, KErr, Kernel, KProc, OFD, Stream

MS = 10**6


def h64(*parts):
  raw = "\x1f".join(str(p) for p in parts).encode("utf-8", "surrogateescape")
  return int.from_bytes(hashlib.blake2b(raw, digest_size=8).digest(), "little")


class HarnessError(Exception):
  """The machinery failed; never a verdict."""


def warm():
  start_zygote()
  imports()


def imports():
  """Import what simulated processes need, so that a fork starts warmed up."""
  sys.dont_write_bytecode = True
  import argparse, collections, copy, ctypes, difflib, encodings, enum, fcntl  # noqa
  import filecmp, fnmatch, functools, gettext, glob, hashlib, inspect, io  # noqa
  import json, linecache, locale, logging, logging.handlers, operator  # noqa
  import pathlib, pprint, random, re, secrets, select, shutil, socket, stat  # noqa
  import string, subprocess, tempfile, textwrap, threading, time, tokenize  # noqa
  import traceback, uuid, weakref, contextlib, concurrent.futures, queue  # noqa
  import multiprocessing, xml.etree.ElementTree, yaml, jinja2, errno  # noqa
  import jinja2.ext, pickle, html, html.entities, multiprocessing.pool  # noqa
  for codec in ("utf-8", "utf-8-sig", "latin-1", "utf-16", "utf-16-le",
                "ascii", "cp1252", "idna", "utf-32", "utf-7", "iso8859-15"):
    "".encode(codec)
    b"".decode(codec)
  try:
    from yaml import CLoader  # noqa
  except ImportError:
    pass
  import pkgutil, importlib, platform, getpass, zlib  # noqa
  pad = int(os.environ.get("DST_PAD", "0"))
  real = os.environ._data
  values = [b"1", b"true", b"0", b"50", b"x"]
  while True:
    if pad:
      # what modules look up while they are imported
      os.environ._data = EnvInventor(real, pad, values)
    try:
      from cmakelang.format import __main__ as m1  # noqa
      from cmakelang.lint import __main__ as m2  # noqa
      from cmakelang import annotate, genparsers, ctest_to, render  # noqa
      return
    except Exception:  # pylint: disable=broad-except
      if not pad:
        raise
      # perhaps it has to be a number
      for name in [m for m in sys.modules if m.split(".")[0] == "cmakelang"]:
        del sys.modules[name]
      if b"x" not in values:
        pad = 0
      values = [b"1", b"50", b"20"]
    finally:
      os.environ._data = real


class EnvInventor(dict):
  """An environment in which any variable may be set, if the program asks."""
  KNOWN = (b"PYTHON", b"LC_", b"LANG", b"_ARC", b"HOME", b"TMP", b"TEMP", b"PATH",
           b"DST_")

  def __init__(self, data, pad, values):
    dict.__init__(self, data)
    self.pad = pad
    self.values = values

  def __missing__(self, key):
    roll = h64("env", self.pad, key)
    if key.startswith(self.KNOWN) or roll % 3 == 0:
      raise KeyError(key)
    return self.values[(roll >> 8) % len(self.values)]

  def __contains__(self, key):
    try:
      self[key]
      return True
    except KeyError:
      return False

  def get(self, key, default=None):
    try:
      return self[key]
    except KeyError:
      return default


# ----------------------------------------------------------------------- zygote
# Simulated processes are copies of a process which has done nothing but import
# what they need: what the worker did before has no influence, not even on the
# layout of their memory.
ZYGOTE = None


FDS = (100, 101, 102)


def start_zygote():
  """An interpreter of its own, always started in the same way."""
  global ZYGOTE
  import ctypes
  import socket
  import subprocess
  libc = ctypes.CDLL(None, use_errno=True)
  if libc.prctl(36, 1, 0, 0, 0) != 0:      # PR_SET_CHILD_SUBREAPER
    return
  ours, theirs = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
  ctl_r, ctl_w = os.pipe()
  ack_r, ack_w = os.pipe()
  for have, want in zip((theirs.fileno(), ctl_r, ack_w), FDS):
    os.dup2(have, want)
  here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8",
         "LC_ALL": "C.UTF-8", "PYTHONPATH": here + ":/repo",
         "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "0", "HOME": "/root",
         "PYTHONHASHSEED": os.environ.get("PYTHONHASHSEED", "0"),
         "DST_PAD": os.environ.get("DST_PAD", "0")}
  subprocess.Popen(
      [sys.executable, "-B", "-c", "from dst import sim; sim.zygote_entry()"],
      stdin=subprocess.DEVNULL, pass_fds=FDS, env=env, cwd="/")
  theirs.close()
  for fdn in FDS + (ctl_r, ack_w):
    os.close(fdn)
  ZYGOTE = (ours, ctl_w, ack_r)


def zygote_entry():
  import gc
  import random
  import socket
  sys.path[:] = [p for p in sys.path if p not in ("", "/")]
  imports()
  pad = int(os.environ["DST_PAD"])
  if pad:
    # other memory layouts for other hash seeds
    rng = random.Random(pad)
    sys.dst_pad = []
    for size in range(48, 513, 16):
      # the allocator hands out again what was freed last: in random order
      blocks = [bytes(size - 33 - rng.randint(0, 14)) for _ in range(3000)]
      order = list(range(len(blocks)))
      rng.shuffle(order)
      for num in order[:2000]:
        blocks[num] = None
      sys.dst_pad.append(blocks)
  gc.collect()
  gc.freeze()
  try:
    zygote_main(socket.socket(fileno=FDS[0]), FDS[1], FDS[2])
  finally:
    os._exit(251)


def zygote_main(sock, ctl, ack):
  """Does as little as possible itself, so that no copy differs from the one
  before."""
  import socket
  read, fork, wait, write = os.read, os.fork, os.waitpid, os.write
  while True:
    if not read(ctl, 1):
      os._exit(0)
    mid = fork()
    if mid == 0:
      _, fds, _, _ = socket.recv_fds(sock, 16, 2)
      pid = fork()
      if pid == 0:
        try:
          for fdn in (ctl, ack):
            os.close(fdn)
          sock.close()
          chan = procmod.Chan(*fds)
          procmod.become(chan, chan.recv())
        finally:
          os._exit(253)
      sock.send(b"%016d" % pid)
      os._exit(0)
    wait(mid, 0)
    # the parent of the copy is now the worker
    write(ack, b"k")


def spawn(cfg, func, rfd, wfd, to_child, close):
  """A process with the channel rfd, wfd -> its number"""
  if func is None and ZYGOTE is not None:
    import socket
    sock, ctl, ack = ZYGOTE
    os.write(ctl, b"s")
    socket.send_fds(sock, [b"start"], [rfd, wfd])
    pid = int(sock.recv(16))
    os.read(ack, 1)
    to_child.send(cfg)
    return pid
  pid = os.fork()
  if pid == 0:
    try:
      for fdn in close:
        os.close(fdn)
      procmod.become(procmod.Chan(rfd, wfd), cfg, func)
    finally:
      os._exit(253)
  return pid


# ------------------------------------------------------------------------ specs
def b2s(data):
  return data.decode("latin-1")


def s2b(text):
  return text.encode("latin-1")


STAMPS = [0, 1, 10**9, 315532800 * 10**9, 1700000000 * 10**9, 2**31 * 10**9,
          4070908800 * 10**9, 999999999, 1704164645123456789]


def disguise(kern, key):
  """Other time stamps and inode numbers."""
  rng = random.Random(h64("disguise", key))
  nodes = [kern.inodes[num] for num in sorted(kern.inodes)]
  numbers = list(range(2, len(nodes) + 1))
  base = rng.choice([0, 1000, 2**31, 2**40])
  if rng.random() < 0.7:
    rng.shuffle(numbers)
  for node, number in zip(nodes[1:], numbers):
    node.ino = base + number
  kern.inodes = {node.ino: node for node in nodes}
  kern.next_ino = base + len(nodes) + 1
  same = rng.choice(STAMPS) if rng.random() < 0.3 else None
  for node in nodes:
    node.mtime = rng.choice(STAMPS) if same is None else same
    node.atime = rng.choice(STAMPS)
    node.ctime = max(node.mtime, rng.choice(STAMPS))


def build_kernel(fs, listing_key=0, stamps=None):
  """fs: list of [kind, path, payload, mode, uid].  Directories first."""
  kern = Kernel(listing_key)
  kern.setup_dir("/tmp", 0o1777, 0, dev=2)
  kern.setup_dir("/home/user", 0o755)
  kern.setup_dir("/w", 0o755)
  kern.lookup("/home").uid = 0
  kern.setup_dir("/etc", 0o755, 0)
  kern.setup_dir("/dev/shm", 0o1777, 0, dev=3)
  final_modes = []
  for item in fs:
    kind, path, payload = item[:3]
    mode = item[3] if len(item) > 3 else 0o644
    uid = item[4] if len(item) > 4 and item[4] is not None else 1000
    if kind == "d":
      node = kern.setup_dir(path, 0o755, uid,
                            dev=payload if isinstance(payload, int) else None)
      final_modes.append((node, mode, uid))
    elif kind == "f":
      kern.setup_file(path, s2b(payload), mode, uid)
    elif kind == "l":
      kern.setup_link(path, payload)
    elif kind == "h":
      kern.setup_hardlink(path, payload)
    else:
      raise ValueError(kind)
  for node, mode, uid in final_modes:
    node.mode = mode
    node.uid = node.gid = uid
  if stamps is not None:
    disguise(kern, stamps)
  kern.seal()
  return kern


class Proc(object):
  def __init__(self, idx, spec):
    self.idx = idx
    self.spec = spec
    self.kp = None
    self.chan = None
    self.ospid = None
    self.n = 0
    self.msg = None
    self.ready_at = 0
    self.blocked = False
    self.alive = False
    self.code = None            # exit status
    self.how = None             # 'exit' 'killed' 'power' 'signal' 'hang' 'abort'
    self.out = None
    self.err = None
    self.notes = []
    self.asked = ()             # environment variables it asked for

  @property
  def stdout(self):
    return bytes(self.out.data)

  @property
  def stderr(self):
    return bytes(self.err.data)


# which system calls take a path / a descriptor first
PATH_CALLS = {"open", "stat", "access", "chmod", "chown", "utime", "mkdir",
              "rmdir", "unlink", "rename", "link", "readlink", "listdir",
              "truncate", "chdir", "statvfs"}
MUTATING = {"write", "pwrite", "chmod", "chown", "utime", "mkdir", "rmdir",
            "unlink", "rename", "link", "symlink", "truncate"}
QUIET = {"clock", "start", "note", "isatty", "getcwd", "umask", "getblocking",
         "getfl"}


IN_C_CODE = {"write", "pwrite", "read", "pread", "close", "fstat", "lseek",
             "isatty", "getfl"}


# C code which looks at pending signals after none of its calls
UNCHECKED = {"close", "fstat", "lseek", "isatty", "getfl"}


class Result(object):
  def __init__(self):
    self.procs = []
    self.trace = []        # (step, proc, n, call, path, outcome, fault, now)
    self.fired = []        # faults that took effect
    self.steps = 0
    self.deadlock = False
    self.power = None
    self.sim_ns = 0
    self.jumped = 0
    self.invariant = None

  def sig(self):
    """Signature of the interleaving: calls in order with their outcomes."""
    acc = hashlib.blake2b(digest_size=8)
    for _, pidx, _, call, path, outcome, fault, _ in self.trace:
      acc.update("{}|{}|{}|{}|{}\n".format(
          pidx, call, path, outcome, fault).encode("utf-8", "surrogateescape"))
    return acc.hexdigest()

  def log(self):
    out = []
    for step, pidx, num, call, path, outcome, fault, now in self.trace:
      out.append("{:4d} t=+{:.3f}ms p{} #{} {} {} -> {}{}".format(
          step, (now - 1700000000 * 10**9) / 1e6, pidx, num, call, path or "",
          outcome, "  FAULT " + str(fault) if fault else ""))
    return out


def kind_of(spec, fd):
  """`tty` is true or the list of the descriptors that are a terminal."""
  tty = spec.get("tty")
  return "tty" if tty is True or tty and fd in tty else "pipe"


def meant(fault, shown, path, kern):
  """Whether a fault applies to this kind of call on this path."""
  return not ("only" in fault and shown not in fault["only"] or
              "on" in fault and path != fault["on"] or
              "under" in fault and not passes(path, fault["under"], kern))


def beneath(path, place):
  return path is not None and (path == place or path.startswith(place + "/"))


def passes(path, place, kern):
  """Whether whoever resolves `path` comes to `place`, through links, too."""
  if path is None or beneath(path, place):
    return path is not None
  if not path.startswith("/"):
    return False
  target = kern.lookup(place)
  if target is None:
    return False
  parts = path.split("/")
  for num in range(2, len(parts) + 1):
    node = kern.lookup("/".join(parts[:num]))
    if node is None:
      return False
    while node is not None and node is not kern.root:
      if node is target:
        return True
      if node.kind != "d":
        break
      node = node.parent
  return False


def blocked_forever(prc):
  """Whether the process sleeps instead of making its next call: all its calls go
  to the simulator, so that something inside (a lock it holds itself) keeps it."""
  last = None
  while not select.select([prc.chan.rfd], [], [], 4.0)[0]:
    try:
      with open("/proc/{}/stat".format(prc.ospid), encoding="utf-8") as infile:
        fields = infile.read().rpartition(")")[2].split()
    except OSError:
      return False
    state = (fields[0], fields[11], fields[12])
    if fields[0] == "S" and state == last:
      return True
    last = state
  return False


class World(object):
  def __init__(self, fs, seed, listing_key=0, stamps=None):
    self.kern = build_kernel(fs, listing_key, stamps)
    self.seed = seed
    self.batch = 0

  def run(self, specs, faults=(), on_step=None, max_calls=60000, trace=True):
    """Run the processes of one batch to completion.

    faults: list of dicts {"p": proc, "n": call number, "k": kind, ...}; one
    with "rest" stands for all calls from that number on which match its "only"
    and "on".
    on_step(kern, res): returns a message to abort with a violation.
    """
    self.batch += 1
    kern = self.kern
    res = Result()
    key = (self.seed, self.batch)
    start = kern.now
    plan = {}
    for fault in faults:
      where = (fault["p"], "rest" if fault.get("rest") else fault["n"])
      plan.setdefault(where, []).append(fault)
    procs = []
    try:
      for idx, spec in enumerate(specs):
        procs.append(self._spawn(idx, spec, key))
      res.procs = procs
      self._loop(procs, plan, res, on_step, key, max_calls, trace)
    finally:
      for prc in procs:
        if prc.alive:
          self._reap(prc, kill=True)
    res.sim_ns = kern.now - start - res.jumped
    return res

  # ----------------------------------------------------------------- processes
  def _spawn(self, idx, spec, key):
    kern = self.kern
    prc = Proc(idx, spec)
    cwd = kern.lookup(spec.get("cwd", "/"))
    if cwd is None or cwd.kind != "d":
      raise HarnessError("cwd missing: {}".format(spec.get("cwd")))
    uid = spec.get("uid", 1000)
    prc.kp = KProc(spec.get("pid", 4000 + 17 * idx + self.batch), cwd, uid,
                   uid, spec.get("umask", 0o022))
    prc.kp.nofile = spec.get("nofile", 256)
    sin = spec.get("stdin")
    if isinstance(sin, dict) and "path" in sin:
      node = kern.lookup(sin["path"])
      prc.inp = OFD(ino=node, flags=os.O_RDONLY, path=sin["path"])
    else:
      prc.inp = OFD(stream=Stream(
          kind_of(spec, 0), s2b(sin or "")),
                    flags=os.O_RDONLY, path="<stdin>")
    so = spec.get("stdout") or {}
    if "path" in so:
      node = kern.lookup(so["path"])
      prc.out = None
      prc.outofd = OFD(ino=node, flags=os.O_WRONLY, path=so["path"])
      prc.outnode = node
    else:
      prc.out = Stream(kind_of(spec, 1),
                       broken_after=so.get("broken_after"))
      prc.outofd = OFD(stream=prc.out, flags=os.O_WRONLY | (
          os.O_NONBLOCK if so.get("nonblock") else 0), path="<stdout>")
    prc.err = Stream(kind_of(spec, 2))
    errofd = OFD(stream=prc.err, flags=os.O_WRONLY, path="<stderr>")
    kern.install(prc.kp, 0, prc.inp)
    kern.install(prc.kp, 1, prc.outofd)
    kern.install(prc.kp, 2, errofd)
    if "extra_fds" in spec:
      for fd in spec["extra_fds"]:
        kern.install(prc.kp, fd, OFD(stream=Stream("pipe"), path="<extra>"))
    env = {"PATH": "/usr/bin", "HOME": "/home/user", "LANG": "C.UTF-8"}
    env.update(spec.get("env", {}))
    cfg = {
        "tool": spec["tool"], "argv": spec["argv"], "env": env,
        "pid": prc.kp.pid, "uid": uid, "locale": spec.get("locale", "utf-8"),
        "fds": [True, True, True], "blksize": spec.get("blksize", 4096),
        "stdbuf": spec.get("stdbuf", 8192),
        "readall": spec.get("readall", 65536),
        "columns": spec.get("columns"), "cpu": spec.get("cpu", 25),
        "mem": spec.get("mem", 6 << 30),
        "rngseed": h64("rng", key, idx, spec.get("rngsalt", 0)),
    }
    for name in ("cpus", "host", "login", "bindir", "unbuffered"):
      if name in spec:
        cfg[name] = spec[name]
    c2p_r, c2p_w = os.pipe()
    p2c_r, p2c_w = os.pipe()
    pid = spawn(cfg, spec.get("func"), p2c_r, c2p_w,
                procmod.Chan(c2p_r, p2c_w), (c2p_r, p2c_w))
    os.close(c2p_w)
    os.close(p2c_r)
    prc.ospid = pid
    prc.chan = procmod.Chan(c2p_r, p2c_w)
    prc.alive = True
    prc.ready_at = kern.now + spec.get("start", 0)
    prc.key = h64("lat", key, idx)
    prc.slow = spec.get("slow", 1.0)
    msg = prc.chan.recv()
    while msg is not None and hasattr(kern, "sys_" + msg[0]):
      # interpreter start-up: served at once, outside the fault space
      try:
        reply = (0, getattr(kern, "sys_" + msg[0])(prc.kp, *msg[1]))
      except KErr as ex:
        reply = (1, ex.errno)
      prc.chan.send(reply)
      msg = prc.chan.recv()
    if msg is None or msg[0] != "start":
      self._reap(prc, kill=True)
      raise HarnessError("process did not start: {}".format(msg))
    prc.msg = msg
    return prc

  def _reap(self, prc, kill=False):
    if kill:
      try:
        os.kill(prc.ospid, signal.SIGKILL)
      except ProcessLookupError:
        pass
    os.close(prc.chan.rfd)
    os.close(prc.chan.wfd)
    _, status = os.waitpid(prc.ospid, 0)
    prc.alive = False
    self.kern.drop_process(prc.kp)
    return status

  def _latency(self, prc):
    u = h64(prc.key, prc.n)
    low = u & 0xffff
    cls = (u >> 16) % 1000
    if cls < 900:
      base = 2000 + low % 30000             # 2..32 us
    elif cls < 985:
      base = 100000 + (low * 47) % 3000000  # 0.1..3 ms
    elif cls < 998:
      base = 5 * MS + (low * 1500)          # 5..100 ms
    else:
      base = 500 * MS + (low * 60000)       # 0.5..4.4 s: a stalled device
    return int(base * prc.slow)

  # --------------------------------------------------------------------- loop
  def _loop(self, procs, plan, res, on_step, key, max_calls, want_trace):
    kern = self.kern
    while True:
      live = [p for p in procs if p.alive]
      if not live:
        return
      ready = [p for p in live if not p.blocked]
      if not ready:
        res.deadlock = True
        for prc in live:
          self._reap(prc, kill=True)
          prc.how = "hang"
        return
      prc = min(ready, key=lambda p: (p.ready_at, p.idx))
      kern.now = max(kern.now, prc.ready_at)
      name, args = prc.msg
      if name == "start":
        self._resume(prc, (0, None), res)
        continue
      if name == "exit" or name == "signal":
        prc.code = args[0] if name == "exit" else 128 + args[0]
        prc.how = "exit" if name == "exit" else "signal"
        prc.chan.send((0, None))
        status = self._reap(prc)
        if name == "exit" and status != 0:
          raise HarnessError("child ended oddly: {}".format(status))
        for other in procs:
          other.blocked = False
        res.trace.append((res.steps, prc.idx, prc.n, "exit", None, prc.code,
                          None, kern.now))
        if on_step is not None:
          bad = on_step(kern, res)
          if bad:
            res.invariant = bad
            return
        continue
      if name == "broken":
        raise HarnessError("simulated process broke:\n" + args[0])
      if name == "note":
        if isinstance(args[0], dict):
          prc.asked = args[0]["env"]
        else:
          prc.notes.append(args[0])
        self._resume(prc, (0, None), res)
        continue
      prc.n += 1
      res.steps += 1
      if prc.n > max_calls:
        prc.how = "hang"
        self._reap(prc, kill=True)
        res.trace.append((res.steps, prc.idx, prc.n, "hang", None, None, None,
                          kern.now))
        continue
      path = self._pathof(prc, name, args)
      shown = name
      if name == "open":
        shown = "open_w" if args[1] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) \
            else "open_r"
      todo = plan.get((prc.idx, prc.n))
      fault = todo[0] if todo else None
      if fault is not None and not meant(fault, shown, path, self.kern):
        fault = None
      for standing in plan.get((prc.idx, "rest"), ()):
        if fault is None and prc.n >= standing["n"] and \
            meant(standing, shown, path, self.kern):
          fault = standing
      if fault is not None and (
          fault["k"] == "sigint_after" and shown in IN_C_CODE or
          fault["k"] == "sigint_before" and shown in UNCHECKED):
        # the C code finishes first; handlers run afterwards
        plan.setdefault((prc.idx, prc.n + 1), []).insert(
            0, {"p": prc.idx, "k": "sigint_before", "n": prc.n + 1})
        fault = None
      before = kern.mutations
      nfired = len(res.fired)
      reply, outcome, label, fate = self._execute(prc, name, args, fault, res,
                                                  path)
      for item in res.fired[nfired:]:
        item["call"] = shown
      if want_trace:
        res.trace.append((res.steps, prc.idx, prc.n, shown, path, outcome,
                          label, kern.now))
      if reply is BLOCK:
        prc.blocked = True
        prc.n -= 1
        res.steps -= 1
        continue
      for other in procs:
        if other.blocked:
          other.blocked = False
          other.ready_at = max(other.ready_at, kern.now + 1000)
      if fate == "kill":
        self._reap(prc, kill=True)
        prc.how = "killed"
      elif fate == "power":
        for other in procs:
          if other.alive:
            self._reap(other, kill=True)
            other.how = "power"
        rng = random.Random(fault.get("seed", 0))
        kern.capacity.clear()
        res.power = kern.power_loss(rng)
      else:
        prc.ready_at = kern.now + self._latency(prc)
        if name == "sleep":
          prc.ready_at += int(args[0] * 1e9)
        if fault is not None and fault["k"] == "stall":
          prc.ready_at += fault.get("ns", 10**9)
        self._resume(prc, reply, res)
      if on_step is not None and (kern.mutations != before or fate):
        bad = on_step(kern, res)
        if bad:
          res.invariant = bad
          return

  def _resume(self, prc, reply, res):
    prc.chan.send(reply)
    if blocked_forever(prc):
      self._reap(prc, kill=True)
      prc.how = "hang"
      res.trace.append((res.steps, prc.idx, prc.n, "died", None, "blocked", None,
                        self.kern.now))
      return
    msg = prc.chan.recv()
    if msg is None:
      status = self._reap(prc)
      sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
      if sig in (signal.SIGXCPU,):
        prc.how = "hang"
      elif sig in (signal.SIGKILL, signal.SIGSEGV, signal.SIGABRT,
                   signal.SIGBUS):
        if sig == signal.SIGSEGV:
          prc.how = "signal"
          prc.code = 139
        else:
          raise HarnessError("child ended by signal {}".format(sig))
      else:
        raise HarnessError("child vanished: status {}".format(status))
      res.trace.append((res.steps, prc.idx, prc.n, "died", None, prc.how, None,
                        self.kern.now))
      return
    prc.msg = msg

  def _pathof(self, prc, name, args):
    if name in PATH_CALLS and args:
      tgt = args[0]
    elif args and isinstance(args[0], int) and not isinstance(args[0], bool) \
        and name not in ("umask",):
      tgt = args[0]
    elif name == "symlink":
      tgt = args[1]
    else:
      return None
    if isinstance(tgt, int):
      ofd = prc.kp.fds.get(tgt)
      return ofd.path if ofd is not None else "fd%d" % tgt
    if name == "rename":
      return tgt + " => " + args[1]
    return tgt

  def _execute(self, prc, name, args, fault, res, path):
    """-> (reply, outcome text, fault label, fate)"""
    kern = self.kern
    if name == "sleep" or name == "yield_":
      return (0, None), "ok", None, None
    if name == "interrupted":
      res.fired.append({"p": prc.idx, "n": prc.n, "k": "sigint_later",
                        "call": name, "path": path})
      return (2, None), "KeyboardInterrupt", "sigint_later", None
    func = getattr(kern, "sys_" + name, None)
    if func is None:
      raise HarnessError("no such system call: " + name)
    kind = fault["k"] if fault is not None else None
    label = None
    kwargs = {}
    if kind is not None and kind != "stall":
      label = kind
    if kind == "err":
      eno = getattr(errno, fault["e"])
      label = "err:" + fault["e"]
      partial = fault.get("partial")
      if partial is not None and name in ("write", "pwrite") and args[1]:
        # the device took some of the bytes before it failed
        cut = max(0, min(len(args[1]) - 1, int(partial * len(args[1]))))
        if cut:
          try:
            func(prc.kp, *args, limit=cut)
          except KErr:
            pass
      if name == "close":
        # the descriptor is gone even when close() reports an error
        try:
          func(prc.kp, *args)
        except KErr as ex:
          return (1, ex.errno), errno.errorcode.get(ex.errno), None, None
      res.fired.append(dict(fault, call=name, path=path))
      return (1, eno), fault["e"], label, None
    if kind == "kill_before":
      res.fired.append(dict(fault, call=name, path=path))
      return (0, None), "-", label, "kill"
    if kind == "power_before":
      res.fired.append(dict(fault, call=name, path=path))
      return (0, None), "-", label, "power"
    if kind == "sigint_before":
      res.fired.append(dict(fault, call=name, path=path))
      return (2, None), "KeyboardInterrupt", label, None
    if kind == "nomem":
      res.fired.append(dict(fault, call=name, path=path))
      return (3, None), "MemoryError", label, None
    if kind == "full":
      for dev in (1, 2, 3):
        kern.capacity[dev] = fault.get("room", 0)
      res.fired.append(dict(fault, call=name, path=path))
    if kind == "roomy":
      kern.capacity.clear()
    if kind == "clockjump":
      kern.now += max(0, fault.get("ns", 0))
      res.jumped += max(0, fault.get("ns", 0))
      res.fired.append(dict(fault, call=name, path=path))
    if kind in ("short", "kill_mid", "power_mid"):
      if name in ("write", "pwrite") and len(args[1]) > 1:
        kwargs["limit"] = max(1, int(fault.get("frac", 0.5) * len(args[1])))
        res.fired.append(dict(fault, call=name, path=path))
      elif name in ("read", "pread") and args[1] > 1:
        kwargs["limit"] = max(1, fault["to"]) if "to" in fault else max(
            1, int(fault.get("frac", 0.5) *
                   min(args[1], fault.get("cap", 65536))))
        res.fired.append(dict(fault, call=name, path=path))
      else:
        label = None
        if kind != "short":
          res.fired.append(dict(fault, call=name, path=path))
    if kind == "stall":
      res.fired.append(dict(fault, call=name, path=path))
      label = "stall"
    try:
      val = func(prc.kp, *args, **kwargs)
      if val is BLOCK:
        return BLOCK, "blocked", label, None
      reply = (0, val)
      outcome = val if isinstance(val, int) and not isinstance(val, bool) \
          and name not in ("clock",) else "ok"
      if name in ("read", "pread"):
        outcome = len(val)
    except KErr as ex:
      reply = (1, ex.errno)
      outcome = errno.errorcode.get(ex.errno)
    fate = None
    if kind in ("kill_after", "kill_mid"):
      fate = "kill"
      if kind == "kill_after":
        res.fired.append(dict(fault, call=name, path=path))
    if kind in ("power_after", "power_mid"):
      fate = "power"
      if kind == "power_after":
        res.fired.append(dict(fault, call=name, path=path))
    if kind == "sigint_later" and reply[0] == 0:
      reply = (5, (reply[1], max(1, fault.get("calls", 30))))
    if kind == "sigint_after":
      res.fired.append(dict(fault, call=name, path=path))
      reply = (2, None)
    return reply, outcome, label, fate
