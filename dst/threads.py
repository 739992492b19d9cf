"""Calls of the library from several threads of one process under a seeded,
deterministic scheduler.

Only the thread which holds the baton runs.  Every call of a function of
cmakelang is one step; a plan says in which of them, and at which line event of
it, the baton moves or an exception is thrown into the running thread.  The whole thing happens in a
forked copy of the warmed-up interpreter, so that a run starts without history.
"""
import io
import json
import logging
import os
import resource
import signal
import sys
import threading
import time

from .sim import HarnessError, h64

SEP = os.sep + "cmakelang" + os.sep


# ------------------------------------------------------------------------- jobs
def config_of(values):
  from cmakelang import configuration
  cfg = configuration.Configuration(**json.loads(json.dumps(values)))
  # as the command line tools do it
  cfg.legacy_consume({})
  return cfg


# configuration objects which several calls have in common
SHARED = {}


def do_job(job):
  """One call of the library as its command line tools make it -> text"""
  api, text = job["api"], job["text"]
  key = job.get("shared")
  if key is None:
    cfg = config_of(job["cfg"])
  else:
    cfg = SHARED.get(key)
    if cfg is None:
      cfg = SHARED[key] = config_of(job["cfg"])
  if api == "format":
    from cmakelang.format.__main__ import process_file
    out, valid = process_file(cfg, text, job.get("dump"))
    return "{}:{}".format(valid, out)
  if api == "lint":
    from cmakelang.lint import lint_util
    from cmakelang.lint.__main__ import process_file
    out = io.StringIO()
    gctx = lint_util.GlobalContext(out)
    lctx = gctx.get_file_ctx(job.get("name", "x.cmake"), cfg)
    process_file(cfg, lctx, text)
    lctx.writeout(out)
    gctx.write_summary(out)
    return out.getvalue()
  if api == "annotate":
    from cmakelang import annotate
    out = io.StringIO()
    annotate.annotate_file(cfg, io.StringIO(text), out, job.get("fmt", "stub"))
    return out.getvalue()
  if api == "genparsers":
    from cmakelang import genparsers
    tree = genparsers.process_file(cfg, text)
    return json.dumps(genparsers.process_tree(tree))
  if api == "dumpconfig":
    out = io.StringIO()
    cfg.dump(out)
    return out.getvalue()
  raise ValueError(api)


def outcome_of(job):
  try:
    return ["ok", do_job(job)]
  except KeyboardInterrupt:
    return ["interrupted", ""]
  except MemoryError:
    return ["nomem", ""]
  except RecursionError:
    return ["recursion", ""]
  except Exception as ex:
    return ["error", type(ex).__name__]


# ------------------------------------------------------------------------- locks
ACTIVE = [None]
REAL_LOCKS = {"Lock": threading.Lock, "RLock": threading.RLock}


class SimLock(object):
  """A lock of the code under test: who has to wait for it passes the baton on
  to the thread which holds it."""

  def __init__(self, real):
    self.real = real
    self.owner = None

  def acquire(self, blocking=True, timeout=-1):
    sched = ACTIVE[0]
    me = sched.index() if sched is not None else None
    if me is None:
      return self.real.acquire(blocking, timeout)
    tries = 0
    while not self.real.acquire(False):
      tries += 1
      if not blocking or (timeout >= 0 and tries > 3):
        return False
      sched.wait_for(me, self.owner)
    sched.waiting.discard(me)
    self.owner = me
    return True

  def release(self):
    self.real.release()

  def __enter__(self):
    self.acquire()
    return self

  def __exit__(self, *args):
    self.release()

  def __getattr__(self, name):
    return getattr(self.real, name)


def lock_seam():
  """Have the locks which cmakelang creates made by the simulator."""
  def factory(real):
    def make():
      caller = sys._getframe(1).f_code.co_filename
      return SimLock(real()) if SEP in caller else real()
    return make
  threading.Lock = factory(REAL_LOCKS["Lock"])
  threading.RLock = factory(REAL_LOCKS["RLock"])


# --------------------------------------------------------------------- scheduler
class Sched(object):
  def __init__(self, queues, switches, throws, quantum_log):
    self.queues = queues
    # step -> (line event within the function, thread)
    self.switches = {s: (l, t) for s, l, t in switches}
    # thread, its own step -> (line event, kind)
    self.throws = {(t, s): (l, k) for t, s, l, k in throws}
    self.ours = {}
    self.step = 0
    self.own = [0] * len(queues)
    self.holder = 0
    self.alive = [True] * len(queues)
    self.sems = [threading.Semaphore(0) for _ in queues]
    self.results = [[] for _ in queues]
    self.moves = []
    self.done = threading.Event()
    self.forced = 0
    self.native = [None] * len(queues)
    self.acc = 0
    self.waiting = set()
    self.idents = {}
    self.dead = False

  def index(self):
    """Which of the threads is running, None for another one."""
    return self.idents.get(threading.get_ident())

  def wait_for(self, me, owner):
    """The running thread waits for a lock."""
    self.waiting.add(me)
    ready = [i for i, a in enumerate(self.alive) if a and i not in self.waiting]
    if not ready:
      self.dead = True
      self.done.set()
      time.sleep(10 * LIMIT)
    self.pass_to(me, owner if owner in ready else ready[0])
    # one which waits for another lock may find it free
    self.waiting.discard(me)

  def pass_to(self, me, nxt):
    self.moves.append((self.step, nxt))
    self.holder = nxt
    self.sems[nxt].release()
    self.sems[me].acquire()

  def local(self, me, move, throw):
    """For one activation of a function: act at the planned line events (or
    when it returns, if that is earlier)."""
    left = [move[0] if move else None, throw[0] if throw else None]

    def trace(frame, event, arg):
      if event not in ("line", "return"):
        return trace
      if left[1] is not None:
        left[1] -= 1
        if left[1] < 0 and event == "line":
          left[1] = None
          raise {"sigint": KeyboardInterrupt, "nomem": MemoryError}[throw[1]]()
      if left[0] is not None:
        left[0] -= 1
        if left[0] < 0 or event == "return":
          left[0] = None
          nxt = move[1]
          if nxt != me and self.alive[nxt] and not self.forced and safe(frame):
            self.pass_to(me, nxt)
      return trace
    return trace

  def tracer(self, me):
    ours = self.ours
    own, switches, throws = self.own, self.switches, self.throws

    def glob(frame, event, arg):
      code = frame.f_code
      try:
        line = ours[code]
      except KeyError:
        line = ours[code] = code.co_firstlineno * 64 \
            if SEP in code.co_filename else None
      if line is None:
        return None
      if self.holder != me:
        # it was blocked by a lock meanwhile
        self.sems[me].acquire()
      self.step += 1
      own[me] += 1
      self.acc = (self.acc * 1000003 + line + me) & 0xffffffffffff
      if self.step not in switches and (me, own[me]) not in throws:
        return None
      move = switches.get(self.step)
      throw = throws.get((me, own[me]))
      return self.local(me, move, throw)
    return glob

  def thread(self, me):
    self.sems[me].acquire()
    self.native[me] = threading.get_native_id()
    self.idents[threading.get_ident()] = me
    for job in self.queues[me]:
      sys.settrace(self.tracer(me))
      try:
        got = outcome_of(job)
      finally:
        sys.settrace(None)
      self.results[me].append(got)
    self.alive[me] = False
    rest = [i for i, a in enumerate(self.alive) if a]
    if rest:
      self.holder = rest[0]
      self.sems[rest[0]].release()
    else:
      self.done.set()

  def run(self):
    threads = [threading.Thread(target=self.thread, args=(i,), daemon=True)
               for i in range(len(self.queues))]
    for thread in threads:
      thread.start()
    self.sems[0].release()
    last, asleep = None, 0
    while not self.done.wait(0.05):
      now = (self.step, self.holder)
      if now != last or not self.sleeps(self.holder):
        last, asleep = now, 0
        continue
      asleep += 1
      if asleep >= 8:
        # the holder waits for a lock of one that does not run; from here on
        # the baton only moves when somebody is done or waits
        others = [i for i, a in enumerate(self.alive) if a and i != self.holder]
        if others:
          self.forced += 1
          self.holder = others[self.forced % len(others)]
          self.sems[self.holder].release()
        asleep = 0

  def sleeps(self, who):
    try:
      with open("/proc/self/task/{}/stat".format(self.native[who])) as infile:
        return infile.read().rsplit(")", 1)[1].split()[0] in "SD"
    except (OSError, IndexError):
      return False


def safe(frame):
  """Not below a call-back of the standard library that may hold a lock."""
  frame = frame.f_back
  while frame is not None:
    name = frame.f_code.co_filename
    if "/logging/" in name or name.endswith(("threading.py", "functools.py",
                                             "<frozen importlib._bootstrap>")):
      if not name.endswith("threading.py") or \
          frame.f_code.co_name not in ("run", "_bootstrap", "_bootstrap_inner"):
        return False
    frame = frame.f_back
  return True


class Outcome(object):
  def __init__(self, how, doc):
    self.how = how
    self.results = doc.get("results")
    self.steps = doc.get("steps", 0)
    self.own = doc.get("own", [])
    self.acc = doc.get("acc", 0)
    self.moves = doc.get("moves", [])
    self.forced = doc.get("forced", 0)


def warm():
  """Have all modules which do_job() uses, but nothing that they did."""
  from cmakelang import annotate, configuration, genparsers    # noqa
  from cmakelang.format import __main__ as fmt                  # noqa
  from cmakelang.lint import __main__ as lnt, lint_util         # noqa


# The runs take place in copies of a process which has done nothing but import
# cmakelang, so that even the layout of its memory is that of the replay.
LIMIT = 60
SERVER = [None, None]


def execute(request):
  kind = request["kind"]
  if kind == "alone":
    return outcome_of(request["job"])
  if kind == "sequence":
    jobs = request["jobs"]
    return {"results": [[outcome_of(job) for job in jobs]], "steps": len(jobs),
            "own": [len(jobs)], "acc": h64(json.dumps(jobs))}
  sched = Sched(request["queues"], request["switches"], request["throws"], None)
  ACTIVE[0] = sched
  sched.run()
  ACTIVE[0] = None
  if sched.dead:
    return {"deadlock": True}
  return {"results": sched.results, "steps": sched.step, "own": sched.own,
          "moves": sched.moves[-200:], "acc": sched.acc, "forced": sched.forced}


def read_all(fdn, count):
  chunks = []
  while count:
    chunk = os.read(fdn, count)
    if not chunk:
      raise EOFError()
    chunks.append(chunk)
    count -= len(chunk)
  return b"".join(chunks)


def write_all(fdn, data):
  while data:
    data = data[os.write(fdn, data):]


def serve():
  """The process of which each run gets a copy."""
  inp, out = os.dup(0), os.dup(1)
  devnull = os.open(os.devnull, os.O_RDWR)
  for num in (0, 1, 2):
    os.dup2(devnull, num)
  signal.signal(signal.SIGINT, signal.SIG_IGN)
  logging.disable(logging.CRITICAL)
  lock_seam()
  resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
  warm()
  while True:
    head = os.read(inp, 1)
    if not head:
      os._exit(0)
    pid = os.fork()
    if pid == 0:
      code = 97
      try:
        resource.setrlimit(resource.RLIMIT_CPU, (40, 45))
        signal.alarm(LIMIT)
        size = int(read_all(inp, 16))
        request = json.loads(read_all(inp, size))
        data = json.dumps(execute(request)).encode()
        write_all(out, b"=%016d" % len(data) + data)
        code = 0
      finally:
        os._exit(code)
    _, status = os.waitpid(pid, 0)
    if status:
      write_all(out, b"!%016d" % status)


def ask(request):
  """-> (how, document)"""
  import subprocess
  if SERVER[0] != os.getpid():
    SERVER[0] = os.getpid()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    SERVER[1] = subprocess.Popen(
        [sys.executable, "-c", "from dst import threads; threads.serve()"],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0,
        env={"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
             "PYTHONPATH": here + ":/repo", "PYTHONDONTWRITEBYTECODE": "1",
             "PYTHONHASHSEED": "0"}, cwd=here)
  inp, out = SERVER[1].stdin.fileno(), SERVER[1].stdout.fileno()
  data = json.dumps(request).encode()
  try:
    write_all(inp, b"R%016d" % len(data) + data)
    head = read_all(out, 17)
    if head[:1] == b"=":
      doc = json.loads(read_all(out, int(head[1:])))
      return ("hang", {}) if doc == {"deadlock": True} else ("exit", doc)
  except (EOFError, OSError) as ex:
    raise HarnessError("thread runner: {}".format(ex))
  status = int(head[1:])
  if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
      signal.SIGXCPU, signal.SIGALRM, signal.SIGKILL):
    return "hang", {}
  raise HarnessError("thread runner failed with status {}".format(status))


def run_threads(queues, switches=(), throws=()):
  how, doc = ask({"kind": "threads", "queues": queues,
                  "switches": list(switches), "throws": list(throws)})
  return Outcome(how, doc)


def run_sequence(jobs):
  """One call after the other, without a scheduler."""
  how, doc = ask({"kind": "sequence", "jobs": jobs})
  return Outcome(how, doc)


def run_alone(job):
  how, doc = ask({"kind": "alone", "job": job})
  if how == "hang":
    return ["hang", ""]
  return doc
