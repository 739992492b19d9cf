"""What the property modules share: running worlds with accounting, reference
runs, and the Violation type."""
import json
import random

from . import sim
from .sim import World, h64


class Violation(object):
  def __init__(self, kind, msg, log=None, **detail):
    self.kind = kind          # class of the violation; shrinking preserves it
    self.msg = msg
    self.log = log or []
    self.detail = detail

  def as_dict(self):
    return {"kind": self.kind, "msg": self.msg, "detail": self.detail,
            "log": self.log[-400:]}


class Stats(object):
  def __init__(self):
    self.runs = 0
    self.ref_runs = 0
    self.steps = 0
    self.sim_ns = 0
    self.procs = 0
    self.faults = {}
    self.sigs = set()
    self.nontrivial = set()
    self.probes = {}
    self.samples = []
    self.cases = 0
    self.scenarios = 0

  def probe(self, name, inc=1):
    self.probes[name] = self.probes.get(name, 0) + inc

  def as_dict(self):
    return {"runs": self.runs, "ref_runs": self.ref_runs, "steps": self.steps,
            "sim_ns": self.sim_ns, "procs": self.procs, "faults": self.faults,
            "sigs": sorted(self.sigs), "nontrivial": sorted(self.nontrivial),
            "probes": self.probes, "samples": self.samples,
            "cases": self.cases, "scenarios": self.scenarios}


def fault_label(fault):
  kind = fault["k"]
  if kind == "err":
    kind = "err:" + fault["e"]
  return "{}@{}".format(kind, fault.get("call", "?"))


class Ctx(object):
  """Per-case context."""

  def __init__(self, stats=None, keep_log=False):
    self.stats = stats or Stats()
    self.cache = {}
    self.keep_log = keep_log
    self.logs = []
    self.cpu = None   # overrides the limit of the processes (shrinking)

  def run(self, world, specs, faults=(), on_step=None, ref=False,
          max_calls=60000):
    if self.cpu is not None:
      specs = [dict(spec, cpu=self.cpu) for spec in specs]
    res = world.run(specs, faults, on_step, max_calls)
    st = self.stats
    if ref:
      st.ref_runs += 1
    else:
      st.runs += 1
    st.steps += res.steps
    st.sim_ns += res.sim_ns
    st.procs += len(specs)
    for fault in res.fired:
      label = fault_label(fault)
      st.faults[label] = st.faults.get(label, 0) + 1
    if not ref:
      sig = res.sig()
      st.sigs.add(sig)
      if res.fired or len(specs) > 1:
        st.nontrivial.add(sig)
    if self.keep_log:
      self.logs.append(("reference" if ref else "run", [
          {"tool": s["tool"], "argv": s["argv"], "cwd": s.get("cwd")}
          for s in specs], res.log(), [(p.how, p.code) for p in res.procs],
                        [p.stderr.decode("utf-8", "replace")[-1500:]
                         for p in res.procs]))
    for prc in res.procs:
      if "unsupported" in prc.notes:
        raise sim.HarnessError(
            "the code under test used a call the simulator does not model")
    return res

  def solo(self, fs, spec, seed=7):
    """A fault-free reference run of one process in a fresh copy of the world;
    cached.  -> (exit code, how, stdout, snapshot changes {path: entry})"""
    key = json.dumps([fs, {k: v for k, v in spec.items() if k != "func"}],
                     sort_keys=True)
    hit = self.cache.get(key)
    if hit is None:
      world = World(fs, seed)
      before = world.kern.snapshot()
      clean = dict(spec)
      for knob in ("blksize", "stdbuf", "readall", "slow", "start", "rngsalt",
                   "unbuffered"):
        clean.pop(knob, None)
      res = self.run(world, [clean], ref=True)
      prc = res.procs[0]
      after = world.kern.snapshot()
      hit = Solo(prc, before, after)
      self.cache[key] = hit
    return hit


class Solo(object):
  def __init__(self, prc, before, after):
    self.code = prc.code
    self.how = prc.how
    self.out = prc.stdout if prc.out is not None else None
    self.err = prc.stderr
    self.before = before
    self.after = after
    self.changes = diff(before, after)
    self.asked = prc.asked

  @property
  def ok(self):
    return self.how == "exit" and self.code == 0


def diff(before, after, ino=False):
  """path -> (old, new) of what differs (ignoring inode numbers)."""
  out = {}
  for path in sorted(set(before) | set(after)):
    old, new = before.get(path), after.get(path)
    cut = 4 if ino else 3
    if (old[:cut] if old else None) != (new[:cut] if new else None):
      out[path] = (old[:3] if old else None, new[:3] if new else None)
  return out


def brief(data, limit=120):
  if data is None:
    return "<absent>"
  if isinstance(data, str):
    return data if len(data) < limit else data[:limit] + "..."
  text = repr(bytes(data[:limit]))
  return "{} bytes {}{}".format(len(data), text, "..." if len(data) > limit else "")


def knobs(rng, spec):
  """Randomise tuning parameters of one simulated process (swarm style)."""
  spec["blksize"] = rng.choice([4096, 4096, 4096, 512, 64, 1024, 8192, 65536])
  spec["stdbuf"] = rng.choice([8192, 8192, 256, 1024])
  spec["readall"] = rng.choice([65536, 65536, 32, 511, 4096])
  if rng.random() < 0.3:
    spec["umask"] = rng.choice([0o022, 0o077, 0o002, 0o000, 0o027])
  spec["rngsalt"] = rng.randint(0, 10**6)
  if rng.random() < 0.25:
    spec["unbuffered"] = True
  return spec


# --------------------------------------------------------------- fault planning
# No ENOENT for what is there: a file may be looked for by opening it.
ERRNOS = {
    "open_r": ["EIO", "EACCES", "EMFILE", "ENFILE", "ESTALE",
               "ENOMEM"],
    "open_w": ["ENOSPC", "EACCES", "EROFS", "EDQUOT", "EMFILE", "EIO",
               "ENFILE", "EPERM"],
    "read": ["EIO", "ESTALE", "ENOMEM", "EISDIR", "EACCES"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "ENOMEM"],
    "close": ["EIO", "ENOSPC", "EDQUOT"],
    "fsync": ["EIO", "ENOSPC", "EDQUOT"],
    "rename": ["EACCES", "EPERM", "ENOSPC", "EIO", "EBUSY", "EDQUOT", "EROFS"],
    "chmod": ["EPERM", "EIO", "EROFS", "EACCES"],
    "unlink": ["EPERM", "EIO", "EBUSY", "EACCES"],
    "stat": ["EIO", "EACCES", "ESTALE", "ENOMEM"],
    "lseek": [], "dup": ["EMFILE"], "mkdir": ["ENOSPC", "EACCES"],
    "truncate": ["EIO", "ENOSPC"], "link": ["EPERM", "EMLINK", "ENOSPC"],
    "symlink": ["EPERM", "ENOSPC"], "utime": ["EPERM", "EIO"],
    "chown": ["EPERM"], "listdir": ["EIO", "EACCES"],
    "rmdir": ["EIO"], "pread": ["EIO"], "pwrite": ["ENOSPC", "EIO"],
}


# Conditions which last: from one call on, all of these fail
LASTING = [
    (["EROFS"], ["open_w", "rename", "chmod", "unlink", "mkdir", "link",
                 "symlink", "truncate"]),
    (["EMFILE", "ENFILE", "ENOMEM"], ["open_r", "open_w"]),
    (["ENOSPC", "EDQUOT"], ["open_w", "write", "fsync"]),
    (["EACCES", "EPERM"], ["open_w", "rename", "unlink"]),
    (["EBUSY"], ["rename", "unlink"]),
    (["EIO", "ESTALE"], ["read"]),
    (["EIO", "ESTALE", "EACCES"], ["open_r"]),
    (["EIO", "ENOSPC"], ["fsync"]),
    (["EIO", "EDQUOT"], ["close"]),
    (["EIO", "EBUSY"], ["rename"]),
    (["EIO", "EPERM"], ["chmod"]),
    (["EIO"], ["write", "fsync", "close", "rename", "unlink", "chmod"]),
]


def lasting(rng, calls, proc=0):
  """A fault which stays from some call on, or None."""
  errs, only = rng.choice(LASTING)
  hits = [c for c in calls if c.name in only]
  if not hits:
    return None
  return {"p": proc, "n": rng.choice([hits[0].n, rng.choice(hits).n]),
          "k": "err", "e": rng.choice(errs), "only": list(only), "rest": True}


class Call(object):
  """One trace entry, classified."""
  __slots__ = ("p", "n", "name", "path", "outcome", "cls")

  def __init__(self, entry):
    _, self.p, self.n, self.name, self.path, self.outcome, _, _ = entry
    self.cls = self.name


def calls_of(res):
  return [Call(t) for t in res.trace
          if t[3] not in ("exit", "hang", "died")]


def json_copy(obj):
  return json.loads(json.dumps(obj))


# -------------------------------------------------------------------- shrinking
def shrink_list(case, key):
  """Yield copies of case with elements of case[key] removed."""
  items = case.get(key) or []
  if len(items) > 1:
    half = json_copy(case)
    half[key] = items[:len(items) // 2]
    yield half
    half = json_copy(case)
    half[key] = items[len(items) // 2:]
    yield half
  for idx in range(len(items)):
    cand = json_copy(case)
    del cand[key][idx]
    yield cand


def shrink_text(text):
  """Yield shorter variants of a document."""
  lines = text.split("\n")
  if len(lines) > 3:
    yield "\n".join(lines[:len(lines) // 2]) + "\n"
    yield "\n".join(lines[len(lines) // 2:])
  if len(lines) > 1 and len(lines) < 30:
    for idx in range(len(lines)):
      yield "\n".join(lines[:idx] + lines[idx + 1:])
  for simple in ("set(a  b)\n",):
    if len(text) > len(simple):
      yield simple


def shrink_fs(case, key="fs"):
  """Drop or simplify file system entries."""
  items = case[key]
  for idx in range(len(items)):
    cand = json_copy(case)
    del cand[key][idx]
    yield cand
  for idx, item in enumerate(items):
    if item[0] == "f":
      for text in shrink_text(item[2]):
        cand = json_copy(case)
        cand[key][idx][2] = text
        yield cand
      if item[3] != 0o644:
        cand = json_copy(case)
        cand[key][idx][3] = 0o644
        yield cand


def shrink_knobs(case, spec):
  """spec: the process dict inside `case` (by reference in a copy)."""
  for knob in ("blksize", "stdbuf", "readall", "umask", "rngsalt", "slow",
               "unbuffered", "start", "nofile", "locale", "columns", "tty"):
    if knob in spec:
      yield knob


def merged_rng(*parts):
  return random.Random(h64(*parts))
