"""Shared by the properties of cmake-format -i."""
from .. import project
from ..harness import Violation, brief, json_copy, shrink_fs, shrink_list
from ..sim import World

SKIP_CALLS = {"fstat", "isatty", "lseek", "getcwd", "umask", "clock", "yield_",
              "getfl", "getblocking", "sleep", "setblocking", "access",
              "readlink", "note"}


def spec_of(case, args=None):
  spec = {"tool": "format", "argv": project.argv(case, ["-i"], args),
          "cwd": case["cwd"]}
  spec.update(case.get("knobs", {}))
  return spec


def with_content(fs, path, data):
  out = []
  for item in fs:
    if item[0] == "f" and item[1] == path:
      item = [item[0], item[1], data.decode("latin-1")] + list(item[3:])
    out.append(item)
  return out


class Expect(object):
  """What fault-free runs make of every named file."""

  def __init__(self, case, ctx):
    self.files = {}          # path -> (orig, {allowed contents}, final, ok)
    self.all_ok = True
    self.solos = []
    world = None
    counts = {}
    for path in case["files"]:
      counts[path] = counts.get(path, 0) + 1
    from ..sim import build_kernel
    kern = build_kernel(case["fs"])
    for path, arg in zip(case["files"], case["args"]):
      if path in self.files:
        continue
      orig = kern.content(path)
      if orig is None:
        self.files[path] = (None, {None}, None, False)
        self.all_ok = False
        continue
      cur, allowed, good = orig, [orig], True
      # duplicates may be formatted repeatedly, and a crashed run may be redone
      for _ in range(counts[path] + case.get("redo", 0)):
        solo = ctx.solo(with_content(case["fs"], path, cur),
                        spec_of(case, [arg]))
        if not solo.ok:
          good = False
          break
        entry = solo.after.get(path)
        nxt = entry[2] if entry else None
        if nxt == cur:
          break
        cur = nxt
        allowed.append(cur)
      first = ctx.solo(case["fs"], spec_of(case, [arg]))
      self.solos.append(first)
      if not good:
        self.all_ok = False
      ent = first.after.get(path)
      self.files[path] = (orig, set(allowed),
                          (ent[2] if ent else None), good, allowed)

  def on_step(self):
    items = [(p, e[1]) for p, e in sorted(self.files.items())]

    def check(kern, _res):
      for path, allowed in items:
        got = kern.content(path)
        if got not in allowed:
          return (path, got)
      return None
    return check

  def describe(self, path, got):
    ent = self.files[path]
    return "{} holds {}; original {}; formatted {}".format(
        path, brief(got), brief(ent[0]), brief(ent[2]))


def shrinks(case):
  """Smaller variants of an in-place scenario."""
  for idx in range(len(case.get("faults", []))):
    cand = json_copy(case)
    del cand["faults"][idx]
    yield cand
  if len(case["files"]) > 1:
    for idx in range(len(case["files"])):
      cand = json_copy(case)
      for key in ("files", "names", "args"):
        del cand[key][idx]
      yield cand
      # the call numbers of the faults move with the dropped file
      for fault_idx in range(len(case.get("faults", []))):
        for delta in range(-44, 0):
          moved = json_copy(cand)
          if moved["faults"][fault_idx]["n"] + delta > 0:
            moved["faults"][fault_idx]["n"] += delta
            yield moved
  for key in ("options", "explicit"):
    if case.get(key):
      cand = json_copy(case)
      cand[key] = []
      yield cand
  if case.get("knobs"):
    for knob in list(case["knobs"]):
      cand = json_copy(case)
      del cand["knobs"][knob]
      yield cand
  for cand in shrink_fs(case):
    yield cand
