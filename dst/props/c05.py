"""C05: what is not asked to write does not write."""
from .. import project, tools, gen as G
from ..harness import (ERRNOS, Violation, brief, calls_of, json_copy, knobs,
                       lasting)
from ..sim import World, b2s, h64
from . import c02, inplace

RULE = ("A case is a generated project (stable and unstable files, valid and "
        "invalid) and two or three commands which only report: stdout, --check, "
        "--dump, --dump-config, lint, annotate, genparsers, from files or from "
        "standard input. Scenarios repeat them with failing calls, kills, "
        "interrupts, closed pipes, and on a read-only file system. The tree is "
        "compared (content, modes, inodes, times) after every call which may "
        "change it. Non-trivial: a fault fired; distinct: hash of the trace.")
CASES = 200


def gen(rng, tier):
  case = project.project(rng, nmin=1, nmax=3, big=0.06, symlinks=0.2, dups=0.1)
  if rng.random() < 0.2:
    for item in case["fs"]:
      if item[0] == "f" and item[1] in case["files"]:
        item[2] = rng.choice(G.BAD_DOCS)
        break
  case["pick"] = tools.details(rng)
  case["cmds"] = [rng.choice(tools.READONLY)
                  for _ in range(rng.choice([1, 2, 3]))]
  case["stdin"] = b2s(G.doc_text(rng, uni=False).encode("utf-8"))
  case["knobs"] = knobs(rng, {})
  case["seed"] = rng.randint(0, 2**31)
  case["readonly"] = False
  case["faults"] = []
  return case


def specs_of(case):
  for mode in case["cmds"]:
    spec = tools.command(case, mode, case["args"], case["pick"], case["stdin"])
    spec.update(case.get("knobs", {}))
    if case.get("broken") is not None:
      spec["stdout"] = {"broken_after": case["broken"]}
    yield spec


def variants(case, rng, ctx, tier):
  yield json_copy(case)
  sc = json_copy(case)
  sc["readonly"] = True
  yield sc
  for _ in range(7 if tier == "quick" else 25):
    sc = json_copy(case)
    sc["cmds"] = [rng.choice(case["cmds"])]
    res = ctx.run(World(case["fs"], case["seed"]), list(specs_of(sc)), ref=True)
    calls = calls_of(res)
    roll = rng.random()
    if not calls:
      continue
    if roll < 0.15:
      sc["broken"] = rng.choice([0, 1, 100, 5000])
    elif roll < 0.25:
      fault = lasting(rng, calls)
      if fault is not None:
        sc["faults"].append(fault)
    else:
      for _k in range(rng.choice([1, 1, 2])):
        call = rng.choice(calls)
        errs = ERRNOS.get(call.name)
        kinds = ["kill_before", "kill_after", "sigint_before", "nomem",
                 "sigint_later"]
        if errs and rng.random() < 0.6:
          sc["faults"].append({"p": 0, "n": call.n, "k": "err",
                               "e": rng.choice(errs)})
        else:
          sc["faults"].append({"p": 0, "n": call.n, "k": rng.choice(kinds),
                               "calls": int(1.5 ** rng.uniform(0, 20))})
    yield sc


def state(kern, scratch=False):
  """A copy of the input in /tmp would be all right, while the run lasts."""
  out = {}
  for path, ent in kern.snapshot().items():
    if path.startswith(("/tmp", "/dev/shm")) and not scratch:
      continue
    node = kern.lookup(path, follow=False)
    timed = node.kind != "l" and path not in ("/tmp", "/dev/shm")
    out[path] = ent + (node.mtime if timed else 0, node.uid)
  return out


def changed(before, after):
  for path in sorted(set(before) | set(after)):
    old, new = before.get(path), after.get(path)
    if old == new:
      continue
    if old is None:
      return "{} was created ({})".format(path, brief(new[2]))
    if new is None:
      return "{} was removed".format(path)
    if old[2] != new[2]:
      return "{} changed from {} to {}".format(path, brief(old[2]),
                                               brief(new[2]))
    what = [name for name, a, b in zip(
        ("kind", "mode", "content", "inode", "mtime", "owner"), old, new)
            if a != b]
    return "{}: {} changed".format(path, ", ".join(what))
  return None


def check(case, ctx):
  world = World(case["fs"], case["seed"])
  kern = world.kern
  for node in kern.inodes.values():
    # times that a float cannot hold, and whole seconds
    for key in ("mtime", "atime"):
      setattr(node, key, getattr(node, key) + (0, 123456789)[
          h64("odd", case["seed"]) % 2])
  before = state(kern)
  whole = state(kern, True)
  log = []

  def watch(kern, _res):
    return changed(before, state(kern))

  for mode, spec in zip(case["cmds"], specs_of(case)):
    want = None
    if case["readonly"]:
      want = ctx.solo(case["fs"], spec)
      kern.readonly.add(1)
    res = ctx.run(world, [spec], case["faults"], on_step=watch)
    log += ["-- " + mode] + res.log()
    if res.invariant:
      return Violation("wrote", "{} (it only reports): {}".format(
          mode, res.invariant), log)
    bad = changed(before, state(kern))
    if bad:
      return Violation("wrote", "{} (it only reports): {}".format(mode, bad),
                       log)
    prc = res.procs[0]
    if prc.how == "exit" and not any(
        f.get("call") == "unlink" for f in res.fired):
      bad = changed(whole, state(kern, True))
      if bad:
        return Violation("residue", "{} (it only reports) ended with status {}: "
                         "{}".format(mode, prc.code, bad), log)
    if want is not None and (prc.how, prc.code, prc.stdout) != (
        want.how, want.code, want.out):
      return Violation("readonly", "{} on a read-only file system gives status "
                       "{} and {}; elsewhere {} and {}: {}".format(
                           mode, prc.code, brief(prc.stdout), want.code,
                           brief(want.out),
                           prc.stderr[-400:].decode("utf-8", "replace")), log)
    ctx.stats.probe("mode " + mode)
  return None


def shrinks(case):
  if len(case["cmds"]) > 1:
    for idx in range(len(case["cmds"])):
      cand = json_copy(case)
      del cand["cmds"][idx]
      yield cand
  for cand in inplace.shrinks(case):
    yield cand
