"""C01: in-place formatting is atomic under kill and power loss."""
import random

from .. import project
from ..harness import Violation, calls_of, json_copy, knobs
from ..sim import World, MUTATING
from . import inplace

RULE = ("A case is a generated project (files, encodings, modes, symlinks, "
        "bystanders, config files, command line options). A fault-free run of "
        "cmake-format -i records its system calls; each scenario repeats the "
        "run with a kill or power loss placed before, after or in the middle "
        "of one of these calls (biased to those that change the file system), "
        "sometimes preceded by a failing call, then re-runs the command. "
        "Non-trivial: the crash fired; distinct: by hash of the trace.")

MODELLED = {"kill": 1, "power": 1}


def gen(rng, tier):
  case = project.project(rng, nmin=1, nmax=rng.choice([1, 2, 3, 4]),
                         big=0.12, dups=0.08)
  case["knobs"] = knobs(rng, {})
  case["redo"] = 3
  case["seed"] = rng.randint(0, 2**31)
  return case


def variants(case, rng, ctx, tier):
  base = json_copy(case)
  base["faults"] = []
  yield base
  world = World(case["fs"], case["seed"])
  res = ctx.run(world, [inplace.spec_of(case)], ref=True)
  calls = calls_of(res)
  if not calls:
    return
  mut = [c for c in calls if c.name in MUTATING or c.name in (
      "open_w", "fsync", "close")]
  count = 10 if tier == "quick" else 40
  for _ in range(count):
    sc = json_copy(case)
    call = rng.choice(mut) if mut and rng.random() < 0.85 else rng.choice(calls)
    power = rng.random() < 0.5
    word = "power" if power else "kill"
    where = rng.choice(["before", "after", "after", "mid"])
    if where == "mid" and call.name not in ("write", "pwrite"):
      where = "after"
    fault = {"p": 0, "n": call.n, "k": word + "_" + where,
             "frac": round(rng.random(), 3), "seed": rng.randint(0, 10**9)}
    sc["faults"] = [fault]
    roll = rng.random()
    if roll < 0.2 and mut:
      # an error first, then the crash in whatever handles it
      first = rng.choice(mut)
      sc["faults"] = [
          {"p": 0, "n": first.n, "k": "err",
           "e": rng.choice(["ENOSPC", "EIO", "EPERM", "EBUSY"])},
          dict(fault, n=first.n + rng.randint(1, 12))]
    elif roll < 0.3:
      sc["faults"] = []
      sc["late_power"] = rng.randint(0, 10**9)
    if rng.random() < 0.3:
      sc["samepid"] = True
    if rng.random() < 0.25:
      # the recovery run crashes as well
      again = rng.choice(mut or calls)
      sc["faults2"] = [{"p": 0, "n": again.n,
                        "k": rng.choice(["kill_after", "power_after",
                                         "kill_before", "power_before"]),
                        "seed": rng.randint(0, 10**9)}]
    yield sc


def check(case, ctx):
  exp = inplace.Expect(case, ctx)
  world = World(case["fs"], case["seed"])
  kern = world.kern
  watch = exp.on_step()
  spec = inplace.spec_of(case)
  if case.get("samepid"):
    spec["pid"] = 4242
  phases = [("run", case.get("faults", []))]
  if case.get("faults2"):
    phases.append(("recovery", case["faults2"]))
  log = []
  crashed = False
  for name, faults in phases:
    res = ctx.run(world, [spec], faults, on_step=watch)
    log += ["-- " + name] + res.log()
    prc = res.procs[0]
    if prc.how in ("killed", "power"):
      crashed = True
      ctx.stats.probe("crashed runs")
    if res.invariant:
      path, got = res.invariant
      return Violation("torn", "during the {}: {}".format(
          name, exp.describe(path, got)), log)
    if case.get("late_power") is not None and name == "run":
      kern.power_loss(random.Random(case["late_power"]))
      crashed = True
      ctx.stats.probe("power loss after the end")
      bad = watch(kern, None)
      if bad:
        return Violation("torn", "after a power loss following the {}: {}".format(
            name, exp.describe(*bad)), log)
    if prc.how == "hang":
      return Violation("hang", "the run did not end", log)
  # what was interrupted can be repeated, and then completes
  if crashed and exp.all_ok:
    res = ctx.run(world, [spec], (), on_step=watch)
    log += ["-- final run"] + res.log()
    prc = res.procs[0]
    if res.invariant:
      return Violation("torn", "during the final run: " +
                       exp.describe(*res.invariant), log)
    if prc.how != "exit" or prc.code != 0:
      return Violation(
          "norecover", "after the crash the same command fails: exit {} {}: {}"
          .format(prc.how, prc.code, prc.stderr.decode("utf-8", "replace")[-600:]),
          log)
    for path, ent in sorted(exp.files.items()):
      got = kern.content(path)
      if got == ent[0] and ent[2] != ent[0]:
        return Violation("norecover", "after the crash and a complete run " +
                         exp.describe(path, got), log)
    ctx.stats.probe("recovered")
  return None


shrinks = inplace.shrinks
