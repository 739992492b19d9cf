"""C03: nothing but the named files changes, and nothing is left behind."""
from .. import project, tools
from ..harness import Violation, brief, calls_of, json_copy, knobs, lasting
from ..sim import MUTATING, World
from . import c02, inplace

RULE = ("A case is a generated project with bystander files next to the named "
        "ones (backup, temporary and editor names, symlinks, hard links, other "
        "modes) and a command that writes: cmake-format -i, or -o of one of the "
        "tools. Scenarios repeat it with failing calls, interrupts and kills. "
        "The whole tree before and after is compared. Non-trivial: a fault "
        "fired; distinct: hash of the trace.")
CASES = 260
MODES = ["inplace"] * 7 + ["out-format", "out-lint", "out-annotate",
                           "out-genparsers"]


def gen(rng, tier):
  case = project.project(rng, nmin=1, nmax=rng.choice([1, 2, 3]), big=0.08,
                         dups=0.08, symlinks=0.25, hardlinks=0.15)
  case["mode"] = rng.choice(MODES)
  case["pick"] = tools.details(rng)
  if case["mode"] != "inplace":
    case["pick"]["out"], case["outpath"] = tools.pick_output(rng, case)
  case["knobs"] = knobs(rng, {})
  case["seed"] = rng.randint(0, 2**31)
  return case


def spec_of(case):
  spec = tools.command(case, case["mode"], case["args"], case["pick"])
  spec.update(case.get("knobs", {}))
  return spec


def variants(case, rng, ctx, tier):
  base = json_copy(case)
  base["faults"] = []
  yield base
  res = ctx.run(World(case["fs"], case["seed"]), [spec_of(case)], ref=True)
  calls = calls_of(res)
  late = c02.opened_at(calls, case["files"])
  mut = [c for c in calls if c.name in MUTATING or c.name in (
      "open_w", "fsync", "close")]
  if not calls:
    return
  for _ in range(9 if tier == "quick" else 30):
    sc = json_copy(case)
    sc["faults"] = []
    roll = rng.random()
    call = rng.choice(mut) if mut and rng.random() < 0.8 else rng.choice(calls)
    if roll < 0.25:
      sc["faults"] = [{"p": 0, "n": call.n, "k": rng.choice(
          ["kill_before", "kill_after", "kill_mid"]), "frac": 0.5}]
    elif roll < 0.45:
      ints = [c for c in calls if c.name in ("write", "fsync", "chmod", "close",
                                             "read", "rename", "stat")]
      if ints:
        call = rng.choice(ints)
        sc["faults"] = [{"p": 0, "n": call.n, "k": rng.choice(
            ["sigint_before", "sigint_after", "sigint_later"]),
                         "calls": int(1.5 ** rng.uniform(0, 20))}]
    elif roll < 0.53:
      fault = lasting(rng, calls)
      if fault is not None:
        sc["faults"].append(fault)
    else:
      for _k in range(rng.choice([1, 1, 2])):
        call = rng.choice(mut) if mut and rng.random() < 0.8 \
            else rng.choice(calls)
        fault = c02.plan_fault(rng, call, case, late)
        if fault is not None:
          sc["faults"].append(fault)
    if sc["faults"]:
      yield sc


def check(case, ctx):
  world = World(case["fs"], case["seed"])
  before = world.kern.snapshot()
  res = ctx.run(world, [spec_of(case)], case["faults"])
  after = world.kern.snapshot()
  prc = res.procs[0]
  log = res.log()
  targets = set(case["files"]) if case["mode"] == "inplace" \
      else {case["outpath"]}
  ended = prc.how == "exit"
  leaky = any(f.get("call") == "unlink" for f in res.fired)
  for path in sorted(set(before) | set(after)):
    old, new = before.get(path), after.get(path)
    if old is not None and new is None:
      return Violation("removed", "{} was removed by {}".format(
          path, case["mode"]), log)
    if old is None:
      if path in targets and case["mode"] != "inplace":
        if new[0] != "f":
          return Violation("kind", "{} is not a file".format(path), log)
        continue
      if not ended or leaky:
        ctx.stats.probe("left after a kill" if not ended
                        else "left after a failing unlink")
        continue
      return Violation("residue", "the run ended (status {}) and left {} {} "
                       "behind".format(prc.code, path, brief(new[2])), log)
    if old[0] != new[0]:
      return Violation("kind", "{} was a {} and is a {}".format(
          path, old[0], new[0]), log)
    if old[1] != new[1]:
      return Violation("mode", "the mode of {} changed from {:o} to {:o}".format(
          path, old[1], new[1]), log)
    if old[2] != new[2] and path not in targets:
      return Violation("collateral", "{} was not named but changed from {} to "
                       "{}".format(path, brief(old[2]), brief(new[2])), log)
  ctx.stats.probe("compared entries", len(after))
  return None


def shrinks(case):
  for cand in inplace.shrinks(case):
    yield cand
