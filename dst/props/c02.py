"""C02: cmake-format -i whose system calls fail is all-or-nothing per file and
never reports success it did not achieve."""
from .. import project
from ..harness import ERRNOS, Violation, calls_of, json_copy, knobs, lasting
from ..sim import MUTATING, World
from . import inplace

RULE = ("A case is a generated project and a cmake-format -i command over it. "
        "A fault-free run records its system calls; each scenario repeats the "
        "run with one to three of these calls failing (errno, short or partial "
        "transfer, full device, failing allocation, stall), biased to those "
        "that write. Non-trivial: a fault fired; distinct: hash of the trace.")
CASES = 230


def gen(rng, tier):
  case = project.project(rng, nmin=1, nmax=rng.choice([1, 2, 2, 3, 5]),
                         big=0.15, dups=0.08)
  case["knobs"] = knobs(rng, {})
  if rng.random() < 0.06:
    case["knobs"]["nofile"] = rng.choice([6, 7, 8])
  case["seed"] = rng.randint(0, 2**31)
  return case


def plan_fault(rng, call, case, late):
  """A fault bound to the kind of call it was planned for, so that shrinking
  cannot turn it into one that is out of scope."""
  fault = plan_fault_(rng, call, case, late)
  if fault is not None:
    fault["only"] = [call.name]
    if call.name in ("stat", "access"):
      fault["on"] = call.path
  return fault


def plan_fault_(rng, call, case, late):
  """A fault for one call of the baseline, or None if it is out of scope."""
  name = call.name
  roll = rng.random()
  if name in ("stat", "access"):
    # what decides whether a config file exists is not in scope (os.path.exists
    # cannot tell an error from absence), nor is the resolution of symlinks
    if call.path not in case["files"] or call.path not in case["names"] or \
        call.n <= late.get(call.path, 1 << 30):
      return None
  if name in ("readlink", "getcwd", "fstat", "isatty", "lseek", "listdir",
              "getfl", "clock"):
    return None
  if roll < 0.05:
    return {"p": 0, "n": call.n, "k": "stall",
            "ns": rng.choice([10**6, 10**9, 10**11])}
  if roll < 0.1 and name in ("open_r", "open_w", "read", "write", "rename",
                             "fsync", "chmod"):
    return {"p": 0, "n": call.n, "k": "nomem"}
  if name in ("write", "read") and roll < 0.3:
    return {"p": 0, "n": call.n, "k": "short",
            "frac": rng.choice([0.0, 0.01, 0.5, 0.99, round(rng.random(), 3)])}
  if name in MUTATING and roll < 0.4 or name == "open_w" and roll < 0.25:
    return {"p": 0, "n": call.n, "k": "full",
            "room": rng.choice([0, 0, 1, 10, 100, 1000, 5000])}
  errs = ERRNOS.get(name)
  if not errs:
    return None
  fault = {"p": 0, "n": call.n, "k": "err", "e": rng.choice(errs)}
  if name == "write" and rng.random() < 0.5:
    fault["partial"] = round(rng.random(), 3)
  return fault


def opened_at(calls, files):
  """path -> number of the call which opened it for reading"""
  out = {}
  for call in calls:
    if call.name == "open_r" and call.path in files and call.path not in out:
      out[call.path] = call.n
  return out


def variants(case, rng, ctx, tier):
  base = json_copy(case)
  base["faults"] = []
  yield base
  world = World(case["fs"], case["seed"])
  res = ctx.run(world, [inplace.spec_of(case)], ref=True)
  calls = calls_of(res)
  late = opened_at(calls, case["files"])
  mut = [c for c in calls if c.name in MUTATING or c.name in (
      "open_w", "fsync", "close")]
  io_calls = [c for c in calls if c.name in ("open_r", "read", "close")]
  count = 12 if tier == "quick" else 40
  if not calls:
    return
  for _ in range(count):
    sc = json_copy(case)
    sc["faults"] = []
    if rng.random() < 0.15:
      fault = lasting(rng, calls)
      if fault is not None:
        sc["faults"].append(fault)
        yield sc
        continue
    for _k in range(rng.choice([1, 1, 1, 2, 2, 3])):
      for _try in range(10):
        roll = rng.random()
        pool = mut if mut and roll < 0.7 else (
            io_calls if io_calls and roll < 0.92 else calls)
        call = rng.choice(pool)
        fault = plan_fault(rng, call, case, late)
        if fault is None:
          continue
        if _k and rng.random() < 0.5:
          # in the clean-up after the first one
          fault = dict(fault, n=sc["faults"][-1]["n"] + rng.randint(1, 4))
          if fault["k"] == "err":
            # which call this hits is not known in advance: only failures
            # that cannot be mistaken for the absence of a file, later than
            # the opening of all the configuration
            fault["only"] = ["write", "close", "fsync", "unlink", "rename",
                             "chmod", "open_w"]
        sc["faults"].append(fault)
        break
    if not sc["faults"]:
      continue
    yield sc


def check(case, ctx):
  exp = inplace.Expect(case, ctx)
  world = World(case["fs"], case["seed"])
  watch = exp.on_step()
  res = ctx.run(world, [inplace.spec_of(case)], case["faults"], on_step=watch)
  prc = res.procs[0]
  log = res.log()
  if res.invariant:
    return Violation("torn", exp.describe(*res.invariant), log)
  err = prc.stderr.decode("utf-8", "replace")[-600:]
  if prc.how != "exit":
    return Violation("noexit", "the run ended by {} {}".format(
        prc.how, prc.code), log)
  if prc.code == 0:
    if not exp.all_ok:
      return Violation("exit0", "exit status 0 although a file cannot be "
                       "formatted on its own", log)
    for path, ent in sorted(exp.files.items()):
      got = world.kern.content(path)
      if got == ent[0] and ent[2] != ent[0]:
        return Violation("exit0", "exit status 0, but {} (stderr: {})".format(
            exp.describe(path, got), err), log)
    if res.fired:
      ctx.stats.probe("tolerated")
  else:
    harsh = [f for f in res.fired if f["k"] not in ("stall", "short")]
    if not harsh and exp.all_ok and not case["knobs"].get("nofile"):
      return Violation("spurious", "exit status {} without a fault: {}".format(
          prc.code, err), log)
    ctx.stats.probe("failed")
    if not prc.stderr and "<stderr>" not in [f["path"] for f in res.fired]:
      return Violation("silent", "exit status {} without any message".format(
          prc.code), log)
    final = [p for p, e in exp.files.items()
             if world.kern.content(p) != e[0]]
    if final:
      ctx.stats.probe("partial batch")
  return None


shrinks = inplace.shrinks
