"""C16: ctest-to reports every test of the tree exactly once, or fails."""
from .. import ctest
from ..harness import ERRNOS, Violation, brief, calls_of, json_copy, knobs
from ..sim import World
from . import inplace

RULE = ("A case is a generated tree of CTestTestfile.cmake (properties, labels, "
        "cycles and repetitions of subdirs(), links, missing directories, the "
        "same name in several directories) whose tests are known. Scenarios "
        "repeat ctest-to under short reads, failing calls, stalls, closed pipes, "
        "interrupts, and with whole directories which cannot be accessed. Non-trivial: a fault fired; distinct: hash of the "
        "trace.")
CASES = 420


def gen(rng, tier):
  case = ctest.tree(rng)
  case["knobs"] = knobs(rng, {})
  case["seed"] = rng.randint(0, 2**31)
  case["faults"] = []
  return case


def variants(case, rng, ctx, tier):
  yield json_copy(case)
  res = ctx.run(World(case["fs"], case["seed"]), [ctest.spec_of(case)],
                ref=True)
  calls = [c for c in calls_of(res)
           if c.name in ("open_r", "read", "close", "write", "fstat")]
  calls += [c for c in calls_of(res) if c.name == "stat" and
            str(c.path).endswith("CTestTestfile.cmake")]
  for _ in range(7 if tier == "quick" else 30):
    sc = json_copy(case)
    sc["seed"] = rng.randint(0, 2**31)
    roll = rng.random()
    places = [f.rsplit("/", 1)[0] for f in case["files"]
              if f.rsplit("/", 1)[0] != case["root"]]
    if places and rng.random() < 0.2:
      # a whole directory cannot be accessed
      place = rng.choice(places)
      if rng.random() < 0.5:
        sc["locked"] = [place, rng.choice([0, 0o200, 0o600, 0o400])]
      else:
        sc["faults"] = [{"p": 0, "n": 1, "k": "err", "rest": True,
                         "under": place, "only": ["stat", "open_r", "listdir"],
                         "e": rng.choice(["EIO", "EACCES", "ESTALE"])}]
    elif roll < 0.2:
      sc["broken"] = rng.choice([0, 1, 50, 200, 1000, 5000])
    elif calls:
      for _k in range(rng.choice([1, 1, 2])):
        call = rng.choice(calls)
        kind = rng.choice(["err", "err", "err", "short", "stall", "nomem",
                           "sigint_before", "kill_before"])
        fault = {"p": 0, "n": call.n, "k": kind, "only": [call.name],
                 "on": call.path,
                 "frac": round(rng.random(), 2), "ns": 10**9}
        if kind == "err":
          if not ERRNOS.get(call.name):
            continue
          # what is not there may be skipped, what cannot be accessed must not
          fault["e"] = rng.choice(ERRNOS[call.name])
        sc["faults"].append(fault)
    yield sc


def check(case, ctx):
  spec = ctest.spec_of(case)
  if case.get("broken") is not None:
    spec["stdout"] = {"broken_after": case["broken"]}
  world = World(case["fs"], case["seed"])
  if case.get("locked"):
    world.kern.lookup(case["locked"][0]).mode = case["locked"][1]
    ctx.stats.probe("locked directories")
  res = ctx.run(world, [spec], case["faults"])
  prc = res.procs[0]
  log = res.log()
  err = prc.stderr.decode("utf-8", "replace")[-600:]
  harsh = [f for f in res.fired if f["k"] not in ("stall", "short")]
  if prc.how == "hang":
    return Violation("hang", "ctest-to does not end", log)
  if prc.how == "killed":
    if prc.stdout and not complete(case, prc.stdout):
      ctx.stats.probe("cut output")
    return None
  if prc.how != "exit":
    return Violation("noexit", "ended by {}".format(prc.how), log)
  if prc.code == 0:
    try:
      got = ctest.reported(case, prc.stdout)
    except ValueError as ex:
      return Violation("malformed", "status 0 with malformed output ({}): {}"
                       .format(ex, brief(prc.stdout)), log)
    want = ctest.canonical(ctest.expected(case), world.kern)
    got = ctest.canonical(got, world.kern)
    if got != want:
      return Violation("tests", "missing {}; too many {}".format(
          [t for t in want if t not in got][:3],
          [t for t in got if t not in want][:3] or
          "{} instead of {}".format(len(got), len(want))), log)
    ctx.stats.probe("complete lists")
    ctx.stats.probe("tests", len(want))
  elif not harsh and case.get("broken") is None and not case.get("locked"):
    return Violation("status", "status {} without a fault: {}".format(
        prc.code, err), log)
  return None


def complete(case, data):
  try:
    ctest.reported(case, data)
    return True
  except ValueError:
    return False


def shrinks(case):
  for idx in range(len(case["faults"])):
    cand = json_copy(case)
    del cand["faults"][idx]
    yield cand
  # tests and their lines
  for idx, item in enumerate(case["fs"]):
    if item[0] == "f":
      lines = item[2].split("\n")
      for num, line in enumerate(lines):
        if not line.strip():
          continue
        cand = json_copy(case)
        cand["fs"][idx][2] = "\n".join(lines[:num] + lines[num + 1:])
        here = item[1].rsplit("/", 1)[0]
        low = line.lower()
        if low.startswith("add_test("):
          name = line[9:].split(" ", 1)[0]
          if any(name in l and l.startswith("set_tests") for l in lines):
            continue
          cand["model"] = [m for m in cand["model"]
                           if not (m[0] == name and m[1] == here)]
        elif low.startswith("set_tests") or low.startswith("subdirs"):
          continue
        yield cand
  if case.get("knobs"):
    cand = json_copy(case)
    cand["knobs"] = {}
    yield cand
