"""C07: what a tool reports is complete, or the run fails; never altered."""
from .. import ctest, gen as G, project, tools
from ..harness import (ERRNOS, Violation, brief, calls_of, json_copy, knobs,
                       lasting)
from ..sim import World, b2s
from . import c02, inplace

RULE = ("A case is a command of any of the tools which produces output (on "
        "standard output to a pipe or a file, or to -o) over a generated "
        "project. Scenarios repeat it with a reader that goes away, a full "
        "device, failing or short writes, failing reads, kills and interrupts. "
        "The output of the fault-free run is the reference. Non-trivial: a "
        "fault fired or the pipe was cut; distinct: hash of the trace.")
CASES = 600
MODES = ["format", "format", "lint", "lint", "annotate", "genparsers",
         "dump-config", "dump-layout", "dump-parse", "dump-lex", "dump-markup",
         "stdin-format", "stdin-lint", "stdin-annotate", "stdin-genparsers",
         "out-format", "out-format", "out-lint", "out-annotate",
         "out-genparsers", "ctest"]
OUT = "/home/user/captured"


def gen(rng, tier):
  mode = rng.choice(MODES)
  if mode == "ctest":
    case = ctest.tree(rng)
    case["args"] = case["options"] = case["explicit"] = []
    case["names"] = []
  else:
    case = project.project(rng, nmin=1, nmax=rng.choice([1, 2, 3]), big=0.25,
                           bystanders=False)
  case["mode"] = mode
  case["pick"] = tools.details(rng)
  if mode.startswith("out-"):
    case["pick"]["out"], case["outpath"] = tools.pick_output(rng, case)
  if mode in ("out-format", "out-annotate"):
    case["args"] = case["args"][:1]
  case["stdin"] = b2s(G.doc_text(
      rng, lint=0.6 if mode.endswith("lint") else 0.0, uni=rng.random() < 0.2,
      big=rng.choice([None, None, 9000, 20000])).encode("utf-8"))
  if mode != "ctest" and rng.random() < 0.15:
    victim = rng.choice(case["files"])
    for item in case["fs"]:
      if item[0] == "f" and item[1] == victim:
        item[2] = rng.choice(G.BAD_DOCS)
  case["tofile"] = rng.random() < 0.25
  if case["tofile"]:
    case["fs"].append(["f", OUT, "", 0o644])
  case["knobs"] = knobs(rng, {})
  case["seed"] = rng.randint(0, 2**31)
  case["faults"] = []
  return case


def spec_of(case):
  if case["mode"] == "ctest":
    spec = ctest.spec_of(case)
  else:
    spec = tools.command(case, case["mode"], case["args"], case["pick"],
                         case["stdin"])
    spec.update(case.get("knobs", {}))
  if case.get("tofile"):
    spec["stdout"] = {"path": OUT}
  elif case.get("broken") is not None:
    spec["stdout"] = {"broken_after": case["broken"]}
  return spec


def output(case, world_or_solo, prc=None):
  """What the user gets to see."""
  if prc is None:                    # a reference
    if case["mode"].startswith("out-"):
      ent = world_or_solo.after.get(case["outpath"])
      return ent[2] if ent else None
    if case.get("tofile"):
      return world_or_solo.after[OUT][2]
    return world_or_solo.out
  if case["mode"].startswith("out-"):
    return world_or_solo.kern.content(case["outpath"])
  if case.get("tofile"):
    return world_or_solo.kern.content(OUT)
  return prc.stdout


def variants(case, rng, ctx, tier):
  yield json_copy(case)
  res = ctx.run(World(case["fs"], case["seed"]), [spec_of(case)], ref=True)
  calls = calls_of(res)
  late = c02.opened_at(calls, case["files"])
  writes = [c for c in calls if c.name == "write" and c.path != "<stderr>"]
  closes = [c for c in calls if c.name in ("close", "fsync", "dup", "open_w")]
  total = sum(c.outcome for c in writes if isinstance(c.outcome, int))
  for _ in range(8 if tier == "quick" else 30):
    sc = json_copy(case)
    roll = rng.random()
    if roll < 0.25 and not case["tofile"] and \
        not case["mode"].startswith("out-"):
      sc["broken"] = rng.choice([0, 0, 1, rng.randint(0, max(1, total)),
                                 max(0, total - 1), total])
    elif roll > 0.9:
      fault = lasting(rng, calls)
      if fault is not None:
        sc["faults"].append(fault)
    else:
      for _k in range(rng.choice([1, 1, 1, 2])):
        if writes and roll < 0.75:
          call = rng.choice(writes) if rng.random() < 0.7 else writes[-1]
        elif closes and roll < 0.85:
          call = rng.choice(closes)
        elif calls:
          call = rng.choice(calls)
        else:
          continue
        fault = c02.plan_fault(rng, call, case, late)
        if rng.random() < 0.15:
          fault = {"p": 0, "n": call.n, "k": rng.choice(
              ["kill_before", "kill_after", "kill_mid", "sigint_before",
               "sigint_after", "sigint_later"]), "frac": 0.5,
                   "calls": int(1.5 ** rng.uniform(0, 20))}
        if fault is not None:
          if fault["k"] == "full":
            fault["room"] = rng.choice([0, 1, 100, 4096])
          if fault.pop("partial", None) is not None:
            # as POSIX has it: a partial transfer first, then the error
            sc["faults"].append({"p": 0, "n": fault["n"], "k": "short",
                                 "frac": round(rng.random(), 3)})
            fault["n"] += 1
            fault["only"] = ["write"]
          sc["faults"].append(fault)
    yield sc


def check(case, ctx):
  clean = json_copy(case)
  clean.pop("broken", None)
  ref = ctx.solo(case["fs"], spec_of(clean))
  want = output(case, ref)
  world = World(case["fs"], case["seed"])
  existing = world.kern.content(case["outpath"]) if "outpath" in case else None
  res = ctx.run(world, [spec_of(case)], case["faults"])
  prc = res.procs[0]
  log = res.log()
  got = output(case, world, prc)
  err = prc.stderr.decode("utf-8", "replace")[-500:]
  mode = case["mode"]
  if case.get("broken") is not None:
    ctx.stats.probe("closed pipes")
  if prc.how == "hang":
    return Violation("hang", "{} does not end".format(mode), log)
  # success as seen by a script
  good = (0, 1) if "lint" in mode else (0,)
  harsh = [f for f in res.fired if f["k"] not in ("stall", "short")]
  if prc.how == "exit" and prc.code in good:
    complete = got == want
    # status 1 of cmake-lint also stands for what it could not read
    excused = "lint" in mode and prc.code == 1 and any(
        f.get("call") in ("open_r", "read", "close") and
        f.get("path") not in ("<stdout>", OUT, case["pick"].get("out"))
        for f in harsh)
    # so it does where even the fault-free run reports an error
    if "lint" in mode and prc.code == 1 and ref.code == 1 and ref.err.strip():
      excused = True
    if ref.how == "exit" and ref.code in good:
      if not complete and not excused:
        return Violation("incomplete", "{} ends with status {} but gives {} "
                         "instead of {}: {}".format(
                             mode, prc.code, brief(got), brief(want), err), log)
      if complete and prc.code != ref.code and not harsh and \
          case.get("broken") is None:
        return Violation("status", "{} ends with {} instead of {}".format(
            mode, prc.code, ref.code), log)
    elif prc.code == 0:
      return Violation("status", "{} ends with status 0 where the fault-free "
                       "run gives {}".format(mode, ref.code), log)
    ctx.stats.probe("complete")
  else:
    if not harsh and case.get("broken") is None and \
        (prc.how, prc.code) != (ref.how, ref.code):
      return Violation("status", "{} ends with {} {} instead of {} {}: {}".format(
          mode, prc.how, prc.code, ref.how, ref.code, err), log)
    ctx.stats.probe("failed")
  # never something else than the beginning of the right output
  if mode.startswith("out-"):
    if got is not None and got != existing and want is not None and \
        not prefix(got, want) and not excusable(mode, harsh):
      return Violation("altered", "{} leaves {}, which is neither what was "
                       "there nor a part of {}".format(
                           mode, brief(got), brief(want)), log)
    if mode == "out-format" and prc.how == "exit" and prc.code == 1 and \
        not ref.ok and got != existing:
      return Violation("clobbered", "the input cannot be formatted, but {} was "
                       "overwritten: {} -> {}".format(
                           case["outpath"], brief(existing), brief(got)), log)
  elif want is not None and not prefix(got, want) and \
      not excusable(mode, harsh):
    return Violation("altered", "{} writes {}, which is not the beginning of "
                     "{}".format(mode, brief(got), brief(want)), log)
  return None


def prefix(got, want):
  return want.startswith(got)


def excusable(mode, harsh):
  """These go on with the other files when one cannot be read."""
  return ("lint" in mode or "genparsers" in mode) and any(
      f.get("call") in ("open_r", "read", "close") for f in harsh)


def shrinks(case):
  if case.get("tofile"):
    cand = json_copy(case)
    cand["tofile"] = False
    yield cand
  if case["mode"] == "ctest":
    for idx in range(len(case["faults"])):
      cand = json_copy(case)
      del cand["faults"][idx]
      yield cand
    return
  for cand in inplace.shrinks(case):
    yield cand
