"""C10: the exit status of a command with several files accounts for all."""
import os
import re

from ..harness import Violation, json_copy
from ..sim import World, b2s
from . import batch

RULE = ("A case is a command of one of the tools with two to seven files, of which "
        "some fail (malformed, missing, unreadable, undecodable, not formatted, "
        "with findings, with a broken configuration, without a valid layout), "
        "or of hundreds that fail. "
        "Scenarios permute them and make one unreadable by a failing call. The "
        "reference is one command per file. Non-trivial: a fault fired; distinct: "
        "hash of the trace.")
CASES = 420
MODES = ["inplace", "format", "check", "check", "check", "lint", "lint",
         "annotate", "genparsers", "genparsers"]
BLANK = b" \t\r\n\0\xef\xbb\xbf\xff\xfe"
STABLE = ["", "\n", "# only a comment\n", "set(a b)\n", "message(STATUS)\n"]


def gen(rng, tier):
  case = batch.gen(rng, tier)
  case["mode"] = rng.choice(MODES)
  # a mixture of those which pass and those which do not is what matters
  for item in case["fs"]:
    if item[0] == "f" and item[1] in case["files"] and rng.random() < 0.45 and \
        len(item[2]) and "cmake-format" not in item[1]:
      item[2] = rng.choice(STABLE)
  if rng.random() < 0.2:
    # one which cannot be decoded, at any place in it
    mine = [i for i in case["fs"] if i[0] == "f" and i[1] in case["files"]]
    if mine:
      item = rng.choice(mine)
      cut = rng.choice([0, len(item[2]), rng.randint(0, len(item[2]))])
      item[2] = item[2][:cut] + "\xff\xfe\xfd" + item[2][cut:]
  if case["mode"] in ("format", "inplace", "check") and rng.random() < 0.12:
    # one whose text the output encoding does not have
    mine = [i for i in case["fs"] if i[0] == "f" and i[1] in case["files"]]
    if mine:
      item = rng.choice(mine)
      cut = item[2].rfind("\n", 0, rng.randint(0, len(item[2]))) + 1
      item[2] = "{}# {}\n{}".format(item[2][:cut], b2s(rng.choice(
          ["\u20ac", "\u4e2d", "\u00e4\u03a9"]).encode("utf-8")), item[2][cut:])
      case["options"] = case["options"] + [
          "--output-encoding", rng.choice(["ascii", "latin-1"])]
  if rng.random() < 0.025:
    crowd(rng, case)
  return case


def crowd(rng, case):
  """So many of the same that a sum of them does not fit an exit status."""
  case["mode"] = rng.choice(["check", "check", "lint", "genparsers"])
  root = case["fs"][0][1]
  place = root + "/crowd"
  case["fs"].append(["d", place, None, 0o755])
  name = place + "/one.cmake"
  if case["mode"] != "genparsers":
    case["fs"].append(["f", name, rng.choice(["set(a    b)\n", "set(a  b)  \n"]),
                       0o644])
  count = rng.choice([256, 256, 512, 128, 257])
  if rng.random() < 0.7 or case["mode"] == "genparsers":
    for key in ("args", "files", "names"):
      case[key] = []
  for key in ("args", "files", "names"):
    case[key] += [name] * count
  case["crowd"] = count


def variants(case, rng, ctx, tier):
  if case.get("crowd"):
    yield json_copy(case)
    return
  for sc in batch.variants(case, rng, ctx, tier):
    yield sc


def shrinks(case):
  if case.get("crowd"):
    # one by one it takes too long
    size = len(case["args"])
    for cut in (size // 2, size // 4, 16, 1):
      for keep in (slice(cut, None), slice(None, size - cut)):
        cand = json_copy(case)
        for key in ("args", "files", "names"):
          cand[key] = cand[key][keep]
        yield cand
    return
  for cand in batch.shrinks(case):
    yield cand


def elsewhere(case, one):
  """Whether its own command complains about another file, a configuration."""
  err = one.err.decode("utf-8", "replace")
  return any(item[0] == "f" and item[1] not in case["files"] and
             os.path.basename(item[1]) in err for item in case["fs"])


def switched_off(case):
  """Whether some configuration may say that nothing is to be written."""
  return any("disable" in str(opt) for opt in case["options"]) or any(
      item[0] == "f" and item[1] not in case["files"] and
      re.search(r"disable\b", item[2]) for item in case["fs"])


def check(case, ctx):
  mode = case["mode"]
  world = World(case["fs"], case["seed"])
  spec = batch.spec_of(case)
  spec.update(case["knobs"])
  res = ctx.run(world, [spec], case["faults"])
  prc = res.procs[0]
  log = res.log()
  err = prc.stderr.decode("utf-8", "replace")
  if prc.how != "exit":
    return Violation("noexit", "ended by {}".format(prc.how), log)
  lost = batch.lost_of(case, res)
  ones, _ = batch.sequence(case, ctx, lost)
  bad = [one for one in ones if not one.ok]
  if bool(bad) != (prc.code != 0):
    return Violation("status", "{} of {}: status {}, but on their own they give "
                     "{}: {}".format(
                         mode, [o.arg for o in ones], prc.code,
                         [o.code if not o.lost else "unreadable" for o in ones],
                         err[-400:]), log)
  ctx.stats.probe("some fail" if bad else "none fails")
  if bad and not err.strip() and mode != "lint":
    return Violation("silent", "status {} without a message".format(prc.code),
                     log)
  if mode == "format":
    snap = world.kern.snapshot()
    for one in ones:
      ent = snap.get(one.path)
      if one.ok and not one.out and not switched_off(case) and ent and isinstance(ent[2], bytes) and           ent[2].strip(BLANK):
        return Violation("swallowed", "status 0 and no output at all for {}, "
                         "which is not empty: {}".format(
                             one.arg, one.err[-400:].decode("utf-8", "replace")),
                         log)
  stop = min([i for i, one in enumerate(ones) if one.hard] + [len(ones)])
  if mode == "check":
    # each of those which are not formatted is named, up to one which ends it
    for one in ones[:stop]:
      if not one.ok and one.arg not in err:
        return Violation("unnamed", "--check does not name {} (it names: "
                         "{})".format(one.arg, err[-400:]), log)
      if one.ok and any(line.endswith(": " + one.arg)
                        for line in err.splitlines()) and \
          not any(o.arg.endswith(one.arg) and not o.ok for o in ones):
        return Violation("named", "--check names {}, which is formatted: "
                         "{}".format(one.arg, err[-400:]), log)
  if mode in batch.GO_ON:
    # and each of those which cannot be opened
    for one in ones[:stop]:
      # (one whose configuration is broken may not get as far)
      if not one.ok and batch.readable(case, one) is False and \
          one.arg not in err and (one.lost or not elsewhere(case, one)):
        return Violation("unnamed", "{} does not say that {} cannot be read: "
                         "{}".format(mode, one.arg, err[-400:]), log)
  return None
