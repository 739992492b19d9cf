"""C08: how input is delivered does not matter; what cannot be read fails."""
import os

from .. import gen as G, project, tools
from ..harness import (ERRNOS, Violation, brief, calls_of, json_copy, knobs)
from ..sim import World, b2s
from . import inplace

RULE = ("A case is one command of any of the tools over files, a pipe or a file "
        "on standard input (multi-byte characters, CRLF, byte-order marks, "
        "sizes around the buffer sizes). Scenarios deliver the same bytes in "
        "other portions (short reads, other block sizes, a slow writer) and "
        "must give the identical result, or fail one of the reads and must "
        "report it and change nothing. Non-trivial: a fault fired; distinct: "
        "hash of the trace.")
CASES = 280
MODES = ["format", "check", "inplace", "inplace", "lint", "annotate",
         "genparsers", "stdin-format", "stdin-format", "stdin-lint",
         "stdin-annotate", "stdin-genparsers", "stdin-check", "dump-lex",
         "out-format"]


def gen(rng, tier):
  mode = rng.choice(MODES)
  case = project.project(rng, nmin=1, nmax=rng.choice([1, 1, 2]), big=0.35,
                         bystanders=False, encodings=0.35, configs=0.5)
  case["mode"] = mode
  case["pick"] = tools.details(rng)
  if mode == "out-format":
    case["pick"]["out"], case["outpath"] = tools.pick_output(rng, case)
    case["args"] = case["args"][:1]
  enc = "utf-8"
  if "--input-encoding" in case["options"]:
    enc = case["options"][case["options"].index("--input-encoding") + 1]
  if mode == "stdin-genparsers":
    enc = "utf-8"
  text = G.doc_text(rng, uni=rng.random() < 0.6,
                    big=rng.choice([None, None, 4090, 8190, 20000]))
  data = text.encode(enc, "replace")
  if rng.random() < 0.2:
    # not valid in its encoding
    pos = rng.randint(0, len(data))
    data = data[:pos] + rng.choice([b"\xff", b"\x80", b"\xc3", b"\xe2\x82",
                                    b"\xed\xa0\x80", b"\xf5"]) + data[pos:]
  case["stdin"] = b2s(data)
  case["seed"] = rng.randint(0, 2**31)
  case["faults"] = []
  case["stdinfile"] = mode.startswith("stdin") and rng.random() < 0.3
  if case["stdinfile"]:
    case["fs"].append(["f", "/home/user/input", case["stdin"], 0o644])
  return case


ROUTES = ["format", "check", "lint", "annotate", "genparsers", "dump-lex"]


def mode_of(case):
  mode = case["mode"]
  return mode[6:] if mode.startswith("stdin-") else mode


def check_route(case, ctx):
  """The same bytes by three ways."""
  data = case["stdin"]
  path = os.path.join(case["cwd"], "route.cmake")
  fs = case["fs"] + [["f", path, data, 0o644]]
  mode = case["route"]
  results = []
  log = []
  for way in ("pipe", "file", "name"):
    spec = tools.command(case, mode, ["route.cmake" if way == "name" else "-"],
                         dict(case["pick"], bare=True), None)
    if way != "name":
      spec["stdin"] = data if way == "pipe" else {"path": path}
    spec.update(case.get("knobs", {}))
    res = ctx.run(World(fs, case["seed"]), [spec])
    prc = res.procs[0]
    log += ["-- " + way] + res.log()
    out = prc.stdout
    if mode == "lint":
      label = b"route.cmake:" if way == "name" else b"-:"
      out = b"".join(line[len(label):] if line.startswith(label) else line
                     for line in out.splitlines(True))
    results.append((way, prc.how, prc.code, out, prc.stderr))
  first = results[0]
  for other in results[1:]:
    if first[1:4] != other[1:4]:
      return Violation("route", "{}: the same bytes give {} {} from a {}, but {} "
                       "{} from a {}: {}".format(
                           mode, first[2], brief(first[3]), first[0], other[2],
                           brief(other[3]), other[0],
                           other[4][-300:].decode("utf-8", "replace")), log)
  plain = "--input-encoding" not in case["options"] and not any(
      "encod" in i[2] for i in case["fs"] if i[0] == "f" and i[2] and
      i[1] not in case["files"])
  if plain or mode == "genparsers":
    try:
      data.encode("latin-1").decode("utf-8")
    except UnicodeDecodeError:
      ctx.stats.probe("undecodable input")
      if first[2] == 0:
        return Violation("ignored", "{}: exit status 0 although the input is not "
                         "valid in its encoding".format(mode), log)
      if not first[4]:
        return Violation("silent", "{}: status {} without a message".format(
            mode, first[2]), log)
  ctx.stats.probe("same by all ways")
  return None


def spec_of(case):
  spec = tools.command(case, case["mode"], case["args"], case["pick"],
                       case["stdin"])
  if case.get("stdinfile"):
    spec["stdin"] = {"path": "/home/user/input"}
  spec.update(case.get("knobs", {}))
  return spec


def splits(case, call, reads):
  """The first read of the same file, and where it would end inside of a character
  or a line ending."""
  if call.path == "<stdin>":
    data = case["stdin"]
  else:
    data = [i[2] for i in case["fs"] if i[0] == "f" and i[1] == call.path]
    if not data:
      return None
    data = data[0]
  spots = [i for i in range(1, min(len(data), 60000))
           if "\x80" <= data[i] <= "\xbf" or data[i - 1:i + 1] == "\r\n"]
  near = [i for i in spots if i < 4000]
  if not spots:
    return None
  return min(c.n for c in reads if c.path == call.path), near or spots


def variants(case, rng, ctx, tier):
  for num in range(10 if tier == "quick" else 36):
    sc = json_copy(case)
    sc["knobs"] = knobs(rng, {})
    sc["knobs"].pop("umask", None)
    sc["knobs"]["readall"] = rng.choice([65536, 65536, 2048, 511, 97])
    sc["seed"] = rng.randint(0, 2**31)
    size = len(case["stdin"])
    if num in (1, 2) and mode_of(case) in ROUTES and not case["stdinfile"]:
      # the same bytes from a pipe, a file on standard input, and by name
      sc["route"] = mode_of(case)
      yield sc
      continue
    if rng.random() < 0.3:
      sc["knobs"]["slow"] = rng.choice([20.0, 0.1])
    if num == 0:
      yield sc
      continue
    res = ctx.run(World(case["fs"], sc["seed"]), [spec_of(sc)], ref=True)
    reads = [c for c in calls_of(res) if c.name == "read"]
    opens = [c for c in calls_of(res) if c.name == "open_r"]
    fails = rng.random() < 0.45
    if fails and reads:
      call = rng.choice(reads) if rng.random() < 0.8 or not opens \
          else rng.choice(opens)
      sc["faults"] = [{"p": 0, "n": call.n, "k": "err", "only": [call.name],
                       "e": rng.choice(ERRNOS[call.name])}]
    else:
      # short reads: each one shifts the numbers of those that follow
      if not reads:
        continue
      pos = rng.choice(reads).n
      inside = splits(case, rng.choice(reads), reads)
      if inside and rng.random() < 0.5:
        sc["faults"] = [{"p": 0, "n": inside[0], "k": "short", "only": ["read"],
                         "to": rng.choice(inside[1])}]
        yield sc
        continue
      for _ in range(rng.choice([1, 1, 2, 3, 6])):
        sc["faults"].append({"p": 0, "n": pos, "k": "short", "only": ["read"],
                             "cap": max(2, size),
                             "frac": rng.choice([0.0, 0.001, 0.1, 0.5, 0.9,
                                                 round(rng.random(), 3)])})
        pos += rng.randint(1, 3)
      if rng.random() < 0.2:
        sc["faults"].append({"p": 0, "n": rng.choice(reads).n, "k": "stall",
                             "ns": 10**10})
    yield sc


def check(case, ctx):
  if case.get("route"):
    return check_route(case, ctx)
  clean = json_copy(case)
  clean["knobs"] = {}
  ref = ctx.solo(case["fs"], spec_of(clean))
  world = World(case["fs"], case["seed"])
  before = world.kern.snapshot()
  res = ctx.run(world, [spec_of(case)], case["faults"])
  prc = res.procs[0]
  log = res.log()
  after = world.kern.snapshot()
  err = prc.stderr.decode("utf-8", "replace")[-500:]
  failed = [f for f in res.fired if f["k"] == "err"]
  if prc.how not in ("exit",):
    return Violation("noexit", "ended by {}".format(prc.how), log)
  if not failed:
    if (prc.code, prc.stdout) != (ref.code, ref.out):
      return Violation("delivery", "{}: delivered in other portions, the input "
                       "gives {} {} instead of {} {}: {}".format(
                           case["mode"], prc.code, brief(prc.stdout), ref.code,
                           brief(ref.out), err), log)
    for path in sorted(set(after) | set(ref.after)):
      got, want = after.get(path), ref.after.get(path)
      if (got and got[2]) != (want and want[2]):
        return Violation("delivery", "{}: delivered in other portions, {} gets "
                         "{} instead of {}".format(
                             case["mode"], path, brief(got and got[2]),
                             brief(want and want[2])), log)
    ctx.stats.probe("same result")
    return None
  if prc.code == 0:
    return Violation("ignored", "{}: exit status 0 although {} failed: {}".format(
        case["mode"], ", ".join("{} of {}".format(f["call"], f["path"])
                                for f in failed), err), log)
  if not prc.stderr:
    return Violation("silent", "{}: status {} without a message".format(
        case["mode"], prc.code), log)
  # the file that could not be read, or whose configuration could not, stays
  changed = [p for p in after if p in before and after[p][2] != before[p][2]]
  for path in changed:
    if after[path][2] != ref.after[path][2]:
      return Violation("changed", "{}: after a failing read {} holds {}".format(
          case["mode"], path, brief(after[path][2])), log)
  if len(case["args"]) == 1 and case["mode"] != "lint" and \
      not case["mode"].startswith("stdin-lint"):
    if changed:
      return Violation("changed", "{}: changed {} although its input could not "
                       "be read".format(case["mode"], changed), log)
    if prc.stdout and case["mode"] != "genparsers" and \
        case["mode"] != "stdin-genparsers":
      return Violation("output", "{}: writes {} although its input could not be "
                       "read".format(case["mode"], brief(prc.stdout)), log)
  ctx.stats.probe("failures reported")
  return None


def shrinks(case):
  if len(case["stdin"]) > 12 and case["mode"].startswith("stdin"):
    from ..harness import shrink_text
    for text in shrink_text(case["stdin"]):
      cand = json_copy(case)
      cand["stdin"] = text
      for item in cand["fs"]:
        if item[1] == "/home/user/input":
          item[2] = text
      yield cand
  for cand in inplace.shrinks(case):
    yield cand
