"""C12: every run ends, and an interrupt ends it at once."""
import json
import os

from .. import ctest, gen as G, project, tools
from ..harness import Violation, brief, calls_of, json_copy, knobs, lasting
from ..sim import World, b2s
from . import inplace

RULE = ("A case is a command of any of the tools over a project, a graph of "
        "configuration files which include each other (chains, diamonds, cycles, "
        "through links and other spellings), links which lead in circles, listfiles "
        "damaged by random edits, functions with puzzling variables, or a tree "
        "of CTestTestfile.cmake with cycles. Scenarios interrupt it at a call, "
        "let names collide, stall calls, jump the clock, let calls of a kind "
        "fail from some moment on. A run that makes more "
        "than a bounded number of calls or uses more than 60 s of CPU counts as "
        "endless. Non-trivial: a fault fired; distinct: hash of the trace.")
CASES = 460
MODES = ["inplace", "inplace", "inplace", "format", "check", "lint", "annotate",
         "genparsers", "stdin-format", "stdin-lint", "dump-config", "out-format",
         "ctest", "dump-layout"]
BOUND = 20000           # calls of a run
AFTER = 150             # calls after an interrupt


def gen(rng, tier):
  mode = rng.choice(MODES)
  if mode == "ctest":
    case = ctest.tree(rng)
    case["args"] = case["options"] = case["explicit"] = case["names"] = []
  else:
    case = project.project(rng, nmin=1, nmax=rng.choice([1, 2, 3, 4]),
                           big=0.05, bystanders=False, dups=0.1)
  case["mode"] = mode
  case["graph"] = None
  if mode != "ctest" and rng.random() < 0.45:
    graph(rng, case)
  if mode != "ctest" and rng.random() < 0.2:
    links(rng, case)
  if mode != "ctest":
    for item in case["fs"]:
      if item[0] == "f" and item[1] in case["files"] and len(item[2]) < 9000:
        if mode == "genparsers" and rng.random() < 0.7:
          item[2] += "".join(G.puzzle(rng) for _ in range(rng.choice([1, 2, 4])))
        roll = rng.random()
        if roll < 0.35:
          item[2] = G.tight_doc(rng)
        elif roll < 0.65:
          item[2] = G.damaged(rng, item[2].encode("latin-1").decode(
              "utf-8", "replace")).encode("utf-8").decode("latin-1")
    if rng.random() < 0.15:
      odd_args(rng, case)
  case["pick"] = tools.details(rng)
  if mode == "out-format":
    case["pick"]["out"], case["outpath"] = tools.pick_output(rng, case)
    case["args"] = case["args"][:1]
  case["stdin"] = b2s(G.doc_text(rng, uni=False).encode("utf-8"))
  case["knobs"] = knobs(rng, {})
  case["seed"] = rng.randint(0, 2**31)
  case["faults"] = []
  return case


def graph(rng, case):
  """Replace the configuration of the project by a graph of includes."""
  root = case["fs"][0][1]
  case["fs"] = [i for i in case["fs"] if not (
      i[0] == "f" and "cmake-format" in i[1].rsplit("/", 1)[1])]
  case["explicit"] = []
  count = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
  kinds = [rng.choice(["yaml", "json", "py"]) for _ in range(count)]
  dirs = [rng.choice(["", "", "/cfg", "/cfg/deep"]) for _ in range(count)]
  names = [root + dirs[i] + "/part%d.%s" % (i, kinds[i]) for i in range(count)]
  names[0] = root + "/.cmake-format." + kinds[0]
  for place in ("/cfg", "/cfg/deep"):
    case["fs"].append(["d", root + place, None, 0o755])
  # a way back to the same directory
  case["fs"].append(["l", root + "/cfg/up", ".."])
  case["fs"].append(["l", root + "/self", "."])
  edges = {i: [] for i in range(count)}
  for i in range(count):
    for j in range(count):
      odds = 0.6 if j == i + 1 else 0.25 if j > i else 0.12 if j <= i else 0
      if rng.random() < odds:
        edges[i].append(j)
  if count == 1 and rng.random() < 0.5:
    edges[0].append(0)
  for i in range(count):
    here = os.path.dirname(names[i])
    incs = []
    for j in edges[i]:
      rel = os.path.relpath(names[j], here)
      rel = rng.choice([rel, rel, names[j], "./" + rel,
                        rng.choice([root + "/cfg/up/" + os.path.relpath(
                            names[j], root), root + "/self/self/" +
                                    os.path.relpath(names[j], root)])])
      incs.append(rel)
    values = G.cfg_values(rng)
    if incs:
      values["include"] = [x.encode("utf-8").decode("latin-1") for x in incs]
    case["fs"].append(["f", names[i], G.cfg_text(rng, values, kinds[i]), 0o644])
  reach, todo = set(), [0]
  while todo:
    cur = todo.pop()
    if cur not in reach:
      reach.add(cur)
      todo += edges[cur]
  case["graph"] = {"reach": len(reach), "cyclic": cyclic(edges, 0)}


def cyclic(edges, start):
  state = {}

  def visit(node):
    state[node] = 1
    for nxt in edges[node]:
      if state.get(nxt) == 1 or nxt not in state and visit(nxt):
        return True
    state[node] = 2
    return False
  return visit(start)


def links(rng, case):
  root = case["fs"][0][1]
  kind = rng.choice(["loop", "loop2", "tower", "dirloop"])
  if kind == "loop":
    case["fs"].append(["l", root + "/loop.cmake", "loop.cmake"])
    name = root + "/loop.cmake"
  elif kind == "loop2":
    case["fs"].append(["l", root + "/a1.cmake", "a2.cmake"])
    case["fs"].append(["l", root + "/a2.cmake", root + "/a1.cmake"])
    name = root + "/a1.cmake"
  elif kind == "tower":
    prev = os.path.basename(case["files"][0])
    place = os.path.dirname(case["files"][0])
    for idx in range(rng.choice([3, 12, 39, 45])):
      nxt = "t%d.cmake" % idx
      case["fs"].append(["l", place + "/" + nxt, prev])
      prev = nxt
    name = place + "/" + prev
  else:
    case["fs"].append(["l", root + "/round", "."])
    place = os.path.relpath(case["files"][0], root)
    name = root + "/round/" * rng.choice([1, 5, 30]) + place
  spot = rng.randint(0, len(case["args"]))
  for key in ("args", "files", "names"):
    case[key].insert(spot, name)


def odd_args(rng, case):
  """Directories and other names that are no listfile, in all spellings."""
  root = case["fs"][0][1]
  if rng.random() < 0.7:
    # without any configuration the search goes all the way up
    case["fs"] = [i for i in case["fs"] if not (
        i[0] == "f" and "cmake-format" in i[1].rsplit("/", 1)[1])]
  if rng.random() < 0.6:
    case["cwd"] = root
    case["args"] = list(case["files"])
  for _ in range(rng.choice([1, 1, 2])):
    place = os.path.dirname(rng.choice(case["files"]))
    rel = os.path.relpath(place, case["cwd"])
    name = rng.choice([rel, rel, rel + "/", "./" + rel, place, place + "/", ".",
                       "..", "./", "/", "//", "", "../..", "/..", rel + "/..",
                       "no/such/place/x.cmake", "nothing", "nothing/", "~",
                       rel + "/nothing/../x"])
    if name.startswith("-"):
      name = "./" + name
    spot = rng.randint(0, len(case["args"]))
    case["args"].insert(spot, name)
    case["files"].insert(spot, os.path.normpath(os.path.join(case["cwd"], name)))
    case["names"].insert(spot, case["files"][spot])


def spec_of(case):
  if case["mode"] == "ctest":
    spec = ctest.spec_of(case)
  else:
    spec = tools.command(case, case["mode"], case["args"], case["pick"],
                         case["stdin"])
  spec.update(case.get("knobs", {}))
  spec["cpu"] = 60
  return spec


def variants(case, rng, ctx, tier):
  yield json_copy(case)
  res = ctx.run(World(case["fs"], case["seed"]), [spec_of(case)], ref=True,
                max_calls=BOUND)
  calls = [c for c in calls_of(res)]
  if not calls or res.procs[0].how != "exit":
    return
  mut = [c for c in calls if c.name in (
      "write", "open_w", "rename", "fsync", "close", "chmod", "unlink", "read")]
  cfgs = [c for c in calls if c.name in ("open_r", "read", "close", "stat") and
          c.path and "cmake-format" in str(c.path)]
  for _ in range(8 if tier == "quick" else 40):
    sc = json_copy(case)
    roll = rng.random()
    pool = rng.choice([mut, mut, cfgs, calls]) or calls
    call = rng.choice(pool)
    fault = lasting(rng, calls) if rng.random() < 0.2 else None
    if fault is not None:
      if rng.random() < 0.3:
        fault["only"] = [rng.choice(calls).name]
      sc["faults"] = [fault]
    elif roll < 0.4:
      # while it computes
      reads = [c for c in calls if c.name == "close" and c.path in case["args"]]
      if not reads or rng.random() < 0.3:
        reads = [c for c in calls if c.name in ("read", "close")] or calls
      sc["faults"] = [{"p": 0, "n": rng.choice(reads).n, "k": "sigint_later",
                       "calls": int(1.5 ** rng.uniform(0, 20))}]
    elif roll < 0.72:
      sc["faults"] = [{"p": 0, "n": call.n, "k": rng.choice(
          ["sigint_before", "sigint_before", "sigint_after"])}]
    elif roll < 0.82:
      sc["faults"] = [{"p": 0, "n": call.n + k, "k": "stall",
                       "ns": rng.choice([10**9, 10**11])}
                      for k in range(rng.choice([1, 3, 8]))]
    elif roll < 0.92:
      news = [c for c in calls if c.name == "open_w"]
      if not news:
        continue
      first = rng.choice(news).n
      sc["faults"] = [{"p": 0, "n": first + k, "k": "err", "e": "EEXIST",
                       "only": ["open_w"]}
                      for k in range(rng.choice([1, 2, 5]))]
    else:
      sc["faults"] = [{"p": 0, "n": call.n, "k": "clockjump",
                       "ns": rng.choice([10**18, 86400 * 10**9])}]
    yield sc


def finished(case, world, prc, ref):
  """Whether nothing was left to do."""
  if prc.out is not None and prc.stdout != (ref.out or b""):
    return False
  after = world.kern.snapshot()
  for path in set(ref.after) | set(after):
    got, want = after.get(path), ref.after.get(path)
    if (got and got[2]) != (want and want[2]):
      return False
  return True


def check(case, ctx):
  world = World(case["fs"], case["seed"])
  res = ctx.run(world, [spec_of(case)], case["faults"], max_calls=BOUND)
  prc = res.procs[0]
  log = res.log()[-120:]
  err = prc.stderr.decode("utf-8", "replace")[-400:]
  if prc.how == "hang":
    return Violation("endless", "{} does not end (after {} calls)".format(
        case["mode"], res.steps), log)
  ref = ctx.solo(case["fs"], spec_of(dict(case, knobs={})))
  if case.get("graph"):
    ctx.stats.probe("include graph: " + (
        "cyclic" if case["graph"]["cyclic"] else "acyclic"))
  ints = [f for f in res.fired if f["k"].startswith("sigint")]
  if not ints:
    hard = [f for f in res.fired if f["k"] == "err"]
    if (prc.how, prc.code) != (ref.how, ref.code) and not hard:
      return Violation("status", "{}: {} {} instead of {} {}: {}".format(
          case["mode"], prc.how, prc.code, ref.how, ref.code, err), log)
    if hard and case["mode"] == "inplace" and prc.code != ref.code and \
        not any(f.get("rest") for f in hard):
      return Violation("collision", "{}: status {} because the name of a "
                       "temporary file is taken: {}".format(
                           case["mode"], prc.code, err), log)
    return None
  ctx.stats.probe("interrupted")
  at = ints[0]["n"]
  late = [t for t in res.trace if t[2] > at and t[3] not in (
      "exit", "died", "clock")]
  if len(late) > AFTER:
    return Violation("continues", "{} makes {} more calls after the "
                     "interrupt".format(case["mode"], len(late)), log)
  opened = [t[4] for t in late if t[3] == "open_r" and t[4] in case["args"]]
  if opened:
    return Violation("continues", "{} goes on with {} after the interrupt".format(
        case["mode"], opened), log)
  if prc.how == "exit" and prc.code == 0 and not finished(case, world, prc, ref):
    return Violation("exit0", "{} ends with status 0 after the interrupt, with "
                     "its work not done: {}".format(case["mode"], err), log)
  return None


shrinks = inplace.shrinks
