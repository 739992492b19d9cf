"""C04: concurrent cmake-format runs over the same files."""
from .. import gen as G, project, tools
from ..harness import Violation, brief, calls_of, json_copy, knobs
from ..sim import MUTATING, World
from . import inplace

RULE = ("A case is a project of one to three files, two to five processes "
        "started together (cmake-format -i over overlapping sets of files, in "
        "any order, with the same or other options; sometimes readers: stdout, "
        "--check, cmake-lint), random latencies, and stalls and kills placed in "
        "the windows in which the file system changes. Non-trivial: more than "
        "one process ran; distinct: by hash of the interleaved trace.")
CASES = 190
LIMIT = 14


def gen(rng, tier):
  case = project.project(rng, nmin=1, nmax=rng.choice([1, 1, 2, 3]), big=0.12,
                         configs=0.4, encodings=0.15, cli=0.4)
  nproc = rng.choice([2, 2, 2, 3, 3, 4, 5])
  alt = [case["options"], case["options"]]
  if rng.random() < 0.25:
    alt.append(["--line-width", str(rng.choice([30, 45, 70]))])
    if rng.random() < 0.3:
      alt.append(["--command-case", "upper"])
  case["procs"] = []
  for idx in range(nproc):
    order = list(range(len(case["files"])))
    rng.shuffle(order)
    if rng.random() < 0.3:
      order = order[:rng.randint(1, len(order))]
    mode = "inplace" if idx < 2 or rng.random() < 0.7 else rng.choice(
        ["format", "check", "lint"])
    case["procs"].append({
        "files": order, "mode": mode, "options": rng.choice(alt),
        "start": rng.choice([0, 0, rng.randint(0, 3 * 10**6),
                             rng.randint(0, 3 * 10**7)]),
        "knobs": knobs(rng, {}),
        "pid": 4242 if rng.random() < 0.08 else None})
  for item in case["procs"]:
    # one umask: which of two writers wins is not determined
    item["knobs"].pop("umask", None)
  case["seed"] = rng.randint(0, 2**31)
  return case


def specs_of(case):
  out = []
  for item in case["procs"]:
    sub = dict(case, options=item["options"])
    args = [case["args"][i] for i in item["files"]]
    spec = tools.command(sub, item["mode"], args)
    spec.update(item["knobs"])
    spec["start"] = item["start"]
    if item.get("pid"):
      # as in two containers or hosts which share the directory
      spec["pid"] = item["pid"]
    out.append(spec)
  return out


def variants(case, rng, ctx, tier):
  count = 7 if tier == "quick" else 24
  for _ in range(count):
    sc = json_copy(case)
    sc["seed"] = rng.randint(0, 2**31)
    sc["faults"] = []
    if rng.random() < 0.8:
      res = ctx.run(World(case["fs"], sc["seed"]), specs_of(sc), ref=True)
      calls = calls_of(res)
      mut = [c for c in calls if c.name in MUTATING or c.name in (
          "open_w", "fsync", "close", "stat", "open_r", "read")]
      for _k in range(rng.choice([1, 2, 3, 4])):
        if not mut:
          break
        call = rng.choice(mut)
        if rng.random() < 0.8:
          sc["faults"].append({"p": call.p, "n": call.n, "k": "stall",
                               "ns": rng.choice([10**5, 10**6, 10**7, 10**9,
                                                 rng.randint(1, 10**8)])})
        elif rng.random() < 0.6:
          sc["faults"].append({"p": call.p, "n": call.n, "k": rng.choice(
              ["kill_before", "kill_after", "kill_mid"]), "frac": 0.5})
    yield sc


class Closure(object):
  """What any sequence of these commands can make of one file."""

  def __init__(self, case, ctx, idx):
    path, arg = case["files"][idx], case["args"][idx]
    from ..sim import build_kernel
    self.orig = build_kernel(case["fs"]).content(path)
    self.ok = True
    self.complete = True
    self.items = [self.orig]
    self.moves = {}
    options = []
    for item in case["procs"]:
      if item["mode"] == "inplace" and idx in item["files"] and \
          item["options"] not in options:
        options.append(item["options"])
    todo = [self.orig]
    while todo:
      cur = todo.pop(0)
      for opts in options:
        solo = ctx.solo(inplace.with_content(case["fs"], path, cur),
                        inplace.spec_of(dict(case, options=opts, knobs={}),
                                        [arg]))
        if not solo.ok:
          self.ok = False
          continue
        nxt = solo.after[path][2]
        self.moves[(cur, tuple(opts))] = nxt
        if nxt not in self.items:
          if len(self.items) >= LIMIT:
            self.complete = False
            continue
          self.items.append(nxt)
          todo.append(nxt)


def check(case, ctx):
  # the same file may be named twice through links
  clos = {}
  for idx, path in enumerate(case["files"]):
    clos[path] = Closure(case, ctx, idx)
  if not all(c.complete for c in clos.values()):
    ctx.stats.probe("skipped: too many contents")
    return None
  world = World(case["fs"], case["seed"])
  kern = world.kern
  watched = [(p, set(c.items)) for p, c in sorted(clos.items())]

  def watch(kern, _res):
    for path, allowed in watched:
      if kern.content(path) not in allowed:
        return path, kern.content(path)
    return None

  before = kern.snapshot()
  specs = specs_of(case)
  res = ctx.run(world, specs, case["faults"], on_step=watch)
  log = res.log()
  if res.invariant:
    path, got = res.invariant
    return Violation("torn", "{} holds {}, which no sequence of these commands "
                     "makes of {}".format(path, brief(got),
                                          brief(clos[path].orig)), log)
  if res.deadlock:
    return Violation("hang", "the processes wait for each other", log)
  killed = False
  all_ok = all(c.ok for c in clos.values())
  for prc, item in zip(res.procs, case["procs"]):
    err = prc.stderr.decode("utf-8", "replace")[-500:]
    if prc.how == "killed":
      killed = True
      continue
    if prc.how != "exit":
      return Violation("hang", "process {} ended by {}".format(
          prc.idx, prc.how), log)
    if item["mode"] == "inplace":
      if all_ok and prc.code != 0:
        return Violation("status", "process {} ends with status {} next to the "
                         "others: {}".format(prc.idx, prc.code, err), log)
      if prc.code == 0:
        for idx in item["files"]:
          path = case["files"][idx]
          final = kern.content(path)
          clo = clos[path]
          reach = {clo.moves.get((c, tuple(item["options"])))
                   for c in clo.items}
          # what follows our own write: moves of any other process
          grown = True
          while grown:
            grown = False
            for (cur, _), nxt in clo.moves.items():
              if cur in reach and nxt not in reach:
                reach.add(nxt)
                grown = True
          # a process which read the file before we replaced it may write later
          for other in case["procs"]:
            if other is not item and other["mode"] == "inplace":
              for cur in clo.items:
                reach.add(clo.moves.get((cur, tuple(other["options"]))))
          if final not in reach:
            return Violation("lost", "process {} reports success but {} holds "
                             "{}".format(prc.idx, path, brief(final)), log)
    elif item["mode"] in ("format", "check", "lint"):
      bad = reader(case, ctx, clos, item, prc)
      if bad:
        return Violation("reader", "process {}: {}".format(prc.idx, bad), log)
  if not killed:
    after = kern.snapshot()
    extra = sorted(set(after) - set(before))
    if extra:
      return Violation("residue", "left behind: {}".format(extra), log)
  gone = sorted(set(before) - set(kern.snapshot()))
  if gone:
    return Violation("removed", "removed: {}".format(gone), log)
  after = kern.snapshot()
  for path, ent in before.items():
    new = after[path]
    if ent[0] != new[0] or ent[1] != new[1] or (
        ent[2] != new[2] and path not in clos):
      return Violation("collateral", "{} changed: {} -> {}".format(
          path, ent[:2] + (brief(ent[2]),), new[:2] + (brief(new[2]),)), log)
  switches = 0
  last = None
  for ent in res.trace:
    if last is not None and ent[1] != last:
      switches += 1
    last = ent[1]
  ctx.stats.probe("context switches", switches)
  return None


def reader(case, ctx, clos, item, prc):
  """A reader sees one of the legal contents of each file."""
  if len(item["files"]) != 1:
    return None
  idx = item["files"][0]
  path = case["files"][idx]
  sub = dict(case, options=item["options"])
  seen = set()
  for cur in clos[path].items:
    solo = ctx.solo(inplace.with_content(case["fs"], path, cur),
                    tools.command(sub, item["mode"], [case["args"][idx]]))
    seen.add((solo.how, solo.code, solo.out))
  if (prc.how, prc.code, prc.stdout) not in seen:
    return "{} of {} gives status {} and {}, which matches no legal content " \
        "of the file".format(item["mode"], path, prc.code, brief(prc.stdout))
  ctx.stats.probe("readers")
  return None


def shrinks(case):
  for idx in range(len(case["faults"])):
    cand = json_copy(case)
    del cand["faults"][idx]
    yield cand
  if len(case["procs"]) > 1:
    for idx in range(len(case["procs"])):
      cand = json_copy(case)
      del cand["procs"][idx]
      cand["faults"] = [dict(f, p=f["p"] - (f["p"] > idx))
                        for f in cand["faults"] if f["p"] != idx]
      yield cand
  for idx, item in enumerate(case["procs"]):
    if len(item["files"]) > 1:
      for keep in item["files"]:
        cand = json_copy(case)
        cand["procs"][idx]["files"] = [keep]
        yield cand
    if item["knobs"]:
      cand = json_copy(case)
      cand["procs"][idx]["knobs"] = {}
      yield cand
    if item["options"]:
      cand = json_copy(case)
      cand["procs"][idx]["options"] = []
      yield cand
  from ..harness import shrink_fs
  for cand in shrink_fs(case):
    yield cand
