"""C14: calls of the library do not influence each other."""
import json

from .. import gen as G, options, threads
from ..harness import Violation, brief, json_copy
from ..sim import h64

RULE = ("A case is two to six (or up to thirty) calls of the library (format, the dumps, lint, "
        "annotate, genparsers, dump of the configuration; any configurations) "
        "spread over one to three threads of one process. A seeded scheduler moves "
        "the baton between the threads at chosen lines of cmakelang code (n-th call, k-th line event of it), and "
        "throws KeyboardInterrupt or MemoryError into some of the calls. Each "
        "call must have the result it has in a process of its own. Non-trivial: "
        "the baton moved inside a call, or an exception was thrown; distinct: "
        "hash of the sequence of lines and threads.")
STEPS_LABEL = "scheduler_steps"
CASES = 280
APIS = ["format"] * 5 + ["lint"] * 3 + ["annotate", "genparsers", "dumpconfig",
                                        "dump"]
REAL = ["cmakelang.format, lex, parse, formatter, markup, lint, annotate, render, "
        "genparsers, configuration (from /repo, unmodified)", "threads (real)"]
STUBS = ["the choice of the running thread (seeded scheduler, line granularity)"]
ASSUMPTIONS = ["switches happen between lines of cmakelang code, not inside them or "
               "inside the standard library", "sampling: evidence, not proof"]


def gen(rng, tier):
  jobs = []
  long = rng.random() < 0.45
  # documents and configurations which go together
  focus = None
  if rng.random() < 0.5:
    focus = options.family(rng, rng.choice([2, 2, 3]))
    theme = options.relevant(rng, focus)
  for _ in range(rng.choice([6, 9, 14]) if long else
                 rng.choice([2, 2, 3, 4, 6])):
    api = rng.choice(APIS)
    job = {"api": api, "cfg": {}}
    if api == "dump":
      job["api"] = "format"
      job["dump"] = rng.choice(["lex", "parse", "layout", "markup", "parsedb"])
    if rng.random() < 0.65:
      job["cfg"] = G.cfg_values(rng)
    if rng.random() < 0.3:
      job["cfg"].setdefault("parse", {})["additional_commands"] = rng.choice([
          {"my_command": {"pargs": 1, "kwargs": {"VERSION": 1, "ITEM": "*"}}},
          {"my_command": {"pargs": "*", "flags": ["VERSION", "PUBLIC"]}},
          {"another_fn": {"kwargs": {"ON": "+", "foo": 1}}},
          {"set": {"pargs": 1, "kwargs": {"bar": "*"}}}])
    if rng.random() < 0.15:
      job["cfg"].setdefault("markup", {}).update(rng.choice([
          {"bullet_char": "-"}, {"literal_comment_pattern": "^ this"},
          {"first_comment_is_literal": True}, {"enum_char": ")"}]))
    text = rng.choice(G.BAD_DOCS) if rng.random() < 0.08 else \
        G.doc_text(rng, uni=rng.random() < 0.2, size=rng.choice([1, 2, 3]),
                   lint=0.5 if api == "lint" else 0.05)
    if api == "genparsers":
      from . import batch
      text += batch.functions(rng)
    if rng.random() < 0.4:
      text += "\nmy_command(a VERSION 1 ITEM x y PUBLIC)\nanother_fn(foo x ON y)\n"
    job["text"] = text[:3000] if len(text) < 3000 else "set(a b)\n"
    if focus and rng.random() < 0.75:
      job["cfg"] = json_copy(rng.choice(focus))
      job["text"] = theme
      if api == "dumpconfig":
        job["api"] = rng.choice(["format", "lint"])
    elif rng.random() < 0.15:
      job["cfg"] = options.some(rng)
    if rng.random() < 0.12:
      job["text"] = job["text"].replace("\n", "\r\n")
    jobs.append(job)
  if rng.random() < 0.4:
    # the same document with another configuration
    twin = json_copy(rng.choice(jobs))
    twin["cfg"] = G.cfg_values(rng)
    jobs.append(twin)
  if rng.random() < 0.35:
    share(rng, jobs)
  if long:
    # a long history of calls, with repetitions
    order = list(range(len(jobs))) * 2
    rng.shuffle(order)
    return {"jobs": jobs, "queues": [order], "switches": [], "throws": [],
            "long": True}
  count = rng.choice([1, 1, 2, 2, 2, 3])
  count = min(count, len(jobs))
  queues = [[] for _ in range(count)]
  for num in range(len(jobs)):
    queues[num if num < count else rng.randrange(count)].append(num)
  return {"jobs": jobs, "queues": queues, "switches": [], "throws": []}


def share(rng, jobs):
  """Some of the calls use the same configuration object."""
  picked = rng.sample(range(len(jobs)), rng.randint(2, len(jobs))) \
      if len(jobs) > 1 else []
  for num in picked:
    jobs[num]["cfg"] = json_copy(jobs[picked[0]]["cfg"])
    jobs[num]["shared"] = 1
  if rng.random() < 0.3:
    # which depends on the document
    for num in picked:
      jobs[num]["cfg"].setdefault("format", {})["line_ending"] = "auto"
      if rng.random() < 0.4:
        jobs[num]["text"] = jobs[num]["text"].replace("\r\n", "\n").replace(
            "\n", "\r\n")


def run(case, ctx):
  queues = [[case["jobs"][i] for i in q] for q in case["queues"]]
  if case.get("long"):
    out = threads.run_sequence(queues[0])
  else:
    out = threads.run_threads(queues, case["switches"], case["throws"])
  st = ctx.stats
  st.runs += 1
  st.steps += out.steps
  st.procs += len(case["queues"])
  sig = "%016x" % h64(out.acc, out.steps)
  st.sigs.add(sig)
  if out.moves or case["throws"] or case.get("long"):
    st.nontrivial.add(sig)
  if out.moves:
    st.faults["switch@line"] = st.faults.get("switch@line", 0) + len(out.moves)
  for kind in [item[-1] for item in case["throws"]]:
    st.faults[kind + "@line"] = st.faults.get(kind + "@line", 0) + 1
  return out


def variants(case, rng, ctx, tier):
  base = json_copy(case)
  yield base
  if case.get("long"):
    for _ in range(2 if tier == "quick" else 8):
      sc = json_copy(case)
      rng.shuffle(sc["queues"][0])
      yield sc
    return
  # (check() has run it)
  out = getattr(ctx, "outcome", None) or run(base, ctx)
  if out.how != "exit" or not out.steps:
    return
  times = 5 if tier == "quick" else 24
  if out.steps > 400000:
    times = max(1, times * 400000 // out.steps)
  for _ in range(times):
    sc = json_copy(case)
    count = len(case["queues"])
    if count > 1:
      style = rng.random()
      number = rng.choice([1, 1, 2, 3, 5, 9]) if style < 0.6 else \
          rng.choice([20, 60, 200])
      points = sorted(rng.sample(range(1, out.steps + 1),
                                 min(number, out.steps)))
      sc["switches"] = [[p, rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 30]),
                         rng.randrange(count)] for p in points]
      if style < 0.15:
        # a burst: one call each
        start = rng.randint(1, out.steps)
        line = rng.choice([0, 1, 3])
        sc["switches"] = [[start + k, line, k % count] for k in range(150)]
    if rng.random() < (0.35 if count > 1 else 0.8):
      for _k in range(rng.choice([1, 1, 2])):
        who = rng.randrange(count)
        if out.own[who]:
          sc["throws"].append([who, rng.randint(1, out.own[who]),
                               rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 30]),
                               rng.choice(["sigint", "nomem"])])
    yield sc


def check(case, ctx):
  if not case["queues"] or any(not q for q in case["queues"]):
    case = dict(case, queues=[q for q in case["queues"] if q])
  got = ctx.outcome = run(case, ctx)
  if got.how == "hang":
    return Violation("hang", "the calls do not end")
  struck = {item[0] for item in case["throws"]}
  for who, queue in enumerate(case["queues"]):
    for num, job in enumerate(queue):
      want = alone(case["jobs"][job], ctx)
      have = got.results[who][num]
      if have == want:
        continue
      if have[0] in ("interrupted", "nomem") and who in struck:
        ctx.stats.probe("struck by an exception")
        continue
      if who in struck and have[0] in ("error", "ok") and \
          sum(1 for t in case["throws"] if t[0] == who) > sum(
              1 for r in got.results[who] if r[0] in ("interrupted", "nomem")) \
          and not clean_after(case, who, num, got):
        # some code turned the exception into another failure of this call
        ctx.stats.probe("exception converted")
        continue
      spec = {k: v for k, v in case["jobs"][job].items() if k != "text"}
      if got.forced:
        ctx.stats.probe("locks")
      return Violation(
          "influence", "call {} of thread {} ({}) gives {} {} instead of {} {} "
          "(threads {}, {} switches, exceptions {})".format(
              num, who, json.dumps(spec), have[0], first_diff(have[1], want[1]),
              want[0], first_diff(want[1], have[1]), case["queues"],
              len(got.moves), case["throws"]),
          ["switch at call {} to thread {}".format(*m)
           for m in got.moves])
  if len(case["queues"]) > 1:
    ctx.stats.probe("threads")
  else:
    ctx.stats.probe("long history" if case.get("long") else
                    "one after the other")
  return None


def clean_after(case, who, num, got):
  """Whether the exceptions of this thread all struck in other calls."""
  return False


def first_diff(one, two):
  for pos, (a, b) in enumerate(zip(one, two)):
    if a != b:
      return "..." + brief(one[max(0, pos - 30):pos + 60], 120)
  return "..." + brief(one[-60:], 120)


def alone(job, ctx):
  key = json.dumps(job, sort_keys=True)
  if key not in ctx.cache:
    ctx.cache[key] = threads.run_alone(job)
    ctx.stats.ref_runs += 1
  return ctx.cache[key]


def shrinks(case):
  if case["switches"]:
    half = len(case["switches"]) // 2
    for part in (case["switches"][:half], case["switches"][half:], []):
      if len(part) < len(case["switches"]):
        cand = json_copy(case)
        cand["switches"] = part
        yield cand
    if len(case["switches"]) < 12:
      for idx in range(len(case["switches"])):
        cand = json_copy(case)
        del cand["switches"][idx]
        yield cand
  for idx in range(len(case["throws"])):
    cand = json_copy(case)
    del cand["throws"][idx]
    yield cand
  for who, queue in enumerate(case["queues"]):
    for num in range(len(queue)):
      cand = json_copy(case)
      del cand["queues"][who][num]
      if not cand["queues"][who]:
        if len(cand["queues"]) == 1:
          continue
        # keep the numbering of the threads simple
        if cand["switches"] or cand["throws"]:
          continue
        del cand["queues"][who]
      yield cand
  if len(case["queues"]) > 1:
    cand = json_copy(case)
    cand["queues"] = [[j for q in case["queues"] for j in q]]
    cand["switches"], cand["throws"] = [], []
    yield cand
  from ..harness import shrink_text
  for idx, job in enumerate(case["jobs"]):
    for text in shrink_text(job["text"]):
      cand = json_copy(case)
      cand["jobs"][idx]["text"] = text
      yield cand
    if job["cfg"]:
      cand = json_copy(case)
      cand["jobs"][idx]["cfg"] = {}
      yield cand
