"""C15: the report of cmake-lint accounts for every finding of every file."""
import re

from .. import tools
from ..harness import Violation, brief, json_copy
from ..sim import World
from . import batch

RULE = ("A case is a cmake-lint command with two to seven files (repetitions, "
        "pragmas, other configurations per directory, unreadable ones), with or "
        "without decorations and -o. Scenarios permute the files, make one "
        "unreadable by a failing call, or deliver them in portions. The reference "
        "is one command per file. Non-trivial: a fault fired; distinct: hash of "
        "the trace.")
CASES = 300
SNIPPETS = [
    "set(lower_cache a CACHE STRING \"\")\n",
    "function(BadName a)\nendfunction()\n",
    "# cmake-lint: disable=C0103,C0111\nfunction(BadName b)\nendfunction()\n",
    "# cmake-lint: disable=C0301\n",
    "# cmake-lint: disable=C0321,E1120\nset(a b) set(c d)\n",
    "set(a b) set(c d)\n",
    "set(trailing blank)   \n",
    "if(A)\n  # cmake-lint: disable=C0305,W0106\n  set(x \"${y}\")\nendif()\n\n\n\n\n",
    "# a line which is far longer than what the line width of the default "
    "configuration allows, by itself\n",
    "foreach(X a b)\n  return()\n  message(a)\nendforeach()\n",
    "macro(mm)\n  set(_x PARENT_SCOPE)\nendmacro()\n",
    "set(VAR)\nadd_custom_command(TARGET x COMMAND y)\n",
    "set(OTHER a\n  b ) \n",
    "message(\"$ENV\")\nset(x \"$x\")\n",
    "# cmake-lint: disable=notacode\n",
    "function(f a)\n  break()\n  continue()\nendfunction()\n",
    "set(one two)\r\nset(three four)\n",
]
NAMES = {"C": "Convention", "E": "Error", "R": "Refactor", "W": "Warning"}


def gen(rng, tier):
  case = batch.gen(rng, tier, "lint")
  case["pick"]["bare"] = rng.random() < 0.2
  for item in case["fs"]:
    if item[0] == "f" and item[1] in case["files"] and rng.random() < 0.8 and \
        "cmake-format" not in item[1] and len(item[2]) < 20000:
      add = "".join(rng.choice(SNIPPETS)
                    for _ in range(rng.choice([1, 2, 4, 7])))
      item[2] = add if rng.random() < 0.4 else item[2] + "\n" + add
      if rng.random() < 0.06:
        item[2] = rng.choice(["", "", "\n", "\xef\xbb\xbf", " ", "# x"])
  if rng.random() < 0.25:
    # (first: an option with a list must not be the last before the files)
    case["options"] = rng.choice([
        ["--disabled-codes", "C0103", "C0301", "C0111"],
        ["--disabled-codes", "C0305"], ["--max-branches", "1"],
        ["--line-width", "30"], ["--function-pattern", "[A-Z]+"]]) + \
        ["--min-statement-spacing", "1"] + list(case["options"])
  case["out"] = rng.random() < 0.2
  return case


variants = batch.variants


def shrinks(case):
  for cand in batch.shrinks(case):
    yield cand


def bare(case, flag):
  out = json_copy(case)
  out["pick"]["bare"] = flag
  return out


def unread(case, ctx, one):
  """Whether it says of the file that it cannot be read."""
  if one.lost or batch.readable(case, one) is False:
    return True
  if one.ok or one.out:
    return False
  return one.arg in one.err.decode("utf-8", "replace")


RECORD = re.compile(r"^:[\d,: ]*\[([A-Z])\d+\]")


def records(arg, text):
  """The categories of the records of a bare report of one file."""
  out = []
  for line in text.split("\n"):
    if line.startswith(arg):
      got = RECORD.match(line[len(arg):])
      if got:
        out.append(got.group(1))
  return out


def summary_of(text):
  """-> (files scanned, {category name: number}) or None"""
  head = re.search(r"(?m)^files scanned: (\d+)$", text)
  if head is None:
    return None
  counts = {}
  for name in NAMES.values():
    for got in re.finditer(r"(?m)^ *{}: (\d+)$".format(name),
                           text[head.end():]):
      counts[name] = counts.get(name, 0) + int(got.group(1))
  return int(head.group(1)), {k: v for k, v in counts.items() if v}


def check(case, ctx):
  world = World(case["fs"], case["seed"])
  spec = batch.spec_of(case)
  target = None
  if case.get("out"):
    target = "/tmp/lint report.txt"
    spec["argv"] = ["-o", target] + spec["argv"]
  spec.update(case["knobs"])
  res = ctx.run(world, [spec], case["faults"])
  prc = res.procs[0]
  log = res.log()
  err = prc.stderr.decode("utf-8", "replace")
  if prc.how != "exit":
    return Violation("noexit", "ended by {}".format(prc.how), log)
  lost = batch.lost_of(case, res)
  plain = bare(case, True)
  ones, _ = batch.sequence(plain, ctx, lost)
  if any(one.hard for one in ones):
    ctx.stats.probe("ended by a hard failure")
    for one in ones:
      if one.hard and not one.lost and not case["faults"] and \
          b"internal error" in one.err and \
          batch.readable(case, one) is not False:
        # (what cmake-format cannot parse either is not a listfile)
        other = dict(case, mode="format", knobs={})
        if ctx.solo(case["fs"], batch.spec_of(other, [one.arg])).code == 0:
          return Violation("crash", "cmake-lint cannot report on {}, which "
                           "cmake-format formats: {}".format(
                               one.arg, one.err.decode("utf-8", "replace")[-300:]),
                           log)
    if prc.code == 0:
      return Violation("status", "status 0 in spite of {}".format(
          [o.err.decode("utf-8", "replace")[-200:]
           for o in ones if o.hard]), log)
    return None
  data = prc.stdout
  if target is not None:
    if data:
      return Violation("report", "-o, but it writes {} to the standard "
                       "output".format(brief(data)), log)
    data = world.kern.content(target)
    if data is None:
      return Violation("report", "the -o file is missing", log)
  text = data.decode("utf-8", "replace")
  seen = {}
  blocks = []
  alone = bare(case, False)
  for one in ones:
    if unread(case, ctx, one):
      continue
    found = one.out.decode("utf-8", "replace")
    seen[one.arg] = records(one.arg, found)
    if case["pick"]["bare"]:
      blocks.append(found)
      continue
    solo = ctx.solo(case["fs"], batch.spec_of(alone, [one.arg]))
    whole = solo.out.decode("utf-8", "replace")
    if found not in whole:
      return Violation("report", "{} has {} without decorations, but with "
                       "them {}".format(one.arg, brief(found, 400),
                                        brief(whole, 400)), log)
    own = summary_of(whole)
    want = (1, count([seen[one.arg]]))
    if own != want:
      return Violation("summary", "{} alone: the summary says {} instead of "
                       "{}".format(one.arg, own, want), log)
    blocks.append(whole[:whole.rindex("Summary\n")])
  want = "".join(blocks)
  if case["pick"]["bare"]:
    if text != want:
      return Violation("report", "{} instead of {}".format(
          brief(text, 400), brief(want, 400)), log)
  else:
    if "Summary\n" not in text or not text.startswith(want) or \
        text[:text.rindex("Summary\n")] != want:
      return Violation("report", "{} instead of {}".format(
          brief(text, 400), brief(want, 400)), log)
    got = summary_of(text[text.rindex("Summary\n"):])
    total = (len(seen), count(seen.values()))
    if got != total:
      return Violation("summary", "the summary says {} instead of {} for "
                       "{}".format(got, total, [o.arg for o in ones]), log)
  bad = any(seen.values()) or len(seen) < len({o.arg for o in ones})
  if bad != (prc.code != 0):
    return Violation("status", "status {} with {} findings in {} of {} files: "
                     "{}".format(prc.code, sum(map(len, seen.values())),
                                 len(seen), len(ones), err[-300:]), log)
  ctx.stats.probe("repeated files" if len(set(case["args"])) < len(case["args"])
                  else "distinct files")
  if len(seen) < len({o.arg for o in ones}):
    ctx.stats.probe("unreadable files")
  return None


def count(lists):
  out = {}
  for lst in lists:
    for cat in lst:
      out[NAMES[cat]] = out.get(NAMES[cat], 0) + 1
  return out
