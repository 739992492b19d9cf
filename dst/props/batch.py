"""Shared by the properties of commands with several files: the command is
compared with one command for each of its files, one after the other."""
import ast
import json
import os

from .. import gen as G, options, project, tools
from ..harness import brief, calls_of, json_copy, knobs
from ..sim import World, b2s
from . import inplace

MODES = ["inplace", "inplace", "format", "format", "check", "check", "lint",
         "lint", "annotate", "genparsers", "dump-lex", "dump-parse"]
# these report a file that cannot be read and go on with the others
GO_ON = ("lint", "genparsers")


def gen(rng, tier, mode=None):
  mode = mode or rng.choice(MODES)
  case = project.project(rng, nmin=2, nmax=rng.choice([2, 3, 3, 4, 6]), big=0.05,
                         bystanders=False, configs=0.75, cli=0.45, dups=0.35,
                         symlinks=0.15, encodings=0.12,
                         hardlinks=0.02, lint=0.5 if mode == "lint" else 0.08)
  case["mode"] = mode
  case["pick"] = tools.details(rng)
  case["pick"]["bare"] = True
  if case["mode"] == "genparsers":
    for item in case["fs"]:
      if item[0] == "f" and item[1] in case["files"] and rng.random() < 0.7:
        item[2] += functions(rng)
  root = case["fs"][0][1]
  if rng.random() < 0.35:
    # one which fails on its own, for one of the possible reasons
    kind = rng.choice(["bad", "bad", "missing", "mode", "coding", "config",
                       "dir", "layout", "wide"])
    at = rng.randrange(len(case["files"]))
    victim = case["files"][at]
    item = [i for i in case["fs"] if i[0] == "f" and i[1] == victim][0]
    if kind == "bad":
      item[2] = rng.choice(G.BAD_DOCS)
    elif kind == "mode":
      item[3] = 0o000
    elif kind == "coding":
      item[2] = "set(x \"\xff\xfe\xfd\")\n"
    elif kind == "missing":
      spot = rng.randint(0, len(case["args"]))
      case["args"].insert(spot, root + "/no such file.cmake")
      case["files"].insert(spot, root + "/no such file.cmake")
      case["names"].insert(spot, root + "/no such file.cmake")
    elif kind == "dir":
      case["fs"].append(["d", root + "/adir", None, 0o755])
      spot = rng.randint(0, len(case["args"]))
      for key in ("args", "files", "names"):
        case[key].insert(spot, root + "/adir")
    elif kind == "config":
      place = root + "/nested"
      case["fs"].append(["d", place, None, 0o755])
      case["fs"].append(["f", place + "/.cmake-format.json", "{broken", 0o644])
      case["fs"].append(["f", place + "/x.cmake", "set(a  b)\n", 0o644])
      spot = rng.randint(0, len(case["args"]))
      for key in ("args", "files", "names"):
        case[key].insert(spot, place + "/x.cmake")
    elif kind == "wide":
      # in the encoding of its directory it would begin with a byte-order mark
      place = root + "/wide"
      case["fs"].append(["d", place, None, 0o755])
      case["fs"].append(["f", place + "/.cmake-format.yaml",
                         "encode:\n  input_encoding: utf-16\n", 0o644])
      case["fs"].append(["f", place + "/x.cmake", "set(a   b)\n", 0o644])
      spot = rng.randint(0, len(case["args"]))
      for key in ("args", "files", "names"):
        case[key].insert(spot, place + "/x.cmake")
    elif kind == "layout":
      place = root + "/strict"
      case["fs"].append(["d", place, None, 0o755])
      case["fs"].append([
          "f", place + "/.cmake-format.yaml",
          "format:\n  require_valid_layout: true\n  line_width: 10\n", 0o644])
      case["fs"].append(["f", place + "/x.cmake",
                         "set(a  some/very/long/word/beyond/the/width)\n", 0o644])
      spot = rng.randint(0, len(case["args"]))
      for key in ("args", "files", "names"):
        case[key].insert(spot, place + "/x.cmake")
  if rng.random() < 0.12:
    place = root + "/off"
    case["fs"].append(["d", place, None, 0o755])
    case["fs"].append(["f", place + "/.cmake-format.yaml",
                       "format:\n  disable: true\n", 0o644])
    case["fs"].append(["f", place + "/x.cmake", "set(a    b)\n", 0o644])
    spot = rng.randint(0, len(case["args"]))
    for key in ("args", "files", "names"):
      case[key].insert(spot, place + "/x.cmake")
  if rng.random() < 0.35:
    crossing(rng, case)
  order = list(range(len(case["args"])))
  rng.shuffle(order)
  for key in ("args", "files", "names"):
    case[key] = [case[key][i] for i in order]
  case["knobs"] = knobs(rng, {})
  case["seed"] = rng.randint(0, 2**31)
  case["faults"] = []
  return case


STRIKING = [
    ("format:\n  line_width: 30\n  command_case: upper\n"
     "parse:\n  additional_commands:\n    my_command:\n      kwargs:\n"
     "        ITEM: '*'\n        VERSION: 1\n"
     "lint:\n  disabled_codes: [C0103, C0301, C0305, C0307, C0327]\n"),
    ("format:\n  line_width: 120\n  dangle_parens: true\n  tab_size: 6\n"
     "  line_ending: windows\n"
     "parse:\n  additional_commands:\n    my_command:\n      flags: [VERSION]\n"
     "      kwargs:\n        PUBLIC: '*'\n        ON: '+'\n"
     "markup:\n  bullet_char: +\n  first_comment_is_literal: true\n"),
    ("format:\n  command_case: lower\n  keyword_case: lower\n  line_width: 60\n"
     "markup:\n  enable_markup: false\n"
     "misc:\n  per_command:\n    set:\n      command_case: upper\n"
     "lint:\n  function_pattern: '[A-Z]+'\n  max_statement_spacing: 0\n")]


def crossing(rng, case):
  """Directories which differ in their configuration, files of the same name
  and content in each, and links from one to the other."""
  root = case["fs"][0][1]
  text = ("# * one\n# * two\nmy_command(x ITEM aaaaaaaa bbbbbbbbbbb PUBLIC cccccccc "
          "VERSION 3 ON eeeeeeeee)\nset(Foo-bar b)\nfunction(Bad_Name x)\n\n\n\n"
          "  message(STATUS   \"some text which is long\" ${x})\nendfunction()\n")
  if rng.random() < 0.4:
    text = G.doc_text(rng, uni=False) + text
  texts = list(STRIKING)
  rng.shuffle(texts)
  places = [root + "/zone%d" % i for i in range(rng.choice([2, 2, 3]))]
  if rng.random() < 0.6:
    # the same few options, and a document for which they matter
    cfgs = options.family(rng, len(places))
    text = options.relevant(rng, cfgs)
    texts = [G.cfg_text(rng, cfg, "yaml") if cfg else "" for cfg in cfgs]
  for num, place in enumerate(places):
    case["fs"].append(["d", place, None, 0o755])
    case["fs"].append(["f", place + "/.cmake-format.yaml", texts[num], 0o644])
    here = text if rng.random() < 0.88 else text.replace("\n", "\r\n")
    case["fs"].append(["f", place + "/lists.cmake", b2s(here.encode("utf-8")),
                       0o644])
  picks = []
  for num, place in enumerate(places):
    other = places[num - 1]
    case["fs"].append(["l", place + "/there.cmake", rng.choice(
        [other + "/lists.cmake", "../" + os.path.basename(other) + "/lists.cmake"])])
    picks.append((place + "/lists.cmake", place + "/lists.cmake"))
    picks.append((place + "/there.cmake", other + "/lists.cmake"))
    if rng.random() < 0.3:
      # the directory by another name
      case["fs"].append(["l", root + "/way%d" % num, place])
      picks.append((root + "/way%d/lists.cmake" % num, place + "/lists.cmake"))
      picks.append((root + "/way%d/there.cmake" % num, other + "/lists.cmake"))
  rng.shuffle(picks)
  for name, path in picks[:rng.choice([2, 3, 3, 4])]:
    case["args"].append(name if rng.random() < 0.4 else
                        os.path.relpath(name, case["cwd"]))
    case["files"].append(path)
    case["names"].append(name)
  if rng.random() < 0.5 and not case["explicit"]:
    # only these
    keep = min(len(picks), rng.choice([2, 3]))
    for key in ("args", "files", "names"):
      case[key] = case[key][-keep:]


def functions(rng):
  out = []
  for _ in range(rng.choice([1, 2])):
    words = ["A", "B", "DEEP", "TWO", "THREE", "ZED", "QUIET", "REQUIRED", "Dest",
             "sources", "HEADERS", "COMMAND", "DEPENDS"]
    rng.shuffle(words)
    cut = rng.randint(0, 4)
    two = cut + rng.randint(0, 5)
    out.append("{0}({1} a b)\n  set(_opts {2} DEEP)\n  cmake_parse_arguments("
               "x \"${{_opts}}\" \"ONE;{3}\" \"MANY;{4}\" ${{ARGN}})\n"
               "end{0}()\n".format(
                   rng.choice(["function", "macro"]),
                   rng.choice(["alpha_fn", "BetaFn", "gamma", "_private", "delta"]),
                   " ".join(words[:cut]), ";".join(words[cut:two]),
                   ";".join(words[two:two + rng.randint(0, 4)])))
  return "".join(out)


def spec_of(case, args=None):
  spec = tools.command(case, case["mode"],
                       case["args"] if args is None else args, case["pick"])
  return spec


def variants(case, rng, ctx, tier):
  yield json_copy(case)
  # the same files in other orders
  for _ in range(2 if tier == "quick" else 6):
    sc = json_copy(case)
    order = list(range(len(case["args"])))
    rng.shuffle(order)
    for key in ("args", "files", "names"):
      sc[key] = [case[key][i] for i in order]
    yield sc
  # one file of them cannot be read; portions of reads and writes
  res = ctx.run(World(case["fs"], case["seed"]), [spec_of(case)], ref=True)
  opens = [c for c in calls_of(res) if c.name == "open_r" and
           c.path in case["args"]]
  reads = [c for c in calls_of(res) if c.name == "read" and
           c.path in case["args"]]
  for _ in range(3 if tier == "quick" else 10):
    sc = json_copy(case)
    roll = rng.random()
    if opens and roll < 0.35:
      call = rng.choice(opens)
      sc["faults"] = [{"p": 0, "n": call.n, "k": "err", "only": ["open_r"],
                       "on": call.path,
                       "e": rng.choice(["EIO", "EACCES", "ESTALE", "EMFILE"])}]
    elif reads and roll < 0.6:
      call = rng.choice(reads)
      sc["faults"] = [{"p": 0, "n": call.n, "k": "err", "only": ["read"],
                       "on": call.path,
                       "e": rng.choice(["EIO", "ESTALE"])}]
    elif reads:
      sc["faults"] = [{"p": 0, "n": rng.choice(reads).n + rng.randint(0, 9),
                       "k": rng.choice(["short", "stall"]), "ns": 10**10,
                       "frac": round(rng.random(), 2), "cap": 3000}
                      for _k in range(rng.choice([1, 2, 4]))]
    else:
      continue
    yield sc


class One(object):
  """What a command of its own makes of one of the files."""

  def __init__(self, solo, arg, path):
    self.arg = arg
    self.path = path
    self.ok = solo.ok
    self.code = solo.code
    self.how = solo.how
    self.out = solo.out
    self.err = solo.err
    self.lost = False         # a fault made it unreadable in the batch
    self.hard = False         # the batch may end here


def sequence(case, ctx, lost=None):
  """-> ([One], final file system description).  `lost`: occurrences which a
  fault made unreadable."""
  fs = case["fs"]
  out = []
  for num, (arg, path) in enumerate(zip(case["args"], case["files"])):
    solo = ctx.solo(fs, spec_of(case, [arg]))
    one = One(solo, arg, path)
    if lost and num in lost:
      one.lost, one.ok, one.code, one.out = lost[num], False, 1, b""
    if not one.ok:
      if case["mode"] == "check" and not one.lost:
        # changed and healthy, or not to be formatted at all?
        other = json_copy(case)
        other["mode"] = "format"
        one.hard = not ctx.solo(fs, spec_of(other, [arg])).ok
      elif case["mode"] == "lint" and not one.lost:
        one.hard = not one.out and bool(one.err.strip())
      else:
        one.hard = True
      if case["mode"] in GO_ON and one.hard and readable(case, one) is False:
        one.hard = False
    out.append(one)
    if case["mode"] == "inplace" and one.ok:
      ent = solo.after.get(path)
      old = solo.before.get(path)
      if ent and old and ent[2] != old[2]:
        fs = inplace.with_content(fs, path, ent[2])
  return out, fs


def readable(case, one):
  """False: it cannot be opened or decoded; None: not known."""
  if one.lost:
    # a failure after the opening may end the command
    return False if one.lost == "open_r" else None
  for item in case["fs"]:
    if item[0] == "f" and item[1] == one.path:
      if item[3] == 0:
        return False
      if "\xff\xfe\xfd" in item[2] and not case["options"] and \
          not any("encod" in i[2] for i in case["fs"]
                  if i[0] == "f" and "cmake-format" in i[1]):
        return False
      if one.path.endswith("/wide/x.cmake") and item[2].startswith("set(") and \
          len(item[2]) % 2 and \
          not case["options"] and not case["explicit"] and \
          not one.ok and not one.out and one.err and \
          any(i[1] == one.path[:-7] + ".cmake-format.yaml" and "utf-16" in i[2]
              for i in case["fs"] if i[0] == "f"):
        return False
      return None
    if item[0] == "d" and item[1] == one.path:
      return False
  return False if one.path.endswith("no such file.cmake") else None


def lost_of(case, res):
  """Which occurrence of the arguments a fault has hit."""
  out = {}
  fired = {(f["n"]) for f in res.fired if f["k"] == "err"}
  if not fired:
    return out
  # occurrences in the order in which they are opened
  order = list(case["args"])
  pos = 0
  current = None
  for call in calls_of(res):
    if call.name == "open_r" and call.path in order:
      for idx in range(pos, len(order)):
        if order[idx] == call.path:
          current, pos = idx, idx + 1
          break
    if call.n in fired and current is not None:
      out[current] = call.name
  return out


def merged_specs(case, ones):
  """genparsers: what the single reports amount to."""
  total = {}
  for one in ones:
    if not one.ok:
      continue
    total.update(load_spec(case, one.out))
  return total


def load_spec(case, data):
  text = data.decode("utf-8")
  fmt = case["pick"].get("genfmt", "json")
  if fmt == "json":
    return json.loads(text)
  if fmt == "python":
    return ast.literal_eval(text)
  import yaml
  return yaml.safe_load(text) or {}


def shrinks(case):
  if len(case["args"]) > 1:
    for idx in range(len(case["args"])):
      cand = json_copy(case)
      for key in ("args", "files", "names"):
        del cand[key][idx]
      cand["faults"] = []
      yield cand
  for cand in inplace.shrinks(case):
    yield cand
