"""C17: a dumped configuration stands for the one it was dumped from."""
import ast
import json
import re

from .. import gen as G, options, tools
from ..harness import (ERRNOS, Violation, brief, calls_of, json_copy, knobs)
from ..sim import World, b2s, h64
from . import inplace

RULE = ("A case is a directory whose configuration comes from files found or "
        "given (yaml, json, python; included; old flat style) and from the "
        "command line, a listfile for which its options matter, and a history: "
        "the configuration is dumped, the dump is used as the configuration "
        "file from which the next dump is made, up to three times, by either "
        "tool and in any format, and the last dump is then used by the tools. "
        "Scenarios vary the history and repeat it with failing calls, portions "
        "of writes, kills, locales. Non-trivial: a fault fired or several "
        "dumps; distinct: hash of the traces.")
CASES = 230
EXT = {"yaml": "yaml", "json": "json", "python": "py"}
USES = ["format", "format", "lint", "lint", "check", "inplace", "annotate",
        "dump-config", "dump-config", "dump-layout", "dump-parse",
        "stdin-format", "stdin-lint", "dump-markup", "out-format"]
# texts which are hard to write down
STRINGS = ["\u2022", "\u00b7", "'", "\"", "\\", "a'b\"c", "yes", "null", "1e3", "0x10",
           "~", " ", "{}", "#", "%", "\u20ac\u00fc", "\\n", ": ", "- a", "'''"]
PATTERNS = [r"^\s*([`~]{3}[`~]*)(.*)$", r"[A-Z]{1,3}\d+", r"(?:\\.|[^\\])+", "\u00fc+",
            "very_long_pattern_" * 9, "a b  c   d " * 11, "^#.*\n?$", "(x|y|\"z'|\t)",
            "@[a-z]+", "&x", "*y", "!z", "|", ">", "%s", "{0}", "caf\u00e9 " * 20]
NESTED = ["FOO(, |_)BAR", "a, b", "a,  b,  c, [d], {e}, 'f'", "x: y, z: w", "FOO_.*|" +
          "long words " * 12, "multi\nline, text", "# no, comment", "(?:FOO_, |FOO_).*"]
# which options take any text or any pattern
TEXTS = [("markup", "bullet_char"), ("markup", "enum_char")]
PATS = [("markup", "literal_comment_pattern"), ("markup", "fence_pattern"),
        ("markup", "explicit_trailing_pattern"), ("lint", "function_pattern"),
        ("lint", "macro_pattern"), ("lint", "global_var_pattern"),
        ("lint", "local_var_pattern"), ("lint", "private_var_pattern"),
        ("lint", "argument_var_pattern"), ("lint", "keyword_pattern")]


def values(rng):
  cfg = options.family(rng, 1)[0] if rng.random() < 0.7 else G.cfg_values(rng)
  for key in options.MASKING:
    if rng.random() < 0.7:
      for section in cfg.values():
        section.pop(key, None)
  if rng.random() < 0.35:
    section, name = rng.choice(TEXTS)
    cfg.setdefault(section, {})[name] = rng.choice(STRINGS)
  if rng.random() < 0.3:
    section, name = rng.choice(PATS)
    cfg.setdefault(section, {})[name] = rng.choice(PATTERNS)
  if rng.random() < 0.35:
    # texts within lists and tables
    text = rng.choice(NESTED + PATTERNS[:6] + STRINGS)
    roll = rng.choice(["vartags", "proptags", "per_command", "always_wrap",
                       "spelling", "override"])
    if roll == "per_command":
      cfg.setdefault("misc", {})["per_command"] = {
          "my_command": {"spelling": text}, "Foo": {"command_case": "upper"}}
    elif roll == "spelling":
      cfg.setdefault("parse", {})["additional_commands"] = {
          "My_Command": {"pargs": "*", "spelling": text},
          "Another_Fn": {"kwargs": {text: 1, "ON": "*"}}}
    elif roll == "override":
      cfg.setdefault("parse", {})["override_spec"] = {"foo.spelling": text}
    elif roll == "always_wrap":
      cfg.setdefault("format", {})["always_wrap"] = [text, "set", text + "x"]
    else:
      cfg.setdefault("parse", {})[roll] = [
          [pattern_of(text), ["cmdline"]], ["BAZ.*", ["cmdline"]]]
  if rng.random() < 0.15:
    words = rng.sample(["z", "Z_", "a", "caf\u00e9", "x.y", "A/B", "B1"], 3)
    cfg.setdefault("parse", {})["additional_commands"] = {
        "my_command": {"pargs": {"nargs": rng.choice(["*", 1, "1+"]),
                                 "flags": words[:1]},
                       "kwargs": {words[1]: rng.choice(["*", 0, 3]),
                                  words[2]: {"pargs": 1, "flags": ["Q"]},
                                  "VERSION": 1}}}
  return cfg


def pattern_of(text):
  try:
    re.compile(text)
    return text
  except re.error:
    return "(" + re.escape(text) + "|FOO_BAR)"


def gen(rng, tier):
  root = rng.choice(["/w/proj", "/w/proj", "/w/p r/o-j", "/w/caf\u00e9/x"])
  fs = [["d", root, None, 0o755], ["d", root + "/zone", None, 0o755],
        ["d", "/w/dumps", None, 0o755]]
  cfgs = [values(rng) for _ in range(rng.choice([1, 1, 2]))]
  explicit, paths = [], []
  for num, cfg in enumerate(cfgs):
    if num:
      name, kind = rng.choice([("a.yaml", "yaml"), ("a.json", "json"),
                               ("a.py", "py")])
    else:
      name, kind = rng.choice(G.CFG_NAMES)
    path = root + "/" + name
    paths.append(path)
    if rng.random() < 0.15:
      # the old style: no sections
      flat = {}
      for section in cfg.values():
        flat.update(section)
      cfg = flat
    if rng.random() < 0.2:
      inc = root + "/common-%d.%s" % (num, kind)
      fs.append(["f", inc, text_of(rng, cfg, kind), 0o644])
      cfg = {"include": [inc if rng.random() < 0.3 else inc.rsplit("/", 1)[1]]}
    fs.append(["f", path, text_of(rng, cfg, kind), 0o644])
  if len(paths) > 1:
    explicit = ["-c"] + (paths if rng.random() < 0.7 else paths[1:])
  doc = options.relevant(rng, cfgs)
  if rng.random() < 0.3:
    doc += G.doc_text(rng, uni=rng.random() < 0.2)
  data = b2s(doc.encode("utf-8"))
  for place in (root, root + "/zone"):
    fs.append(["f", place + "/lists.cmake", data, 0o644])
  opts = []
  if rng.random() < 0.4:
    opts = G.cli_options(rng)
    if rng.random() < 0.3:
      opts += rng.choice([["--bullet-char", "+"], ["--enable-markup", "false"],
                          ["--disabled-codes", "C0103", "C0301"],
                          ["--max-statement-spacing", "3"],
                          ["--always-wrap", "set", "install"],
                          ["--autosort"], ["--enum-char", ":"]])
      opts += ["-l", "info"]
  case = {"fs": fs, "root": root, "cwd": root, "explicit": explicit,
          "options": opts, "doc": data, "files": [], "names": [], "args": []}
  case["chain"] = [dump(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
  case["use"] = rng.choice(USES)
  usable(case)
  case["found"] = rng.random() < 0.4
  case["pick"] = tools.details(rng)
  case["uselocale"] = "utf-8"
  case["knobs"] = knobs(rng, {})
  case["knobs"].pop("umask", None)
  case["seed"] = rng.randint(0, 2**31)
  case["faults"] = []
  return case


def usable(case):
  if case["use"] == "annotate" and (case["options"] or
                                    len(case["explicit"]) > 2):
    case["use"] = "lint"


def plain_keys(cfg):
  """Whether YAML takes all of the names as texts, without quotes."""
  if isinstance(cfg, dict):
    return all(re.match("^[A-Za-z][A-Za-z0-9_/.]{2,}$", k) and k.lower() not in
               ("yes", "null", "true", "false") and plain_keys(v)
               for k, v in cfg.items())
  return True


def text_of(rng, cfg, kind):
  if kind == "yaml" and rng.random() < 0.4 or not plain_keys(cfg):
    # (a table may be written as in JSON)
    if kind == "yaml":
      return "".join("{}: {}\n".format(json.dumps(k), json.dumps(v))
                     for k, v in cfg.items())
  if kind in ("json", "yaml"):
    return G.cfg_text(rng, cfg, kind)
  out = G.cfg_text(rng, cfg, kind)
  return b2s(out.encode("utf-8")) if G.NOTE not in out else b2s(
      out.replace(G.NOTE, "# note").encode("utf-8"))


def dump(rng):
  flags = [f for f in ("--no-help", "--no-default") if rng.random() < 0.3]
  return {"tool": rng.choice(["format", "format", "lint"]),
          "fmt": rng.choice(["yaml", "json", "python", "python"]),
          "flags": flags, "locale": "utf-8"}


def ascii_only(case):
  return case["root"].isascii()


def variants(case, rng, ctx, tier):
  yield json_copy(case)
  for _ in range(5 if tier == "quick" else 20):
    sc = json_copy(case)
    sc["seed"] = rng.randint(0, 2**31)
    sc["chain"] = [dump(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    sc["use"] = rng.choice(USES)
    usable(sc)
    sc["found"] = rng.random() < 0.4
    if ascii_only(case) and rng.random() < 0.5:
      for step in sc["chain"]:
        step["locale"] = rng.choice(["ascii", "latin-1", "utf-8", "cp1252"])
      sc["uselocale"] = rng.choice(["ascii", "latin-1", "utf-8", "cp1252"])
    roll = rng.random()
    at = rng.randrange(len(sc["chain"]))
    if roll < 0.3:
      for _k in range(rng.choice([1, 2, 4])):
        sc["faults"].append({"at": at, "p": 0, "n": rng.randint(1, 60),
                             "k": rng.choice(["short", "short", "stall"]),
                             "frac": round(rng.random(), 2), "ns": 10**10,
                             "cap": 3000})
    elif roll < 0.65:
      world = World(sc["fs"] + blanks(sc), sc["seed"])
      calls = []
      for num, step in enumerate(sc["chain"][:at + 1]):
        res = ctx.run(world, [step_spec(sc, num)], ref=True)
        calls = calls_of(res)
      writes = [c for c in calls if c.name in ("write", "close")]
      reads = [c for c in calls if c.name in ("open_r", "read") and
               str(c.path).startswith("/w")]
      if not writes:
        continue
      call = rng.choice(writes[-6:] + reads)
      kind = rng.choice(["err", "err", "err", "kill_before", "kill_after",
                         "sigint_before", "nomem"])
      fault = {"at": at, "p": 0, "n": call.n, "k": kind, "only": [call.name],
               "on": call.path}
      if kind == "err":
        fault["e"] = rng.choice(ERRNOS[call.name])
      sc["faults"].append(fault)
    yield sc


def path_of(case, num):
  step = case["chain"][num]
  ext = EXT[step["fmt"]]
  if case["found"] and num == len(case["chain"]) - 1:
    return case["root"] + "/zone/.cmake-format." + ext
  return "/w/dumps/d%d.%s" % (num, ext)


def blanks(case):
  """What the shell makes of the names that the output is sent to."""
  return [["f", path_of(case, n), "", 0o644]
          for n in range(len(case["chain"]))]


def step_spec(case, num):
  step = case["chain"][num]
  argv = case["explicit"] + ["--dump-config", step["fmt"]] + step["flags"]
  if num:
    argv = ["-c", path_of(case, num - 1), "--dump-config", step["fmt"]] + \
        step["flags"]
  else:
    argv += case["options"]
  spec = {"tool": step["tool"], "argv": argv, "cwd": case["root"],
          "stdout": {"path": path_of(case, num)}, "locale": step["locale"]}
  spec.update(case["knobs"])
  return spec


def use_spec(case, dumped):
  """The command which uses the configuration: as it was, or the dump."""
  sub = {"cwd": case["root"], "explicit": case["explicit"],
         "options": case["options"]}
  if dumped:
    sub["options"] = []
    sub["explicit"] = ["-c", path_of(case, len(case["chain"]) - 1)]
    if case["found"]:
      sub["explicit"] = []
      sub["cwd"] = case["root"] + "/zone"
  pick = dict(case["pick"])
  pick["bare"] = False
  pick["out"] = "out.txt"
  spec = tools.command(sub, case["use"], ["lists.cmake"], pick, case["doc"])
  return spec


def parsed(data, fmt):
  """The values which a dump has."""
  text = data.decode("utf-8")
  if fmt == "json":
    return clean(json.loads(text))
  if fmt == "yaml":
    import yaml
    return clean(yaml.safe_load(text) or {})
  out = {}
  where = [out]

  class Section(object):
    def __init__(self, name):
      self.name = name

    def __enter__(self):
      self.outer = {}
      self.outer.update(glob)
      where.append(self)

    def __exit__(self, *_exc):
      have = {k: v for k, v in glob.items() if k not in self.outer or
              self.outer[k] is not v}
      for key in have:
        if key in self.outer:
          glob[key] = self.outer[key]
        else:
          del glob[key]
      out[self.name] = have
      where.pop()
  glob = {"section": Section, "__builtins__": {}}
  ast.parse(text)
  exec(compile(text, "<dump>", "exec"), glob)  # pylint: disable=exec-used
  return clean(json.loads(json.dumps(out)))


def clean(obj):
  if isinstance(obj, dict):
    out = {str(k): clean(v) for k, v in obj.items()
           if not str(k).startswith("_help")}
    return out
  if isinstance(obj, list):
    return [clean(v) for v in obj]
  return obj


def seen(spec, prc, snap, cwd):
  out = prc.stdout if prc.out is not None else b""
  files = {p[len(cwd):]: ent[2] for p, ent in snap.items()
           if p in (cwd + "/lists.cmake", cwd + "/out.txt") and
           isinstance(ent[2], bytes)}
  return prc.how, prc.code, out, files


def check(case, ctx):
  # what the configuration itself means
  direct = ctx.solo(case["fs"], {
      "tool": "format", "cwd": case["root"],
      "argv": case["explicit"] + ["--dump-config", "json"] + case["options"]})
  if not direct.ok:
    ctx.stats.probe("refused configuration")
    return None
  world = World(case["fs"] + blanks(case), case["seed"])
  log = []
  for num, step in enumerate(case["chain"]):
    faults = [{k: v for k, v in f.items() if k != "at"}
              for f in case["faults"] if f["at"] == num]
    res = ctx.run(world, [step_spec(case, num)], faults)
    log += ["-- dump %d" % num] + res.log()
    prc = res.procs[0]
    harsh = [f for f in res.fired if f["k"] not in ("stall", "short")]
    if prc.how == "hang":
      return Violation("hang", "--dump-config does not end", log)
    if prc.how != "exit" or prc.code != 0:
      if harsh:
        ctx.stats.probe("dump interrupted")
        return None
      return Violation("dump", "dump {} of {} ends with {} {} without a fault: {}"
                       .format(num + 1, step, prc.how, prc.code,
                               prc.stderr.decode("utf-8", "replace")[-400:]), log)
    ctx.stats.probe("dump " + step["fmt"])
    if num:
      ctx.stats.nontrivial.add(res.sig())
  last = case["chain"][-1]
  raw = world.kern.snapshot()[path_of(case, len(case["chain"]) - 1)][2]
  try:
    got = parsed(raw, last["fmt"])
  except Exception as ex:  # pylint: disable=broad-except
    return Violation("unreadable", "the dump {} cannot be read: {!r}: {}".format(
        last, ex, brief(raw, 300)), log)
  if "--no-default" not in last["flags"]:
    # the same as a dump that is made directly
    want = clean(json.loads(direct.out.decode("utf-8")))
    if got != want:
      return Violation("values", "after {}: {}".format(
          [[s["tool"], s["fmt"]] + s["flags"] for s in case["chain"]],
          difference(want, got)), log)
  want_spec, got_spec = use_spec(case, False), use_spec(case, True)
  ref = ctx.solo(case["fs"], want_spec)
  want = seen(want_spec, RefProc(ref), ref.after, case["root"])
  got_spec.update(case["knobs"])
  got_spec["locale"] = case["uselocale"]
  res = ctx.run(world, [got_spec])
  log += ["-- use"] + res.log()
  prc = res.procs[0]
  got = seen(got_spec, prc, world.kern.snapshot(), got_spec["cwd"])
  if case["use"] == "dump-config":
    got = got[:2] + (json.dumps(parsed(got[2], case["pick"]["dumpfmt"]),
                                sort_keys=True), got[3])
    want = want[:2] + (json.dumps(parsed(want[2], case["pick"]["dumpfmt"]),
                                  sort_keys=True), want[3])
  ctx.stats.probe("use " + case["use"])
  ctx.digest = "%016x" % h64(repr(got))
  if got != want:
    return Violation("meaning", "{} with the dump {} gives {} {} {}; with the "
                     "configuration {} {} {}: {}".format(
                         case["use"],
                         [[s["tool"], s["fmt"]] + s["flags"]
                          for s in case["chain"]], got[0], got[1],
                         where(got, want), want[0], want[1], where(want, got),
                         prc.stderr.decode("utf-8", "replace")[-300:]), log)
  return None


class RefProc(object):
  def __init__(self, ref):
    self.how, self.code, self.stdout, self.out = ref.how, ref.code, ref.out, 1


def where(one, two):
  for mine, other in ((one[2], two[2]),
                      (str(sorted(one[3].items())), str(sorted(two[3].items())))):
    if mine != other:
      idx = 0
      while idx < min(len(mine), len(other)) and mine[idx] == other[idx]:
        idx += 1
      return brief(mine[max(0, idx - 60):idx + 100], 200)
  return ""


def difference(want, got, path=""):
  if isinstance(want, dict) and isinstance(got, dict):
    for key in sorted(set(want) | set(got)):
      if want.get(key) != got.get(key) or (key in want) != (key in got):
        if key not in got:
          return "{}.{} is missing (it is {})".format(
              path, key, brief(str(want[key]), 120))
        if key not in want:
          return "{}.{} is new: {}".format(path, key, brief(str(got[key]), 120))
        return difference(want[key], got[key], path + "." + key)
  return "{} is {}, not {}".format(path, brief(str(got), 150),
                                   brief(str(want), 150))


def shrinks(case):
  for num in range(len(case["chain"])):
    if len(case["chain"]) > 1:
      cand = json_copy(case)
      del cand["chain"][num]
      cand["faults"] = []
      yield cand
  for num, step in enumerate(case["chain"]):
    for key, simple in (("flags", []), ("locale", "utf-8"), ("tool", "format"),
                        ("fmt", "yaml")):
      if step[key] != simple:
        cand = json_copy(case)
        cand["chain"][num][key] = simple
        yield cand
  if case["options"]:
    cand = json_copy(case)
    cand["options"] = []
    yield cand
  if case["found"]:
    cand = json_copy(case)
    cand["found"] = False
    yield cand
  if case["uselocale"] != "utf-8":
    cand = json_copy(case)
    cand["uselocale"] = "utf-8"
    yield cand
  for cand in inplace.shrinks(case):
    if cand["fs"] != case["fs"]:
      texts = {i[1]: i[2] for i in cand["fs"] if i[0] == "f"}
      root = case["root"]
      if texts.get(root + "/lists.cmake") != texts.get(
          root + "/zone/lists.cmake") or (root + "/lists.cmake") not in texts:
        continue
      if len(cand["fs"]) != len(case["fs"]) and any(
          a[0] == "d" for a in case["fs"] if a not in cand["fs"]):
        continue
    yield cand
