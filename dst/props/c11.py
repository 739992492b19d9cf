"""C11: configuration is applied whole or the run fails; never silently lost."""
import os

from .. import gen as G, project, tools
from ..harness import (ERRNOS, Violation, brief, calls_of, json_copy, knobs)
from ..sim import World, b2s
from . import inplace, resolve

RULE = ("A case is a project with configuration files (nested directories, all "
        "syntaxes, includes, -c) and a command of one of the tools. Scenarios spoil "
        "one of the configuration files which the command uses (unreadable, "
        "malformed, undecodable, a directory, missing or cyclic include), make its "
        "open or reads fail or come in portions, or let an editor replace or "
        "remove it at a random moment of the run. Others are histories of commands "
        "and edits in which a reference model (search, includes, merging, command "
        "line) says which options are in force. Non-trivial: a fault fired or an "
        "editor ran; distinct: hash of the interleaved trace.")
CASES = 340
MODES = ["inplace", "inplace", "inplace", "format", "format", "check", "lint",
         "annotate", "stdin-format", "dump-config", "dump-layout"]
KINDS = {".json": "json", ".yaml": "yaml", ".py": "py"}
BROKEN = {"json": ["{broken: [", "[1, 2", "{\"format\": }", "\x00\x01"],
          "yaml": ["{broken: [", "a: [1, 2\nb: }", "a: b: c: d\n", "\tx: 1\n",
                   "@x: 1\n"],
          "py": ["{broken: [", "format = {\n", "import sys\nsys.nosuch\n", "raise RuntimeError('x')\n",
                 "format = {'line_width': undefined_name}\n", "import nosuch_mod\n",
                 "import sys\nx = 1/0\n"],
          "": ["{broken: [", "a: [1, 2\nb: }\n)", "(: {"]}

# JSON and YAML alike
SHAPES = ["[]", "[1, 2]", "5", "0", "1.5", "\"format\"", "\"\"", "true", "false",
          "[{\"format\": {\"line_width\": 40}}]", "{\"include\": 5}",
          "{\"include\": null}", "{\"include\": true}"]
SECTIONS = ["{\"format\": 5}", "{\"format\": [1]}", "{\"format\": null}",
            "{\"parse\": \"x\"}", "{\"markup\": []}", "{\"lint\": 0}",
            "{\"encode\": false}",
            "{\"parse\": {\"additional_commands\": 5}}",
            "{\"parse\": {\"additional_commands\": {\"foo\": 5}}}"]


def kind_of(path):
  return KINDS.get(os.path.splitext(os.path.basename(path).lstrip("."))[1], "")


def gen(rng, tier):
  if rng.random() < 0.3:
    return resolve.gen(rng, tier)
  for _ in range(50):
    case = project.project(rng, nmin=1, nmax=rng.choice([1, 2, 3, 4]), big=0.0,
                           bystanders=False, configs=1.0, symlinks=0.08,
                           encodings=0.0, hardlinks=0.0, cli=0.25, dirlinks=0)
    if any("cmake-format" in i[1].rsplit("/", 1)[1] for i in case["fs"]
           if i[0] == "f"):
      break
  case["mode"] = rng.choice(MODES)
  case["pick"] = tools.details(rng)
  case["pick"]["bare"] = True
  case["stdin"] = b2s(G.doc_text(rng, uni=False).encode("utf-8"))
  if case["mode"] in ("stdin-format", "dump-config"):
    # the configuration of the working directory
    spots = [os.path.dirname(i[1]) for i in case["fs"] if i[0] == "f" and
             "cmake-format" in i[1].rsplit("/", 1)[1]]
    if spots and rng.random() < 0.85 and case["cwd"] != spots[0]:
      case["cwd"] = spots[0]
      case["args"] = list(case["names"])
  case["knobs"] = knobs(rng, {})
  case["knobs"].pop("umask", None)
  case["seed"] = rng.randint(0, 2**31)
  case["faults"] = []
  case["how"] = "none"
  return case


def spec_of(case, args=None):
  spec = tools.command(case, case["mode"],
                       case["args"] if args is None else args, case["pick"],
                       case["stdin"])
  return spec


def configs(case):
  """paths of what may be a configuration file"""
  return [i[1] for i in case["fs"] if i[0] == "f" and
          i[1] not in case["files"]]


def used_by(case, ctx, args=None, fs=None):
  """The configuration files which a run opens."""
  key = ("used", str(args), str(fs is None))
  res = ctx.run(World(fs or case["fs"], 5), [spec_of(case, args)], ref=True)
  mine = set(configs(case))
  return [p for p in dict.fromkeys(
      os.path.normpath(os.path.join(case["cwd"], c.path))
      for c in calls_of(res) if c.name == "open_r" and c.path) if p in mine], res


def variants(case, rng, ctx, tier):
  if case["how"] == "resolve":
    for sc in resolve.variants(case, rng, ctx, tier):
      yield sc
    return
  used, res = used_by(case, ctx)
  if not used:
    return
  opens = [c for c in calls_of(res) if c.name in ("open_r", "read", "close") and
           c.path and os.path.normpath(os.path.join(case["cwd"], c.path)) in used]
  for _ in range(8 if tier == "quick" else 30):
    sc = json_copy(case)
    sc["seed"] = rng.randint(0, 2**31)
    sc["victim"] = rng.choice(used)
    roll = rng.random()
    if roll < 0.35:
      sc["how"] = "state"
      spoil(rng, sc, len(used) == 1)
    elif roll < 0.55:
      sc["how"] = "fault"
      call = rng.choice(opens)
      fault = {"p": 0, "n": call.n, "only": [call.name], "on": call.path}
      if call.name == "close":
        continue
      if rng.random() < 0.15:
        fault.update(k="nomem")
      else:
        fault.update(k="err", e=rng.choice(ERRNOS[call.name]))
      sc["faults"] = [fault]
    elif roll < 0.65:
      sc["how"] = "portions"
      pos = rng.choice(opens).n
      for _k in range(rng.choice([1, 2, 5])):
        sc["faults"].append({"p": 0, "n": pos, "k": rng.choice(
            ["short", "short", "stall"]), "ns": 10**9, "cap": 60,
                             "frac": round(rng.random(), 2),
                             "only": ["read", "open_r", "stat"]})
        pos += rng.randint(1, 2)
    else:
      sc["how"] = rng.choice(["replace", "replace", "replace", "remove"])
      if case["mode"] in ("stdin-format", "dump-config"):
        continue
      kind = kind_of(sc["victim"])
      values = G.cfg_values(rng)
      body = content(case, sc["victim"])
      if kind == "":
        kind = "json" if body.lstrip().startswith("{") else "yaml"
      if "include" in body:
        continue
      sc["newtext"] = G.cfg_text(rng, values, kind)
      sc["delay"] = rng.randint(0, int(max(1, res.sim_ns) * 1.2))
      for _k in range(rng.choice([0, 1, 2])):
        sc["faults"].append({"p": 0, "n": rng.choice(opens).n - rng.randint(0, 3),
                             "k": "stall", "ns": rng.choice([10**6, 10**8])})
    yield sc


def content(case, path):
  for item in case["fs"]:
    if item[0] == "f" and item[1] == path:
      return item[2]
  return None


def spoil(rng, sc, sole):
  path = sc["victim"]
  item = [i for i in sc["fs"] if i[0] == "f" and i[1] == path][0]
  kind = kind_of(path)
  roll = rng.random()
  if roll < 0.2:
    item[3] = 0o000
    sc["what"] = "unreadable"
  elif roll < 0.4:
    item[2] = rng.choice(BROKEN[kind])
    sc["what"] = "malformed"
  elif roll < 0.52 and kind != "py":
    # well-formed, but no configuration
    shapes = list(SHAPES)
    if sole:
      shapes += SECTIONS
    item[2] = rng.choice(shapes)
    if kind != "json":
      item[2] += "\n"
    sc["what"] = "of another shape: " + item[2].strip()
  elif roll < 0.62:
    item[2] = {"json": "{\"x\": \"\xff\xfe\"}", "yaml": "x: \xff\xfe\n",
               "py": "x = '\xff\xfe'\n", "": "x: \xff\xfe\n"}[kind]
    sc["what"] = "undecodable"
  elif roll < 0.72:
    sc["fs"].remove(item)
    sc["fs"].append(["d", path, None, 0o755])
    sc["what"] = "a directory"
  else:
    name = rng.choice(["no such file.yaml", "missing.json", os.path.basename(path),
                       path, "./" + os.path.basename(path)])
    if kind == "py":
      item[2] = "include = [{!r}]\n".format(
          name.encode("utf-8").decode("latin-1"))
    else:
      import json
      item[2] = json.dumps({"include": [name]}) + "\n"
    sc["what"] = "an include of {!r}".format(name)


def editor(case):
  """Saves the file as editors do, or removes it."""
  victim, text, how = case["victim"], case.get("newtext"), case["how"]

  def main():
    if how == "remove":
      os.unlink(victim)
      return 0
    tmp = victim + ".edit"
    with open(tmp, "wb") as out:
      out.write(text.encode("latin-1"))
    os.rename(tmp, victim)
    return 0
  return {"tool": "editor", "argv": [], "cwd": "/", "func": main, "uid": 0,
          "start": case["delay"]}


def changed_fs(case):
  out = []
  for item in case["fs"]:
    if item[1] == case["victim"]:
      if case["how"] == "remove":
        continue
      item = [item[0], item[1], case["newtext"]] + list(item[3:])
    out.append(item)
  return out


def check(case, ctx):
  if case["how"] == "resolve":
    return resolve.check(case, ctx)
  if case["how"] in ("replace", "remove"):
    return check_edit(case, ctx)
  world = World(case["fs"], case["seed"])
  before = world.kern.snapshot()
  spec = spec_of(case)
  spec.update(case["knobs"])
  res = ctx.run(world, [spec], case["faults"])
  prc = res.procs[0]
  log = res.log()
  err = prc.stderr.decode("utf-8", "replace")
  after = world.kern.snapshot()
  if prc.how != "exit":
    return Violation("noexit", "ended by {}".format(prc.how), log)
  if case["how"] in ("portions", "none"):
    ref = ctx.solo(case["fs"], spec_of(case))
    if (prc.code, prc.stdout) != (ref.code, ref.out):
      return Violation("portions", "configuration delivered in portions: {} {} "
                       "instead of {} {}".format(
                           prc.code, brief(prc.stdout), ref.code,
                           brief(ref.out)), log)
    for path in case["files"]:
      if (after.get(path) or [None] * 3)[2] != \
          (ref.after.get(path) or [None] * 3)[2]:
        return Violation("portions", "configuration delivered in portions: {} "
                         "holds {}".format(path, brief(world.kern.content(path))),
                         log)
    return None
  if case["how"] == "fault" and not res.fired:
    return None
  why = case.get("what") or "{} failed".format(
      ", ".join("{} of {}".format(f["call"], f["path"]) for f in res.fired))
  if prc.code == 0:
    return Violation("ignored", "{}: status 0 although of the configuration in "
                     "force, {} is {}: {}".format(
                         case["mode"], case["victim"], why, err[-400:]), log)
  if not err.strip():
    return Violation("silent", "{}: status {} without a message, {} is {}".format(
        case["mode"], prc.code, case["victim"], why), log)
  # those files whose configuration this is keep their content, and nothing
  # is said about them
  ctx.stats.probe("configuration unusable: " + str(
      case.get("what", "fault")).split(" of ")[0])
  healthy = case.get("healthy")
  for path, arg in zip(case["files"], case["args"]):
    if case["mode"] in ("stdin-format", "dump-config"):
      break
    if after.get(path) is None or before.get(path) is None:
      continue
    if after[path][2] == before[path][2]:
      continue
    # it was formatted: is this configuration one of those it needs?
    solo_spec = spec_of(case, [arg])
    if case["how"] == "state":
      if not ctx.solo(case["fs"], solo_spec).ok:
        return Violation("default", "{}: {} was formatted although {}, which "
                         "configures it, is {}".format(
                             case["mode"], path, case["victim"], why), log)
    want = ctx.solo(case["fs"], solo_spec)
    if want.ok and want.after[path][2] != after[path][2]:
      return Violation("default", "{}: {} was formatted as {} instead of {} while "
                       "{} is {}".format(
                           case["mode"], path, brief(after[path][2]),
                           brief(want.after[path][2]), case["victim"], why), log)
  if len(case["args"]) == 1 and prc.stdout and case["mode"] != "lint":
    return Violation("output", "{}: writes {} although {} is {}".format(
        case["mode"], brief(prc.stdout), case["victim"], why), log)
  if case["mode"] in ("stdin-format",) and prc.stdout:
    return Violation("output", "{}: writes {} although {} is {}".format(
        case["mode"], brief(prc.stdout), case["victim"], why), log)
  return None


def check_edit(case, ctx):
  world = World(case["fs"], case["seed"])
  spec = spec_of(case)
  spec.update(case["knobs"])
  res = ctx.run(world, [spec, editor(case)], case["faults"])
  prc = res.procs[0]
  log = res.log()
  err = prc.stderr.decode("utf-8", "replace")
  if prc.how != "exit" or res.procs[1].code != 0:
    return Violation("noexit", "ended by {} (editor: {})".format(
        prc.how, res.procs[1].code), log)
  mode = case["mode"]
  new = changed_fs(case)
  allowed = []
  for path, arg in zip(case["files"], case["args"]):
    pair = [ctx.solo(case["fs"], spec_of(case, [arg])),
            ctx.solo(new, spec_of(case, [arg]))]
    allowed.append(pair)
  fine = all(s.ok or (mode in ("check", "lint") and s.code == 1)
             for p in allowed for s in p)
  if not fine:
    return None
  if prc.code != 0 and mode not in ("check", "lint"):
    # what was there a moment ago is gone: that it cannot be opened is fair
    if case["how"] == "remove" and err.strip():
      ctx.stats.probe("removed in use")
      for path in case["files"]:
        idx = case["files"].index(path)
        got = world.kern.content(path)
        if got not in [allowed[idx][0].before[path][2]] + [
            s.after[path][2] for s in allowed[idx]]:
          return Violation("mixture", "{} holds {}".format(path, brief(got)), log)
      return None
    return Violation("spurious", "{}: status {} when {} is replaced: {}".format(
        mode, prc.code, case["victim"], err[-400:]), log)
  # some files with the old configuration, the following with the new one
  for cut in range(len(allowed) + 1):
    pick = [p[0] if i < cut else p[1] for i, p in enumerate(allowed)]
    if mode == "inplace":
      if all(world.kern.content(path) == s.after[path][2]
             for path, s in zip(case["files"], pick)):
        break
    elif mode == "check":
      if prc.code == max(s.code for s in pick):
        break
    elif prc.stdout == b"".join(s.out for s in pick):
      break
  else:
    if case["how"] == "remove" and prc.code != 0:
      return None
    return Violation("mixture", "{}: {} was {}d during the run, whose result fits "
                     "neither version: {} {}".format(
                         mode, case["victim"], case["how"], brief(prc.stdout),
                         [brief(world.kern.content(p)) for p in case["files"]]),
                     log)
  ctx.stats.probe("old configuration" if cut == len(allowed) else
                  "new configuration" if cut == 0 else "switched between files")
  return None


def shrinks(case):
  if case["how"] == "resolve":
    for cand in resolve.shrinks(case):
      yield cand
    return
  for idx in range(len(case["faults"])):
    cand = json_copy(case)
    del cand["faults"][idx]
    if case["how"] != "fault":
      yield cand
  if len(case["args"]) > 1:
    for idx in range(len(case["args"])):
      cand = json_copy(case)
      for key in ("files", "names", "args"):
        del cand[key][idx]
      cand["faults"] = []
      if case["how"] != "fault":
        yield cand
  for cand in inplace.shrinks(case):
    if any(i[1] == case.get("victim") for i in cand["fs"]):
      used, _ = used_by(cand, _Plain())
      if case["how"] == "state" or case.get("victim") in used:
        mine = [i for i in cand["fs"] if i[1] == case["victim"]]
        was = [i for i in case["fs"] if i[1] == case["victim"]]
        if mine == was and cand["explicit"] == case["explicit"]:
          yield cand


class _Plain(object):
  def run(self, world, specs, ref=False):
    return world.run(specs)
