"""The part of C11 which decides which configuration is in force: a reference
model of the search, the includes, the merging and the command line, over
histories in which configuration files come, change and go."""
import json
import os

from .. import gen as G, options, tools
from ..harness import Violation, brief, calls_of, json_copy, knobs
from ..sim import World, b2s, s2b
from . import inplace

NAMES = [(".cmake-format", "json"), (".cmake-format", "yaml"),
         (".cmake-format.py", "py"), (".cmake-format.json", "json"),
         (".cmake-format.yaml", "yaml"), ("cmake-format.py", "py"),
         ("cmake-format.json", "json"), ("cmake-format.yaml", "yaml")]
BASES = {n for n, _ in NAMES}
STYLES = [0, 1, 1, 2, 3, 4, 5, 6]
MODES = ["format", "format", "inplace", "inplace", "check", "lint", "lint",
         "dump-config", "dump-layout", "stdin-format", "stdin-lint", "annotate",
         "genparsers", "dump-parse"]
CLI = [("format", "line_width", "--line-width", [25, 35, 50, 90]),
       ("format", "tab_size", "--tab-size", [2, 3, 4]),
       ("format", "command_case", "--command-case", ["upper", "lower"]),
       ("format", "dangle_parens", "--dangle-parens", [True, False]),
       ("format", "line_ending", "--line-ending", ["windows", "unix", "auto"]),
       ("format", "max_pargs_hwrap", "--max-pargs-hwrap", [0, 1, 8]),
       ("format", "autosort", "--autosort", [True, False]),
       ("format", "always_wrap", "--always-wrap", [["set"], ["install", "set"]]),
       ("format", "separate_ctrl_name_with_space",
        "--separate-ctrl-name-with-space", [True]),
       ("markup", "bullet_char", "--bullet-char", ["+"]),
       ("markup", "enable_markup", "--enable-markup", [False]),
       ("lint", "disabled_codes", "--disabled-codes",
        [["C0103"], ["C0301", "C0305"]]),
       ("lint", "max_statement_spacing", "--max-statement-spacing", [0, 4]),
       ("lint", "max_branches", "--max-branches", [0])]
# how a switch is given on the command line
SPELLED = {True: ["true", "true", "yes", "y", "t", "1", "True", "YES", "yup", "yeah"],
           False: ["false", "false", "no", "n", "f", "0", "False", "NO", "nope"]}
# those of the options which have a plain value, as options of the command line;
# (a switch which the table gives one value for has the other one by default)
PLAIN = [(s, k, "--" + k.replace("_", "-"), vs) for s, k, vs in options.OPTIONS
         if k not in ("disable", "require_valid_layout") and
         not isinstance(vs[0], dict) and
         not (isinstance(vs[0], list) and isinstance(vs[0][0], list)) and
         not str(vs[0]).startswith("-")]


def given(rng, one):
  section, key, opt, values = one
  value = rng.choice([v for v in values if not str(v).startswith("-")])
  if not isinstance(value, bool):
    return [section, key, opt, value]
  alone = one in PLAIN and rng.random() < 0.3
  return [section, key, opt, value,
          None if alone else rng.choice(SPELLED[value])]


def gen(rng, tier):
  root = rng.choice(["/w/proj", "/w/proj", "/w/p r/o-j", "/home/user/src"])
  dirs = [root] + [root + d for d in ("/a", "/a/b", "/a/b/c", "/d", "/d/e")]
  count = rng.choice([2, 3, 4, 6])
  family = options.family(rng, count + 6)
  for cfg in family:
    for section in cfg.values():
      for name in ("disable", "require_valid_layout"):
        section.pop(name, None)
  fs = [["d", d, None, 0o755] for d in dirs]
  if rng.random() < 0.5:
    fs.append(["d", root + "/.git", None, 0o755])
  cfgs = {}
  places = dirs + [os.path.dirname(root), "/w"]
  for place in rng.sample(places, count):
    put(rng, cfgs, place, family.pop() if family else {})
    if rng.random() < 0.4:
      includes(rng, cfgs, place, family, root)
  extra = root + "/d/other.yaml"
  cfgs[extra] = {"v": family.pop() if family else {}, "i": [], "kind": "yaml"}
  doc = options.relevant(rng, [c["v"] for c in cfgs.values()])
  if rng.random() < 0.3:
    doc += G.doc_text(rng, uni=False)
  files = []
  for place in rng.sample(dirs, rng.choice([1, 2, 3])):
    path = place + "/" + rng.choice(["x.cmake", "CMakeLists.txt", "y z.cmake"])
    fs.append(["f", path, b2s(doc.encode("utf-8")), 0o644])
    files.append(path)
  names = [[f, f] for f in files]
  for num, path in enumerate(files):
    if rng.random() < 0.5:
      spot = rng.choice(dirs + ["/w"])
      link = "%s/ln%d.cmake" % (spot, num)
      fs.append(["l", link, rng.choice([path, os.path.relpath(path, spot)])])
      names.append([link, path])
    if rng.random() < 0.3:
      spot = rng.choice(["/w", root + "/d", root])
      link = "%s/dl%d" % (spot, num)
      fs.append(["l", link, os.path.dirname(path)])
      names.append([link + "/" + os.path.basename(path), path])
  case = {"how": "resolve", "fs": fs, "cfgs": cfgs, "names": names,
          "files": files, "root": root, "explicit": [], "options": [],
          "stdin": b2s(doc.encode("utf-8")), "pick": tools.details(rng)}
  case["pick"]["bare"] = True
  if rng.random() < 0.2:
    case["flat"] = True
  case["steps"] = steps(rng, case, dirs, family)
  case["knobs"] = knobs(rng, {})
  case["knobs"].pop("umask", None)
  case["seed"] = rng.randint(0, 2**31)
  case["faults"] = []
  return case


def put(rng, cfgs, place, values, name=None):
  name, kind = name or rng.choice(NAMES)
  for path in list(cfgs):
    if os.path.dirname(path) == place and os.path.basename(path) in BASES:
      del cfgs[path]
  cfgs[place + "/" + name] = {"v": values, "i": [], "kind": kind,
                              "style": rng.choice(STYLES)}
  return place + "/" + name


def includes(rng, cfgs, place, family, root):
  """Gives the configuration of `place` one or two includes."""
  top = [p for p in cfgs if os.path.dirname(p) == place and
         os.path.basename(p) in BASES][0]
  for _ in range(rng.choice([1, 1, 2])):
    if not family:
      return
    spot = rng.choice([place, place, root + "/cfg", os.path.dirname(root), root])
    name = "inc%d" % rng.randint(0, 3)
    kind = rng.choice(["yaml", "json", "py"])
    path = "%s/%s.%s" % (spot, name, kind)
    if path in cfgs:
      continue
    cfgs[path] = {"v": family.pop(), "i": [], "kind": kind,
                  "style": rng.choice(STYLES)}
    cfgs[top]["i"].append(path if rng.random() < 0.3 else
                          os.path.relpath(path, place))
    if rng.random() < 0.4 and family:
      # whose own include is relative to it; a decoy is relative to the first
      deep = "%s/deep%d.yaml" % (spot, rng.randint(0, 1))
      if deep not in cfgs:
        cfgs[deep] = {"v": family.pop(), "i": [], "kind": "yaml"}
        cfgs[path]["i"].append("./" * rng.choice([0, 1]) +
                               os.path.basename(deep))
        decoy = place + "/" + os.path.basename(deep)
        if decoy not in cfgs and family and rng.random() < 0.5:
          cfgs[decoy] = {"v": family.pop(), "i": [], "kind": "yaml"}


def steps(rng, case, dirs, family):
  out = []
  cfgs = case["cfgs"]
  for _ in range(rng.choice([1, 2, 3, 4])):
    step = {"mode": rng.choice(MODES), "cwd": rng.choice(dirs + ["/", "/w"])}
    picks = rng.sample(case["names"], min(len(case["names"]),
                                          rng.choice([1, 1, 1, 2])))
    step["args"] = []
    for name, path in picks:
      arg = name
      if rng.random() < 0.6:
        arg = os.path.relpath(name, step["cwd"])
        if rng.random() < 0.2:
          arg = "./" + arg
      step["args"].append([arg, path])
    if rng.random() < 0.2:
      which = rng.sample(sorted(cfgs), min(len(cfgs), rng.choice([1, 2, 3])))
      step["explicit"] = [p if rng.random() < 0.5 else
                          os.path.relpath(p, step["cwd"]) for p in which]
    if rng.random() < 0.4:
      step["cli"] = [given(rng, one) for one in rng.sample(
          rng.choice([CLI, PLAIN]), rng.choice([1, 1, 2, 3]))]
    if out and rng.random() < 0.6:
      # the user edits, adds or removes configuration before it
      place = rng.choice(dirs + ["/w"])
      if rng.random() < 0.5:
        place = os.path.dirname(step["args"][0][1])
      mine = [p for p in cfgs if os.path.dirname(p) == place and
              os.path.basename(p) in BASES]
      values = family.pop() if family else {}
      if mine and rng.random() < 0.5:
        step["edit"] = [mine[0], None]
      elif mine:
        step["edit"] = [mine[0], {"v": values, "i": [], "style": 1,
                                  "kind": cfgs[mine[0]]["kind"]}]
      else:
        name, kind = rng.choice(NAMES)
        step["edit"] = [place + "/" + name,
                        {"v": values, "i": [], "kind": kind, "style": 1}]
    step["soft"] = [{"p": 0, "n": rng.randint(1, 90), "k": rng.choice(
        ["stall", "short", "short"]), "frac": round(rng.random(), 2), "cap": 500,
                     "ns": 10**9} for _ in range(rng.choice([0, 0, 1, 3]))]
    if step["mode"] == "inplace" and rng.random() < 0.2:
      step["crash"] = {"p": 0, "n": rng.randint(5, 90),
                       "k": rng.choice(["kill_before", "kill_after"])}
    out.append(step)
  return out


def text(ent, flat=False):
  """The text of a configuration file."""
  values = dict(ent["v"])
  if flat:
    # the old way, without sections
    values = {k: v for sub in values.values() for k, v in sub.items()}
  style = ent.get("style", 0)
  if ent["kind"] == "json":
    if ent["i"]:
      values["include"] = ent["i"]
    return json.dumps(values, indent=2 if style else None) + "\n"
  if ent["kind"] == "yaml":
    lines = []
    if style == 1:
      lines.append("# settings")
    if ent["i"]:
      lines += ["include:"] + ["- " + json.dumps(i) for i in ent["i"]]
    for section, sub in values.items():
      if flat:
        lines.append(json.dumps(section) + ": " + json.dumps(sub))
        continue
      lines.append(section + ":")
      lines += ["  " + json.dumps(k) + ": " + json.dumps(v)
                for k, v in sub.items()]
      if not sub:
        lines[-1] += " {}"
    return "\n".join(lines) + "\n"
  lines = []
  if ent["i"]:
    lines.append("include = " + repr(ent["i"]))
  lines += G.py_lines(values, 0 if flat else style)
  return "\n".join(lines) + "\n"


def with_configs(case, fs, cfgs):
  out = list(fs)
  have = {i[1] for i in fs if i[0] == "d"} | {"/w", "/home/user", "/"}
  for path in sorted(cfgs):
    place = os.path.dirname(path)
    if place not in have:
      have.add(place)
      out.append(["d", place, None, 0o755])
    out.append(["f", path, b2s(text(cfgs[path], case.get(
        "flat")).encode("utf-8")), 0o644])
  return out


def merge(into, more):
  for key, val in more.items():
    if isinstance(val, dict) and isinstance(into.get(key), dict):
      merge(into[key], val)
    else:
      into[key] = json_copy(val)


def model(cfgs, place, explicit, cwd, cli):
  """The options in force; None: the run has to fail."""
  if explicit:
    queue = [(os.path.normpath(os.path.join(cwd, p)), ()) for p in explicit]
  else:
    queue = []
    while True:
      mine = [p for p in cfgs if os.path.dirname(p) == place and
              os.path.basename(p) in BASES]
      if mine:
        queue = [(mine[0], ())]
        break
      if place == "/":
        break
      place = os.path.dirname(place)
  out = {}
  while queue:
    path, above = queue.pop(0)
    if path not in cfgs or path in above:
      return None
    for name in cfgs[path]["i"]:
      queue.append((os.path.normpath(os.path.join(os.path.dirname(path), name)),
                    above + (path,)))
    merge(out, cfgs[path]["v"])
  for section, key, _, value in [one[:4] for one in cli]:
    out.setdefault(section, {})[key] = value
  return out


def variants(case, rng, ctx, tier):
  yield json_copy(case)
  for _ in range(2 if tier == "quick" else 8):
    sc = json_copy(case)
    sc["seed"] = rng.randint(0, 2**31)
    dirs = [i[1] for i in case["fs"] if i[0] == "d" and ".git" not in i[1]]
    family = options.family(rng, 6)
    for cfg in family:
      for section in cfg.values():
        section.pop("disable", None)
        section.pop("require_valid_layout", None)
    sc["steps"] = steps(rng, sc, dirs, family)
    yield sc


def arguments(step):
  explicit = list(step.get("explicit", []))
  opts = []
  for one in step.get("cli", []):
    opt, value = one[2:4]
    opts.append(opt)
    if len(one) > 4:
      opts += [one[4]] if one[4] is not None else []
      continue
    opts += ([str(v) for v in value] if isinstance(value, list) else
             [str(value).lower() if isinstance(value, bool) else str(value)])
  if opts:
    opts += ["-l", "info"]
  return (["-c"] + explicit if explicit else []), opts


def spec_of(case, step, args):
  explicit, opts = arguments(step)
  sub = {"cwd": step["cwd"], "explicit": explicit, "options": opts}
  return tools.command(sub, step["mode"], args, case["pick"], case["stdin"])


def usable(step):
  """annotate has no options and a single configuration file, genparsers has
  none at all."""
  if step["mode"] in ("annotate", "genparsers"):
    if step.get("cli") or len(step.get("explicit", [])) > 1:
      return False
    if step["mode"] == "genparsers" and step.get("explicit"):
      return False
  return True


def check(case, ctx):
  cfgs = json_copy(case["cfgs"])
  world = World(with_configs(case, case["fs"], cfgs), case["seed"])
  kern = world.kern
  log = []
  done = 0
  for num, step in enumerate(case["steps"]):
    kern.now += 2 * 10**9
    if step.get("edit"):
      path, ent = step["edit"]
      if ent is not None:
        # one of several in a directory is not for this model to choose
        for other in sorted(cfgs):
          if other != path and os.path.basename(other) in BASES and \
              os.path.dirname(other) == os.path.dirname(path):
            apply_edit(ctx, world, other, None)
            del cfgs[other]
      apply_edit(ctx, world, path, ent, case.get("flat"))
      if ent is None:
        cfgs.pop(path, None)
      else:
        cfgs[path] = ent
    if not usable(step):
      continue
    args = [a for a, _ in step["args"]]
    paths = [p for _, p in step["args"]]
    mode = step["mode"]
    local = mode.startswith("stdin-") or mode == "dump-config"
    spec = spec_of(case, step, args)
    spec.update(case["knobs"])
    base = []
    for item in case["fs"]:
      if item[0] == "f":
        item = [item[0], item[1], b2s(kern.content(item[1]))] + item[3:]
      base.append(item)
    faults = list(step.get("soft", []))
    if step.get("crash"):
      res = ctx.run(world, [spec], faults + [step["crash"]])
      log += ["-- {} {} killed".format(num, mode)] + res.log()
      continue
    res = ctx.run(world, [spec], faults)
    prc = res.procs[0]
    log += ["-- {} {} {}".format(num, mode, args)] + res.log()
    err = prc.stderr.decode("utf-8", "replace")[-500:]
    wants = []
    bad = False
    for arg, path in [[args[0], step["cwd"]]] if local else zip(args, paths):
      place = path if local else os.path.dirname(path)
      values = model(cfgs, place, step.get("explicit"), step["cwd"],
                     step.get("cli", []))
      if values is None:
        bad = True
        break
      ref_step = {"mode": mode, "cwd": step["cwd"],
                  "explicit": ["/w/model.json"]}
      ref_case = dict(case)
      if mode == "genparsers":
        ref_step.pop("explicit")
      wants.append((path, values, ctx.solo(
          base + [["f", "/w/model.json", json.dumps(values), 0o644]],
          spec_of(ref_case, ref_step, [arg]))))
    if bad:
      # a removed include: the run fails
      if prc.how == "exit" and prc.code == 0:
        return Violation("ignored", "step {}: {} gives status 0 although an "
                         "included file is missing".format(num, mode), log)
      continue
    if not all(w.ok or (mode in ("check", "lint", "stdin-lint") and w.code == 1)
               for _, _, w in wants):
      ctx.stats.probe("refused")
      continue
    done += 1
    if done > 1:
      ctx.stats.nontrivial.add(res.sig())
    ctx.stats.probe("resolved " + mode)
    got = [prc.how, prc.code, prc.stdout]
    want = ["exit", max(w.code for _, _, w in wants),
            b"".join(w.out for _, _, w in wants)]
    if mode == "dump-config" and case["pick"].get("dumpfmt") != "python":
      got[2] = canon(got[2], case)
      want[2] = canon(want[2], case)
    if mode == "lint":
      got[2], want[2] = sorted(got[2].split(b"\n")), sorted(want[2].split(b"\n"))
    if mode == "inplace":
      for path, values, ref in wants:
        if paths.count(path) > 1:
          continue
        have, should = kern.content(path), ref.after[path][2]
        if have != should:
          return Violation("resolution", "step {}: {} of {} gives {}; with the "
                           "options {} it is {}: {}".format(
                               num, mode, path, brief(have, 200),
                               brief(str(values), 300), brief(should, 200),
                               err), log)
    if len(set(paths)) < len(paths) and mode == "inplace":
      continue
    if mode == "genparsers" and len(wants) > 1:
      continue
    if got != want:
      return Violation("resolution", "step {}: {} {} in {} gives {} {} {}; with "
                       "the options {} it is {} {} {}: {}".format(
                           num, mode, spec["argv"], step["cwd"], got[0], got[1],
                           apart(got[2], want[2]),
                           brief(str([v for _, v, _ in wants]), 300), want[0],
                           want[1], apart(want[2], got[2]), err), log)
  return None


def canon(data, case):
  if case["pick"]["dumpfmt"] == "json":
    obj = json.loads(data.decode("utf-8"))
  else:
    import yaml
    obj = yaml.safe_load(data.decode("utf-8"))
  return json.dumps(obj, sort_keys=True)


def apart(one, two):
  one, two = str(one), str(two)
  idx = 0
  while idx < min(len(one), len(two)) and one[idx] == two[idx]:
    idx += 1
  return brief(one[max(0, idx - 60):idx + 120], 200)


def apply_edit(ctx, world, path, ent, flat=False):
  data = None if ent is None else text(ent, flat).encode("utf-8")

  def main():
    if data is None:
      try:
        os.unlink(path)
      except OSError:
        pass
      return 0
    with open(path, "wb") as out:
      out.write(data)
    return 0
  ctx.run(world, [{"tool": "editor", "argv": [], "cwd": "/", "func": main,
                   "uid": 0}], ref=True)


def shrinks(case):
  for num in range(len(case["steps"])):
    if len(case["steps"]) > 1:
      cand = json_copy(case)
      del cand["steps"][num]
      yield cand
  for num, step in enumerate(case["steps"]):
    for key in ("soft", "crash", "edit", "explicit", "cli"):
      if step.get(key):
        cand = json_copy(case)
        del cand["steps"][num][key]
        yield cand
    if len(step["args"]) > 1:
      for keep in step["args"]:
        cand = json_copy(case)
        cand["steps"][num]["args"] = [keep]
        yield cand
  for path in sorted(case["cfgs"]):
    cand = json_copy(case)
    del cand["cfgs"][path]
    yield cand
    for section in case["cfgs"][path]["v"]:
      cand = json_copy(case)
      del cand["cfgs"][path]["v"][section]
      yield cand
    if case["cfgs"][path]["i"]:
      cand = json_copy(case)
      cand["cfgs"][path]["i"].pop()
      yield cand
  if case["knobs"]:
    cand = json_copy(case)
    cand["knobs"] = {}
    yield cand
  used = {os.path.normpath(os.path.join(s["cwd"], a)) for s in case["steps"]
          for a, _ in s["args"]}
  for idx, item in enumerate(case["fs"]):
    if item[0] == "f":
      parts = item[2].split("\n\n")
      if len(parts) > 1:
        for num in range(len(parts)):
          cand = json_copy(case)
          cand["fs"][idx][2] = "\n\n".join(parts[:num] + parts[num + 1:])
          yield cand
    elif item[0] == "l" and not any(u.startswith(item[1]) for u in used):
      cand = json_copy(case)
      del cand["fs"][idx]
      yield cand
