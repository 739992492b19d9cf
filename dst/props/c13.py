"""C13: the result depends on the inputs only, not on the surroundings."""
import json
import os
import random
import subprocess
import tempfile
import time

from .. import ctest, gen as G, project, sim, tools
from ..harness import Ctx, Violation, brief, json_copy, knobs
from ..sim import World, b2s, h64
from . import batch, inplace

RULE = ("A case is a command of any of the tools over a project. Each case runs in "
        "four interpreters with different hash seeds, whose results must be the "
        "same, and each scenario changes the surroundings: process id, user, "
        "start time and clock, random numbers, locale, terminal, environment, "
        "umask, time stamps and inode numbers of the files, order of directory listings, sizes of transfers, latencies. "
        "Non-trivial: any surroundings changed; distinct: hash of the trace.")
CASES = 220
HASHSEEDS = [0, 1, 42, 31337]
MODES = ["inplace", "format", "format", "check", "lint", "lint", "lint", "annotate",
         "genparsers", "genparsers", "stdin-format", "stdin-lint", "dump-config",
         "dump-parsedb", "dump-layout", "dump-parse", "dump-markup", "dump-lex",
         "out-format", "out-lint", "ctest", "ctest"]
CFG_EXTRA = ["format:\n  autosort: true\n  line_width: 60\n",
             "format:\n  enable_sort: true\n  autosort: true\n",
             "parse:\n  additional_commands:\n    my_command:\n      flags:\n"
             "      - B_FLAG\n      - A_FLAG\n      - C_FLAG\n      kwargs:\n"
             "        ZED: '*'\n        ALPHA: 1\n        MID: '+'\n",
             "lint:\n  disabled_codes: [C0301, C0103]\n  max_statement_spacing: 1\n",
             "# \u00fcber alles\nmarkup:\n  bullet_char: \u2022\n",
             "markup:\n  bullet_char: \u00b7 # ein Punkt\n",
             "markup:\n  bullet_char: \u00b7\n",
             "misc:\n  per_command:\n    foo:\n      line_width: 50\n"]


def gen(rng, tier):
  mode = rng.choice(MODES)
  if mode == "ctest":
    case = ctest.tree(rng)
    case["args"] = case["options"] = case["explicit"] = case["names"] = []
  else:
    case = project.project(rng, nmin=1, nmax=rng.choice([1, 2, 3, 4]), big=0.03,
                           bystanders=False, encodings=0.1,
                           unencodable=0.0,
                           lint=0.8 if mode.endswith("lint") else 0.08)
    if mode == "genparsers":
      for item in case["fs"]:
        if item[0] == "f" and item[1] in case["files"] and rng.random() < 0.8:
          item[2] += batch.functions(rng)
    if rng.random() < 0.35:
      case["fs"].append(["f", "/w/extra.yaml", b2s(rng.choice(CFG_EXTRA).encode(
          "utf-8")), 0o644])
      case["explicit"] = ["-c", "/w/extra.yaml"]
  case["mode"] = mode
  case["pick"] = tools.details(rng)
  if mode.startswith("out-"):
    case["pick"]["out"], case["outpath"] = tools.pick_output(rng, case)
    if mode == "out-format":
      case["args"] = case["args"][:1]
  case["stdin"] = b2s(G.doc_text(
      rng, uni=False, lint=0.7 if mode.endswith("lint") else 0.0).encode("utf-8"))
  case["seed"] = rng.randint(0, 2**31)
  case["knobs"] = {}
  case["faults"] = []
  return case


# Documented by Python itself or by a library, and of no concern here: they are
# varied only as listed below
KNOWN_ENV = ("PYTHON", "LC_", "LANG", "_ARGCOMPLETE", "_ARC", "HOME", "TMP", "TEMP")


def variants(case, rng, ctx, tier):
  # what the program looks at in its environment
  asked = [k for k in ctx.solo(case["fs"], spec_of(dict(case, knobs={}))).asked
           if not k.startswith(KNOWN_ENV)]
  for key in asked:
    ctx.stats.probe("asks for $" + key)
  for num in range(4 if tier == "quick" else 16):
    sc = json_copy(case)
    sc["seed"] = rng.randint(0, 2**31)
    sc["knobs"] = knobs(rng, {})
    sc["knobs"].pop("umask", None)
    if rng.random() < 0.4 and not case["mode"].startswith("out-"):
      sc["knobs"]["umask"] = rng.choice([0o077, 0, 0o027])
    sc["knobs"]["pid"] = rng.choice([2, 77, 4194303, rng.randint(300, 9999)])
    sc["knobs"]["slow"] = rng.choice([1.0, 0.01, 30.0])
    sc["listing"] = rng.choice([0, 1, rng.randint(2, 10**6)])
    sc["stamps"] = rng.randint(0, 10**6) if rng.random() < 0.6 else None
    if rng.random() < 0.4:
      sc["knobs"]["locale"] = rng.choice(["utf-8", "ascii", "latin-1", "cp1252"])
      if not plain(case):
        sc["knobs"]["locale"] = "utf-8"
    env = {}
    for key, vals in (
        ("COLUMNS", ["20", "300"]), ("LINES", ["3"]), ("TZ", ["Asia/Tokyo"]),
        ("TERM", ["dumb", "xterm-256color"]), ("NO_COLOR", ["1"]),
        ("HOME", ["/nonexistent", "/w", "/home/user"]), ("TMPDIR", ["/dev/shm"]),
        ("USER", ["x"]), ("EDITOR", ["vi"]), ("CI", ["true"]),
        ("XDG_CONFIG_HOME", ["/w"]), ("PWD", ["/tmp", "/w"]),
        ("OLDPWD", ["/"]), ("DEBUG", ["1"]), ("VERBOSE", ["1"]),
        ("LANG", ["de_DE.UTF-8"]), ("LC_ALL", ["C"]), ("PYTHONIOENCODING", ["x"]),
        ("CMAKE_FORMAT", ["1"]), ("SHELL", ["/bin/zsh"])):
      if rng.random() < 0.25:
        env[key] = rng.choice(vals)
    for key in asked:
      if key not in env and rng.random() < 0.6:
        env[key] = rng.choice(["1", "1", "true", "0", "50", "", "x", "/w"])
    sc["knobs"]["env"] = env
    for key, vals in (("cpus", [1, 2, 64]), ("host", ["build-7", "localhost"]),
                      ("login", ["root", "jenkins"]),
                      ("bindir", ["/usr/bin/", "./", "/home/user/.local/bin/"])):
      if rng.random() < 0.3:
        sc["knobs"][key] = rng.choice(vals)
    if rng.random() < 0.5:
      sc["knobs"]["tty"] = rng.choice([True, [1], [1], [0], [2], [1, 2], [0, 1]])
      sc["knobs"]["columns"] = rng.choice([30, 200])
    if rng.random() < 0.2:
      sc["faults"] = [{"p": 0, "n": rng.randint(1, 40), "k": "clockjump",
                       "ns": rng.choice([10**9, 10**17])}]
    yield sc


def plain(case):
  """Whether the encoding of the locale may not matter: names are written in it,
  and the reports of ctest-to."""
  if case["mode"] == "ctest":
    return all(str(i[2]).isascii() and str(i[1]).isascii() for i in case["fs"])
  return all(str(i[1]).isascii() and (i[0] == "f" or str(i[2]).isascii())
             for i in case["fs"])


def spec_of(case):
  if case["mode"] == "ctest":
    return ctest.spec_of(case)
  return tools.command(case, case["mode"], case["args"], case["pick"],
                       case["stdin"])


def outcome(snap, prc):
  return [prc.how, prc.code, b2s(prc.stdout),
          [[path, b2s(ent[2]) if isinstance(ent[2], bytes) else str(ent[2])]
           for path, ent in sorted(snap.items())
           if path.startswith(("/w", "/home", "/b"))]]


def check(case, ctx):
  ref = ctx.solo(case["fs"], spec_of(case), seed=11)
  world = World(case["fs"], case["seed"], case.get("listing", 0),
                case.get("stamps"))
  spec = spec_of(case)
  spec.update(case["knobs"])
  res = ctx.run(world, [spec], case["faults"])
  prc = res.procs[0]
  got = outcome(world.kern.snapshot(), prc)

  class Ref(object):
    how, code, stdout = ref.how, ref.code, ref.out or b""
  want = outcome(ref.after, Ref)
  ctx.digest = "%016x" % h64(json.dumps([want, b2s(ref.err)]))
  ctx.stats.probe(case["mode"])
  ctx.stats.nontrivial.add(res.sig())
  if case["knobs"].get("tty") and b"Traceback (" in ref.err:
    # how much of the report there is when the program breaks off may depend on
    # where it goes to: lines are passed on at once to a terminal
    got[2] = want[2]
  if got == want and prc.stderr != ref.err and (
      case["knobs"].get("locale", "utf-8") == "utf-8" or ref.err.isascii()):
    return Violation("messages", "{} with {} listing {}: the messages {} instead "
                     "of {}".format(case["mode"], case["knobs"],
                                    case.get("listing"),
                                    brief(prc.stderr[-600:], 600),
                                    brief(ref.err[-600:], 600)), res.log())
  if got != want:
    what = "status {} {} instead of {} {}".format(*(got[:2] + want[:2]))
    if got[:2] == want[:2]:
      what = "output {} instead of {}".format(brief(got[2], 300),
                                              brief(want[2], 300))
    if got[:3] == want[:3]:
      diff = [a for a, b in zip(got[3], want[3]) if a != b] or \
          [[p[0] for p in got[3]], [p[0] for p in want[3]]]
      what = "the files differ: {}".format(brief(str(diff), 300))
    return Violation("surroundings", "{} with {} listing {}: {} ({})".format(
        case["mode"], case["knobs"], case.get("listing"), what,
        prc.stderr.decode("utf-8", "replace")[-300:]), res.log())
  return None


def digest():
  """Marks this module as one whose digests are compared between workers."""


def digests_of(case, hashseeds):
  """What interpreters with these hash seeds make of the case."""
  from .. import runner
  with tempfile.TemporaryDirectory() as tmpdir:
    path = os.path.join(tmpdir, "case.json")
    with open(path, "w", encoding="utf-8") as outfile:
      json.dump({"property": "C13", "case": case, "kind": "hashseed",
                 "hashseeds": hashseeds}, outfile)
    procs = []
    for hseed in hashseeds:
      env = runner.child_env(hseed)
      env["DST_REPLAY_INNER"] = "1"
      procs.append(subprocess.Popen(
          [runner.PYTHON, "-B", "-m", "dst.runner", "--replay", path], env=env,
          stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=runner.HERE))
    out = []
    for proc in procs:
      text = proc.communicate()[0].decode().strip().splitlines()
      out.append(text[-1] if text else None)
    return out


def cross_check(parts, hashseeds, prop, seed, tier):
  """Compare the digests of the workers; -> violation or None."""
  tables = {}
  for (hidx, _), part in parts.items():
    tables.setdefault(hidx, {}).update(part["digests"])
  bad = None
  for key in sorted(tables[0], key=lambda k: [int(x) for x in k.split(".")]):
    have = {tables[h].get(key) for h in tables if key in tables[h]}
    if len(have) > 1:
      bad = key
      break
  if bad is None:
    return None
  index, number = [int(x) for x in bad.split(".")]
  rng = random.Random(h64("case", prop, seed, index))
  case = gen(rng, tier)
  sim.warm()
  scenario = list(variants(case, rng, Ctx(), tier))[number - 1]
  values = [tables[h].get(bad) for h in range(len(hashseeds))]
  pair = [hashseeds[0]] + [h for h, v in zip(hashseeds, values)
                           if v != values[0]][:1]
  start, tries = time.time(), 0
  progress = True
  while progress and time.time() - start < 45:
    progress = False
    for cand in inplace.shrinks(scenario):
      if time.time() - start > 45:
        break
      tries += 1
      got = digests_of(cand, pair)
      if None not in got and len(set(got)) > 1:
        scenario, progress = cand, True
        break
  return {"case": scenario, "index": index, "tries": tries, "hashseeds": pair,
          "violation": {"kind": "hashseed", "msg": "{}: the result differs "
                        "between interpreters with other hash seeds, memory layouts and "
                        "environments {}".format(
                            scenario["mode"], pair), "detail": {}, "log": []}}


shrinks = inplace.shrinks
