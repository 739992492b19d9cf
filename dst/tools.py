"""Command lines of all the tools over a generated project."""
from . import project


def lint_args(case, args, extra=()):
  return case["explicit"] + ["-l", "info"] + list(extra) + case["options"] + args


def annotate_args(case, args, extra=()):
  explicit = ["-c", case["explicit"][1]] if case["explicit"] else []
  return explicit + list(extra) + args


def genparsers_args(case, args, extra=()):
  return list(extra) + args


READONLY = ["format", "format", "check", "check", "dump-lex", "dump-parse",
            "dump-layout", "dump-markup", "dump-parsedb", "dump-config", "lint",
            "lint", "annotate", "genparsers", "stdin-format", "stdin-lint",
            "stdin-annotate", "stdin-genparsers", "stdin-check"]


def command(case, mode, args, rng_pick=None, stdin=None):
  """-> spec of one process.  `mode` names what it does; see READONLY.
  rng_pick: dict of details chosen when the case was generated."""
  pick = rng_pick or {}
  spec = {"cwd": case["cwd"]}
  if mode.startswith("stdin-"):
    spec["stdin"] = stdin or ""
    mode, args = mode[6:], ["-"]
  if mode == "inplace":
    spec.update(tool="format", argv=project.argv(case, ["-i"], args))
  elif mode == "format":
    spec.update(tool="format", argv=project.argv(case, [], args))
  elif mode == "check":
    spec.update(tool="format", argv=project.argv(case, ["--check"], args))
  elif mode == "dump-config":
    spec.update(tool=pick.get("dumptool", "format"),
                argv=case["explicit"] + ["--dump-config"] +
                [pick.get("dumpfmt", "yaml")] + case["options"])
  elif mode.startswith("dump-"):
    spec.update(tool="format", argv=project.argv(
        case, ["--dump", mode[5:]], args))
  elif mode == "lint":
    spec.update(tool="lint", argv=lint_args(
        case, args, ["--suppress-decorations"] if pick.get("bare") else []))
  elif mode == "annotate":
    spec.update(tool="annotate", argv=annotate_args(
        case, args, ["-f", pick.get("annfmt", "stub")]))
  elif mode == "genparsers":
    spec.update(tool="genparsers", argv=genparsers_args(
        case, args, ["-f", pick.get("genfmt", "json")]))
  elif mode == "out-format":
    spec.update(tool="format", argv=project.argv(
        case, ["-o", pick["out"]], args[:1]))
  elif mode == "out-lint":
    spec.update(tool="lint", argv=lint_args(case, args, ["-o", pick["out"]]))
  elif mode == "out-annotate":
    spec.update(tool="annotate", argv=annotate_args(
        case, args[:1], ["-f", pick.get("annfmt", "stub"), "-o", pick["out"]]))
  elif mode == "out-genparsers":
    spec.update(tool="genparsers", argv=genparsers_args(
        case, args, ["-f", pick.get("genfmt", "json"), "-o", pick["out"]]))
  else:
    raise ValueError(mode)
  return spec


def details(rng):
  return {"dumptool": rng.choice(["format", "format", "lint"]),
          "dumpfmt": rng.choice(["yaml", "json", "python"]),
          "bare": rng.random() < 0.3,
          "annfmt": rng.choice(["page", "stub", "iframe"]),
          "genfmt": rng.choice(["json", "yaml", "python"])}


def pick_output(rng, case):
  """Where -o writes: -> (argument, canonical path).  May add to the tree."""
  root = case["fs"][0][1]
  roll = rng.random()
  if roll < 0.5:
    path = root + "/out put-%d" % rng.randint(0, 99)
  elif roll < 0.8:
    path = root + "/existing.out"
    case["fs"].append(["f", path, "previous output\n" * rng.choice([1, 1, 900]),
                       rng.choice([0o644, 0o600, 0o666])])
  else:
    path = root + "/real.out"
    case["fs"].append(["f", path, "previous\n", 0o640])
    case["fs"].append(["l", root + "/link.out", "real.out"])
    return root + "/link.out", path
  return project.arg_for(rng, case["cwd"], path), path
