"""C06: --check, -i and standard output agree, over any history."""
import re

from .. import gen as G, project, tools
from ..harness import Violation, brief, json_copy, knobs
from ..sim import World, b2s, s2b
from . import inplace

RULE = ("A case is a project and a history of two to seven steps: --check, -i, "
        "stdout and stdin formatting of subsets of its files, edits of files by "
        "the user, changes of config files, crashes of -i, delays; some runs "
        "under system call faults that a correct program absorbs (stalls, short "
        "transfers). A state machine over the recorded outcomes decides. "
        "Non-trivial: the history has a run after a change; distinct: hash of "
        "the traces.")
CASES = 300
STEPS = ["check", "check", "inplace", "inplace", "format", "stdin", "edit",
         "config", "crash", "touch"]


def gen(rng, tier):
  case = project.project(rng, nmin=1, nmax=rng.choice([1, 2, 3]), big=0.06,
                         encodings=0.25, configs=0.5, symlinks=0.15)
  case["knobs"] = knobs(rng, {})
  for item in case["fs"]:
    # files which are formatted already are the interesting half
    if item[0] == "f" and item[1] in case["files"] and rng.random() < 0.2:
      item[2] = b2s(rng.choice(["", "\n", "set(a b)\n", "# only a comment\n",
                                "set(a b)", "set(a b)\r\n"]).encode())
  steps = []
  for _ in range(rng.choice([2, 3, 4, 5, 6, 7])):
    kind = rng.choice(STEPS)
    which = [i for i in range(len(case["files"])) if rng.random() < 0.6]
    which = which or [rng.randrange(len(case["files"]))]
    step = {"do": kind, "files": which}
    if kind == "edit":
      step["text"] = b2s(rng.choice([
          G.doc_text(rng, uni=False), G.statement(rng) + "\n",
          "set(a b)\n", "set(a b) \n", "set(a b)\r\n", "\tset(a b)\n",
          "set(a b)\n\n", rng.choice(G.BAD_DOCS)]).encode())
      step["append"] = rng.random() < 0.4
      step["files"] = which[:1]
    if kind == "config":
      step["text"] = G.cfg_text(rng, G.cfg_values(rng), "yaml")
    if kind == "crash":
      step["n"] = rng.randint(5, 90)
      step["k"] = rng.choice(["kill_before", "kill_after", "kill_mid"])
    if kind in ("check", "inplace", "format", "stdin"):
      step["soft"] = [{"p": 0, "n": rng.randint(1, 90), "k": rng.choice(
          ["stall", "short", "short"]), "frac": round(rng.random(), 2),
                       "ns": 10**9} for _ in range(rng.choice([0, 0, 0, 1, 3]))]
    steps.append(step)
    if kind == "inplace" and rng.random() < 0.6:
      steps.append({"do": "check", "files": which, "soft": []})
    if kind == "check" and rng.random() < 0.4:
      steps.append({"do": "inplace", "files": which, "soft": []})
  case["steps"] = steps
  case["seed"] = rng.randint(0, 2**31)
  return case


def variants(case, rng, ctx, tier):
  yield case
  for _ in range(2 if tier == "quick" else 6):
    sc = json_copy(case)
    sc["seed"] = rng.randint(0, 2**31)
    rng.shuffle(sc["steps"])
    yield sc


def live_fs(case, kern):
  """The present tree, as a description for reference runs."""
  out = []
  paths = set()
  for item in case["fs"]:
    if item[0] == "f":
      item = [item[0], item[1], b2s(kern.content(item[1]) or b"")] + item[3:]
    if item[0] == "h":
      item = ["f", item[1], b2s(kern.content(item[1]) or b""), 0o644]
    out.append(item)
    paths.add(item[1])
  cfg = case["root"] + "/.cmake-format"
  if cfg not in paths and kern.content(cfg) is not None:
    out.append(["f", cfg, b2s(kern.content(cfg)), 0o644])
  return out


def stamp(kern, path):
  node = kern.lookup(path)
  return (node.ino, node.mtime, bytes(node.data), node.mode) if node else None


def check(case, ctx):
  case["root"] = case["fs"][0][1]
  world = World(case["fs"], case["seed"])
  kern = world.kern
  log = []
  for num, step in enumerate(case["steps"]):
    kind = step["do"]
    kern.now += 10**9
    if kind == "touch":
      kern.now += 86400 * 10**9
      continue
    if kind == "edit":
      path = case["files"][step["files"][0]]
      node = kern.lookup(path)
      old = bytes(node.data) if step.get("append") else b""
      node.data[:] = old + s2b(step["text"])
      continue
    if kind == "config":
      path = case["root"] + "/.cmake-format"
      if kern.lookup(path) is None:
        kern.setup_file(path, s2b(step["text"]))
      else:
        kern.lookup(path).data[:] = s2b(step["text"])
      continue
    args = [case["args"][i] for i in step["files"]]
    paths = [case["files"][i] for i in step["files"]]
    if kind == "crash":
      res = ctx.run(world, [spec_of(case, "inplace", args)],
                    [{"p": 0, "n": step["n"], "k": step["k"], "frac": 0.5}])
      log += ["-- {} crash".format(num)] + res.log()
      continue
    fs = live_fs(case, kern)
    before = {p: stamp(kern, p) for p in case["files"]}
    # what standard output says about each of the files on its own
    texts = []
    for arg in args:
      solo = ctx.solo(fs, spec_of(case, "format", [arg], plain=True))
      texts.append(solo)
    want_ok = all(s.ok for s in texts)
    if kind == "stdin":
      bad = stdin_step(case, ctx, world, fs, step, texts, log, num)
      if bad:
        return bad
      continue
    res = ctx.run(world, [spec_of(case, kind, args)], step.get("soft", []))
    prc = res.procs[0]
    log += ["-- {} {} {}".format(num, kind, paths)] + res.log()
    err = prc.stderr.decode("utf-8", "replace")[-500:]
    after = {p: stamp(kern, p) for p in case["files"]}
    if prc.how != "exit":
      return Violation("noexit", "{} ended by {}".format(kind, prc.how), log)
    same = [p for p, s in zip(paths, texts)
            if s.ok and same_text(case, before[p][2], s.out)]
    for path in case["files"]:
      if path not in paths or kind in ("check", "format"):
        if after[path] != before[path]:
          return Violation("touched", "step {}: {} must not touch {}".format(
              num, kind, path), log)
    if kind == "check":
      # a file would change if its text does
      if want_ok:
        if (prc.code == 0) != (len(same) == len(paths)):
          return Violation("check", "step {}: --check gives {} but standard "
                           "output shows that {} of {} files would change ({})"
                           .format(num, prc.code, len(paths) - len(same),
                                   len(paths), err), log)
      if not want_ok and prc.code == 0:
        return Violation("check", "step {}: --check gives 0 for files which "
                         "cannot be formatted".format(num), log)
      # and -i, now, would agree
      clone = ctx.solo(fs, spec_of(case, "inplace", args, plain=True))
      changed = [p for p in paths if clone.before[p][2] != clone.after[p][2]]
      if clone.ok and one_encoding(case):
        if (prc.code == 0) != (not changed):
          return Violation("check", "step {}: --check gives {} but -i would "
                           "change {}".format(num, prc.code, changed), log)
    elif kind == "inplace":
      if want_ok and prc.code != 0:
        return Violation("status", "step {}: -i gives {} where standard output "
                         "works: {}".format(num, prc.code, err), log)
      for path, solo in zip(paths, texts):
        if not solo.ok or prc.code != 0:
          continue
        # -i leaves a file alone whose text does not change, even where
        # another output encoding is asked for
        if path not in same and paths.count(path) == 1 and \
            nobom(after[path][2]) != nobom(solo.out):
          return Violation("content", "step {}: -i writes {} where standard "
                           "output shows {}".format(
                               num, brief(after[path][2]), brief(solo.out)), log)
        if path in same and after[path][:2] != before[path][:2]:
          return Violation("touched", "step {}: -i rewrote {} although its "
                           "content does not change".format(num, path), log)
      # a check of a run which just succeeded, if the formatter has converged
      if prc.code == 0:
        now = live_fs(case, kern)
        chk = ctx.solo(now, spec_of(case, "check", args, plain=True))
        again = ctx.solo(now, spec_of(case, "inplace", args, plain=True))
        moved = [p for p in paths if again.before[p][2] != again.after[p][2]]
        if again.ok and one_encoding(case) and (chk.code == 0) != (not moved):
          return Violation("check", "step {}: after -i, --check gives {} but "
                           "-i changes {}".format(num, chk.code, moved), log)
        if not moved:
          ctx.stats.probe("converged")
        else:
          ctx.stats.probe("needs a second run")
    elif kind == "format":
      want = b"".join(s.out for s in texts)
      if want_ok and (prc.code != 0 or prc.stdout != want):
        return Violation("stdout", "step {}: the batch on standard output gives "
                         "{} {}, the files on their own {}".format(
                             num, prc.code, brief(prc.stdout), brief(want)), log)
    ctx.stats.probe("step " + kind)
  return None


def same_text(case, old, new):
  """Whether the content `old` of a file says what the output `new` does."""
  enc_in, enc_out = encodings(case)
  try:
    return old.decode(enc_in) == new.decode(enc_out)
  except UnicodeError:
    return False


def one_encoding(case):
  """With two encodings, different text may have the same bytes."""
  enc_in, enc_out = encodings(case)
  return enc_in == enc_out


def encodings(case):
  encs = {"--input-encoding": "utf-8", "--output-encoding": "utf-8"}
  for item in case["fs"]:
    # config files say the same as the command line, or something on their own
    # after the cases were made smaller
    if item[0] == "f" and item[1] not in case["files"]:
      for key in encs:
        word = key[2:].replace("-", "_")
        for enc in ("utf-8-sig", "utf-16", "latin-1", "cp1252"):
          if re.search(word + r"[^a-z0-9]{1,8}" + enc, item[2] or ""):
            encs[key] = enc
  for key in encs:
    if key in case["options"]:
      encs[key] = case["options"][case["options"].index(key) + 1]
  return encs["--input-encoding"], encs["--output-encoding"]


def nobom(data):
  """Python omits the mark of UTF-16 in streams which cannot seek."""
  for mark in (b"\xff\xfe", b"\xef\xbb\xbf"):
    if data.startswith(mark):
      return data[len(mark):]
  return data


def spec_of(case, mode, args, plain=False):
  spec = tools.command(case, mode, args)
  if not plain:
    spec.update(case.get("knobs", {}))
  return spec


def stdin_step(case, ctx, world, fs, step, texts, log, num):
  """The file on standard input, from its directory, formats the same."""
  idx = step["files"][0]
  path = case["files"][idx]
  solo = texts[0]
  cwd = path.rsplit("/", 1)[0]
  sub = dict(case, cwd=cwd)
  data = world.kern.content(path)
  spec = tools.command(sub, "stdin-format", [], None, b2s(data))
  spec.update(case.get("knobs", {}))
  res = ctx.run(world, [spec], step.get("soft", []))
  prc = res.procs[0]
  log += ["-- {} stdin {}".format(num, path)] + res.log()
  if solo.ok != (prc.how == "exit" and prc.code == 0) or (
      solo.ok and prc.stdout != solo.out):
    return Violation("stdin", "step {}: standard input gives {} {}, the file {} "
                     "{} {}".format(num, prc.code, brief(prc.stdout), path,
                                    solo.code, brief(solo.out)), log)
  ctx.stats.probe("step stdin")
  return None


def shrinks(case):
  for idx in range(len(case["steps"])):
    cand = json_copy(case)
    del cand["steps"][idx]
    yield cand
  for idx, step in enumerate(case["steps"]):
    if len(step["files"]) > 1:
      for keep in step["files"]:
        cand = json_copy(case)
        cand["steps"][idx]["files"] = [keep]
        yield cand
    for num in range(len(step.get("soft", []))):
      cand = json_copy(case)
      del cand["steps"][idx]["soft"][num]
      yield cand
    if step.get("text") and step["do"] == "edit":
      cand = json_copy(case)
      cand["steps"][idx]["text"] = "set(a  b)\n"
      yield cand
  for key in ("options", "explicit"):
    if case.get(key):
      cand = json_copy(case)
      cand[key] = []
      yield cand
  if case.get("knobs"):
    cand = json_copy(case)
    cand["knobs"] = {}
    yield cand
  from ..harness import shrink_fs
  for cand in shrink_fs(case):
    yield cand
