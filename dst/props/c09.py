"""C09: the files of one command do not influence each other."""
from ..harness import Violation, brief
from ..sim import World
from . import batch

RULE = ("A case is a command of one of the tools with two to seven files "
        "(repetitions, other configurations per directory, files which fail for "
        "various reasons). Scenarios permute them, make one of them unreadable by "
        "a failing call, or deliver them in portions. The reference is one "
        "command per file, one after the other. Non-trivial: a fault fired; "
        "distinct: hash of the trace.")
CASES = 420
gen = batch.gen
variants = batch.variants
shrinks = batch.shrinks


def check(case, ctx):
  mode = case["mode"]
  world = World(case["fs"], case["seed"])
  spec = batch.spec_of(case)
  spec.update(case["knobs"])
  res = ctx.run(world, [spec], case["faults"])
  prc = res.procs[0]
  log = res.log()
  err = prc.stderr.decode("utf-8", "replace")[-500:]
  if prc.how != "exit":
    return Violation("noexit", "ended by {}".format(prc.how), log)
  lost = batch.lost_of(case, res)
  ones, _ = batch.sequence(case, ctx, lost)
  # where the command may have ended early
  stops = [len(ones)] + [i for i, one in enumerate(ones) if one.hard]
  if mode in batch.GO_ON and not any(one.hard for one in ones):
    stops = [len(ones)]
  reasons = []
  for stop in stops:
    reason = compare(case, ctx, ones, stop, prc, world)
    if reason is None:
      ctx.stats.probe("ended early" if stop < len(ones) else "all processed")
      if len(set(case["args"])) < len(case["args"]):
        ctx.stats.probe("repeated files")
      return None
    reasons.append(reason)
  return Violation("interference", "{} of {} files: {} (status {}: {})".format(
      mode, len(ones), reasons[0], prc.code, err), log)


def compare(case, ctx, ones, stop, prc, world):
  """None if the command did what one command for each of the first `stop`
  files does."""
  mode = case["mode"]
  done = ones[:stop]
  if mode == "genparsers":
    if stop < len(ones):
      return None if not prc.stdout else "output in spite of a failure"
    if not done:
      return None
    try:
      got = batch.load_spec(case, prc.stdout)
    except Exception as ex:
      return "unreadable output {}: {}".format(brief(prc.stdout), ex)
    want = batch.merged_specs(case, done)
    if got != want:
      return "gives {} instead of {}".format(got, want)
    return None
  want = b"".join(one.out for one in done if one.ok or mode == "lint")
  if mode == "lint" and stop < len(ones) and want.startswith(prc.stdout):
    return None    # what it still had in its buffer may be gone
  if prc.stdout != want:
    return "gives {} instead of {}".format(brief(prc.stdout, 400),
                                           brief(want, 400))
  if mode == "inplace":
    sub = dict(case, args=case["args"][:stop], files=case["files"][:stop])
    lost = {i: one.lost for i, one in enumerate(ones[:stop]) if one.lost}
    _, fs = batch.sequence(sub, ctx, lost)
    from ..sim import build_kernel
    kern = build_kernel(fs)
    for path in sorted(set(case["files"])):
      if world.kern.content(path) != kern.content(path):
        return "{} holds {} instead of {}".format(
            path, brief(world.kern.content(path)), brief(kern.content(path)))
  return None
