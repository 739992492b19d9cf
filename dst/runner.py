"""Command line of the checks: seeded search, minimisation, replay, evidence.

  check C01            run the check of one property
  check --replay FILE  run a replay file again
"""
import fcntl
import hashlib
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PYTHON = "/opt/venv/bin/python"
if not os.path.exists(PYTHON):
  PYTHON = sys.executable

# cases per worker shard x workers, and a cap on the wall time (seconds)
BUDGET = {"quick": 1.0, "thorough": 12.0}
CAP = {"quick": 330, "thorough": 3600}
EXIT_BROKEN = 3


def child_env(hashseed):
  env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8",
         "LC_ALL": "C.UTF-8", "PYTHONPATH": HERE + ":" + REPO,
         "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": str(hashseed),
         "PYTHONUTF8": "0", "DST_PAD": str(hashseed), "HOME": os.environ.get("HOME", "/root")}
  for key in ("TMPDIR",):
    if key in os.environ:
      env[key] = os.environ[key]
  return env


def load_prop(prop):
  return importlib.import_module("dst.props." + prop.lower())


# ------------------------------------------------------------------ known findings
def known_findings():
  """known_findings.txt: lines 'known: property=<id> sig=<kind>/<hash> <text>'
  and 'fixed: property=<id> <commit> <text>' (which suppress nothing)."""
  out = []
  path = os.path.join(HERE, "known_findings.txt")
  if os.path.exists(path):
    with open(path, encoding="utf-8") as infile:
      for line in infile:
        if line.startswith("known: "):
          fields = line.split(None, 3)
          out.append({"property": fields[1].split("=", 1)[1],
                      "sig": fields[2].split("=", 1)[1],
                      "text": fields[3].strip() if len(fields) > 3 else ""})
  return out


# ------------------------------------------------------------------------- worker
def shrink(mod, case, vio, ctx_factory, budget_s, max_tries=400):
  start = time.time()
  tries = 0

  def context():
    ctx = ctx_factory()
    if vio.kind == "endless":
      ctx.cpu = 6
    return ctx
  best, best_vio = case, vio
  progress = True
  while progress and time.time() - start < budget_s and tries < max_tries:
    progress = False
    for cand in mod.shrinks(best):
      if time.time() - start > budget_s or tries >= max_tries:
        break
      tries += 1
      try:
        got = mod.check(cand, context())
      except Exception:   # an ill-formed candidate
        continue
      if got is not None and got.kind == best_vio.kind:
        best, best_vio = cand, got
        progress = True
        break
  return best, best_vio, tries


def next_index(counter):
  """The next case to run, of any worker."""
  with open(counter, "r+") as handle:
    fcntl.flock(handle, fcntl.LOCK_EX)
    index = int(handle.read())
    handle.seek(0)
    handle.truncate()
    handle.write(str(index + 1))
    handle.flush()
  return index


def worker_main(argv):
  prop, tier, seed, counter, ncases, cap, outpath = argv
  seed = int(seed)
  ncases, cap = int(ncases), float(cap)
  from . import harness, sim
  # the current directory is a temporary one
  sys.path[:] = [p for p in sys.path if p not in ("", os.getcwd())]
  sim.warm()
  import gc
  mod = load_prop(prop)
  gc.collect()
  gc.freeze()
  start = time.time()
  stats = harness.Stats()
  out = {"violation": None, "error": None, "digests": {}}
  slow = []
  stray = 0
  try:
    while time.time() - start < cap:
      index = next_index(counter)
      if index >= ncases:
        break
      rng = random.Random(sim.h64("case", prop, seed, index))
      case = mod.gen(rng, tier)
      ctx = harness.Ctx(stats)
      stats.cases += 1
      number = 0
      began = time.time()
      for scenario in mod.variants(case, rng, ctx, tier):
        stats.scenarios += 1
        number += 1
        vio = mod.check(scenario, ctx)
        if hasattr(mod, "digest"):
          out["digests"]["{}.{}".format(index, number)] = ctx.digest
        if stats.scenarios in (2, 9):
          stats.samples.append(mod.sample(scenario) if hasattr(mod, "sample")
                               else sample_of(scenario))
        if vio is not None:
          best, best_vio, tries = shrink(
              mod, scenario, vio, harness.Ctx,
              float(os.environ.get("DST_SHRINK_S", "45"))
              if vio.kind != "hang" or prop != "C14" else 0)
          # the minimised scenario must fail again, the same way
          again = mod.check(best, harness.Ctx())
          if again is None or again.kind != best_vio.kind:
            # (an endless one which was only slow)
            best, best_vio = scenario, vio
            again = mod.check(best, harness.Ctx())
          if again is None or again.kind != best_vio.kind:
            # others may; if none does, this is no answer
            out["error"] = "a violation did not replay: case {}: {} {}".format(
                index, best_vio.kind, best_vio.msg)
            stray += 1
            if stray > 3:
              raise StopIteration
            break
          out["violation"] = {"case": best, "violation": best_vio.as_dict(),
                              "index": index, "tries": tries,
                              "pyhash": os.environ.get("PYTHONHASHSEED", "0"),
                              "first": vio.as_dict()["msg"]}
          raise StopIteration
        if time.time() - start > cap:
          break
      slow.append((round(time.time() - began, 2), index))
  except StopIteration:
    pass
  except BaseException:
    out["error"] = traceback.format_exc()
  out["stats"] = stats.as_dict()
  out["wall"] = time.time() - start
  out["slow"] = sorted(slow)[-3:]
  tmp = outpath + ".part"
  with open(tmp, "w", encoding="utf-8") as outfile:
    json.dump(out, outfile)
  os.rename(tmp, outpath)


def sample_of(case):
  text = json.dumps(case)
  if len(text) > 900:
    slim = dict(case)
    if "fs" in slim:
      slim["fs"] = [[i[0], i[1]] for i in slim["fs"]]
    text = json.dumps(slim)[:900]
    return {"case": text}
  return {"case": case}


# ------------------------------------------------------------------------- parent
def merge(parts):
  tot = {"runs": 0, "ref_runs": 0, "steps": 0, "sim_ns": 0, "procs": 0,
         "cases": 0, "scenarios": 0}
  faults, probes = {}, {}
  sigs, nontrivial, samples = set(), set(), []
  for part in parts:
    st = part["stats"]
    for key in tot:
      tot[key] += st[key]
    for key, val in st["faults"].items():
      faults[key] = faults.get(key, 0) + val
    for key, val in st["probes"].items():
      probes[key] = probes.get(key, 0) + val
    sigs.update(st["sigs"])
    nontrivial.update(st["nontrivial"])
    samples += st["samples"]
  return tot, faults, probes, sigs, nontrivial, samples


def run_check(prop, tier, seed, workers=None):
  mod = load_prop(prop)
  workers = workers or int(os.environ.get("DST_WORKERS", "0"))
  nworkers = workers or min(8, os.cpu_count() or 1)
  base = mod.CASES if hasattr(mod, "CASES") else 200
  ncases = int(os.environ.get("DST_CASES", int(base * BUDGET[tier])))
  cap = float(os.environ.get("DST_CAP", CAP[tier]))
  hashseeds = getattr(mod, "HASHSEEDS", [0])
  start = time.time()
  tmpdir = tempfile.mkdtemp(prefix="dst-")
  procs = []
  try:
    nshards = max(1, nworkers // len(hashseeds))
    for hidx, hseed in enumerate(hashseeds):
      counter = os.path.join(tmpdir, "next-%d" % hidx)
      with open(counter, "w") as outfile:
        outfile.write("0")
      for shard in range(nshards):
        outpath = os.path.join(tmpdir, "w%d-%d.json" % (hidx, shard))
        cmd = [PYTHON, "-B", "-m", "dst.runner", "--worker", prop, tier,
               str(seed), counter, str(ncases), str(cap),
               outpath]
        logpath = outpath + ".log"
        with open(logpath, "wb") as log:
          procs.append((subprocess.Popen(
              cmd, cwd=tmpdir, env=child_env(hseed), stdout=log, stderr=log,
              stdin=subprocess.DEVNULL, start_new_session=True), outpath,
                        logpath, hidx, shard))
    parts = {}
    deadline = start + cap + 200
    pending = list(procs)
    found = None
    while pending:
      for item in list(pending):
        if item[0].poll() is not None:
          pending.remove(item)
          if os.path.exists(item[1]):
            with open(item[1], encoding="utf-8") as infile:
              parts[(item[3], item[4])] = json.load(infile)
            if parts[(item[3], item[4])]["violation"]:
              found = parts[(item[3], item[4])]
          else:
            with open(item[2], "rb") as infile:
              tail = infile.read()[-3000:].decode("utf-8", "replace")
            parts[(item[3], item[4])] = {"error": "worker died: " + tail,
                                         "violation": None, "stats": None}
      if found or time.time() > deadline:
        break
      if pending:
        time.sleep(0.05)
    for item in pending:
      kill_group(item[0])
    errors = [p["error"] for p in parts.values() if p["error"]]
    vio = found["violation"] if found else None
    good = [p for p in parts.values() if p.get("stats")]
    if os.environ.get("DST_TIMES"):
      for part in good:
        print("worker: {:.1f} s, slowest cases {}".format(
            part["wall"], part["slow"]))
    if vio is None and hasattr(mod, "cross_check") and not errors:
      vio = mod.cross_check(parts, hashseeds, prop, seed, tier)
    tot, faults, probes, sigs, nontrivial, samples = merge(good)
    if os.environ.get("DST_SIGS"):
      with open(os.environ["DST_SIGS"], "w", encoding="utf-8") as outfile:
        json.dump([sorted(sigs), {k: v for k, v in tot.items()},
                   sorted(probes.items())], outfile, indent=0)
    wall = time.time() - start
    timed_out = vio is None and bool(pending)
    if timed_out and tot["scenarios"] >= 100 and not errors:
      # what they did is not in the statistics
      print("note: {} of {} workers were ended at the time limit".format(
          len(pending), len(procs)))
      timed_out = False
    status = 0
    if vio is not None:
      status = report(prop, seed, tier, vio)
    elif errors or timed_out:
      status = EXIT_BROKEN
      for err in errors[:2]:
        print("HARNESS-ERROR: " + err)
      if timed_out:
        print("HARNESS-ERROR: workers did not finish in time")
    elif tot["runs"] == 0:
      status = EXIT_BROKEN
      print("HARNESS-ERROR: nothing was run")
    write_evidence(mod, prop, tier, seed, tot, faults, probes, sigs,
                   nontrivial, samples, wall, 1 if status == 1 else 0,
                   nworkers, hashseeds)
    print("{}: {} cases, {} scenarios, {} runs (+{} reference), {} faults "
          "fired, {} distinct traces, {:.1f} s".format(
              prop, tot["cases"], tot["scenarios"], tot["runs"],
              tot["ref_runs"], sum(faults.values()), len(sigs), wall))
    return status
  finally:
    for item in procs:
      kill_group(item[0])
    shutil.rmtree(tmpdir, ignore_errors=True)


def kill_group(popen):
  try:
    os.killpg(popen.pid, 9)
  except (ProcessLookupError, PermissionError):
    pass
  try:
    popen.wait(timeout=10)
  except Exception:
    pass


def report(prop, seed, tier, vio):
  kind = vio["violation"]["kind"]
  body = {"property": prop, "seed": seed, "tier": tier,
          "case_index": vio.get("index"), "kind": kind,
          "msg": vio["violation"]["msg"], "case": vio["case"],
          "log": vio["violation"]["log"],
          "hashseeds": vio.get("hashseeds"), "pyhash": vio.get("pyhash", "0")}
  sig = kind + "/" + hashlib.sha1(json.dumps(
      vio["case"], sort_keys=True).encode()).hexdigest()[:12]
  body["sig"] = sig
  for item in known_findings():
    if item["property"] == prop and item["sig"] in (sig,):
      print("KNOWN-FINDING: property={} {}".format(prop, item["text"]))
      return 0
  outdir = os.path.join(HERE, "replays")
  os.makedirs(outdir, exist_ok=True)
  path = os.path.join(outdir, "{}-{}.json".format(prop, sig.replace("/", "-")))
  with open(path, "w", encoding="utf-8") as outfile:
    json.dump(body, outfile, indent=1)
    outfile.write("\n")
  print("violated: " + body["msg"][:2500])
  print("seed {} case {} ({} shrinking attempts)".format(
      seed, vio.get("index"), vio.get("tries")))
  print("VIOLATION property={} replay={}".format(prop, path))
  return 1


REAL = ["cmakelang (all of it, unmodified, from /repo)", "argparse", "logging",
        "json", "PyYAML", "jinja2", "tempfile", "shutil", "posixpath",
        "C io buffering and text layers"]
STUBS = ["system calls (os.*, io.FileIO): in-memory POSIX kernel",
         "clock, sleep, pid, urandom, locale encoding", "terminal, pipes",
         "interpreter start-up and shutdown (exit status, stream flushing)"]


def write_evidence(mod, prop, tier, seed, tot, faults, probes, sigs, nontrivial,
                   samples, wall, violations, nworkers, hashseeds):
  cov = {
      "evaluations": tot["runs"],
      "distinct_nontrivial": len(nontrivial),
      "rule": mod.RULE,
      "samples": samples[:4],
      "cases": tot["cases"], "scenarios": tot["scenarios"],
      "reference_runs": tot["ref_runs"],
      "simulated_processes": tot["procs"],
      getattr(mod, "STEPS_LABEL", "system_calls"): tot["steps"],
      "runs_per_hour": int(tot["runs"] / max(wall, 1e-6) * 3600),
      "seeds_per_hour": int(tot["cases"] / max(wall, 1e-6) * 3600),
      "simulated_seconds": round(tot["sim_ns"] / 1e9, 3),
      "faults_fired": dict(sorted(faults.items())),
      "faults_fired_total": sum(faults.values()),
      "distinct_traces": len(sigs),
      "distinct_measure": "hash of the sequence of (process, system call, path, "
                          "outcome, fault) of a run",
      "probes": dict(sorted(probes.items())),
      "workers": nworkers, "hash_seeds": hashseeds,
      "real_components": getattr(mod, "REAL", REAL),
      "stubbed_components": getattr(mod, "STUBS", STUBS),
  }
  doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
         "coverage": cov,
         "assumptions": getattr(mod, "ASSUMPTIONS", [
             "the simulated kernel's system calls behave like Linux's",
             "sampling: a clean batch is evidence, not proof"]),
         "wall_s": round(wall, 2), "violations": violations}
  outdir = os.path.join(HERE, "evidence")
  os.makedirs(outdir, exist_ok=True)
  path = os.path.join(outdir, prop + ".json")
  with open(path + ".part", "w", encoding="utf-8") as outfile:
    json.dump(doc, outfile, indent=1)
    outfile.write("\n")
  os.rename(path + ".part", path)


def replay(path):
  with open(path, encoding="utf-8") as infile:
    body = json.load(infile)
  hashseeds = body.get("hashseeds")
  if hashseeds and os.environ.get("DST_REPLAY_INNER") is None:
    digests = []
    for hseed in hashseeds:
      env = child_env(hseed)
      env["DST_REPLAY_INNER"] = "1"
      out = subprocess.run([PYTHON, "-B", "-m", "dst.runner", "--replay", path],
                           env=env, stdout=subprocess.PIPE, cwd=HERE)
      digests.append(out.stdout.decode().strip().splitlines()[-1])
    same = len(set(digests)) == 1
    print("\n".join(digests))
    if same:
      print("not reproduced")
      return 0
    print("VIOLATION property={} replay={}".format(body["property"], path))
    return 1
  pyhash = body.get("pyhash") or "0"
  if os.environ.get("PYTHONHASHSEED") != pyhash and not hashseeds:
    return subprocess.call([PYTHON, "-B", "-m", "dst.runner", "--replay", path],
                           env=child_env(pyhash), cwd=HERE)
  from . import harness, sim
  sim.warm()
  mod = load_prop(body["property"])
  ctx = harness.Ctx(keep_log=True)
  vio = mod.check(body["case"], ctx)
  if hashseeds:
    print(ctx.digest)
    return 0
  if vio is None:
    print("not reproduced: the property holds on this scenario")
    return 0
  print("\n".join(vio.log))
  print("violated ({}): {}".format(vio.kind, vio.msg))
  if vio.kind != body["kind"]:
    print("note: recorded as {}".format(body["kind"]))
  print("VIOLATION property={} replay={}".format(body["property"], path))
  return 1


def same_layout():
  """Have the memory of all processes laid out alike (no ASLR), if possible."""
  import ctypes
  libc = ctypes.CDLL(None, use_errno=True)
  now = libc.personality(0xffffffff)
  if now == -1 or now & 0x0040000 or os.environ.get("DST_LAYOUT"):
    return
  if libc.personality(now | 0x0040000) == -1:
    return
  os.environ["DST_LAYOUT"] = "1"
  os.execv(sys.executable, [sys.executable, "-B", "-m", "dst.runner"] +
           sys.argv[1:])


def main():
  argv = sys.argv[1:]
  if not argv or argv[0] != "--worker":
    same_layout()
  if argv and argv[0] == "--worker":
    worker_main(argv[1:])
    return 0
  if argv and argv[0] == "--replay":
    return replay(argv[1])
  prop = argv[0]
  tier = os.environ.get("VERIF_TIER", "quick")
  if len(argv) > 1:
    tier = argv[1]
  seed = int(os.environ.get("VERIF_SEED", "1"))
  print("property {} tier {} seed {}".format(prop, tier, seed), flush=True)
  return run_check(prop, tier, seed)


if __name__ == "__main__":
  sys.exit(main())
