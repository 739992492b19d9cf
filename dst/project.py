"""Generation of project trees and command lines for the in-place, check and
output properties."""
import os

from . import gen
from .sim import b2s


def arg_for(rng, cwd, path):
  """One of the ways to spell `path` from `cwd`."""
  roll = rng.random()
  if roll < 0.3:
    return path
  rel = os.path.relpath(path, cwd)
  if roll < 0.4:
    rel = "./" + rel
  elif roll < 0.47:
    parent = os.path.basename(os.path.dirname(path))
    rel = os.path.relpath(os.path.dirname(path), cwd) + "/../" + parent + "/" \
        + os.path.basename(path)
    if os.path.dirname(path) == "/":
      rel = path
  if rel.startswith("-"):
    rel = "./" + rel
  return rel


ENCODINGS = [("utf-8", "utf-8")] * 12 + [
    ("latin-1", "latin-1"), ("latin-1", "utf-8"), ("utf-8", "latin-1"),
    ("utf-16", "utf-16"), ("utf-8-sig", "utf-8"), ("utf-8", "utf-8-sig"),
    ("cp1252", "cp1252")]


def project(rng, nmin=1, nmax=4, big=0.1, symlinks=0.15, bystanders=True,
            configs=0.6, cli=0.3, dups=0.0, encodings=0.25, unencodable=0.0,
            special_modes=True, hardlinks=0.08, mixed=True, dirlinks=0.15,
            lint=0.08):
  """-> case with fs, files (canonical paths), names (paths to use), cli, cwd"""
  root = rng.choice(["/w/proj", "/w/proj", "/w/p r/o-j", "/home/user/src",
                     "/w/caf\u00e9/x"])
  subdirs = ["", "/sub", "/sub/deep", "/other", "/build dir"]
  fs = [["d", root, None, 0o755]]
  used = {}
  files, names = [], []
  enc = rng.choice(ENCODINGS) if rng.random() < encodings else ("utf-8", "utf-8")
  if not mixed and enc[0] != enc[1]:
    enc = (enc[0], enc[0]) if enc[0] != "utf-8-sig" else ("utf-8", "utf-8")
  uni = None if enc[0] not in ("ascii",) else False
  count = rng.randint(nmin, nmax)
  options = []
  if rng.random() < cli:
    options = gen.cli_options(rng)
  dirs = [root]
  for _ in range(count):
    sub = root + rng.choice(subdirs[:1] * 3 + subdirs)
    if sub not in dirs:
      dirs.append(sub)
      fs.append(["d", sub, None, rng.choice([0o755, 0o755, 0o775, 0o700])])
    seen = used.setdefault(sub, set())
    name = gen.fname(rng, seen)
    path = sub + "/" + name
    size = None
    if rng.random() < big:
      size = rng.choice([3000, 9000, 12000, 20000, 40000])
    text = gen.doc_text(rng, uni=uni, big=size, lint=lint)
    data = text.encode(enc[0], "replace")
    mode = rng.choice(gen.MODES) if special_modes else 0o644
    fs.append(["f", path, b2s(data), mode])
    files.append(path)
    named = path
    roll = rng.random()
    if roll < symlinks:
      link = sub + "/ln%d.cmake" % len(files)
      target = rng.choice([os.path.basename(path), path,
                           "../" + os.path.basename(sub) + "/" +
                           os.path.basename(path)])
      if rng.random() < 0.3:
        # from another directory, which may have another configuration
        spot = root + rng.choice(subdirs)
        if spot not in dirs:
          dirs.append(spot)
          fs.append(["d", spot, None, 0o755])
        link = spot + "/ln%d.cmake" % len(files)
        target = rng.choice([path, os.path.relpath(path, spot)])
      fs.append(["l", link, target])
      named = link
      if rng.random() < 0.2:
        link2 = root + "/chain%d.cmake" % len(files)
        fs.append(["l", link2, link])
        named = link2
    elif roll < symlinks + hardlinks:
      fs.append(["h", sub + "/hard%d" % len(files), path])
    names.append(named)
  # configuration
  cfgs = []
  values = {}
  explicit = []
  if rng.random() < configs:
    for place in dirs:
      if rng.random() < (0.7 if place == root else 0.25):
        values = gen.cfg_values(rng)
        if enc != ("utf-8", "utf-8"):
          values["encode"] = {"input_encoding": enc[0],
                              "output_encoding": enc[1]}
        elif rng.random() < 0.08:
          values["encode"] = {"emit_byteorder_mark": True}
        name, kind = rng.choice(gen.CFG_NAMES)
        path = place + "/" + name
        if path in [f[1] for f in fs]:
          continue
        if rng.random() < 0.2:
          # through an include
          inc = place + "/common-%d.%s" % (len(cfgs), kind if kind != "py" else "py")
          fs.append(["f", inc, gen.cfg_text(rng, values, kind), 0o644])
          top = {"include": [os.path.basename(inc)]}
          if enc != ("utf-8", "utf-8"):
            top["encode"] = values.get("encode", {})
          values = top
        fs.append(["f", path, gen.cfg_text(rng, values, kind), 0o644])
        cfgs.append(path)
  if enc != ("utf-8", "utf-8"):
    options += ["--input-encoding", enc[0], "--output-encoding", enc[1]]
  if rng.random() < 0.1:
    path = "/w/explicit.yaml"
    fs.append(["f", path, gen.cfg_text(rng, gen.cfg_values(rng), "yaml"), 0o644])
    explicit = ["-c", path]
  if bystanders:
    for place in dirs:
      local = [os.path.basename(f) for f in files
               if os.path.dirname(f) == place]
      gen.sprinkle_bystanders(rng, fs, place, local)
  if rng.random() < 0.15:
    fs.append(["d", "/w/ro", None, 0o555])
  cwd = rng.choice([root, root, "/w", "/", "/home/user", "/tmp"] + dirs)
  have = {item[1] for item in fs}
  if cwd == "/w" and not any(p.startswith("/w/") for p in have):
    cwd = root
  args = [arg_for(rng, cwd, n) for n in names]
  if rng.random() < dirlinks:
    through_dirlink(rng, fs, root, cwd, files, names, args)
  if rng.random() < dups:
    pick = rng.randrange(len(names))
    names.append(names[pick])
    files.append(files[pick])
    args.append(arg_for(rng, cwd, names[pick]))
  return {"fs": fs, "files": files, "names": names, "args": args,
          "options": options, "explicit": explicit, "cwd": cwd}


def through_dirlink(rng, fs, root, cwd, files, names, args):
  """Names one of the files by way of a link to a directory."""
  pick = rng.randrange(len(files))
  path = files[pick]
  if names[pick] != path:
    return
  place, base = os.path.split(path)
  have = {item[1] for item in fs}
  spots = [p for p in [root, root + "/sub", root + "/other", "/w"] if p != place]
  spot = rng.choice(spots)
  if spot not in have and spot != "/w":
    fs.append(["d", spot, None, 0o755])
  link = spot + "/dl%d" % pick
  if rng.random() < 0.3:
    fs.append(["l", link, rng.choice([place, os.path.relpath(place, spot)])])
    tail = "/" + base
  else:
    inner = place + "/zz%d" % pick
    fs.append(["d", inner, None, 0o755])
    fs.append(["l", link, rng.choice([inner, os.path.relpath(inner, spot)])])
    tail = "/../" + base
    # what the name would mean without links
    decoy = spot + "/" + base
    if decoy not in have and rng.random() < 0.8:
      fs.append(["f", decoy, "set(  decoy   1)\n", 0o644])
  head = link if rng.random() < 0.5 else os.path.relpath(link, cwd)
  args[pick] = ("./" if head.startswith("-") else "") + head + tail


def argv(case, mode, args=None):
  """-c takes any number of values, so another option has to follow it."""
  args = case["args"] if args is None else args
  return case["explicit"] + (mode or ["-l", "info"]) + case["options"] + args
