"""Generated ctest trees, with a model of what ctest-to has to report."""
NAMES = ["unit", "smoke", "a.b-c", "t_1", "cmake-format-test", "X", "long.name",
         "unit2", "zz", "lib/x", "T.With.Dots"]
# which only cmake since 3.19 has
WIDE_NAMES = ["with space", "x]]y", "plus+c", "a;b", "${x}", "quo\"te", "caf\u00e9",
              "#1", "(p)"]
ARGS = ["/usr/bin/python3", "--flag", "value with space", "a;b;c", "", "x=1",
        "-Bm", "${VAR}", "#hash", "caf\u00e9", "<&>", "(paren)", "100",
        'say "hi"', "C:\\dir\\", "\\\\", "a$b\\n", '"']
PROPS = [("LABELS", ["a", "a;b", "fast;unit;x", "", "unit;fast;a", "b;a;b"]),
         ("TIMEOUT", ["10", "1500", "1.5", "0"]), ("WORKING_DIRECTORY", ["/tmp/x y", "/b"]),
         ("PASS_REGULAR_EXPRESSION", ["ok$", "[0-9]+", "\\.$", 'x"y']),
         ("WILL_FAIL", ["TRUE"]), ("RUN_SERIAL", ["1"]),
         ("_BACKTRACE_TRIPLES", ["/src/CMakeLists.txt;10;add_test;;"]),
         ("ENVIRONMENT", ["A=b;C=d"])]
DIRS = ["sub", "lib", "dir with space", "a-b", "deep", "t", "caf\u00e9"]


def quoted(text):
  """As cmake writes it."""
  for char in "\\\"$":
    text = text.replace(char, "\\" + char)
  return '"' + text + '"'


def unquotable(text):
  return text and all(c not in text for c in ' ()#";$\\') and \
      text.isascii() and not text[0].isdigit()


def bracketed(text):
  """As cmake writes the names of tests, in its later versions."""
  level = "="
  while "]" + level + "]" in text:
    level += "="
  return "[{0}[{1}]{0}]".format(level, text)


def tree(rng):
  """-> case with fs, root, model (list of [name, cwd, argv, props])"""
  modern = rng.random() < 0.4
  spell = bracketed if modern else str
  root = rng.choice(["/b", "/w/build", "/home/user/out dir"])
  fs = [["d", root, None, 0o755]]
  model = []
  dirs = [root]
  files = []
  pending = [(root, 0)]
  while pending:
    here, depth = pending.pop(0)
    lines = ["# CMake generated Testfile for ", "# Source directory: /src",
             "# Build directory: " + here, "# "]
    names = {}
    subs = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
      name = rng.choice(NAMES + (WIDE_NAMES if modern else []))
      if name in names:
        continue
      argv = [rng.choice(ARGS) for _ in range(rng.randint(1, 4))]
      names[name] = [name, here, argv, {}]
      shown = [a if unquotable(a) and rng.random() < 0.4 else quoted(a)
               for a in argv]
      guarded = rng.random() < 0.12
      if guarded:
        # a test of one configuration only
        lines.append('if("${CTEST_CONFIGURATION_TYPE}" MATCHES '
                     '"^([Dd][Ee][Bb][Uu][Gg])$")')
      lines.append("{}({} {})".format(
          rng.choice(["add_test", "add_test", "ADD_TEST"]), spell(name),
          rng.choice([" ", " ", "  "]).join(shown)))
      if rng.random() < 0.6:
        picked = rng.sample(PROPS, rng.randint(1, 3))
        body = []
        for key, vals in picked:
          val = rng.choice(vals)
          names[name][3][key] = val
          body.append("{} {}".format(
              key, val if unquotable(val) and rng.random() < 0.2
              else quoted(val)))
        lines.append("set_tests_properties({} PROPERTIES  {})".format(
            spell(name), " ".join(body)))
      if guarded:
        lines.append("endif()")
      if rng.random() < 0.15:
        lines.append("# a comment")
    if len(names) > 1 and rng.random() < 0.4:
      # one statement for several tests
      val = rng.choice(["both", "x;y"])
      lines.append('set_tests_properties({} PROPERTIES  LABELS "{}")'.format(
          " ".join(spell(name) for name in names), val))
      for item in names.values():
        item[3]["LABELS"] = val
    while names and rng.random() < 0.35:
      # further statements for some of them, which may set something again
      some = rng.sample(sorted(names), rng.randint(1, len(names)))
      body = []
      for key, vals in rng.sample(PROPS, rng.randint(1, 3)):
        val = rng.choice(vals)
        for name in some:
          names[name][3][key] = val
        body.append("{} {}".format(key, quoted(val)))
      lines.append("set_tests_properties({} PROPERTIES {})".format(
          " ".join(spell(name) for name in some), " ".join(body)))
    model += list(names.values())
    if depth < 3:
      for _ in range(rng.choice([0, 0, 1, 1, 2, 3]) if depth else
                     rng.choice([1, 1, 2, 3])):
        path = here + "/" + rng.choice(DIRS)
        if path in dirs:
          continue
        dirs.append(path)
        subs.append(path)
        fs.append(["d", path, None, 0o755])
        pending.append((path, depth + 1))
    spelled = []
    for path in subs:
      text = path[len(here) + 1:] if rng.random() < 0.8 else path
      spelled.append(text if unquotable(text) and rng.random() < 0.5
                     else quoted(text))
    # cycles, repetitions and what does not exist
    if rng.random() < 0.15:
      spelled.append(rng.choice(['".."', '"."', "..", quoted(root)]))
    if rng.random() < 0.08:
      spelled.append('"missing"')
    if subs and rng.random() < 0.1:
      spelled.append(spelled[0])
    if rng.random() < 0.06:
      link = here + "/loop"
      fs.append(["l", link, rng.choice([".", "..", root])])
      spelled.append("loop")
    jump = rng.random() < 0.06
    if jump:
      # a directory next to one which a link leads to
      for part in ("/apart", "/apart/real", "/apart/next"):
        fs.append(["d", here + part, None, 0o755])
      fs.append(["l", here + "/jump", rng.choice(
          ["apart/real", here + "/apart/real"])])
      spelled.append(rng.choice(["jump/../next", '"jump/../next"',
                                 quoted(here + "/jump/../next")]))
      pending.append((here + "/apart/next", 3))
    if spelled and rng.random() < 0.5:
      for text in spelled:
        lines.append("subdirs({})".format(text))
    elif spelled:
      lines.append("subdirs({})".format(" ".join(spelled)))
    if depth and not subs and not jump and rng.random() < 0.06:
      # a directory which was never configured
      model = [m for m in model if m[1] != here]
      continue
    path = here + "/CTestTestfile.cmake"
    text = "\n".join(lines) + "\n"
    if rng.random() < 0.1:
      text = text.replace("\n", "\r\n")
    fs.append(["f", path, text.encode("utf-8").decode("latin-1"), 0o644])
    files.append(path)
  # ".." of the root may be reached: keep it without tests
  cwd = rng.choice([root, "/", "/tmp"])
  arg = root
  if cwd == root:
    arg = rng.choice([".", root, None])
  elif cwd == "/" and rng.random() < 0.5:
    arg = root[1:]
  if rng.random() < 0.2 and arg == root:
    arg = root + "/"
  return {"fs": fs, "root": root, "model": model, "files": files, "cwd": cwd,
          "arg": arg, "fmt": rng.choice(["--json", "--json", "--xml"])}


def spec_of(case):
  argv = [case["fmt"]]
  if case["arg"] is not None:
    argv.append(case["arg"])
  spec = {"tool": "ctest-to", "argv": argv, "cwd": case["cwd"]}
  spec.update(case.get("knobs", {}))
  return spec


def expected(case):
  """Sorted comparable forms of what must be reported."""
  out = []
  for name, cwd, argv, props in case["model"]:
    props = {k: v for k, v in props.items() if not k.startswith("_")}
    shown = {}
    for key, val in props.items():
      if case["fmt"] == "--json":
        if key == "LABELS":
          val = val.split(";")
        if key == "TIMEOUT":
          val = float(val) if "." in val else int(val)
      shown[key.lower()] = val
    out.append((name, cwd, tuple(argv), repr(sorted(shown.items()))))
  return sorted(out)


def reported(case, data):
  """Parse the output; raises ValueError if it is malformed."""
  text = data.decode("utf-8")
  out = []
  if case["fmt"] == "--json":
    import json
    for item in json.loads(text):
      if set(item) != {"name", "argv", "cwd", "props"}:
        raise ValueError("fields {}".format(sorted(item)))
      out.append((item["name"], item["cwd"], tuple(item["argv"]),
                  repr(sorted(item["props"].items()))))
  else:
    import xml.etree.ElementTree as ET
    try:
      root = ET.fromstring(text)
    except ET.ParseError as ex:
      raise ValueError(str(ex))
    for test in root:
      argv, props = (), {}
      for sub in test:
        if sub.tag == "argv":
          argv = tuple(a.get("value") for a in sub)
        elif sub.tag == "labels":
          props["labels"] = ";".join(l.get("value") for l in sub)
      for key, val in test.attrib.items():
        if key not in ("name", "cwd"):
          props[key] = val
      out.append((test.get("name"), test.get("cwd"), argv,
                  repr(sorted(props.items()))))
  return sorted(out)


def canonical(items, kern):
  """`cwd` is how the directory was reached: name the directory itself."""
  import posixpath
  out = []
  for name, cwd, argv, props in items:
    node = kern.lookup(cwd) if cwd.startswith("/") else None
    out.append((name, kern.path_of(node) if node is not None else
                posixpath.normpath(cwd), argv, props))
  return sorted(out)
