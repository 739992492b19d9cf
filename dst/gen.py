"""Generators: listfiles, configurations, directory trees.  All randomness
comes from the random.Random passed in."""
import json
import os

_HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_PIECES = None


def pieces():
  global _PIECES
  if _PIECES is None:
    with open(os.path.join(_HERE, "corpus", "pieces.json"),
              encoding="utf-8") as infile:
      _PIECES = json.load(infile)
  return _PIECES


WORDS = ["foo", "bar", "baz", "alpha", "beta", "gamma", "src/main.cc", "lib.cc",
         "${CMAKE_SOURCE_DIR}/x.cc", "ON", "OFF", "VERSION", "3.10", "a_b_c",
         "$<TARGET_OBJECTS:obj>", "-DFOO=1", "-Wall", "x86_64", "README.md",
         "some/longer/path/to/a/source_file.cxx", "ITEM", "PUBLIC", "PRIVATE"]
UWORDS = ["caf\u00e9", "na\u00efve", "\u00fcber", "stra\u00dfe", "\u00e0"]
CMDS = ["set", "message", "list", "add_library", "add_executable", "project",
        "target_link_libraries", "include", "find_package", "install",
        "my_command", "SET", "Message", "add_custom_command", "string",
        "option", "set_property", "add_test", "file", "another_fn"]
COMMENT_WORDS = ("this is a comment about the build of some library that is "
                 "not very important but wraps when it becomes long").split()


def _arg(rng, uni):
  roll = rng.random()
  if uni and roll < 0.15:
    return '"' + rng.choice(UWORDS) + '"'
  if roll < 0.7:
    return rng.choice(WORDS)
  if roll < 0.8:
    return '"{} {}"'.format(rng.choice(WORDS), rng.choice(WORDS))
  if roll < 0.85:
    return '"esc \\"q\\" \\${x};y"'
  if roll < 0.9:
    return "[[bracket {} arg]]".format(rng.choice(WORDS))
  if roll < 0.95:
    return '"multi\nline {}"'.format(rng.randint(0, 99))
  return str(rng.randint(0, 10000))


def _ws(rng):
  return rng.choice([" ", " ", "  ", "   ", "\n", "\n  ", "\t", " \n\n "])


def statement(rng, uni=False):
  name = rng.choice(CMDS)
  count = rng.choice([0, 1, 1, 2, 3, 4, 6, 9, 14])
  low = name.lower()
  if low in ("set", "option", "find_package", "project", "include"):
    count = max(count, 1)
  args = [_arg(rng, uni) for _ in range(count)]
  if args:
    args[0] = rng.choice(["foo", "BAR", "my_var", "_v%d" % rng.randint(0, 9)])
  if low == "add_custom_command":
    args = ["OUTPUT", "o%d" % rng.randint(0, 9), "COMMAND", "touch"] + args
  if low in ("install",):
    args = ["TARGETS", "foo", "DESTINATION", "lib"]
  if low == "file":
    args = ["WRITE", "f.txt"] + args
  if low == "string":
    args = ["APPEND", "v"] + args
  if low == "list":
    args = ["APPEND", "v"] + args
  if low == "set_property":
    args = ["TARGET", "foo", "PROPERTY", "P"] + args
  if low == "add_test":
    args = ["NAME", "t", "COMMAND", "run"] + args
  body = ""
  for arg in args:
    body += _ws(rng) if body or rng.random() < 0.3 else ""
    body += arg
    if rng.random() < 0.03:
      body += " # trailing {}\n".format(rng.choice(COMMENT_WORDS))
  return "{}{}({}{})".format(
      name, rng.choice(["", "", "", " "]), body,
      rng.choice(["", "", " ", "\n"]))


def comment(rng, uni=False):
  words = [rng.choice(COMMENT_WORDS) for _ in range(rng.randint(1, 24))]
  if uni:
    words.append(rng.choice(UWORDS))
  roll = rng.random()
  if roll < 0.8:
    return "#" + rng.choice(["", " ", "  "]) + " ".join(words)
  if roll < 0.9:
    return "#[[ " + " ".join(words) + " ]]"
  return "# * " + " ".join(words) + "\n# * second\n# * third"


def block(rng, depth, uni):
  kind = rng.choice(["if", "foreach", "function", "macro", "while"])
  head = {"if": "if({} {} {})".format(rng.choice(["A", "NOT A", "DEFINED A"]),
                                      rng.choice(["AND", "OR"]), "B"),
          "foreach": "foreach(x  a b   c)", "function": "function(fn_%d a  b)"
          % rng.randint(0, 99), "macro": "macro( mac_%d )" % rng.randint(0, 99),
          "while": "while( A )"}[kind]
  body = [items(rng, depth + 1, uni) for _ in range(rng.randint(1, 3))]
  mid = ""
  if kind == "if" and rng.random() < 0.4:
    mid = "\nelse()\n" + items(rng, depth + 1, uni)
  return head + "\n" + "\n".join(body) + mid + "\nend" + kind + "()"


def items(rng, depth=0, uni=False):
  roll = rng.random()
  if roll < 0.55:
    return (" " * rng.randint(0, 5)) + statement(rng, uni)
  if roll < 0.75:
    return (" " * rng.randint(0, 3)) + comment(rng, uni)
  if roll < 0.85 and depth < 2:
    return block(rng, depth, uni)
  if roll < 0.9:
    return "\n" * rng.randint(1, 3)
  if depth == 0 and roll < 0.94:
    return "# cmake-format: off\nset(x     y\n   z)\n# cmake-format: on"
  return rng.choice(pieces()).rstrip("\n") if not uni and depth == 0 else \
      statement(rng, uni)


LINT_IDS = ["C0103", "C0111", "C0301", "C0303", "C0305", "C0321", "E0103",
            "E0108", "E1120", "E1122", "R0913", "W0101", "W0105", "W0106",
            "E9999", "X0001", "W", "none", "all", "E0012", "E0011"]
LINT_WORDS = ["enable=C0103", "off", "on", "disable", "reason=because", "x", "y"]
LINT_NAMES = ["CMAKE_cxx_FLAGS", "Cmake_Source_Dir", "foo", "Bar", "_PRIV",
              "BadName", "bad-name", "${x}", "pre_${x}", "cmake_build_type"]
LINT_VALUES = ["${CMAKE_source_dir}", "\"${cmake_cxx_flags} ${Cmake_AR}\"",
               "$CMAKE_AR", "{CMAKE_AR}", "${CMAKE_AR", "\"$foo ${CMAKE_AR\"",
               "\"${CMAKE_AR\"", "plain", "\"x\"", "[[$CMAKE_AR]]"]


def lint_pragma(rng):
  parts = []
  for _ in range(rng.choice([1, 1, 2, 3])):
    if rng.random() < 0.75:
      parts.append("disable=" + ",".join(
          rng.choice(LINT_IDS) for _k in range(rng.choice([1, 1, 2, 3, 5]))))
    else:
      parts.append(rng.choice(LINT_WORDS))
  return "# cmake-lint: " + " ".join(parts)


def lint_item(rng, depth=0):
  """Something that cmake-lint has an opinion about."""
  kind = rng.randrange(12)
  pad = rng.choice(["", "", "  ", "\t", " \t"])
  if kind <= 1:
    return lint_pragma(rng)
  if kind <= 3:
    scope = rng.choice(["", "", " PARENT_SCOPE", " CACHE STRING \"doc\"",
                        " CACHE INTERNAL \"doc\""])
    return pad + "set({} {}{})".format(rng.choice(LINT_NAMES),
                                       rng.choice(LINT_VALUES), scope)
  if kind == 4:
    return pad + "list({} {} {})".format(
        rng.choice(["APPEND", "LENGTH", "GET", "JOIN"]), rng.choice(LINT_NAMES),
        rng.choice(["0 out", "OutVar", "; res"]))
  if kind == 5:
    return "set(a 1) set(b 2)" + rng.choice(["", " ", " \t"])
  if kind == 6:
    return pad + rng.choice(["break()", "continue()", "return()"]) + \
        rng.choice(["", "\nset(after 1)"])
  if kind == 7:
    return "add_custom_command(OUTPUT a OUTPUT b COMMAND touch\n" \
        "  {}\n  DEPENDS x DEPENDS y)".format(
            lint_pragma(rng) if rng.random() < 0.5 else "# note")
  if kind == 8:
    return rng.choice(["set()", "file()", "list(APPEND)", "install(TARGETS)",
                       "add_test()", "string(APPEND)"]) \
        if rng.random() < 0.3 else "message(STATUS \"{}\")".format("m" * 90)
  if depth < 2:
    name = rng.choice(["Fn_%d" % rng.randint(0, 9), "ok_fn", "BADMAC", "mac"])
    args = " ".join(rng.choice(["a", "b", "A", "Arg", "long_name", "\"q\"", "x1"])
                    for _ in range(rng.choice([0, 1, 2, 4, 7])))
    body = "\n".join(lint_item(rng, depth + 1)
                     for _ in range(rng.choice([0, 1, 2, 4])))
    if kind == 9:
      head = rng.choice(["", "# doc\n", "#\n", "# doc\n\n"])
      word = rng.choice(["function", "macro"])
      if rng.random() < 0.3:
        body += "\nforeach(arg ${ARGN})\n" + "\n".join(
            "if(arg STREQUAL \"%d\")\nset(r %d)\nreturn()\nendif()" % (n, n)
            for n in range(rng.choice([1, 3, 7]))) + "\nendforeach()"
      return "{}{}({} {})\n{}\nend{}()".format(head, word, name, args, body, word)
    if kind == 10:
      return "foreach({} a b)\n{}\nendforeach()".format(
          rng.choice(["x", "Item", "ITEM"]), body)
    return "if(A)\n{}\nelse()\n{}\nendif()".format(
        body, lint_item(rng, depth + 1))
  return lint_pragma(rng)


def lint_text(rng):
  """A listfile with much to report, some of it at the same place."""
  out = []
  for _ in range(rng.choice([1, 2, 3, 5, 8])):
    out.append(lint_item(rng) + rng.choice(["", "", "", " ", "  "]) +
               rng.choice(["", "", "", "\n", "\n\n\n"]))
  return "\n".join(out) + rng.choice(["\n", "\n", "\n", ""])


def doc_text(rng, uni=None, big=None, size=None, lint=0.0):
  """A syntactically valid listfile."""
  if lint and rng.random() < lint:
    text = lint_text(rng)
    if rng.random() < 0.4:
      text += doc_text(rng, uni, big, size)
    return text
  if uni is None:
    uni = rng.random() < 0.25
  roll = rng.random()
  if big is None and roll < 0.03:
    return rng.choice(["", "\n", "# only a comment", "\n\n\n"])
  if roll < 0.3 and not big:
    parts = [rng.choice(pieces()) for _ in range(rng.choice([1, 1, 2]))]
    text = "\n".join(parts)
  else:
    count = size or rng.choice([1, 1, 2, 2, 3, 4, 7])
    text = "\n".join(items(rng, 0, uni) for _ in range(count)) + "\n"
  if big:
    filler = []
    total = 0
    serial = rng.randint(0, 10**6)
    while total < big:
      line = "  {:07d} {} {}".format(
          serial, rng.choice(UWORDS) if uni else rng.choice(WORDS), "x" * rng.randint(0, 60))
      serial += 1
      filler.append(line)
      total += len(line) + 1
    roll = rng.random()
    if roll < 0.75:
      # verbatim: cheap to format
      blob = "# cmake-format: off\n#[==[\n" + "\n".join(filler) + \
          "\n]==]\n# cmake-format: on\n"
    elif roll < 0.9 or big > 20000:
      blob = "#[==[\n" + "\n".join(filler) + "\n]==]\n"
    else:
      blob = "set(blob    [==[\n" + "\n".join(filler) + "\n]==])\n"
    text = text + blob + statement(rng, uni) + "\n"
  if rng.random() < 0.1:
    text = text.rstrip("\n")
  if rng.random() < 0.12:
    text = text.replace("\r\n", "\n").replace("\n", "\r\n")
  return text


FRAGMENTS = [
    "(", ")", "()", "\"", "[[", "]]", "[=[", "]=]", "#", "#[[", "\\", "\n",
    "\r\n", "\r", "${", "}", "$", "$<", ">", ";", " ", "\t", "\ufeff", "\0", "\x0c",
    "# cmake-format: off\n", "# cmake-format: on\n", "# cmake-lint: disable=C0103\n",
    "# cmake-format: sort\n", "# * a\n", "# 1. x\n", "# ~~~\n", "# ```\n",
    "####\n", "#----\n", "# cmf:", "if(", "else()", "endif()", "endfunction()",
    "COMMAND", "foreach(x)", "if(NOT (A", "AND", "OR", "NOT", "elseif(", "TARGETS",
    "PROPERTIES", "(A)AND", "AND#", "OR(", "while("]
SEPARATORS = [" ", " ", "\n", "#c\n", " #c\n", "#[[c]]", " #[[c]] ", "\t", "  "]


def tight(rng, depth=0, budget=None):
  """A condition with comments and parentheses in all places.  (The cost of the
  layout grows exponentially with the nesting, hence the budget.)"""
  out = []
  if budget is None:
    budget = [5]
  for num in range(rng.choice([1, 2, 2, 3])):
    if num and budget[0] <= 0:
      break
    budget[0] -= 1
    if num:
      out.append(rng.choice(["AND", "OR", "STREQUAL", "and", "VERSION_LESS"]))
    if rng.random() < 0.2:
      out.append("NOT")
    if depth < 1 and rng.random() < 0.5:
      out.append("(" + tight(rng, depth + 1, budget) + ")")
    else:
      out.append(rng.choice(["A", "B", "DEFINED", "\"x\"", "TARGET", "${v}"]))
  text = out[0]
  for prev, word in zip(out, out[1:]):
    if prev.endswith(")") or word.startswith("("):
      text += rng.choice(["", ""] + SEPARATORS)
    else:
      text += rng.choice(SEPARATORS)
    text += word
  return text + rng.choice(["", "", " ", "#c\n"])


def tight_doc(rng):
  out = []
  for _ in range(rng.choice([1, 1, 2, 3])):
    word = rng.choice(["if", "if", "while"])
    out.append("{}({})\nend{}()".format(word, tight(rng), word))
    out.append("{}({})".format(rng.choice(["install", "add_custom_target", "foo",
                                           "target_link_libraries", "set"]),
                               "".join(rng.choice(
                                   ["TARGETS", "a", "DESTINATION", "ALL", "PUBLIC",
                                    "COMMAND", "(b)", "\"q\""]) +
                                       rng.choice(SEPARATORS)
                                       for _k in range(rng.randint(1, 6)))))
  return "\n".join(out) + "\n"


PUZZLES = ["${", "}", "$", "{", "p", "q", "r", "${p}", "${q}", "${r}", ";", "A"]


# programs whose values form references when they meet
SPIRALS = [
    [("q", "q}q}${${"), ("p", "${${q}p}${q")],
    [("q", "{q}${p}$"), ("p", "p}${pq"), ("q", "${q}${q}"), ("p", "${q}"),
     ("q", "q}${p$${p}")],
    [("p", "p}{"), ("p", "}$${"), ("q", "}${p}${q${q"), ("p", "${q}p}${q}")],
    [("p", "{q}"), ("q", "q}}${${q"), ("p", "q}"), ("q", "p${q}${p}${q}")],
    [("p", "${p}p${p${"), ("q", "}q}"), ("q", "${q}"), ("q", "p}${p}q}$")]]


def damaged(rng, text):
  """A listfile with some random edits, most likely malformed."""
  for _ in range(rng.choice([1, 1, 2, 4, 9])):
    start = rng.randint(0, len(text))
    end = min(len(text), start + rng.choice([0, 0, 1, 1, 3, 20]))
    if rng.random() < 0.75:
      piece = rng.choice(FRAGMENTS)
    else:
      piece = text[rng.randint(0, len(text)):][:rng.choice([1, 5, 40])]
    text = text[:start] + piece + text[end:]
  return text


def puzzle(rng):
  """A function whose variables refer to each other in odd ways."""
  out = ["function(puzzle a)"]
  if rng.random() < 0.4:
    steps = list(rng.choice(SPIRALS))
    if rng.random() < 0.3:
      steps.insert(rng.randint(0, len(steps)), (rng.choice("pqr"), "".join(
          rng.choice(PUZZLES) for _ in range(rng.choice([1, 2, 3])))))
    out += ["  set({} \"{}\")".format(*step) for step in steps]
  for _ in range(rng.choice([3, 4, 5, 7])):
    if rng.random() < 0.75:
      value = rng.choice(["${%s$", "}{%s}", "${%s${%s}", "}${%s$", "{%s}", "$%s",
                          "${%s}{%s}"]).replace("%s", "{0}", 1).replace(
                              "%s", "{1}")
      value = value.replace("{0}", rng.choice("pqr")) if value.count("{0}") else \
          value
      value = value.replace("{1}", rng.choice("pqr"))
    else:
      value = "".join(rng.choice(PUZZLES)
                      for _ in range(rng.choice([1, 2, 3, 4, 5])))
    out.append("  set({} \"{}\")".format(rng.choice("pqr"), value))
  out.append("  cmake_parse_arguments(x \"${p}\" \"${q}\" \"${r}\" ${ARGN})")
  return "\n".join(out) + "\nendfunction()\n"


BAD_DOCS = ["set(a b\n", "foo(bar))\n", "if(a)\nfoo(\n", "set(x \"unterminated\n",
            "message(a\nmessage(b\n", "foo bar\n"]

FNAMES = ["CMakeLists.txt", "a.cmake", "b.cmake", "util.cmake", "Find X.cmake",
          "weird name (1).cmake", "UPPER.CMAKE", "noext", ".hidden.cmake",
          "caf\u00e9.cmake", "x.cmake.in", "-dash.cmake", "a.cmake.bak",
          "n" * 200 + ".cmake", "m" * 249 + ".cmake", "tab\tname.cmake"]


def fname(rng, used):
  for _ in range(50):
    name = rng.choice(FNAMES) if rng.random() < 0.5 else \
        "f%d.cmake" % rng.randint(0, 99)
    if name not in used:
      used.add(name)
      return name
  raise RuntimeError("no name")


# ----------------------------------------------------------------- configuration
def cfg_values(rng):
  """Settings that change the output of most listfiles."""
  out = {}
  fmt = {}
  if rng.random() < 0.6:
    fmt["line_width"] = rng.choice([30, 40, 60, 100, 120])
  if rng.random() < 0.4:
    fmt["tab_size"] = rng.choice([2, 4, 8])
  if rng.random() < 0.3:
    fmt["dangle_parens"] = True
  if rng.random() < 0.3:
    fmt["command_case"] = rng.choice(["upper", "lower", "unchanged"])
  if rng.random() < 0.15:
    fmt["separate_ctrl_name_with_space"] = True
  if rng.random() < 0.15:
    fmt["line_ending"] = rng.choice(["windows", "auto", "unix"])
  if rng.random() < 0.12:
    fmt[rng.choice(["max_subgroups_hwrap", "max_pargs_hwrap", "max_rows_cmdline",
                    "min_prefix_chars", "max_lines_hwrap"])] = \
        rng.choice([0, 1, 3, 8])
  if rng.random() < 0.12:
    fmt[rng.choice(["autosort", "enable_sort", "dangle_parens", "use_tabchars",
                    "separate_fn_name_with_space"])] = rng.choice([True, False])
  if rng.random() < 0.1:
    fmt["keyword_case"] = rng.choice(["upper", "lower", "unchanged"])
  if rng.random() < 0.07:
    fmt["always_wrap"] = rng.choice([["set"], ["message", "list"]])
  if fmt:
    out["format"] = fmt
  if rng.random() < 0.15:
    out["markup"] = {"enable_markup": rng.choice([True, False])}
  elif rng.random() < 0.12:
    out["markup"] = rng.choice([
        {"bullet_char": "+"}, {"enum_char": ")"}, {"first_comment_is_literal": True},
        {"literal_comment_pattern": "^ *this"}, {"canonicalize_hashrulers": False},
        {"hashruler_min_length": 4}, {"explicit_trailing_pattern": "#>"}])
  if rng.random() < 0.16:
    out["parse"] = {"additional_commands": {rng.choice(
        ["my_command", "another_fn", "My_Command"]): rng.choice(
            [{"pargs": 1, "kwargs": {"VERSION": 1, "ITEM": "*"}},
             {"flags": ["PUBLIC", "ON"], "kwargs": {"ITEM": 1, "PRIVATE": "+"}},
             {"pargs": {"nargs": "*", "flags": ["OFF"]}, "spelling": "My_Command"},
             {"kwargs": {"ITEM": {"pargs": "*", "kwargs": {"VERSION": 1}}}}])}}
  elif rng.random() < 0.05:
    out["parse"] = {"vartags": [["FOO", ["cmake_x"]]]}
  if rng.random() < 0.15:
    out["lint"] = rng.choice([
        {"disabled_codes": ["C0103"]}, {"disabled_codes": ["C0301"]},
        {"disabled_codes": []}, {"function_pattern": "[a-z]+"},
        {"argument_var_pattern": "[A-Z]+"}, {"max_statement_spacing": 1},
        {"min_statement_spacing": 2}, {"max_statements": 2}, {"max_branches": 1},
        {"max_conditionals_custom_parser": 0}, {"local_var_pattern": "[A-Z]+"}])
  if rng.random() < 0.05:
    out["misc"] = {"per_command": {rng.choice(["set", "message", "my_command"]):
                                   {"command_case": "upper"}}}
  return out


# a comment in UTF-8, as the file system descriptions have it
NOTE = "# f\u00fcr alle \u2013 etc.".encode("utf-8").decode("latin-1")


def cfg_text(rng, values, kind):
  """Render as 'json', 'yaml' or 'py'."""
  if kind == "json":
    return json.dumps(values, indent=rng.choice([None, 2])) + "\n"
  if kind == "yaml":
    lines = []

    def emit(obj, indent):
      for key, val in obj.items():
        if isinstance(val, dict):
          lines.append("  " * indent + key + ":")
          emit(val, indent + 1)
        else:
          lines.append("  " * indent + key + ": " + json.dumps(val))
    if rng.random() < 0.15:
      lines.append(NOTE)
    emit(values, 0)
    return "\n".join(lines) + "\n"
  lines = [NOTE] if rng.random() < 0.15 else []
  lines += py_lines(values, rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6]))
  return "\n".join(lines) + "\n"


def py_lines(values, style):
  """The ways to write a configuration in python."""
  lines = []
  if style == 0:
    for key, val in values.items():
      lines.append("{} = {!r}".format(key, val))
  elif style in (1, 2):
    # 2: all the way down

    def emit(obj, indent):
      for key, val in obj.items():
        if isinstance(val, dict) and val and (style == 2 or not indent) and \
            all(k.isidentifier() for k in val):
          lines.append("  " * indent + "with section({!r}):".format(key))
          emit(val, indent + 1)
        elif not (isinstance(val, dict) and not indent and not val):
          lines.append("  " * indent + "{} = {!r}".format(key, val))
    emit(values, 0)
  elif style == 3:
    # one after the other, in several passes, by name
    rest = [(key, k, v) for key, val in values.items() if isinstance(val, dict)
            for k, v in val.items()]
    lines += ["{} = {!r}".format(key, val) for key, val in values.items()
              if not isinstance(val, dict)]
    for key, name, val in rest[::2] + rest[1::2]:
      lines += ["push_section({!r})".format(key), "{} = {!r}".format(name, val),
                "pop_section()"]
  elif style == 4:
    # values which are computed, with names of its own
    lines += ["import os", "_here = os.path.dirname(__file__)", "_all = {}"]
    for key, val in values.items():
      if not isinstance(val, dict):
        lines.append("{} = {!r}".format(key, val))
        continue
      lines.append("_all[{!r}] = _values = {!r}".format(key, val))
      lines.append("with section({!r}):".format(key))
      lines += ["  {0} = _values[{0!r}]".format(name) for name in val] or \
          ["  pass"]
  elif style == 6:
    # names of their sections, of outer ones, and of the file itself
    lines += ["with open(__file__, 'rb') as _file:",
              "  _file.read(1)", "_pick = 'global'"]
    for key, val in values.items():
      if not isinstance(val, dict):
        lines.append("{} = {!r}".format(key, val))
        continue
      lines += ["with section({!r}):".format(key.replace("_", "-")),
                "  _pick = {!r}".format(val), "  with section('unrelated'):",
                "    _pick = 'inner'", "    assert _pick == 'inner'"]
      for name, sub in val.items():
        if isinstance(sub, dict) and sub and all(k.isidentifier() for k in sub):
          lines.append("  with section({!r}):".format(name.replace("_", "-")))
          lines += ["    {0} = _pick[{1!r}][{0!r}]".format(k, name) for k in sub]
        else:
          lines.append("  {0} = _pick[{0!r}]".format(name))
    lines.append("assert _pick == 'global'")
  else:
    # sections within which others are open for a moment
    for key, val in values.items():
      if not isinstance(val, dict):
        lines.append("{} = {!r}".format(key, val))
        continue
      lines.append("with section({!r}):".format(key))
      lines.append("  with section('unrelated'):")
      lines.append("    other = 1")
      for name, sub in val.items():
        if isinstance(sub, dict) and sub and all(k.isidentifier() for k in sub):
          lines.append("  with section({!r}):".format(name))
          lines += ["    {} = {!r}".format(k, v) for k, v in sub.items()]
      lines += ["  {} = {!r}".format(name, sub) for name, sub in val.items()
                if not (isinstance(sub, dict) and sub and
                        all(k.isidentifier() for k in sub))] + ["  pass"]
  return lines


CFG_NAMES = [(".cmake-format.yaml", "yaml"), (".cmake-format.json", "json"),
             (".cmake-format.py", "py"), ("cmake-format.py", "py"),
             ("cmake-format.json", "json"), ("cmake-format.yaml", "yaml"),
             (".cmake-format", "yaml"), (".cmake-format", "json")]


def cli_options(rng):
  """Command line configuration options."""
  out = []
  if rng.random() < 0.5:
    out += ["--line-width", str(rng.choice([25, 35, 50, 90]))]
  if rng.random() < 0.3:
    out += ["--tab-size", str(rng.choice([2, 3, 4]))]
  if rng.random() < 0.3:
    out += ["--command-case", rng.choice(["upper", "lower"])]
  if rng.random() < 0.2:
    out += ["--dangle-parens", "true"]
  if rng.random() < 0.1:
    out += ["--line-ending", rng.choice(["windows", "unix", "auto"])]
  return out


def encode(rng, text, enc):
  return text.encode(enc)


MODES = [0o644, 0o644, 0o644, 0o600, 0o755, 0o664, 0o666, 0o444, 0o640, 0o700,
         0o777, 0o400, 0o555, 0o1644, 0o1755]


def sprinkle_bystanders(rng, fs, root, names):
  """Files that a sloppy implementation might trample on."""
  picks = []
  for name in names:
    for suffix in (".cmf-temp", "~", ".bak", ".tmp", ".orig", ".new", ".swp"):
      if rng.random() < 0.12 and len(name) < 200:
        picks.append(name + suffix)
    if rng.random() < 0.08 and len(name) < 200:
      picks.append("." + name + ".swp")
    if rng.random() < 0.08 and len(name) < 200:
      picks.append(".#" + name)
  if rng.random() < 0.3:
    picks.append("README.md")
  have = {item[1] for item in fs}
  for name in picks:
    path = root + "/" + name
    if path in have:
      continue
    have.add(path)
    roll = rng.random()
    if roll < 0.8:
      fs.append(["f", path, "precious %s\n" % name.encode("utf-8").decode("latin-1"),
                 rng.choice([0o644, 0o600, 0o444])])
    elif roll < 0.9:
      fs.append(["l", path, "README.md"])
    else:
      fs.append(["d", path, None, 0o755])
