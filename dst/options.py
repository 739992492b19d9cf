"""Every configuration option with values that matter, and listfiles on which
they do (tools/options_matter.py verifies that)."""
from .harness import json_copy

OPTIONS = [
    ("format", "disable", [True]),
    ("format", "line_width", [30, 45, 60, 100]),
    ("format", "tab_size", [3, 4, 8]),
    ("format", "use_tabchars", [True]),
    ("format", "fractional_tab_policy", ["round-up"]),
    ("format", "max_subgroups_hwrap", [0, 1, 6]),
    ("format", "max_pargs_hwrap", [1, 3, 12]),
    ("format", "max_rows_cmdline", [1, 6]),
    ("format", "separate_ctrl_name_with_space", [True]),
    ("format", "separate_fn_name_with_space", [True]),
    ("format", "dangle_parens", [True]),
    ("format", "dangle_align", ["prefix-indent", "child"]),
    ("format", "min_prefix_chars", [0, 12]),
    ("format", "max_prefix_chars", [1]),
    ("format", "max_lines_hwrap", [0, 5]),
    ("format", "line_ending", ["windows", "auto", "auto"]),
    ("format", "command_case", ["upper", "lower", "unchanged"]),
    ("format", "keyword_case", ["upper", "lower"]),
    ("format", "always_wrap", [["set/PargGroupNode[0]", "add_library/PargGroupNode[0]"],
                               ["FlowControlNode/foo", "unknown_one"],
                               ["install/RUNTIME", "set"]]),
    ("format", "autosort", [True]),
    ("format", "require_valid_layout", [True]),
    ("format", "layout_passes", [
        {"PargGroupNode": [[0, True]], "ArgGroupNode": [[0, True]]},
        {"StatementNode": [[0, True]]}]),
    ("parse", "additional_commands", [
        {"my_command": {"pargs": 1, "kwargs": {"VERSION": 1, "ITEM": "*"}}},
        {"my_command": {"pargs": "*", "flags": ["VERSION", "PUBLIC"],
                        "kwargs": {"ON": "*"}}},
        {"My_Command": {"kwargs": {"PUBLIC": "*", "ON": "+"}}},
        {"another_fn": {"kwargs": {"ON": "+", "foo": 1}, "spelling": "Another_Fn"}},
        {"message": {"flags": ["STATUS"], "kwargs": {"PUBLIC": "+"}}},
        {"set": {"pargs": 1, "kwargs": {"PUBLIC": "*"}}}]),
    ("parse", "override_spec", [{"foo.spelling": "FoO"}, {"foo/HEADERS.pargs": 1}]),
    ("parse", "vartags", [[["FOO_.*", ["cmdline"]]], [["BAZ.*", ["cmdline"]]]]),
    ("misc", "per_command", [
        {"externalproject_add": {"command_case": "lower"}},
        {"externalproject_add": {"spelling": "EXTERNALproject_ADD"}},
        {"FetchContent_Declare": {"command_case": "upper"}},
        {"set": {"command_case": "upper"}},
        {"my_command": {"command_case": "upper"}},
        {"message": {"command_case": "upper", "spelling": "Message"}}]),
    ("markup", "bullet_char", ["+", "-"]),
    ("markup", "enum_char", [")", ":"]),
    ("markup", "first_comment_is_literal", [True]),
    ("markup", "literal_comment_pattern", ["^ *one", "^ *this"]),
    ("markup", "fence_pattern", [r"^\s*([%]{3}[%]*)(.*)$"]),
    ("markup", "ruler_pattern", [r"^[-=]{3,}$"]),
    ("markup", "explicit_trailing_pattern", ["#>", "#:"]),
    ("markup", "hashruler_min_length", [4, 30]),
    ("markup", "canonicalize_hashrulers", [False]),
    ("markup", "enable_markup", [False]),
    ("lint", "disabled_codes", [["C0103"], ["C0301", "C0305"], ["C0111", "E1120"],
                                ["C0103", "C0301", "C0307", "R0912"]]),
    ("lint", "function_pattern", ["[A-Z].*"]),
    ("lint", "macro_pattern", ["[a-z_]+"]),
    ("lint", "global_var_pattern", ["[a-z_]+"]),
    ("lint", "internal_var_pattern", ["[a-z_]+"]),
    ("lint", "local_var_pattern", ["[A-Z]+"]),
    ("lint", "private_var_pattern", ["X.*"]),
    ("lint", "public_var_pattern", ["[a-z_]+"]),
    ("lint", "argument_var_pattern", ["[A-Z]+"]),
    ("lint", "max_conditionals_custom_parser", [0]),
    ("lint", "min_statement_spacing", [2]),
    ("lint", "max_statement_spacing", [0, 5]),
    ("lint", "max_returns", [0]),
    ("lint", "max_branches", [0, 1]),
    ("lint", "max_arguments", [0, 1]),
    ("lint", "max_statements", [1, 3]),
]

# what the values of the options affect
PARTS = [
    ("# this is the first comment\n# and   it has  two lines\n"),
    ("# one  two\n#\n# * bullet aaaa\n# * another bullet of the same list with quite a lot of "
     "words so that it has to be wrapped\n#\n# 1. first\n# 2. second\n#\n"
     "# Note that  this  is   spaced\n"),
    ("# before\n# %%%\n#   fenced    text\n# %%%\n# ~~~\n#   more    text\n# ~~~\n"
     "# ---\n# after   that\n# :::::\n# the    end\n"),
    ("#####\n# short hash ruler\n#####\n\n##################\n# long  one\n"
     "##################\n"),
    ("set(Foo_bar  aaaa #< trailing one\n    bbbb #> trailing two\n    cccc #: three\n"
     "    dddd # plain\n)\n"),
    ("set(FOO_BAR gcc -o output --flag value -x other --long-option=something "
     "-c source.cc -I include\n  -Wall -Wextra)\n"
     "set(BAZ_CMD gcc -o output --flag value -x other --long-option=something -c)\n"),
    ("set_target_properties(target PROPERTIES FOO_BAR \"z/b.cc;a/a.cc\" BAZ_X value)\n"
     "set_property(TARGET t PROPERTY FOO_BAR z/b.cc a/a.cc)\n"
     "set_directory_properties(PROPERTIES FOO_BAR \"x y z\" BAZ 1)\n"),
    ("externalproject_add(foo PREFIX some/directory URL http://example.com/x.tar.gz "
     "CONFIGURE_COMMAND \"\" BUILD_COMMAND make -j 4 some target)\n"
     "FETCHCONTENT_DECLARE(foo GIT_REPOSITORY url GIT_TAG v1)\n"),
    ("my_command(x VERSION 1 ITEM aaaaaaaaaa bbbbbbbbbb cccccccccccc PUBLIC "
     "ddddddddddd ON eeeeeee)\nanother_fn(foo x ON yyyyyyyyyyyyyyyyyyyyyy "
     "zzzzzzzzzzzzzzzzzzzzz wwwwwwwwwwww)\n"),
    ("add_library(foo STATIC z.cc b.cc a.cc)\nadd_executable(bar # cmake-format: "
     "sortable\n  z.cc\n  b.cc a.cc)\n"),
    ("if(a AND (b or c) and NOT dddddddddddddddddd STREQUAL \"eeeeeeeeeeeeeeeee\" OR "
     "fffffffff)\n  message(status   \"some text which is long\" ${x} PUBLIC a)\n"
     "elseif(b)\n  foreach(item IN LISTS aaa bbb ccc)\n    list(APPEND out ${item})\n"
     "  endforeach()\nendif()\n"),
    ("function(Bad_Name arg1 Arg2 _arg3)\n  set(Local_Var 1)\n  set(_x 2)\n\n\n\n"
     "  foo(HEADERS a b SOURCES c)\n  foreach(Item ${ARGN})\n    if(Item STREQUAL \"AAA\")\n    elseif(Item STREQUAL "
     "BBB)\n    elseif(${Item} STREQUAL \"CCC\")\n      return()\n    endif()\n"
     "  endforeach()\n  set(good 1 PARENT_SCOPE)\n  return()\n"
     "endfunction()\nmacro(Some_macro)\nset(x 1)\nendmacro()\n"),
    ("set(low 1 CACHE STRING \"doc\")\nset(_Low 1 CACHE INTERNAL \"doc\")\n"
     "set(_GOOD_ONE 1 CACHE INTERNAL \"doc\")\n"
     "cmake_parse_arguments(x \"low;UP\" \"One\" \"MANY\" ${ARGN})\n"),
    ("target_link_libraries(some_target_name PUBLIC aaa bbb ccc PRIVATE ddd eee fff "
     "INTERFACE ggg hhh iii jjj kkk lll mmm nnn ooo ppp)\n"),
    ("add_custom_command(OUTPUT some_file COMMAND python ${x}/generate.py --input a.txt --and another --option which "
     "--is quite --long and --goes on --and on --for some --time "
     "--output b.txt --more things DEPENDS a.txt generate.py COMMENT \"text\" VERBATIM)\n"
     "install(TARGETS foo RUNTIME DESTINATION bin LIBRARY DESTINATION lib ARCHIVE "
     "DESTINATION lib)\nunknown_one(aaaaaaaaaaaaaaaaaaaaaaaa bbbbbbbbbbbbbbbbbbbbbbbbb "
     "ccccccccccccccccccccc)\n"),
]


# these leave nothing to see of the others
MASKING = ["disable", "require_valid_layout", "enable_markup", "override_spec"]


def text(rng, most=5):
  """A listfile of some of the parts, as they are and in any order."""
  picks = rng.sample(PARTS, rng.randint(1, most))
  return "\n".join(picks)


def some(rng, most=4):
  """Values for a few of the options."""
  out = {}
  for section, name, values in rng.sample(OPTIONS, rng.randint(1, most)):
    out.setdefault(section, {})[name] = json_copy(rng.choice(values))
  return out


def family(rng, count):
  """Configurations which differ in the same few options: some of them have the
  default."""
  picks = rng.sample(OPTIONS, rng.choice([2, 3, 5, 7]))
  out = []
  for _ in range(count):
    cfg = {}
    for section, name, values in picks:
      if rng.random() < (0.25 if name in MASKING else 0.65):
        cfg.setdefault(section, {})[name] = json_copy(rng.choice(values))
    out.append(cfg)
  return out


def relevant(rng, cfgs):
  """A listfile for which (some of) the options of these configurations
  matter."""
  keys = sorted({(s, k) for cfg in cfgs for s, sub in cfg.items() for k in sub})
  parts = []
  for key in keys:
    good = MATTERS.get(key)
    if good:
      parts += rng.sample(good, min(len(good), rng.choice([1, 2])))
  parts = sorted(set(parts))[:6]
  if not parts or rng.random() < 0.3:
    parts.append(rng.randrange(len(PARTS)))
  rng.shuffle(parts)
  if 0 in parts:
    parts.remove(0)
    parts.insert(0, 0)
  return "\n".join(PARTS[i] for i in parts)


# (section, option) -> the parts for which it matters; see tools/options_matter.py
MATTERS = {
    ("format", "disable"): [],
    ("format", "line_width"): [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14],
    ("format", "tab_size"): [7, 8, 10, 11, 13, 14],
    ("format", "use_tabchars"): [4, 5, 7, 8, 9, 10, 11, 12, 13, 14],
    ("format", "fractional_tab_policy"): [4, 5, 9, 10, 11],
    ("format", "max_subgroups_hwrap"): [6, 7, 8, 9, 10, 11, 12, 14],
    ("format", "max_pargs_hwrap"): [5, 6, 8, 9, 10, 11, 12, 13, 14],
    ("format", "max_rows_cmdline"): [14],
    ("format", "separate_ctrl_name_with_space"): [10, 11],
    ("format", "separate_fn_name_with_space"): [4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14],
    ("format", "dangle_parens"): [5, 7, 8, 9, 10, 11, 12, 13, 14],
    ("format", "dangle_align"): [4, 5, 7, 8, 9, 10, 11, 12, 13, 14],
    ("format", "min_prefix_chars"): [4, 5, 8, 10, 11, 12, 14],
    ("format", "max_prefix_chars"): [4, 5, 10, 11, 12, 13],
    ("format", "max_lines_hwrap"): [9, 14],
    ("format", "line_ending"): [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14],
    ("format", "command_case"): [4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14],
    ("format", "keyword_case"): [6, 7, 9, 10, 11, 12, 13, 14],
    ("format", "always_wrap"): [9, 11, 14],
    ("format", "autosort"): [9],
    ("format", "require_valid_layout"): [],
    ("format", "layout_passes"): [4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14],
    ("parse", "additional_commands"): [4, 5, 8, 10, 11, 12],
    ("parse", "override_spec"): [11],
    ("parse", "vartags"): [4, 5],
    ("misc", "per_command"): [4, 5, 7, 8, 10, 11, 12],
    ("markup", "bullet_char"): [1],
    ("markup", "enum_char"): [1],
    ("markup", "first_comment_is_literal"): [0, 1, 2],
    ("markup", "literal_comment_pattern"): [0, 1],
    ("markup", "fence_pattern"): [2],
    ("markup", "ruler_pattern"): [3],
    ("markup", "explicit_trailing_pattern"): [4],
    ("markup", "hashruler_min_length"): [3],
    ("markup", "canonicalize_hashrulers"): [3],
    ("markup", "enable_markup"): [0, 1, 2, 3, 4],
    ("lint", "disabled_codes"): [1, 4, 5, 7, 8, 10, 11, 12, 13, 14],
    ("lint", "function_pattern"): [11],
    ("lint", "macro_pattern"): [11],
    ("lint", "global_var_pattern"): [12],
    ("lint", "internal_var_pattern"): [12],
    ("lint", "local_var_pattern"): [11],
    ("lint", "private_var_pattern"): [4, 11],
    ("lint", "public_var_pattern"): [4, 5, 11],
    ("lint", "argument_var_pattern"): [10, 11],
    ("lint", "max_conditionals_custom_parser"): [11],
    ("lint", "min_statement_spacing"): [5, 6, 7, 8, 9, 10, 11, 12, 14],
    ("lint", "max_statement_spacing"): [5, 6, 7, 8, 9, 10, 11, 12, 14],
    ("lint", "max_returns"): [11],
    ("lint", "max_branches"): [11],
    ("lint", "max_arguments"): [11],
    ("lint", "max_statements"): [11],
}
