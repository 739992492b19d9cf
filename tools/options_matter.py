"""For which parts of dst/options.py does each value of each option matter?
Prints the table MATTERS, and complains about values which never do."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "/repo")
from dst import options, threads     # noqa

APIS = [("format", None), ("lint", None), ("format", "parse"), ("format", "markup")]


def outcome(api, dump, cfg, text):
  return threads.outcome_of({"api": api, "dump": dump, "cfg": cfg, "text": text})


def main():
  base = {}
  table = {}
  bad = 0
  for idx, part in enumerate(options.PARTS):
    for crlf in (0, 1):
      text = part.replace("\n", "\r\n") if crlf else part
      for api in APIS:
        base[idx, crlf, api] = outcome(api[0], api[1], {}, text)
  extra = {"fractional_tab_policy": {"format": {"use_tabchars": True}},
           "dangle_align": {"format": {"dangle_parens": True}},
           "require_valid_layout": {"format": {"line_width": 20}}}
  for section, name, values in options.OPTIONS:
    hits = set()
    for value in values:
      found = set()
      for idx, part in enumerate(options.PARTS):
        for crlf in (0, 1):
          text = part.replace("\n", "\r\n") if crlf else part
          for api in APIS:
            cfg = json.loads(json.dumps(extra.get(name, {})))
            want = outcome(api[0], api[1], cfg, text) if cfg else \
                base[idx, crlf, api]
            cfg.setdefault(section, {})[name] = value
            if outcome(api[0], api[1], cfg, text) != want:
              found.add(idx)
      hits |= found
      if not found:
        bad = 1
        sys.stderr.write("never matters: {}.{} = {!r}\n".format(section, name, value))
    table[(section, name)] = sorted(hits)
  print("MATTERS = {")
  for key, val in table.items():
    print("    {!r}: {!r},".format(key, val))
  print("}")
  return bad


if __name__ == "__main__":
  sys.exit(main())
