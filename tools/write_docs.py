"""Writes properties.jsonl and MANIFEST.json (committed output; run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FMT = "cmakelang/format/__main__.py"
LINT = "cmakelang/lint/__main__.py"
CFG = "cmakelang/configuration.py"

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, note=None,
         claimed=True, reason=None, technique=None):
  assert len(title) <= 80, pid
  PROPS.append({
      "doc": {"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [
                  {"name": n, "where": w} for n, w in mechanism]}},
      "claimed": claimed, "reason": reason, "note": note,
      "technique": technique})


exec(open(os.path.join(HERE, "tools", "props_text.py"), encoding="utf-8").read())

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as out:
  for item in PROPS:
    out.write(json.dumps(item["doc"]) + "\n")

TECH = ("deterministic simulation with fault injection: the real tools on an "
        "in-memory POSIX kernel under a seeded scheduler and fault injector")
checks = []
na = []
for item in PROPS:
  pid = item["doc"]["id"]
  if item["claimed"]:
    checks.append({
        "property": pid, "quick_cmd": "./check {} quick".format(pid),
        "thorough_cmd": "./check {} thorough".format(pid),
        "evidence_file": "evidence/{}.json".format(pid),
        "technique": item["technique"] or TECH, "level": "exploration",
        "level_note": item["note"]})
  else:
    na.append({"property": pid, "reason": item["reason"]})
doc = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
       "not_applicable": na,
       "notes": "No hooks in /repo: every seam is below the code, at the system "
                "calls (dst/proc.py), or around it. Replay: ./check --replay FILE"}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as out:
  json.dump(doc, out, indent=1)
  out.write("\n")
print(len(checks), "claimed", len(na), "not applicable")
