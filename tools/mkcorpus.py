"""One-off: collect listfile fragments from the repository into corpus/pieces.json."""
import glob, io, json, os, re, sys
repo = "/repo/cmakelang"
pieces = []
for path in sorted(glob.glob(repo + "/command_tests/*.cmake")):
  text = io.open(path, encoding="utf-8").read()
  for chunk in re.split(r"(?m)^# test:.*\n", text)[1:]:
    chunk = re.sub(r"(?s)\A\s*#\[=\[.*?\]=\]\n", "", chunk).strip("\n")
    if chunk:
      pieces.append(chunk + "\n")
for path in ("doc/bits/dump-example.cmake", "format/testdata/test_in.cmake",
             "lint/test/lint_tests.cmake", "lint/test/expect_lint.cmake",
             "test/CMakeLists.txt", "lint/CMakeLists.txt", "doc/CMakeLists.txt",
             "contrib/CMakeLists.txt", "CMakeLists.txt"):
  text = io.open(os.path.join(repo, path), encoding="utf-8").read()
  for chunk in re.split(r"\n\n(?=\S)", text):
    if 4 < len(chunk) < 1500:
      pieces.append(chunk + "\n")
uniq = []
for p in pieces:
  if p not in uniq:
    uniq.append(p)
sys.path.insert(0, "/repo")
from cmakelang.format import __main__ as m
from cmakelang import configuration
good = []
for p in uniq:
  try:
    cfg = configuration.Configuration()
    out, ok = m.process_file(cfg, p)
    again, _ = m.process_file(cfg, out)
    if ok and out == again:
      good.append(p)
  except Exception as ex:
    print("skip", repr(p[:60]), type(ex).__name__)
with io.open("/verif/corpus/pieces.json", "w", encoding="utf-8") as f:
  json.dump(good, f, indent=0, ensure_ascii=True)
print(len(uniq), len(good), sum(map(len, good)))
