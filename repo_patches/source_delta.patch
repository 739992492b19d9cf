From 520e9a73ecab96e8f4f22a1a7686ab7f2f643861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 01/34] fix: apply command line options to every file of a
 batch

The options were consumed from the shared dictionary by the first file, so
that every other file of the same command was formatted without them.
---
 cmakelang/format/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index bbcbf98..777795c 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -508,7 +508,9 @@ def onefile_main(infile_path, args, argparse_dict):
     config_dict = get_config(infile_path, args.config_files)
 
   cfg = configuration.Configuration(**config_dict)
-  cfg.legacy_consume(argparse_dict)
+  # NOTE: legacy_consume() removes what it consumes, and the command
+  # line options apply to every file
+  cfg.legacy_consume(dict(argparse_dict))
 
   if cfg.format.disable:
     return
-- 
2.43.0


From c0d204122ef2a88189a797a76f838c917c4afc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 02/34] fix: use a unique temporary file for in-place
 formatting

The temporary was always named <file>.cmf-temp: a file of that name was
destroyed, two commands formatting the same file at the same time truncated
or stole each other's output, and a failure to write left it behind.
---
 cmakelang/format/__main__.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 777795c..302a10a 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -27,6 +27,7 @@ import logging
 import os
 import shutil
 import sys
+import tempfile
 
 import cmakelang
 from cmakelang import common
@@ -496,6 +497,29 @@ def get_argdict(args):
   return out
 
 
+def write_inplace(infile_path, outtext, encoding):
+  """
+  Replace the content of `infile_path`: write the new content to a temporary
+  file in the same directory and then rename it.
+  """
+  # NOTE: the name must be unique or we might overwrite a file of the user, or
+  # the temporary of another cmake-format working on the same file.
+  tempfile_fd, tempfile_path = tempfile.mkstemp(
+      prefix=".cmf-", suffix=".tmp",
+      dir=os.path.dirname(os.path.abspath(infile_path)))
+  try:
+    with io.open(tempfile_fd, 'w', encoding=encoding, newline='') as outfile:
+      outfile.write(outtext)
+    shutil.copymode(infile_path, tempfile_path)
+    shutil.move(tempfile_path, infile_path)
+  except:
+    try:
+      os.unlink(tempfile_path)
+    except OSError as ex:
+      logger.warning('Failed to remove %s: %s', tempfile_path, ex)
+    raise
+
+
 def onefile_main(infile_path, args, argparse_dict):
   """
   Find config, open file, process, write result
@@ -541,9 +565,8 @@ def onefile_main(infile_path, args, argparse_dict):
     if intext == outtext:
       logger.debug("No delta for %s", infile_path)
       return
-    tempfile_path = infile_path + ".cmf-temp"
-    outfile = io.open(
-        tempfile_path, 'w', encoding=cfg.encode.output_encoding, newline='')
+    write_inplace(infile_path, outtext, cfg.encode.output_encoding)
+    return
   else:
     if args.outfile_path == '-':
       # NOTE(josh): The behavior of sys.stdout is different in python2 and
@@ -563,10 +586,6 @@ def onefile_main(infile_path, args, argparse_dict):
   with outfile:
     outfile.write(outtext)
 
-  if args.in_place:
-    shutil.copymode(infile_path, tempfile_path)
-    shutil.move(tempfile_path, infile_path)
-
 
 def inner_main():
   """Parse arguments, open files, start work."""
-- 
2.43.0


From 48be8c34529c5231ee3cd379120308f2d5759331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 03/34] fix: sync the in-place output before renaming it

The rename may reach the disk before the data does, in which case a power
loss leaves an empty or partial listfile in place of the original.
---
 cmakelang/format/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 302a10a..6606766 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -510,6 +510,9 @@ def write_inplace(infile_path, outtext, encoding):
   try:
     with io.open(tempfile_fd, 'w', encoding=encoding, newline='') as outfile:
       outfile.write(outtext)
+      # Otherwise the new name may survive a power loss without the content
+      outfile.flush()
+      os.fsync(outfile.fileno())
     shutil.copymode(infile_path, tempfile_path)
     shutil.move(tempfile_path, infile_path)
   except:
-- 
2.43.0


From 4a79474085a0c1bc41a7e3f637e0cc3938906265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 04/34] fix: never rewrite the original file non-atomically

If the rename fails shutil.move() copies the temporary over the original,
which is lost if that copy fails or is interrupted.
---
 cmakelang/format/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 6606766..a58c95d 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -514,7 +514,9 @@ def write_inplace(infile_path, outtext, encoding):
       outfile.flush()
       os.fsync(outfile.fileno())
     shutil.copymode(infile_path, tempfile_path)
-    shutil.move(tempfile_path, infile_path)
+    # NOTE: not shutil.move(), which falls back to truncating and rewriting
+    # the destination if it cannot be renamed over.
+    getattr(os, "replace", os.rename)(tempfile_path, infile_path)
   except:
     try:
       os.unlink(tempfile_path)
-- 
2.43.0


From b743e752ea4c844e10ebaf716e7b8d502e59d53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 05/34] fix: keep symlinks when formatting in place

The symlink was replaced by a regular file and the file that it refers to was
not formatted.
---
 cmakelang/format/__main__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index a58c95d..d028efb 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -502,11 +502,12 @@ def write_inplace(infile_path, outtext, encoding):
   Replace the content of `infile_path`: write the new content to a temporary
   file in the same directory and then rename it.
   """
+  # Replace the file that a symlink refers to and not the symlink
+  infile_path = os.path.realpath(infile_path)
   # NOTE: the name must be unique or we might overwrite a file of the user, or
   # the temporary of another cmake-format working on the same file.
   tempfile_fd, tempfile_path = tempfile.mkstemp(
-      prefix=".cmf-", suffix=".tmp",
-      dir=os.path.dirname(os.path.abspath(infile_path)))
+      prefix=".cmf-", suffix=".tmp", dir=os.path.dirname(infile_path))
   try:
     with io.open(tempfile_fd, 'w', encoding=encoding, newline='') as outfile:
       outfile.write(outtext)
-- 
2.43.0


From 8c841fae900e3fe2a0e398d7ca4c1bf1cbcd3850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 06/34] fix: lint and genparsers with line_ending auto

The method is one of the format section: any listfile failed with an
AttributeError.
---
 cmakelang/genparsers.py    | 2 +-
 cmakelang/lint/__main__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 410f541..6a68aca 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -188,7 +188,7 @@ def process_file(config, infile_content):
   if config.format.line_ending == 'auto':
     detected = __main__.detect_line_endings(infile_content)
     config = config.clone()
-    config.set_line_ending(detected)
+    config.format.set_line_ending(detected)
 
   tokens = lex.tokenize(infile_content)
   parse_db = parse.funs.get_parse_db()
diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index a172290..7b81bbb 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -32,7 +32,7 @@ def process_file(config, local_ctx, infile_content):
   if config.format.line_ending == 'auto':
     detected = __main__.detect_line_endings(infile_content)
     config = config.clone()
-    config.set_line_ending(detected)
+    config.format.set_line_ending(detected)
 
   checker = basic_checker.LintChecker(config, local_ctx)
   checker.check_basics(infile_content)
-- 
2.43.0


From 73a1bd8045ea9dcb85d479b60a17ca69251dd7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 07/34] fix: cmake-lint of standard input

The name of the file was replaced by a descriptor number, which cannot be
printed, so that cmake-lint - always failed.
---
 cmakelang/lint/__main__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 7b81bbb..ff7d9c8 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -144,12 +144,13 @@ def inner_main():
     config_dict.update(argdict)
 
     cfg = configuration.Configuration(**config_dict)
+    infile_arg = infile_path
     if infile_path == '-':
-      infile_path = os.dup(sys.stdin.fileno())
+      infile_arg = os.dup(sys.stdin.fileno())
 
     try:
       infile = io.open(
-          infile_path, mode='r', encoding=cfg.encode.input_encoding, newline='')
+          infile_arg, mode='r', encoding=cfg.encode.input_encoding, newline='')
     except (IOError, OSError):
       logger.error("Failed to open %s for read", infile_path)
       returncode = 1
-- 
2.43.0


From abab2daf532e5ef3501bad0644dc0f81faace46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 08/34] fix: exit status of cmake-lint on a usage error

It reported success, having checked nothing.
---
 cmakelang/lint/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index ff7d9c8..9c69002 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -184,8 +184,8 @@ def inner_main():
 def main():
   try:
     return inner_main()
-  except SystemExit:
-    return 0
+  except SystemExit as ex:
+    return ex.code
   except common.UserError as ex:
     logger.fatal(ex.msg)
     return 1
-- 
2.43.0


From b501a65045a0449c95c9bec538f14e8c10440775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 09/34] fix: lint of a file which is listed twice

Its lint was accumulated: each record was printed twice for the second
mention and was counted twice in the summary.
---
 cmakelang/lint/lint_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmakelang/lint/lint_util.py b/cmakelang/lint/lint_util.py
index cca7224..7af5aa0 100644
--- a/cmakelang/lint/lint_util.py
+++ b/cmakelang/lint/lint_util.py
@@ -144,9 +144,9 @@ class GlobalContext(object):
     self.file_ctxs = {}
 
   def get_file_ctx(self, infile_path, config):
-    if infile_path not in self.file_ctxs:
-      self.file_ctxs[infile_path] = FileContext(self, infile_path)
-    ctx = self.file_ctxs[infile_path]
+    # NOTE: always a new context: if the same file is listed twice then the
+    # lint and the suppressions of the first pass do not apply to the second
+    ctx = self.file_ctxs[infile_path] = FileContext(self, infile_path)
     ctx.config = config
     return ctx
 
-- 
2.43.0


From c74d18e4ccd0da8cec73d30e5ab1bb994040a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 10/34] fix: config files which include each other

A cycle of includes was followed forever.
---
 cmakelang/format/__main__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index d028efb..fea97e5 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -305,18 +305,22 @@ def get_one_config_dict(configfile_path):
 
 
 def get_configdict(configfile_paths):
-  include_queue = list(configfile_paths)
+  include_queue = [(path, ()) for path in configfile_paths]
   config_dict = {}
   while include_queue:
-    configfile_path = include_queue.pop(0)
+    configfile_path, includers = include_queue.pop(0)
     configfile_path = os.path.expanduser(configfile_path)
+    realpath = os.path.realpath(configfile_path)
+    if realpath in includers:
+      raise common.UserError(
+          "Config file includes itself: {}".format(configfile_path))
     increment_dict = get_one_config_dict(configfile_path)
 
     for include_path in increment_dict.pop("include", []):
       if not os.path.isabs(include_path):
         include_path = os.path.join(
             os.path.dirname(configfile_path), include_path)
-      include_queue.append(include_path)
+      include_queue.append((include_path, includers + (realpath,)))
     map_merge(config_dict, increment_dict)
   return config_dict
 
-- 
2.43.0


From 50439a98aff8560038d99a53d3a05ea5f9217b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 11/34] fix: errors while reading a config file without
 extension

A failure to read the file selected the next syntax, so that the content could
be taken for python, silently without any of the settings.
---
 cmakelang/format/__main__.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index fea97e5..3069aa2 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -237,21 +237,24 @@ def try_get_configdict(configfile_path):
   TODO(josh): maybe read the first line and look for some kind of comment
   sentinel to indicate the file format?
   """
+  # NOTE: only errors in the syntax select the next format, an error while
+  # reading must not
+  with io.open(configfile_path, 'r', encoding='utf-8') as config_file:
+    content = config_file.read()
+
   try:
-    with io.open(configfile_path, 'r', encoding='utf-8') as config_file:
-      return json.load(config_file)
-  except:  # pylint: disable=bare-except
+    return json.loads(content)
+  except Exception:  # pylint: disable=broad-except
     pass
 
   try:
-    with io.open(configfile_path, 'r', encoding='utf-8') as config_file:
-      return load_yaml(config_file)
-  except:  # pylint: disable=bare-except
+    return load_yaml(content)
+  except Exception:  # pylint: disable=broad-except
     pass
 
   try:
     return exec_pyconfig(configfile_path)
-  except:  # pylint: disable=bare-except
+  except Exception:  # pylint: disable=broad-except
     pass
 
   raise RuntimeError("Failed to parse {} as any of yaml, json, or python"
-- 
2.43.0


From f19a32f899323a486ed44ae47894b619ae9933b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 12/34] fix: genparsers with unreadable files and its standard
 output

After a file that could not be opened or decoded, the content of the previous
one was processed again (or, for the first, the command crashed), and the
status was 0. The names of the inputs were printed into the output.
---
 cmakelang/genparsers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 6a68aca..888000e 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -246,7 +246,6 @@ def main():
   returncode = 0
   outdict = collections.OrderedDict()
   for infile_path in args.infilepaths:
-    print(infile_path)
     cfg = configuration.Configuration()
     if infile_path == '-':
       infile_path = os.dup(sys.stdin.fileno())
@@ -257,6 +256,7 @@ def main():
     except (IOError, OSError):
       logger.error("Failed to open %s for read", infile_path)
       returncode = 1
+      continue
 
     try:
       with infile:
@@ -264,6 +264,8 @@ def main():
     except UnicodeDecodeError:
       logger.error(
           "Unable to read %s as %s", infile_path, cfg.encode.input_encoding)
+      returncode = 1
+      continue
 
     try:
       parse_tree = process_file(cfg, intext)
-- 
2.43.0


From 61d2f8727be1d2a821f455cc5a9580484a2fcee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 13/34] fix: cmake-annotate --config-file

The path was taken for a list of one-character paths, so that the option always
failed.
---
 cmakelang/annotate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index c8f387f..3718723 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -102,7 +102,7 @@ def setup_argparser(arg_parser):
   arg_parser.add_argument('-o', '--outfile-path', default=None,
                           help='Where to write the formatted file. '
                                'Default is stdout.')
-  arg_parser.add_argument('-c', '--config-file',
+  arg_parser.add_argument('-c', '--config-file', dest='config_files', nargs=1,
                           help='path to configuration file')
   arg_parser.add_argument('infilepaths', nargs='*')
 
@@ -141,9 +141,9 @@ def main():
     # NOTE(josh): have to load config once for every file, because we may pick
     # up a new config file location for each path
     if infile_path == '-':
-      config_dict = __main__.get_config(os.getcwd(), args.config_file)
+      config_dict = __main__.get_config(os.getcwd(), args.config_files)
     else:
-      config_dict = __main__.get_config(infile_path, args.config_file)
+      config_dict = __main__.get_config(infile_path, args.config_files)
     config_dict.update(argdict)
 
     cfg = configuration.Configuration(**config_dict)
-- 
2.43.0


From 532f2c8dbb38f6d5b51868629d3cbb3772938c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 14/34] fix: ctest-to does not match the interface of the
 parser

Any CTestTestfile.cmake failed with an AttributeError: the parser takes a
ParseContext, passes it to the statement parsers and expects a node back. The
whitespace between two subdirs() was taken for a directory.
---
 cmakelang/ctest_to.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index 9d93661..90af5a5 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -17,6 +17,7 @@ from xml.etree import ElementTree as ET
 from cmakelang.format import __main__
 from cmakelang import lex
 from cmakelang import parse
+from cmakelang.parse.common import NodeType, TreeNode
 
 
 logger = logging.getLogger(__name__)
@@ -99,7 +100,7 @@ class ParseContext(object):
     self.tests = {}
 
   # pylint: disable=W0613
-  def parse_add_test(self, tokens, _breakstack):
+  def parse_add_test(self, _ctx, tokens, _breakstack):
     """Parse an add_test() statement. This statement contains the test name
        and the command for the test.
     """
@@ -123,8 +124,9 @@ class ParseContext(object):
 
     logger.debug("Adding test %s", test_name)
     self.tests[test_name] = TestSpec(test_name, test_argv, self.cwd)
+    return TreeNode(NodeType.ARGGROUP)
 
-  def parse_set_tests_properties(self, tokens, _breakstack):
+  def parse_set_tests_properties(self, _ctx, tokens, _breakstack):
     """Parse a set_tests_properties() statement. This statement can set
        properties (key/value strings) on one or more tests.
     """
@@ -168,13 +170,16 @@ class ParseContext(object):
     for test_name in test_names:
       logger.debug("Updating properties for %s", test_name)
       self.tests[test_name].props.update(properties)
+    return TreeNode(NodeType.ARGGROUP)
 
-  def parse_subdirs(self, tokens, _breakstack):
+  def parse_subdirs(self, _ctx, tokens, _breakstack):
     """Parse a subdirs() statement. This statement is actually deprecated in
        cmake but it appears it is still in use by ctest.
     """
     while tokens and tokens[0].type != lex.TokenType.RIGHT_PAREN:
       token = tokens.pop(0)
+      if token.type is lex.TokenType.WHITESPACE:
+        continue
       if token.type is lex.TokenType.QUOTED_LITERAL:
         spelling = token.spelling[1:-1]
       else:
@@ -182,6 +187,7 @@ class ParseContext(object):
       fullpath = os.path.join(self.cwd, spelling)
       logger.debug("pushing directory %s", fullpath)
       self.dirqueue.append(fullpath)
+    return TreeNode(NodeType.ARGGROUP)
 
   def get_db(self):
     """Return the parse database: dictionary of statement names to parse
@@ -203,7 +209,7 @@ class ParseContext(object):
     with io.open(filepath, "r", encoding="utf-8") as infile:
       infile_content = infile.read()
     tokens = lex.tokenize(infile_content)
-    _ = parse.parse(tokens, self.get_db())
+    _ = parse.parse(tokens, parse.ParseContext(self.get_db()))
 
   def start(self, firstdir):
     """Main entry-point into the parse. Pushes the first directory onto the
-- 
2.43.0


From de20777e0570cfbf7e9b2be67af0198a686bbc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 15/34] fix: ctest-to with a cycle of subdirs()

It was followed forever.
---
 cmakelang/ctest_to.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index 90af5a5..c23c52a 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -216,8 +216,13 @@ class ParseContext(object):
        queue, and then processes directories one-by-one.
     """
     self.dirqueue = [os.path.abspath(firstdir)]
+    visited = set()
     while self.dirqueue:
       self.cwd = self.dirqueue.pop(0)
+      realpath = os.path.realpath(self.cwd)
+      if realpath in visited:
+        continue
+      visited.add(realpath)
       logger.debug("processing directory %s", self.cwd)
       self.parse_file(os.path.join(self.cwd, "CTestTestfile.cmake"))
 
-- 
2.43.0


From 511937b2f75d9bcd8d87c70aeb466d65525ba319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 16/34] fix: offsets of tokens after a byte-order mark

The regions between 'cmake-format: off' and 'cmake-format: on' are copied from
the input by their offsets, which did not account for a leading byte-order
mark: text in front of the region was repeated and its end was lost.
---
 cmakelang/lex/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index f7ddcb9..d751700 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -186,7 +186,11 @@ def tokenize(contents):
   ], re.DOTALL)
 
   tokens_return = []
+  offset = 0
   if contents.startswith("\ufeff"):
+    # NOTE: offsets are relative to the (utf-8 encoded) content including the
+    # mark
+    offset = len(bytearray(contents[0], 'utf-8'))
     tokens_return = [
         Token(tok_type=TokenType.BYTEORDER_MARK,
               spelling=contents[0],
@@ -205,7 +209,6 @@ def tokenize(contents):
   # inconsistent.
   lineno = 1
   col = 0
-  offset = 0
   for tok_index, (tok_type, spelling) in enumerate(tokens):
     if sys.version_info[0] < 3:
       assert isinstance(spelling, unicode)
-- 
2.43.0


From 6b3002d651966eb027639b72f9f388efe83f04d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 17/34] fix: ctest-to loses tests of the same name

The names of tests are only unique within one directory: of two tests with the
same name in different directories only the last one was reported.
---
 cmakelang/ctest_to.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index c23c52a..c2db892 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -123,7 +123,9 @@ class ParseContext(object):
       test_argv.append(spelling)
 
     logger.debug("Adding test %s", test_name)
-    self.tests[test_name] = TestSpec(test_name, test_argv, self.cwd)
+    # NOTE: names are only unique within one directory
+    self.tests[(test_name, self.cwd)] = TestSpec(
+        test_name, test_argv, self.cwd)
     return TreeNode(NodeType.ARGGROUP)
 
   def parse_set_tests_properties(self, _ctx, tokens, _breakstack):
@@ -169,7 +171,7 @@ class ParseContext(object):
 
     for test_name in test_names:
       logger.debug("Updating properties for %s", test_name)
-      self.tests[test_name].props.update(properties)
+      self.tests[(test_name, self.cwd)].props.update(properties)
     return TreeNode(NodeType.ARGGROUP)
 
   def parse_subdirs(self, _ctx, tokens, _breakstack):
-- 
2.43.0


From 7db8891ffc231e3995704118fe7ada76b39657bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 18/34] fix: cmake-lint of an empty file

There is no token whose line could be looked at, which is only needed to end
suppressions.
---
 cmakelang/lint/basic_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index f4dd779..e646fff 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -543,8 +543,8 @@ class LintChecker(object):
       prevchild[1] = prevchild[0]
       prevchild[0] = child
 
-    lineno = node.get_tokens()[-1].get_location().line
     if suppressions:
+      lineno = node.get_tokens()[-1].get_location().line
       local_ctx.unsuppress(lineno, suppressions)
 
   def check_arggroup(self, node):
-- 
2.43.0


From 6522fbed618b8ad28aa21654b7561948a57472b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 19/34] fix: endless loop on a keyword next to a comment or
 parenthesis

if((A)AND B) and if(A AND# comment were never finished: the keyword is an
UNQUOTED_LITERAL then, which ended the positional arguments but did not start
a group of keyword arguments.
---
 cmakelang/parse/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 2f060be..c536541 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -280,7 +280,10 @@ def get_normalized_kwarg(token):
       and token.spelling.startswith('-')):
     return token.spelling.lower()
 
-  if token.type != lex.TokenType.WORD:
+  # NOTE: a word is an UNQUOTED_LITERAL if something other than whitespace is
+  # next to it, e.g. `(A)AND (B)` or `TARGETS# comment`, and must be the same to
+  # all of the parsers, including KwargBreaker
+  if token.type not in (lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL):
     return None
 
   return token.spelling.upper()
-- 
2.43.0


From 71e4e5f4e6e1fa99a1c55c430a68b69e3c5a78f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 20/34] fix: endless substitution of variables in genparsers

Values of several variables next to each other can form what looks like a
reference, which was substituted again, possibly forever.
---
 cmakelang/genparsers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 888000e..40df5be 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -70,7 +70,9 @@ def replace_varrefs(value, variables):
   """
   regex = re.compile(r"\$\{([\w_]+)\}")
   repl = VarSub(variables)
-  while regex.search(value):
+  # NOTE: values don't contain references, so that this is enough for nested
+  # ones, but a concatenation may look like one, possibly forever
+  for _ in range(value.count("${")):
     value = regex.sub(repl, value)
   return value
 
-- 
2.43.0


From 118e337edae061ae9fe4e131538c5b48b282dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 21/34] fix: cmake-annotate translates the line endings of
 files

---
 cmakelang/annotate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index 3718723..98b2a1c 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -167,7 +167,8 @@ def main():
           os.dup(sys.stdin.fileno()),
           mode='r', encoding=cfg.encode.input_encoding, newline='')
     else:
-      infile = io.open(infile_path, 'r', encoding=cfg.encode.input_encoding)
+      infile = io.open(
+          infile_path, 'r', encoding=cfg.encode.input_encoding, newline='')
 
     try:
       with infile:
-- 
2.43.0


From 4966759d46a7b668596ff90a59d710c3e7317eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 22/34] fix: ctest-to skips test files which it may not access

---
 cmakelang/ctest_to.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index c2db892..d612887 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -7,6 +7,7 @@ format.
 
 import argparse
 import collections
+import errno
 import io
 import json
 import logging
@@ -205,10 +206,16 @@ class ParseContext(object):
   def parse_file(self, filepath):
     """Parse one file. Read the content, tokenize, and parse.
     """
-    if not os.path.exists(filepath):
+    try:
+      infile = io.open(filepath, "r", encoding="utf-8")
+    except (IOError, OSError) as ex:
+      # NOTE: only one which is missing may be skipped, not one that cannot
+      # be accessed
+      if ex.errno not in (errno.ENOENT, errno.ENOTDIR):
+        raise
       logger.warning("%s does not exist", filepath)
       return
-    with io.open(filepath, "r", encoding="utf-8") as infile:
+    with infile:
       infile_content = infile.read()
     tokens = lex.tokenize(infile_content)
     _ = parse.parse(tokens, parse.ParseContext(self.get_db()))
-- 
2.43.0


From 17a830a86ddb1dd306245bde76aff06c88d52c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 23/34] fix: --dump-config drops per-command options of builtin
 commands

---
 cmakelang/format/__main__.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 3069aa2..c30bb6b 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -40,7 +40,6 @@ from cmakelang import parse
 from cmakelang.parse.argument_nodes import StandardParser2
 from cmakelang.parse.common import NodeType, TreeNode
 from cmakelang.parse.printer import dump_tree as dump_parse
-from cmakelang.parse.funs import standard_funs
 
 
 logger = logging.getLogger(__name__)
@@ -389,9 +388,6 @@ def dump_config(args, config_dict, outfile):
   outfmt = args.dump_config
   config_dict.update(get_argdict(args))
   cfg = configuration.Configuration(**config_dict)
-  # Don't dump default per-command configs
-  for key in standard_funs.get_default_config():
-    cfg.misc.per_command.pop(key, None)
 
   if outfmt == 'yaml':
     import yaml
-- 
2.43.0


From e44c53a2f41691372e1e806e3db5b840ab712726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:38 +0000
Subject: [PATCH 24/34] fix: --dump-config writes in the encoding of the locale

---
 cmakelang/format/__main__.py | 6 +++++-
 cmakelang/lint/__main__.py   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index c30bb6b..98a5c18 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -615,7 +615,11 @@ def inner_main():
 
   if args.dump_config:
     config_dict = get_config(os.getcwd(), args.config_files)
-    dump_config(args, config_dict, sys.stdout)
+    # NOTE: config files are read as utf-8, whatever the locale
+    outfile = io.open(os.dup(sys.stdout.fileno()),
+                      mode='w', encoding='utf-8')
+    with outfile:
+      dump_config(args, config_dict, outfile)
     sys.exit(0)
 
   if args.dump_config or args.dump:
diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 9c69002..6a0c9d0 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -114,7 +114,11 @@ def inner_main():
 
   if args.dump_config:
     config_dict = __main__.get_config(os.getcwd(), args.config_files)
-    __main__.dump_config(args, config_dict, sys.stdout)
+    # NOTE: config files are read as utf-8, whatever the locale
+    outfile = io.open(os.dup(sys.stdout.fileno()),
+                      mode='w', encoding="utf-8")
+    with outfile:
+      __main__.dump_config(args, config_dict, outfile)
     sys.exit(0)
 
   if args.outfile_path is None:
-- 
2.43.0


From deab4d78d544106bd492f7e3f23f5904e7c3f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:20 +0000
Subject: [PATCH 25/34] fix: commands of a replaced parse.additional_commands
 stay in force

---
 cmakelang/configuration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/configuration.py b/cmakelang/configuration.py
index 7ecebc5..f685d25 100644
--- a/cmakelang/configuration.py
+++ b/cmakelang/configuration.py
@@ -398,6 +398,9 @@ class ParseConfig(ConfigObject):
     super(ParseConfig, self).__init__(**kwargs)
 
   def _update_derived(self):
+    # NOTE: start over, so that the commands of a value which is replaced (the
+    # default, or the one of another section or config file) don't stay
+    self.fn_spec = parse_util.CommandSpec("<root>")
     if self.additional_commands is not None:
       for command_name, spec in self.additional_commands.items():
         self.fn_spec.add(command_name, **spec)
-- 
2.43.0


From c3a91e691fdddc85fe2224161354f65d9e688127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:38 +0000
Subject: [PATCH 26/34] fix: cmake-lint fails on an unterminated reference to a
 builtin variable

---
 cmakelang/lint/basic_checker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index e646fff..5ff3ce9 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -292,6 +292,7 @@ class LintChecker(object):
 
       match = missing_suffix.search(resolved)
       if match and variables.CASE_SENSITIVE_REGEX.match(match.group(2)):
+        catmatch = "".join(match.group(1, 2))
         local_ctx.record_lint(
             "W0106", "closing", catmatch, location=token.get_location())
         continue
-- 
2.43.0


From ce0d6c2032ec4091c1f74bc363ee3dcea11fdb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:38 +0000
Subject: [PATCH 27/34] fix: cmake-lint fails on a list() statement without the
 name of a list

---
 cmakelang/lint/basic_checker.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 5ff3ce9..2bc85b2 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -104,7 +104,10 @@ def get_list_outvar(node):
   """Given a statement parse node for a `list()` command, inspect the
      subcommand and extract the token corresponding to the output
      variable name."""
-  semtoks = node.argtree.parg_groups[0].get_tokens(kind="semantic")
+  groups = node.argtree.parg_groups
+  semtoks = groups[0].get_tokens(kind="semantic") if groups else []
+  if not semtoks:
+    return None
   listcmd = semtoks[0].spelling
   if listcmd.upper() in ("LENGTH", "GET", "JOIN", "SUBLIST"):
     return semtoks[-1]
@@ -709,7 +712,12 @@ class LintChecker(object):
       if stmt.get_funname() == "set":
         token = stmt.argtree.varname
       elif stmt.get_funname() == "list":
-        token = stmt.argtree.parg_groups[0].get_tokens(kind="semantic")[1]
+        groups = stmt.argtree.parg_groups
+        tokens = groups[0].get_tokens(kind="semantic") if groups else []
+        if len(tokens) < 2:
+          # the name of the list is missing
+          continue
+        token = tokens[1]
       else:
         continue
       self.check_varname(token.spelling, token, "Assignment to")
-- 
2.43.0


From c6c8a099f080dfb468e72d9d6ee291edde4eef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:00 +0000
Subject: [PATCH 28/34] fix: cmake-lint fails on a superfluous argument of
 add_custom_target()

---
 cmakelang/parse/funs/add_xxx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/add_xxx.py b/cmakelang/parse/funs/add_xxx.py
index 59dc699..20dcd1e 100644
--- a/cmakelang/parse/funs/add_xxx.py
+++ b/cmakelang/parse/funs/add_xxx.py
@@ -249,7 +249,7 @@ def parse_add_custom_target(ctx, tokens, breakstack):
       tree.children.append(subtree)
       continue
 
-    ctx.lint_ctx.record_lint("E1122", location=tokens[0].get_location())
+    ctx.lint_ctx.record_lint("E1121", location=tokens[0].get_location())
     # logger.warning(
     #     "Unexpected positional argument %s at %s",
     #     tokens[0].spelling, tokens[0].location())
-- 
2.43.0


From cc44786db05792018dbfc06315d3f86d15c40c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:11 +0000
Subject: [PATCH 29/34] fix: cmake-lint fails if the configuration redefines
 set()

---
 cmakelang/lint/basic_checker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 2bc85b2..d4a2037 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -611,6 +611,9 @@ class LintChecker(object):
     scope = get_scope_of_assignment(node)
 
     if node.get_funname() == "set":
+      if not isinstance(node.argtree, SetFnNode):
+        # set() is redefined by the configuration
+        return
       varname = node.argtree.varname
     elif node.get_funname() == "list":
       varname = get_list_outvar(node)
@@ -710,6 +713,9 @@ class LintChecker(object):
     """
     for stmt in find_statements_in_subtree(tree, ["set", "list"]):
       if stmt.get_funname() == "set":
+        if not isinstance(stmt.argtree, SetFnNode):
+          # set() is redefined by the configuration
+          continue
         token = stmt.argtree.varname
       elif stmt.get_funname() == "list":
         groups = stmt.argtree.parg_groups
-- 
2.43.0


From 5fe98a105529f0dc8d389cecca132345902a37c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:38 +0000
Subject: [PATCH 30/34] fix: lint and genparsers end at a file that lacks the
 byte-order mark of its encoding

---
 cmakelang/genparsers.py    | 2 +-
 cmakelang/lint/__main__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 40df5be..42ea93b 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -263,7 +263,7 @@ def main():
     try:
       with infile:
         intext = infile.read()
-    except UnicodeDecodeError:
+    except UnicodeError:
       logger.error(
           "Unable to read %s as %s", infile_path, cfg.encode.input_encoding)
       returncode = 1
diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 6a0c9d0..9e6b732 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -163,7 +163,7 @@ def inner_main():
     try:
       with infile:
         intext = infile.read()
-    except UnicodeDecodeError:
+    except UnicodeError:
       logger.error(
           "Unable to read %s as %s", infile_path, cfg.encode.input_encoding)
       returncode = 1
-- 
2.43.0


From 57f2f1859b1c62a0b3c4086b224c91d978ad9b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 31/34] fix: ctest-to reports the value of quoted arguments and
 properties, not their spelling

cmake escapes backslashes, quotes and dollars in a CTestTestfile.cmake, and
the escapes were reported as if they were part of the command.
---
 cmakelang/ctest_to.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index d612887..4b9936d 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -12,6 +12,7 @@ import io
 import json
 import logging
 import os
+import re
 import sys
 from xml.etree import ElementTree as ET
 
@@ -24,6 +25,13 @@ from cmakelang.parse.common import NodeType, TreeNode
 logger = logging.getLogger(__name__)
 
 
+def unquote(spelling):
+  """Return the value of a quoted literal. These are the escape sequences that
+     cmake writes into a testfile.
+  """
+  return re.sub(r'\\([\\"$])', r'\1', spelling[1:-1])
+
+
 class TestSpec(object):
   """Stores agregated ctest specification, including the name, command, and
      any properties that are set.
@@ -118,7 +126,7 @@ class ParseContext(object):
       if token.type is lex.TokenType.WHITESPACE:
         continue
       if token.type is lex.TokenType.QUOTED_LITERAL:
-        spelling = token.spelling[1:-1]
+        spelling = unquote(token.spelling)
       else:
         spelling = token.spelling
       test_argv.append(spelling)
@@ -164,7 +172,7 @@ class ParseContext(object):
         token = tokens.pop(0)
 
       if token.type is lex.TokenType.QUOTED_LITERAL:
-        value = token.spelling[1:-1]
+        value = unquote(token.spelling)
       else:
         value = token.spelling
 
@@ -184,7 +192,7 @@ class ParseContext(object):
       if token.type is lex.TokenType.WHITESPACE:
         continue
       if token.type is lex.TokenType.QUOTED_LITERAL:
-        spelling = token.spelling[1:-1]
+        spelling = unquote(token.spelling)
       else:
         spelling = token.spelling
       fullpath = os.path.join(self.cwd, spelling)
-- 
2.43.0


From e7f01763147e1369472dbfa12c5cd433de61f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:58 +0000
Subject: [PATCH 32/34] fix: ctest-to knows the bracket arguments which cmake
 writes for the names of tests

---
 cmakelang/ctest_to.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index 4b9936d..9bdbe4f 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -32,6 +32,13 @@ def unquote(spelling):
   return re.sub(r'\\([\\"$])', r'\1', spelling[1:-1])
 
 
+def unbracket(spelling):
+  """Return the value of a bracket argument, which is how later versions of
+     cmake write the name of a test.
+  """
+  return re.sub(r"^\[(=*)\[\n?(.*)\]\1\]$", r"\2", spelling, flags=re.DOTALL)
+
+
 class TestSpec(object):
   """Stores agregated ctest specification, including the name, command, and
      any properties that are set.
@@ -116,9 +123,12 @@ class ParseContext(object):
     if not tokens:
       raise RuntimeError("Ran out of tokens while processing add_test")
     if tokens[0].type not in (
-        lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL):
+        lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL,
+        lex.TokenType.BRACKET_ARGUMENT):
       raise RuntimeError("Expected a WORD token but got {}".format(tokens[0]))
     test_name = tokens[0].spelling
+    if tokens[0].type is lex.TokenType.BRACKET_ARGUMENT:
+      test_name = unbracket(test_name)
     tokens.pop(0)
     test_argv = []
     while tokens and tokens[0].type != lex.TokenType.RIGHT_PAREN:
@@ -151,9 +161,12 @@ class ParseContext(object):
       if token.type == lex.TokenType.WHITESPACE:
         continue
       assert token.type in (
-          lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL), (
-              "Unexpected {}".format(token))
-      test_names.append(token.spelling)
+          lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL,
+          lex.TokenType.BRACKET_ARGUMENT), "Unexpected {}".format(token)
+      test_name = token.spelling
+      if token.type is lex.TokenType.BRACKET_ARGUMENT:
+        test_name = unbracket(test_name)
+      test_names.append(test_name)
 
     token = tokens.pop(0)
     assert token.spelling == "PROPERTIES"
-- 
2.43.0


From cd8c3641adea523c27a24699878a33d7d8a09fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:58 +0000
Subject: [PATCH 33/34] fix: ctest-to reports tests whose timeout has a
 fraction

---
 cmakelang/ctest_to.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index 9bdbe4f..bdf3e61 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -59,7 +59,11 @@ class TestSpec(object):
       if key == "LABELS":
         value = value.split(";")
       if key == "TIMEOUT":
-        value = int(value)
+        try:
+          value = int(value)
+        except ValueError:
+          # NOTE: may have a fraction
+          value = float(value)
       if key.startswith("_"):
         continue
       props[key.lower()] = value
-- 
2.43.0


From c1cc82bf1e32558fd7368b349f873f25806c65f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:05 +0000
Subject: [PATCH 34/34] fix: ctest-to loses the rest of a short write if
 standard output is not buffered

---
 cmakelang/ctest_to.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index bdf3e61..d341d8c 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -297,19 +297,23 @@ def main():
   ctx = ParseContext()
   ctx.start(args.directory)
 
+  # NOTE: not sys.stdout, which loses the rest of a short write if python is
+  # asked not to buffer it
+  outfile = io.open(os.dup(sys.stdout.fileno()), mode="w", encoding="utf-8")
   out_type = getattr(args, "out_type", "json")
   if out_type == "json":
-    sys.stdout.write(ctx.get_json())
+    with outfile:
+      outfile.write(ctx.get_json())
   elif out_type == "xml":
     xml_content = ctx.get_xml()
     try:
       import lxml.etree as etree
-      sys.stdout.write(
-          etree.tostring(etree.fromstring(xml_content), pretty_print=True)
-          .decode("utf-8"))
+      xml_content = etree.tostring(
+          etree.fromstring(xml_content), pretty_print=True).decode("utf-8")
     except ImportError:
       logger.warning("No lxml, cannot pretty-print")
-      sys.stdout.write(xml_content)
+    with outfile:
+      outfile.write(xml_content)
   elif out_type is None:
     logger.info("No output requested")
 
-- 
2.43.0

