# The properties; executed by write_docs.py.
SAMPLED = ("Seeded sampling of cases and fault placements against the real code; a "
           "clean run is evidence within what was explored, not proof. Trusts the "
           "simulated kernel to behave like Linux at the calls the tools make. ")

prop("C01", "In-place formatting is atomic under kill and power loss",
     "If cmake-format -i is killed, or the machine loses power, at any moment, "
     "then each named file afterwards holds either exactly its original bytes or "
     "exactly the complete formatted result, and is never missing, empty, partial or "
     "a mixture. Running the same command again completes the job with the result an "
     "uninterrupted run gives. A run that had already exited with status 0 before a "
     "loss of power may lose the rename of a file but never leaves anything between "
     "old and new.",
     ["crash_points", "inputs", "configurations"],
     "every point between and inside the system calls of the run at which it can be "
     "killed or the power can fail, with any subset of the not yet synced writes and "
     "renames lost; every project and configuration",
     "No test of the suite crashes the tool: the in-place test formats one file "
     "undisturbed and compares it. The states between two system calls and the "
     "write-back order of the disk are out of its reach.",
     [FMT], [("temporary file, fsync and rename", FMT + " main()"),
             ("result computed before the output is opened", FMT + " process_file()")],
     SAMPLED + "Power loss is modelled per inode and per directory operation: "
     "un-fsynced data may be lost, zero-filled or torn, renames may be lost.")

prop("C02", "A failing system call never damages a file or is reported as success",
     "When any system call of cmake-format -i fails (input/output error, full disk or "
     "quota, permission, too many open files, short or partial write, failing fsync, "
     "close, chmod or rename), every named file holds at the end, and at every moment "
     "before, either exactly its original bytes or exactly its complete formatted "
     "result. If a named file did not get its formatted result the exit status is not "
     "0, and a message says what went wrong.",
     ["fault_sequences", "inputs", "configurations"],
     "every sequence of failing system calls of a run; every project, configuration "
     "and file size",
     "The suite runs on a healthy file system only; no test makes a call fail, and "
     "the failure paths (error, cleanup, exit status) are never executed.",
     [FMT, "cmakelang/common.py"],
     [("temporary file, fsync and rename", FMT + " main()"),
      ("error reporting", FMT + " main()")], SAMPLED)

prop("C03", "Only what was asked for is written; nothing is left behind",
     "A run of cmake-format -i changes nothing but the content of the named files: "
     "every other file and directory of the system, and the mode of the named files, "
     "stay as they were, symlinks stay symlinks, and an -o run of any tool changes the "
     "output path only. Unless it is killed outright, a run leaves no temporary or "
     "backup file behind, whether it succeeds, fails half way or is interrupted.",
     ["inputs", "fault_sequences", "crash_points"],
     "every project tree (with files whose names look like backups, temporaries or "
     "locks of the named ones), every argument spelling, every failing call or "
     "interrupt",
     "Tests look at the formatted file alone, in a fresh temporary directory; no test "
     "compares the rest of the tree, and none fails or interrupts a run.",
     [FMT, LINT, "cmakelang/annotate.py", "cmakelang/genparsers.py"],
     [("unique temporary file, removed on failure", FMT + " main()"),
      ("copying of the mode", FMT + " main()")],
     SAMPLED + "A kill outright may leave the temporary file; that much is excused.")

prop("C04", "Concurrent runs over the same files act as if one after the other",
     "When several cmake-format -i commands run at the same time over overlapping "
     "files, every file ends with a content that some order of the successful commands "
     "would have given it, and never with a mixture, a loss of content, or a "
     "partial result. No command fails because of the others, leftovers of them "
     "included, and one that reads meanwhile (standard output, --check, cmake-lint) "
     "sees a complete version of each file.",
     ["schedules", "crash_points", "inputs"],
     "every interleaving of the system calls of two to five processes, with any of them "
     "delayed or killed at any point",
     "The suite starts one process at a time; interleavings are neither produced nor "
     "controlled.",
     [FMT], [("unique temporary file and atomic rename", FMT + " main()")], SAMPLED)

prop("C05", "What only reports never changes anything",
     "Formatting to standard output, --check, --dump, --dump-config, cmake-lint, "
     "cmake-annotate and cmake-genparsers without -o leave every file and directory "
     "exactly as it was (content, mode, owner, modification time) whatever the input, "
     "also when calls fail or the run is interrupted, and so work with the same result on "
     "a read-only file system.",
     ["inputs", "configurations", "fault_sequences", "crash_points"],
     "every read-only command over every project, under any failing call, kill or "
     "interrupt",
     "No test compares the tree around a read-only command, and none runs one with "
     "failing calls or a read-only file system.",
     [FMT, LINT, "cmakelang/annotate.py", "cmakelang/genparsers.py",
      "cmakelang/lint/lint_util.py"],
     [("mode switch of the output", FMT + " main()")], SAMPLED)

prop("C06", "--check, -i and standard output agree, over any history",
     "Formatting the same content with the same configuration gives the same bytes "
     "whether in place, to standard output or from standard input, and --check exits "
     "with 0 exactly if -i would change nothing, naming otherwise each file that -i "
     "would change and no other. This holds at any point of any history of edits, "
     "configuration changes, runs and crashes: the outcome depends on the "
     "current files only, never on what ran before. (Where the output encoding differs "
     "from that of the input, text is compared: a file whose text is formatted is one "
     "that -i would not change.)",
     ["histories", "inputs", "configurations"],
     "every history of --check, -i, standard output and input runs, edits, "
     "configuration changes and crashes over every project",
     "Tests check one mode at a time on a handful of files; no test relates the modes "
     "to each other or runs histories with crashes in between.",
     [FMT], [("comparison of content and result", FMT + " main()"),
             ("one code path for all modes", FMT + " process_file()")], SAMPLED)

prop("C07", "Output is complete or the run fails",
     "When any of the tools (format, lint, annotate, genparsers, ctest-to; any input and "
     "output) ends with the status of success, then everything it had to say was "
     "written completely to standard output or the -o file, even if writes fail, are short, "
     "the device is full, or the reader goes away. What was written by a run that "
     "fails is the beginning of the right output and nothing else, and a failing "
     "input leaves an existing -o file of cmake-format as it was.",
     ["fault_sequences", "crash_points", "inputs"],
     "every failing, short or partial write, close or flush, every point where the "
     "reader closes the pipe, every kill, over every command",
     "Tests capture a healthy pipe or file; no test has a write, flush or close fail.",
     [FMT, LINT, "cmakelang/annotate.py", "cmakelang/genparsers.py",
      "cmakelang/ctest_to.py"],
     [("closing of the output stream", FMT + " main()"),
      ("exit status", FMT + " main()")],
     SAMPLED + "cmake-lint's status 1 means findings or failure; where it also stands "
     "for an input that could not be read, missing findings are excused.")

prop("C08", "How input is delivered does not matter; failing reads are reported",
     "The result of every tool depends on the bytes of the input only: not on the "
     "sizes in which reads deliver them, on delays, or on whether they come from a "
     "pipe or a file, also where a read ends inside a multi-byte character or a CR-LF "
     "pair. If an input or one of the configuration files in force cannot be read, the "
     "run says so and exits with a status other than 0, and no file is changed on "
     "the strength of what was read of it.",
     ["fault_sequences", "schedules", "inputs"],
     "every split of the input into reads, every delay, every failing read or open",
     "Tests read small files in one go from a disk that does not fail; splits, delays "
     "and errors are not produced.",
     [FMT, LINT, "cmakelang/annotate.py", "cmakelang/genparsers.py", CFG],
     [("reading of the input", FMT + " main()"),
      ("reading of configuration", CFG + " ; " + FMT + " load_yaml() etc.")], SAMPLED)

prop("C09", "The files of one command do not influence each other",
     "A command with several files (format, -i, --check, the dumps, lint, annotate, "
     "genparsers) gives for each of them what a command of its own gives, whatever "
     "their order, repetitions and configurations: command line options apply to "
     "every file, the configuration found for one file does not reach another, and "
     "a file that lint or genparsers cannot open does not keep the others from "
     "being processed. A tool that ends at a failing file has done all files before "
     "it, and none after it.",
     ["inputs", "configurations", "fault_sequences"],
     "every list of files (order, repetitions, links), every distribution of "
     "configurations over their directories, every file that fails or cannot be read",
     "The tests start commands with a single file; state that one file leaves for "
     "the next is never exercised.",
     [FMT, LINT, "cmakelang/annotate.py", "cmakelang/genparsers.py", CFG,
      "cmakelang/parse/funs/__init__.py"],
     [("loop over the files, configuration per file", FMT + " main()"),
      ("context per file", "cmakelang/lint/lint_util.py GlobalContext")], SAMPLED)

prop("C10", "The exit status of a command accounts for each of its files",
     "A command with several files exits with 0 exactly if a command for each of them "
     "would: one malformed, missing, unreadable, undecodable, unformatted (--check), "
     "linted or badly configured file anywhere in the list makes the status non-zero, "
     "whatever follows. --check names each file that is not formatted and no "
     "other; lint and genparsers name each file which cannot be read; a failure is "
     "never silent.",
     ["inputs", "fault_sequences", "configurations"],
     "every list of healthy and failing files in every order, every failing open or "
     "read",
     "Tests check the status of single-file commands in the two simplest cases.",
     [FMT, LINT, "cmakelang/annotate.py", "cmakelang/genparsers.py"],
     [("accumulated return code", FMT + " main()"),
      ("accumulated return code", LINT + " inner_main()"),
      ("--check", FMT + " onefile_main()")], SAMPLED)

prop("C11", "Configuration is applied as a whole, or the run fails",
     "Each file is processed with exactly the configuration which its config files "
     "(found by the search or given, includes in their order) and the "
     "command line define. A config file that exists but cannot be read, decoded or "
     "parsed, is a directory, or includes a missing or cyclic one, makes the run fail "
     "and leaves the files alone; it is never ignored or applied in part. If a config "
     "file is replaced while a run is in progress then each file is processed with "
     "the old or the new one, never a mixture.",
     ["configurations", "fault_sequences", "schedules"],
     "every layout of config files and includes in every format, every failing call "
     "on them, every point at which another process replaces them",
     "Tests load healthy config files from a healthy disk; four of their include "
     "tests are not even stable.",
     [FMT, CFG, "cmakelang/config_util.py"],
     [("search", FMT + " find_config_files()"),
      ("loading and includes", FMT + " load_config(), get_one_config()"),
      ("precedence", FMT + " main() get_config()")], SAMPLED)

prop("C12", "Every run ends, and an interrupt ends it promptly",
     "Every run of every tool ends by itself within a bounded number of system "
     "calls and bounded computation, whatever files, links, config includes, test "
     "trees, name collisions, stalls or clock jumps it meets, and also where calls keep "
     "failing for good. SIGINT at any point "
     "makes it end promptly, without starting on another file, and it then reports "
     "success only if its work was complete.",
     ["crash_points", "configurations", "inputs", "schedules"],
     "every graph of includes, links and subdirectories, every point of the run for the "
     "signal, every delay and clock",
     "Tests never interrupt a tool and have no cyclic inputs.",
     [FMT, LINT, "cmakelang/annotate.py", "cmakelang/genparsers.py",
      "cmakelang/ctest_to.py", CFG],
     [("include recursion", FMT + " load_config()"),
      ("subdirs recursion", "cmakelang/ctest_to.py"),
      ("creation of the temporary file", FMT + " main()")],
     SAMPLED + "Prompt: within 150 further system calls; bounded: 20 s of CPU.")

prop("C13", "Results depend on content and configuration only",
     "The outcome of a command (output bytes, changed files, exit status, messages) is "
     "the same in every environment: hash randomisation, process id, time of day and "
     "clock jumps, locale and encoding of the terminal or pipe, environment variables, "
     "size of the terminal, number of processors, host and user names, addresses in "
     "memory, umask, order of directory listings, latency, terminal or not.",
     ["schedules", "configurations", "inputs"],
     "every hash seed, pid, clock, locale, environment, umask, listing order and "
     "latency, over every command and project",
     "Tests run in the one environment of the developer; a dependence on set order or "
     "locale shows up elsewhere and only sometimes.",
     [FMT, LINT, "cmakelang/annotate.py", "cmakelang/genparsers.py",
      "cmakelang/ctest_to.py", CFG],
     [("explicit encodings of all streams", FMT + " main()"),
      ("ordered traversal", "cmakelang/parse, cmakelang/lint")], SAMPLED +
     "Three to four hash seeds per run; the C locale is excused where the file "
     "names themselves need another.")

prop("C14", "Library calls in one process do not influence each other",
     "Any sequence of calls of the library (format, lint, annotate, genparsers, dump "
     "of a configuration) in one process, one after the other or in several "
     "threads at once, with any configurations, gives for each call the result it has "
     "in a process of its own, also after earlier calls failed or were ended by "
     "KeyboardInterrupt or MemoryError at any point.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "every interleaving of lines of the calls, every point of an exception, every "
     "history of calls and configurations",
     "Tests run one call at a time and rarely two configurations in one process; none "
     "has threads or exceptions from outside.",
     ["cmakelang/parse/funs/__init__.py", "cmakelang/lex.py", "cmakelang/markup.py",
      "cmakelang/format/formatter.py", CFG, "cmakelang/lint/basic_checker.py"],
     [("cached command specifications, copied before use",
       "cmakelang/parse/funs/__init__.py get_parse_db(), get_funtree()"),
      ("module level tables", "cmakelang/lint/lintdb.py, cmakelang/configuration.py")],
     SAMPLED + "Switches happen between lines of cmakelang code.",
     technique="deterministic simulation: real library calls in real threads under a "
     "seeded line-granular scheduler with injected exceptions")

prop("C15", "The lint report accounts for every finding of every file",
     "The report of cmake-lint contains for each file that could be read, in the "
     "order of the command line, its title and exactly the findings which the file has "
     "on its own; the summary states the number of distinct files scanned and the exact "
     "number of findings per category, not counting files that could not be read; "
     "the status is 0 exactly if there is no finding and no failure. Pragmas and "
     "configuration of one file never add or hide findings of another; -o and the "
     "decorations do not change what is reported. A file which cmake-format can "
     "process is reported on.",
     ["inputs", "configurations", "fault_sequences"],
     "every list of files with any findings, pragmas and configurations, every failing "
     "open or read",
     "Tests lint one file and compare single records; the summary, several files and "
     "failing reads are not tested.",
     [LINT, "cmakelang/lint/lint_util.py", "cmakelang/lint/basic_checker.py"],
     [("contexts and summary", "cmakelang/lint/lint_util.py GlobalContext"),
      ("suppression", "cmakelang/lint/lint_util.py FileContext"),
      ("loop over the files", LINT + " inner_main()")], SAMPLED)

prop("C16", "ctest-to reports every test of the tree exactly once, or fails",
     "cmake-ctest-to reports each test of the build tree exactly once with its "
     "name, command, working directory, labels and properties, following every "
     "existing subdirectory from any number of places and through cycles without "
     "repetition or endless recursion. If any of the files cannot be read or its report "
     "cannot be written completely, the exit status is not 0.",
     ["inputs", "fault_sequences", "schedules"],
     "every tree of CTestTestfile.cmake files (shapes of the include graph, names, "
     "properties), every failing or short call",
     "The suite does not run ctest-to at all.",
     ["cmakelang/ctest_to.py"],
     [("recursion over subdirs()", "cmakelang/ctest_to.py parse_ctest_testfile()")],
     SAMPLED + "The expected list of tests is known by construction of the tree.")

prop("C17", "A dumped configuration stands for the one it was dumped from",
     "What --dump-config writes (yaml, json or python; with or without help and "
     "defaults; cmake-format or cmake-lint), saved as a config file, makes every later "
     "command give what the original config files and command line options gave, over "
     "any chain of dumps of dumps, wherever it is placed, and whatever the locale in "
     "which it is written or read. Unless it was written completely the run fails.",
     ["configurations", "histories", "fault_sequences"],
     "every configuration, dump format, sequence of dumps and uses, locale and failing "
     "or short write",
     "The tests load the dump of a few settings in the same process; no chain, no "
     "locale, no failing write, and the commands are not run on the dump.",
     [FMT, LINT, CFG, "cmakelang/config_util.py"],
     [("dump", FMT + " dump_config()"),
      ("serialisation", "cmakelang/config_util.py ConfigObject"),
      ("loading", FMT + " get_configdict()")], SAMPLED)

PURE = ("A function of one input and one configuration: no schedule, fault, crash, "
        "clock or I/O takes part, so a simulator has nothing to vary; ")

prop("N01", "Formatting keeps the commands and arguments of the listfile",
     "The formatted listfile has the same sequence of commands and arguments as the "
     "original, apart from the letter case, order or quoting that the configuration asks "
     "to change.", ["inputs", "configurations"],
     "every valid listfile and configuration",
     "The tests compare a few hundred inputs with expected results.",
     ["cmakelang/format/formatter.py", "cmakelang/parse"],
     [("layout and writing of the tree", "cmakelang/format/formatter.py")],
     claimed=False, reason=PURE + "it needs input generation against a reference "
     "lexer (property-based testing, fuzzing), which is another technique. C01, C04 and "
     "C06 decide what histories and schedules can add to it.")

prop("N02", "Formatting is idempotent", "Formatting a formatted listfile again with the "
     "same configuration changes nothing.", ["inputs", "configurations"],
     "every valid listfile and configuration",
     "The tests format their expected results once more in a few places only.",
     ["cmakelang/format/formatter.py"],
     [("layout", "cmakelang/format/formatter.py")], claimed=False,
     reason=PURE + "idempotence is a relation between two values of a pure function.")

prop("N03", "Comments keep their text and their place", "Every comment of the "
     "listfile appears in the formatted one, with the same words in the same order and "
     "attached to the same command, and bracket comments byte for byte.",
     ["inputs", "configurations"], "every valid listfile and configuration",
     "A few dozen examples are tested.",
     ["cmakelang/markup.py", "cmakelang/format/formatter.py"],
     [("comment reflow", "cmakelang/markup.py")], claimed=False,
     reason=PURE + "input generation against a reference model would be needed.")

prop("N04", "Regions with formatting switched off stay byte for byte",
     "What stands between the off and on pragmas is output as it was.",
     ["inputs", "configurations"], "every valid listfile and configuration",
     "A handful of examples are tested.", ["cmakelang/format/formatter.py"],
     [("off-on regions", "cmakelang/format/formatter.py")], claimed=False,
     reason=PURE + "input generation would be needed.")

prop("N05", "The layout respects line width wherever a valid layout exists",
     "No line is longer than the configured width where breaking can avoid it, and "
     "required wrappings are observed.", ["inputs", "configurations"],
     "every valid listfile and configuration", "Examples only are tested.",
     ["cmakelang/format/formatter.py"], [("layout passes",
                                          "cmakelang/format/formatter.py")],
     claimed=False, reason=PURE + "the layout algorithm sees neither time nor I/O.")

prop("N07", "Line endings and byte-order marks follow the configuration",
     "The formatted output has the line endings and the byte-order mark that the "
     "configuration asks for.", ["inputs", "configurations"],
     "every input, encoding and line ending setting",
     "Two or three examples are tested.", [FMT, CFG],
     [("line endings", CFG)], claimed=False,
     reason=PURE + "C08 covers how the bytes arrive, which is where a simulator has "
     "something to vary.")

prop("N08", "Lint pragmas suppress exactly the ids they name, where they stand",
     "A disable pragma suppresses the named ids in its scope and nothing else.",
     ["inputs", "configurations"], "every listfile and lint configuration",
     "A few examples are tested.", ["cmakelang/lint/lint_util.py",
                                    "cmakelang/lint/basic_checker.py"],
     [("pragma handling", "cmakelang/lint/lint_util.py")], claimed=False,
     reason=PURE + "decided by input generation, not by schedules or faults.")

prop("N09", "Annotated output contains the whole source text",
     "The text content of the annotated HTML is the listfile, character for "
     "character.", ["inputs"], "every listfile",
     "Not tested.", ["cmakelang/render.py", "cmakelang/annotate.py"],
     [("HTML rendering", "cmakelang/render.py")], claimed=False,
     reason=PURE + "C07 and C08 cover its input and output.")
