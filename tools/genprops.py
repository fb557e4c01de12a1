#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Commands act on exactly the non-excluded Proto files under the given path",
  "For every directory tree and configuration, the files a command acts on are exactly the .proto files at or below the path it was given (a file stands for its directory) that do not lie at or below a path excluded by a configuration file (a path excludes only itself and what is below it, never a sibling that merely shares its name prefix). `files` prints each of them exactly once, sorted, relative to the working directory, and lint, format and compile act on that same set. A tree whose files are governed by more than one configuration file is refused with an error instead of being partly processed.",
  ["inputs","configurations"],
  "all directory trees (nesting, sibling names sharing prefixes, non-proto files, empty directories), all excludes lists (files, directories, in YAML or JSON), all choices of working directory, relative or absolute argument, --config-data or config file, timeouts not hit",
  "Tests list three fixed trees. They never contain sibling directories with a common name prefix, excludes below a sub-directory argument, an absolute argument, or a second configuration file below the argument.",
  ["internal/file/proto_set_provider.go","internal/file/file.go","internal/settings/config_provider.go","internal/exec/runner.go"],
  [("walk and exclude filter","internal/file/proto_set_provider.go walkAndGetAllProtoFiles"),("ancestor test for excludes","internal/file/file.go IsExcluded"),("restriction to the argument directory","internal/exec/runner.go Files/format, internal/protoc/compiler.go makeGenDirs/getCmdMetas, internal/lint/lint.go GetDirPathToDescriptors"),("single configuration","internal/file/proto_set_provider.go GetForDir")],
  ["stdout of `prototool files`","the files named in lint and format output","argv of every protoc process started"])

p("C02", "The nearest configuration governs, is parsed strictly, and YAML equals JSON",
  "The configuration in force for a path is the prototool.yaml or prototool.json of its nearest ancestor directory that has one, or the built-in defaults if none has, or the --config-data value taken as if it were in the working directory. The same settings have the same effect spelled in YAML, in JSON or as --config-data; unknown keys, invalid or conflicting values, and both file names in one directory are rejected with a non-zero exit before anything is written. `config init` writes a file the loader accepts, with the effect of the defaults, and refuses to add one where either file name exists.",
  ["inputs","configurations"],
  "all valid settings combinations over every documented key, all single-fault mutations of them (unknown key at any level, wrong type, conflicting pair, absolute or parent-escaping path), all placements of configuration files in a directory chain",
  "Tests load a handful of fixed files. The combinations of keys, the position of the file in the ancestor chain and the equality of the three spellings are unbounded.",
  ["internal/settings/config_provider.go","internal/settings/settings.go","internal/cfginit/cfginit.go","internal/exec/runner.go"],
  [("strict decoding","internal/settings/config_provider.go getConfig/getForData"),("ancestor search","internal/settings/config_provider.go getFilePathForDir"),("validation of values","internal/settings/config_provider.go externalConfigToConfig"),("template","internal/cfginit/cfginit.go Generate")],
  ["exit code and stdout of lint/files/compile --dry-run/generate --dry-run/create under each spelling","file system before and after"])

p("C03", "Formatting never changes what a Proto file means and never loses a comment",
  "For every Proto file protoc accepts, the output of `format` is accepted by protoc and compiles to the same file descriptor (same packages, imports, options and values, messages, fields, numbers, types, labels, defaults, oneofs, maps, extensions, reserved and extension ranges, enums, services and methods, in the same declaration order). Every comment of the input is in the output, with the same text, once, and still precedes or follows the same definition; only comments that stand alone between the parts of the file header may move below the header.",
  ["inputs"],
  "all compilable proto2 and proto3 files: all constructs, nestings, literal spellings (hex, octal, escapes, both quotes, concatenation-free strings, inf/nan), aggregate options, white-space layouts and comment placements in front of or after a definition; the constructs recorded as known findings are exercised by their own cases",
  "Golden-file tests format a few dozen fixed files and compare text; nobody checks that the result compiles to the same descriptor, and combinations of constructs, literals and comments are unbounded.",
  ["internal/format/transformer.go","internal/format/base_visitor.go","internal/format/first_pass_visitor.go","internal/format/main_visitor.go","internal/format/middle_visitor.go"],
  [("header pass (syntax, package, imports, options)","internal/format/first_pass_visitor.go"),("body pass","internal/format/main_visitor.go"),("option, field and comment printers","internal/format/base_visitor.go")],
  ["stdout of `prototool format`","descriptors protoc makes of input and output"])

p("C04", "Formatting is idempotent and independent of the input's white space",
  "For every Proto file that compiles, formatting the output of `format` again changes nothing, so a file written by `format -w` passes `format -l`. Two files that differ only in white space between tokens, indentation and blank lines have the same formatted form, up to where comments stand, and formatting the same bytes always gives the same bytes.",
  ["inputs","histories"],
  "all compilable files of the C03 domain; all re-layouts of each (token spacing, indentation, blank lines, line endings); repeated application",
  "Tests apply the formatter once to fixed inputs and once to its golden output; idempotence and layout independence range over all inputs.",
  ["internal/format/transformer.go","internal/format/base_visitor.go","internal/format/main_visitor.go","internal/format/first_pass_visitor.go"],
  [("canonical printer","internal/format/*_visitor.go"),("final newline and trailing space normalisation","internal/format/transformer.go")],
  ["stdout of `prototool format` on input, re-laid-out input and own output","exit code of `format -l`"])

p("C05", "All formatter modes agree and only overwrite mode writes",
  "For every file or directory, plain, diff, lint and overwrite mode describe the same result: overwrite leaves in each file exactly the bytes plain mode prints for it, the printed diff turns the old file into that text, and lint mode reports exactly the files whose text would change. Plain, diff and lint mode exit non-zero exactly when some file would change and modify nothing; overwrite exits zero and modifies only files that change. If any file does not compile, every mode fails and no file is modified.",
  ["inputs","configurations"],
  "all sets of compilable files over all four modes, single-file and directory arguments, with and without --fix, mixtures of formatted, unformatted and broken files",
  "Tests run each mode on separate fixed files; agreement of modes on one input, directories with mixed files and untouched bytes are not compared.",
  ["internal/exec/runner.go","internal/diff/diff.go","internal/cmd/cmd.go"],
  [("mode dispatch","internal/exec/runner.go Format/formatFile"),("diff","internal/diff/diff.go Do")],
  ["stdout, exit code","file system before and after","result of applying the printed diff with patch(1)"])

p("C06", "format --fix makes the file options and header satisfy the lint group",
  "For every compilable file, `format --fix` writes a file that passes, for the configured lint group (and, where java_package_prefix is set, the rule that checks that prefix), every lint rule about the value or presence of the file options and the file header that the fix is documented to handle, and changes nothing else about what the file means. A configured header replaces the free-standing comments above syntax; every other comment is kept. File options that already have the value required, are not governed by the group, or belong to other languages are kept as they are, a second `--fix` changes nothing, and without `--fix` no file option is added, removed or changed.",
  ["inputs","configurations"],
  "all compilable files with any subset and values of the file options, all package shapes (versioned, beta, single word, many parts, none), all lint groups, java_package_prefix, file headers given by path or content, commented or not",
  "Tests fix three or four fixed files per group; package shapes, present or absent options, header spellings and their combination are unbounded.",
  ["internal/format/first_pass_visitor.go","internal/protostrs/protostrs.go","internal/exec/runner.go","internal/settings/config_provider.go"],
  [("option rewriting","internal/format/first_pass_visitor.go PackageIsSet/option handling"),("expected values","internal/protostrs/protostrs.go"),("choice of fix per group","internal/exec/runner.go getFormatFixValue")],
  ["descriptor of the file before and after","lint output on the fixed file"])

p("C07", "Lint reports a rule exactly where the file set breaks it",
  "For every compilable set of files and every lint rule, lint reports a finding of that rule, naming the file and the line of the offending element, exactly for the elements that break the rule as documented, whether they are at top level or nested at any depth, in the first or a later file, and reports none on a file that obeys it. @suppresswarnings annotations silence nothing, because the released program cannot turn suppression on. Findings come in a fixed sorted order and the exit code is non-zero exactly when the directory of the argument has one.",
  ["inputs","configurations"],
  "all compilable file sets (several files and directories, nested messages and enums, oneofs, maps, extensions, services, options, comments) crossed with all lint rules",
  "Each rule is tested on one to a few fixed files; nesting depth, position, number of files in the directory and interaction with other elements are unbounded.",
  ["internal/lint/lint.go","internal/lint/runner.go","internal/lint/base_linter.go","internal/lint/base_visitor.go","internal/lint/check_*.go","internal/strs/strs.go","internal/protostrs/protostrs.go"],
  [("one visitor per rule","internal/lint/check_*.go"),("registry of rules","internal/lint/lint.go AllLinters"),("suppression","internal/lint/base_linter.go"),("sorting","internal/text/text.go SortFailures")],
  ["stdout and exit code of `prototool lint` with one rule or a group enabled"])

p("C08", "Lint rule selection is group plus add minus remove minus ignores",
  "The rules applied to a file are exactly the configured group's (the default group if none is named, none for the empty group), plus the added ones, minus the removed ones, minus those an ignore entry lists for that file or a directory containing it; `lint --list-linters` prints exactly that selection, and group listings and their difference agree with one another. Adopting the output of `lint --generate-ignores` as the ignore list makes lint pass, and ignores nothing that was not failing. Unknown rule or group names, and a rule both added and removed, are errors.",
  ["inputs","configurations"],
  "all lint configurations (group, add, remove, ignores by file or directory, any letter case of names) crossed with file sets that break many rules",
  "Tests use a handful of configurations; the algebra of groups, additions, removals and path-scoped ignores ranges over all subsets of about one hundred rules and all trees.",
  ["internal/lint/lint.go","internal/settings/config_provider.go","internal/exec/runner.go"],
  [("rule selection","internal/lint/lint.go GetLinters"),("ignores","internal/lint/lint.go filterIgnores/shouldIgnore"),("generated ignores","internal/exec/runner.go generateIgnores")],
  ["stdout of lint, --list-linters, --list-lint-group, --diff-lint-groups, --generate-ignores"])

p("C09", "The breaking change detector reports every documented breaking change",
  "For every pair of an old and a new schema, break check reports every documented breaking change between them and exits non-zero: deleted packages, messages, enums, services, fields, enum values, methods or oneof members, and changed field names, labels, types, oneof membership, enum value names, method request or response types or streaming, at any nesting depth and in any package that is not exempt. A beta package is exempt unless configured otherwise, and a stable package that depends on a beta one is reported unless configured otherwise. A message names the package and the element concerned.",
  ["inputs","histories","configurations"],
  "all pairs (schema, mutated schema) for all documented kinds of change at all nesting depths and positions, one or several changes at once, stable and beta packages, both values of the two break settings",
  "The detector has no passing unit test at this commit: its own suite needs a network; a fixed corpus could not cover positions, nesting and combinations anyway.",
  ["internal/breaking/","internal/extract/","internal/reflect/","internal/exec/runner.go"],
  [("one checker per kind of change","internal/breaking/check_*.go"),("beta filter","internal/breaking/runner.go"),("package view of descriptors","internal/reflect, internal/extract")],
  ["stdout and exit code of `prototool break check`"])

p("C10", "The breaking change detector stays quiet on compatible changes",
  "Break check exits zero and prints nothing (a stable package's dependency on a beta one, reported by documented rule, apart) when the new schema equals the old one or differs from it only compatibly: added packages, messages, fields, enum values, services, methods or files, reordered definitions, definitions moved between files of one package, changed comments, layout, file options or other settings documented as not wire relevant. It never reports a change in an element that did not change, and the order in which files or elements are given does not matter.",
  ["inputs","histories","configurations"],
  "all pairs (schema, compatibly changed schema) with any number of compatible changes, including enum aliases, nested types, maps, oneofs, streaming methods, proto2 and proto3, multi-package imports",
  "No passing test exercises the detector at this commit, and false alarms depend on combinations no fixed sample covers.",
  ["internal/breaking/","internal/extract/","internal/reflect/"],
  [("comparison by name and number, not position","internal/breaking/breaking.go, internal/extract"),("beta filter","internal/breaking/runner.go")],
  ["stdout and exit code of `prototool break check`"])

p("C11", "Git and descriptor-set comparison agree and leave the repository alone",
  "For every repository history, comparing with a branch or tag gives the same verdict and messages as comparing with a descriptor set taken from a checkout of that commit, the default being the commit the repository has checked out; uncommitted changes of the working tree count on the new side only. The command changes no file, ref, index or configuration of the repository and leaves no temporary directory behind, whether it succeeds, finds changes or fails.",
  ["inputs","histories","configurations"],
  "all small git histories (branches, annotated and light tags, dirty trees, sub-directory arguments, missing refs, an old side that does not compile), each compared in both ways",
  "The only tests that reach this path clone from the network; equivalence of the two sources and cleanup on failure paths are not tested.",
  ["internal/git/git.go","internal/exec/runner.go","internal/cmd/cmd.go"],
  [("temporary clone","internal/git/git.go TemporaryClone"),("removal","internal/exec/runner.go BreakCheck")],
  ["stdout and exit code under both sources","hash of the work tree and .git before and after","content of the temporary directory afterwards"])

p("C12", "compile succeeds exactly when protoc accepts every file, and relays each error",
  "For every file set, compile (and every command that compiles first) exits zero exactly when protoc accepts all files without diagnostics, unused-import warnings counting as failures unless allowed by configuration. Whatever protoc prints and however many directories fail in whatever order, each diagnostic line protoc printed is relayed, as often as it was printed, attributed to its file, line and column as displayed from the working directory, and never swallowed; if protoc cannot be run, crashes, or exits non-zero silently, the command fails.",
  ["inputs","schedules","fault_sequences"],
  "all valid and invalid file sets; all protoc behaviours: exit codes, diagnostics with and without positions, warnings, unknown output, empty output, death by signal, missing binary; any number of directories and completion orders",
  "Tests compile fixed files with one known error each with the real protoc; a protoc that misbehaves, several failing directories, and completion orders are outside them.",
  ["internal/protoc/compiler.go","internal/exec/runner.go"],
  [("output parser","internal/protoc/compiler.go parseProtocOutput/parseProtocLine"),("concurrent runs","internal/protoc/compiler.go runCmdMetas"),("failure to exit code","internal/exec/runner.go doCompile")],
  ["stdout and exit code","log of every protoc process (argv, exit, output)"])

p("C13", "Every protoc invocation is exactly the one the configuration asks for",
  "For every tree and generate configuration, each directory with Proto files at or below the argument is compiled exactly once, and generated exactly once per plugin, with all and only that directory's files. Each invocation carries exactly the include paths (configured ones, configuration directory, Well-Known Types, in order), plugin path, flags, output location below the configured output (for file outputs, one file per directory), and for Go plugins the M-mappings of every file and imported Well-Known Type that the documentation prescribes.",
  ["inputs","configurations"],
  "all trees (several directories, nested, files importing one another), all plugin lists (types, flags, paths, suffixes, descriptor_set options), includes, go_options",
  "Tests compare a few --dry-run outputs for fixed files; number of directories and plugins, nested outputs and modifier sets are unbounded.",
  ["internal/protoc/compiler.go","internal/settings/config_provider.go","internal/wkt/wkt.go"],
  [("command construction","internal/protoc/compiler.go getCmdMetas/getPluginFlagSets"),("go modifiers","internal/protoc/compiler.go getGoPluginFlagSet..."),("include list","internal/protoc/compiler.go getIncludes")],
  ["argv log of every protoc process started"])

p("C14", "Dry runs predict the real run exactly and have no effect",
  "For every tree and configuration, compile --dry-run and generate --dry-run print exactly the protoc commands that the same command would run without the flag, up to order and temporary file names, start no protoc process, and create, change or remove no file or directory.",
  ["inputs","configurations"],
  "all trees and generate configurations of C13",
  "A test prints a dry run for fixed inputs and compares it with a constant; it is never compared with what is really executed, nor is the absence of effects checked.",
  ["internal/protoc/compiler.go","internal/exec/runner.go"],
  [("shared command construction","internal/protoc/compiler.go ProtocCommands/Compile")],
  ["stdout of the dry run","argv log of the real run","file system before and after"])

p("C15", "descriptor-set is complete, faithful and the same in every output form",
  "For every compilable file set, descriptor-set emits each selected file exactly once with a descriptor equal to protoc's own, plus with --include-imports every transitive import, in order of file name, and with --include-source-info the same source information as protoc. Standard output, -o, --tmp and the JSON form carry the same set (JSON up to the values of custom options); an existing output file is replaced completely, and on failure no success is reported.",
  ["inputs","configurations"],
  "all compilable file sets over one or more directories with arbitrary imports, options and extensions, all flag combinations, single file and directory arguments",
  "Tests compare the output for two fixed directories; merging across directories, import closure and order, and equality of forms range over all file sets.",
  ["internal/desc/desc.go","internal/exec/runner.go","internal/protoc/compiler.go"],
  [("merge and sort","internal/desc/desc.go MergeFileDescriptorSets/SortFileDescriptorSet"),("flags to protoc","internal/protoc/compiler.go"),("output","internal/exec/runner.go DescriptorSet")],
  ["bytes emitted in each form","descriptors protoc makes of the same files"])

p("C16", "The gRPC client delivers requests, responses and errors faithfully",
  "For every service in the compiled files and every JSON input, the client sends exactly the messages the JSON denotes, in order, as the method's request type, with the given headers, and prints exactly the response messages the server sent, in order, as JSON that denotes the same messages (a response without any field set prints no line), for unary and all streaming shapes. A non-OK status, an unreachable server, malformed or ill-typed JSON, an unknown method and an exceeded timeout each give a non-zero exit with the cause named; an OK call gives exit zero.",
  ["inputs","histories","fault_sequences"],
  "all message types (scalars with extreme values, maps, oneofs, enums, repeated, nested, Well-Known Types), all message sequences for unary, client, server and bidirectional streaming, all status codes, header sets, failure points",
  "The only test of this path does not pass in this environment and sends one or two fixed messages.",
  ["internal/grpc/handler.go","internal/grpc/grpc.go","internal/exec/runner.go"],
  [("JSON request stream","internal/grpc/handler.go requestSupplier"),("response printing","internal/grpc/invocation_event_handler.go"),("option validation","internal/exec/runner.go GRPC")],
  ["messages and metadata recorded by a server","stdout and exit code of the client"])

p("C17", "create writes the right package, passes lint, and never destroys a file",
  "For every location, configuration and file name, create writes a file whose package follows from --package, or else from the nearest mapped directory plus the path below it, or else from the directory name by the group's default, and whose file options are those the lint group expects, so that the new file compiles and passes the group's rules on package and file options. It never overwrites a non-empty file, and if any named file cannot be created none is left half-written.",
  ["inputs","configurations"],
  "all directory layouts, package mappings (nested, prefix-sharing, relative), lint groups, headers, java prefixes, one or several file names, existing empty or non-empty targets",
  "Tests create a few files in fixed directories; mappings, prefix-sharing directories and combinations with headers are unbounded.",
  ["internal/create/handler.go","internal/create/create.go","internal/protostrs/protostrs.go","internal/settings/config_provider.go"],
  [("package inference","internal/create/handler.go getPkg"),("template","internal/create/handler.go"),("existence check","internal/create/handler.go checkFilePath")],
  ["file system before and after","lint and compile of the created file"])

p("C18", "The protoc cache is never left or used in a broken state",
  "Whatever happens to a process that downloads protoc (killed at any point, truncated or corrupt archive, failing server, read-only or full disk), a later command either finds a complete and usable protoc with the Well-Known Types or downloads it again; it never fails for good or uses a partial installation. Any number of processes may share a cache and start together: all succeed as long as one download takes less than the ten seconds that others wait for it, and the archive is fetched once per version and URL; projects with different versions or URLs each use their own. An archive can write only inside the cache directory; cache delete removes the default cache and nothing else, above all not a cache path the user gave. A failed download says why (HTTP status).",
  ["crash_points","fault_sequences","schedules","inputs"],
  "every system call of a download as kill point, all truncations and corruptions of the archive, HTTP failures, 2 to 16 concurrent processes with update and delete, hostile archive entries",
  "The download test needs the network; concurrency, crashes and hostile archives are not tested.",
  ["internal/protoc/downloader.go","internal/protoc/protoc.go"],
  [("file lock","internal/protoc/downloader.go Download"),("completeness check","internal/protoc/downloader.go checkDownloaded"),("extraction","internal/protoc/downloader.go downloadInternal")],
  ["content of the cache directory","requests seen by the HTTP server","exit code and effect of the next command"])

p("C19", "No data races, and results do not depend on scheduling",
  "No command ever performs a data race. Its exit code, its set of output lines, every file it writes and every process it starts are the same in every schedule: whatever the number of processors, the order in which concurrent protoc processes finish and the delays between them, and its output is the same text in every run (the commands that a dry run lists may come in any order).",
  ["schedules","inputs"],
  "all commands over multi-directory inputs under GOMAXPROCS 1..16, random and adversarial delays of each protoc process, in success and failure, including walk timeouts",
  "Tests run without the race detector on inputs of one directory with a fast protoc; the schedules are never varied.",
  ["internal/protoc/compiler.go","internal/lint/runner.go","internal/file/proto_set_provider.go","internal/text/text.go"],
  [("locks around shared results","internal/protoc/compiler.go"),("bounded worker pool","internal/protoc/compiler.go semaphore"),("sorting","internal/text/text.go SortFailures")],
  ["race detector reports","stdout, exit code and written files over repeated perturbed runs"])

p("C20", "Nothing is written outside the documented outputs and nothing is left behind",
  "Every command creates, changes or removes only its documented outputs (formatted files, generated code below the configured outputs, created files, the -o file, the cache), and ends with no temporary file, directory or child process left, whether it succeeds, reports failures or hits an error at any point. Read-only commands change nothing at all.",
  ["inputs","fault_sequences","configurations"],
  "all commands and flags over valid and invalid inputs, with failing protoc, failing plugins, missing tools, unwritable outputs and read-only inputs",
  "Tests do not look at the file system around the files they expect, and never inject failures.",
  ["internal/exec/runner.go","internal/protoc/compiler.go","internal/diff/diff.go","internal/git/git.go"],
  [("temporary descriptor file removal","internal/protoc/compiler.go cmdMeta.Clean"),("diff temporaries","internal/diff/diff.go"),("clone removal","internal/exec/runner.go")],
  ["file system snapshot (including TMPDIR and HOME) before and after each run","system call trace of file-modifying calls","process table"])

p("C21", "An interrupted command never claims success and stops its children",
  "If a command is interrupted or terminated by a signal at any moment while protoc runs, it ends promptly, does not exit zero with an incomplete result, and leaves no protoc process running. No output file or standard output is presented as complete unless all protoc processes that contribute to it finished successfully.",
  ["crash_points","schedules"],
  "SIGINT and SIGTERM at every phase of compile, lint, generate, format and descriptor-set over one or many directories, before, during and between protoc processes",
  "No test sends a signal.",
  ["internal/protoc/compiler.go","internal/exec/runner.go"],
  [("signal handling","internal/protoc/compiler.go runCmdMeta")],
  ["exit status, stdout, processes alive after the end, log of protoc processes"])

p("C22", "Failures are reported completely, in the requested format and in order",
  "Every command reports its failures one per line with exactly the requested fields in the requested order, or with the JSON flag as one JSON object per line carrying the same values, sorted by file, line, column and rule. For a single-file argument only failures of that file are printed, a message is never cut or merged with another, an invalid error format is rejected when there is a failure to print, and results on standard output are never mixed with diagnostics.",
  ["inputs","configurations"],
  "all error formats (any subset and order of the fields, invalid ones), JSON on or off, compile, lint and format failures with any characters in file names and messages, single file and directory arguments",
  "Tests fix one or two formats and a few failures.",
  ["internal/text/text.go","internal/exec/runner.go"],
  [("formatting","internal/text/text.go Failure.Fprintln"),("order","internal/text/text.go SortFailures"),("filter","internal/exec/runner.go printFailuresForErrorFormat")],
  ["stdout and exit code under each format"])

p("C23", "Package inspection lists exactly the packages and their dependency edges",
  "For every compilable file set, the package inspection commands print exactly the packages declared by the files and their imports, exactly the packages a given one directly depends on through imports, and exactly those that directly import it, each once and sorted; dependencies and importers are converse to each other, and an unknown package, or a file without one, is an error.",
  ["inputs"],
  "all file sets over many packages with arbitrary acyclic imports, several files per package, imports within a package, imports of Well-Known Types",
  "One fixed tree is tested.",
  ["internal/extract/extract.go","internal/reflect/reflect.go","internal/exec/runner.go"],
  [("package graph","internal/reflect, internal/extract NewPackageSet")],
  ["stdout and exit code of the inspection commands"])

p("C24", "No input makes a command crash, hang or give no verdict",
  "For every byte content of Proto files, configuration, descriptor sets, JSON data and every combination of arguments, each command terminates with a defined exit code (zero for success, otherwise non-zero with a reason printed) and never panics, deadlocks or is killed by a runtime fault. Whatever protoc accepts, lint, format and break check process without an internal error.",
  ["inputs","configurations"],
  "arbitrary and mutated file contents, deeply nested or huge definitions, odd encodings and line endings, all flag combinations",
  "Tests use well-formed inputs; robustness ranges over all bytes.",
  ["internal/cmd/cmd.go","internal/exec/runner.go","internal/format/","internal/lint/","internal/settings/config_provider.go"],
  [("error returns instead of panics","throughout"),("exit code mapping","internal/cmd/cmd.go Do")],
  ["exit code, stderr (panic and race reports)"])

p("C25", "The all command is exactly its documented steps",
  "For every project, flags, argument and working directory, `all` does what running its documented steps one after another does: compile, then format in place (with --fix when asked, not at all with --disable-format), generate, then lint (unless --disable-lint), stopping at the first step that fails. It prints what the steps print, fails exactly when one of them fails, leaves the same files, and never formats or generates anything when compilation fails or lints what it has not yet formatted.",
  ["inputs","configurations","fault points"],
  "valid projects and projects that fail at each of the steps, every combination of --disable-format, --disable-lint, --fix, argument and directory",
  "Tests run all over a few projects that pass; the order of the steps and the stop at each failure range over all projects.",
  ["internal/exec/runner.go","internal/cmd/templates.go","internal/cmd/cmd.go"],
  [("runner.All","internal/exec/runner.go"),("meta compiled again after format","internal/exec/runner.go")],
  ["stdout, exit code and files of all and of its steps","protoc processes started"])
p("C26", "What a command does depends on what it is given, not on how it is spelled",
  "For every project with a configuration file, command and target, the exit code, the failures and other output (names taken relative to the project), the files written and the protoc invocations are the same from whatever working directory the command is run, however the target is spelled (relative, absolute, with .., superfluous slashes), wherever flags stand, whether protoc is named by flags or by environment variables (flags take precedence), with or without --debug, in any locale, time zone and HOME, and wherever the project lies.",
  ["inputs","configurations","environments"],
  "all commands on files and directories, run from inside, outside and across other projects, with equivalent spellings of arguments, flags and environment, in directories with odd names",
  "Tests run from one directory with one spelling; the equivalences range over all spellings, directories and environments.",
  ["internal/exec/runner.go","internal/file/proto_set_provider.go","internal/settings/config_provider.go","internal/protoc/compiler.go","internal/cmd/flags.go","internal/cmd/cmd.go"],
  [("workDirPath and display paths","internal/file/proto_set_provider.go"),("flags over environment","internal/cmd/cmd.go"),("relative settings resolved from the configuration file","internal/settings/config_provider.go")],
  ["stdout, exit code, files written, protoc processes of equivalent invocations"])

p("C27", "Arguments that cannot be honoured are refused, by name and without effect",
  "For every command, a command line it cannot honour (an unknown or foreign flag, a missing or malformed value, flags that exclude one another or are incomplete, surplus or non-existent paths, configuration data that does not parse, protoc settings in conflict) ends with a non-zero exit and a message that says what is wrong, and leaves every file, the repository and the cache as they were. Where the arguments alone show it, no protoc process is started and no server is contacted. The combinations the documentation allows are accepted.",
  ["inputs","configurations"],
  "every command and flag with every kind of defect, at any place of the command line and with valid flags around it",
  "Tests try a few contradictory flags; the refusals range over all commands, flags and combinations, and must come before any effect.",
  ["internal/cmd/templates.go","internal/cmd/flags.go","internal/cmd/cmd.go","internal/exec/runner.go","internal/file/proto_set_provider.go","internal/protoc/compiler.go"],
  [("moreThanOneSet and the checks at the start of each command","internal/exec/runner.go"),("getRunner","internal/cmd/templates.go"),("cobra.MaximumNArgs","internal/cmd/templates.go")],
  ["exit code, printed reason, files before and after, protoc processes, connections"])

p("C28", "What a command does follows from the files present, not from earlier runs",
  "For every history of edits, commands, failures and killed commands on a project, every command gives the same exit code and output, leaves the same sources and writes the same outputs as on a fresh copy of the same files with a new HOME, cache and temporary directory, whatever the time stamps of files and whatever earlier runs, complete or cut short, left in the output directories or elsewhere. Run again at once, a command gives the same result and changes nothing more.",
  ["histories","schedules"],
  "all sessions of edits (with new, old and equal time stamps), branch switches, spoilt or removed outputs, killed commands and commands",
  "Tests run one command on a fixed directory; a result kept from an earlier run shows only after a sequence of steps.",
  ["internal/exec/runner.go","internal/protoc/compiler.go","internal/protoc/downloader.go","internal/file/proto_set_provider.go","internal/git/git.go"],
  [("Compile, generate, DescriptorSet","internal/exec/runner.go"),("getCmdMetas and Compile","internal/protoc/compiler.go"),("TemporaryClone","internal/git/git.go")],
  ["exit code, output, sources and outputs, beside those of a fresh copy"])

p("C29", "Directories are independent: all is the sum of its parts, others do not matter",
  "For every project and command, the result for a directory or file depends only on the files there and those they import, and on the configuration: adding, breaking, removing or changing any other file changes neither exit code, output, protoc processes nor files written, and nothing outside the target and the outputs is touched. The result on a project is the union of the results on its directories (files listed, failures, formatted files, generated code, descriptors, packages), and it fails exactly when one of them does; if any directory does not compile, commands that compile first do nothing to any.",
  ["inputs","configurations"],
  "all trees of packages, imports and targets, and all changes to files that the target neither contains nor imports",
  "Tests use one small tree per command; a leak between files or directories shows only in some combination of them.",
  ["internal/exec/runner.go","internal/protoc/compiler.go","internal/lint/lint.go","internal/lint/runner.go","internal/format/transformer.go","internal/extract/extract.go","internal/file/proto_set_provider.go"],
  [("getCmdMetas","internal/protoc/compiler.go"),("Run","internal/lint/runner.go"),("lint, format, generate","internal/exec/runner.go"),("walkAndGetAllProtoFiles","internal/file/proto_set_provider.go")],
  ["exit code, output, protoc processes and files of related runs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
