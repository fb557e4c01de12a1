T = {
 "C01": ("runtime monitor: observed file sets against a reference walk", "exploration", "Random trees, configurations and arguments; the sets that files, lint, format and compile act on are observed (output, logged protoc argv, changed files) and compared with an independent reference walk. Trusts the reference walk and the fake protoc."),
 "C02": ("runtime monitor: differential observation of configuration spellings and placements, with a reference for strictness", "exploration", "Random valid configurations in YAML, JSON and --config-data, single-fault mutations, random chains of configuration files, and config init; the observed results are compared with each other and with the reference. Trusts the reference for which mutation is a fault."),
 "C03": ("runtime monitor: protoc's descriptors and an independent tokenizer's comments before and after formatting", "exploration", "Generated sets and a list of named language constructs are formatted; protoc's own descriptors of both versions and the sequence of comments are compared. Trusts protoc and the tokenizer; constructs the formatter cannot handle are listed findings."),
 "C04": ("runtime monitor: fixpoint and white-space metamorphic relations over observed formatter output", "exploration", "Generated sets and constructs are formatted again, and formatted after random changes of their white space and comment style; the outputs are compared."),
 "C05": ("runtime monitor: plain, lint, diff and overwrite modes observed on the same files, with file system snapshots", "exploration", "Every mode is run over the same files and arguments; an independent patch application and snapshots decide that they agree and that only overwrite mode writes."),
 "C06": ("runtime monitor: protoc's descriptors, lint's findings and a second run observed after format --fix, against reference values", "exploration", "Generated sets with packages of every shape under every lint group, header and prefix; the fixed file must have exactly the options a reference demands and nothing else changed. Trusts protoc and the reference values."),
 "C07": ("runtime monitor: lint's findings observed on generated sets against a reference linter over the generator's model", "exploration", "Generated sets bent towards and away from every rule; the multiset of (rule, file, line) must equal the reference's, for the set, a file alone and rules alone; named constructs outside the generator. Trusts the reference rules, which read the generator's model and not the text."),
 "C08": ("runtime monitor: rule listings, findings and generated ignores observed against the documented groups and the reference linter", "exploration", "Random selections and ignores over generated sets; the selection is predicted from the documentation's rule table, the findings from the reference linter, and generated ignores are adopted and taken away again. Trusts the rule table and the reference linter of C07."),
 "C09": ("runtime monitor: break check's messages observed on mutated schemas against a reference comparison of protoc's descriptors", "exploration", "Generated sets with one or several typed mutations at random positions; the messages printed must equal those of a reference that compares protoc's own descriptors of both sides, under both settings. Trusts protoc and the reference comparison."),
 "C10": ("runtime monitor: break check observed on compatibly evolved schemas; silence is the oracle", "exploration", "Generated sets evolved by random sequences of compatible edits, and named constructs; break check must print nothing and exit zero. Trusts that each edit is compatible as documented; one listed finding."),
 "C11": ("runtime monitor: break check against a commit observed beside break check against that commit's descriptor set, with snapshots of repository and temporary directory", "exploration", "Random histories of generated schemas, refs of every kind, dirty work trees and arguments, and named situations (hooks, odd paths, failing git); both sources must print the same, and the repository, HOME and TMPDIR must be unchanged. Trusts git for what a name denotes."),
 "C12": ("runtime monitor: diagnostics of logged protoc processes replayed and compared with what is printed", "exploration", "Generated broken schemas through the real protoc and scripted protoc behaviours (text, exit, crash, absence); an independent mapper predicts every printed line. Trusts protoc's determinism and the mapper."),
 "C13": ("runtime monitor: trace of started processes against a reference command model", "exploration", "Random trees and generate configurations; the argv of every protoc process started is logged by a stand-in and compared with an independent model of the documented command lines."),
 "C14": ("runtime monitor: trace of the dry run against the trace of the real run, with file system and process observation", "exploration", "Over the domain of C13 the printed commands are compared with the logged ones, and snapshots and the process log show the dry run to be without effect."),
 "C15": ("runtime monitor: emitted descriptor sets compared with protoc's own on every output channel", "exploration", "Random compilable sets; every output form (stdout, -o, --tmp, JSON; with imports, with source info) is decoded and compared file by file with the set the real protoc emits. Trusts protoc and its text form."),
 "C16": ("runtime monitor: recording gRPC server and own wire/JSON model compared with what the client prints and sends", "exploration", "Random services over random schemas with well-known types, all streaming shapes, headers, status codes, interleavings, bad inputs, TLS and named faults (server death, timeouts, closed output), some under the race detector; the server keeps raw bytes, which a message model of the harness decodes. Trusts google.golang.org/grpc for transport."),
 "C17": ("runtime monitor: created files compared with reference descriptors, file system before and after, injected faults", "exploration", "Random trees of directories, nested configurations, package mappings, groups and headers; every created file is decoded by protoc and compared with reference package and options, compiled and linted; 13 kinds of failures, among them write errors part way and missing permissions, must leave every file whole. Trusts protoc."),
 "C18": ("runtime monitor: requests, file system and next command observed under faults, kills and concurrent processes", "exploration", "Real downloads from HTTP, a stand-in for GitHub, and files, of random archives: served badly, corrupted, truncated, hostile; processes killed at random points of download and extraction, out of space or permission, side by side with deletes; installations damaged afterwards. Monitored are requests per archive, files outside and inside the cache, and whether the next command works. One listed finding (cache delete beside a download)."),
 "C19": ("race detector and comparison of repeated runs under perturbed schedules", "exploration", "Every command over valid and failing trees, repeated under the race detector, processor counts, GOMAXPROCS, per-process protoc delays, processes side by side and expiring walk timeouts; race reports, exit code, output text, files and started processes are compared with an undisturbed run."),
 "C20": ("runtime monitor: snapshots of project, home and temporary directory and the process group around every command, under one fault each", "exploration", "Every command runs over valid and failing trees undisturbed, as a user who may write nothing, and with one fault: failing or dying protoc, plugins, git and diff, unwritable outputs or TMPDIR, file size and descriptor limits, full output, expired walk. Monitored: everything that changed besides the documented outputs, processes left, and files that format rewrites being whole."),
 "C21": ("runtime monitor: signals and dying protoc processes at logged events, process table and files afterwards", "exploration", "SIGINT and SIGTERM, to the process or its group, once or twice, at chosen events of the protoc log or random times, with fast, slow and blocked protoc processes on one or more processors; protoc processes that die by themselves. Monitored: end in time, exit code against the log, output and files against an undisturbed run, processes and temporary files left."),
 "C22": ("runtime monitor: printed failures in every format compared with the recorded findings", "exploration", "Generated failing sets and scripted protoc diagnostics; the JSON records are the reference for every text format, the order and the single-file filter, and the script is the reference for the records."),
 "C23": ("runtime monitor: printed package graphs compared with a reference graph", "exploration", "Random acyclic import graphs; packages, dependencies and importers of every package are compared with an independent graph."),
 "C24": ("runtime monitor: process verdicts (exit code, panic, signal, time, printed reason) over hostile inputs", "exploration", "Generated sets, named language constructs, mutated texts, configurations, flags and descriptor sets, and named extremes; every process must end in time with a defined exit code, a reason when it fails and no crash, and what protoc accepts must be processed. Trusts protoc for what is valid."),
 "C25": ("runtime monitor: output, exit code, files and protoc processes of all against its steps run one by one", "exploration", "Generated projects that pass or fail at a chosen step, random flags and targets; the steps are separate commands on an identical copy. That each step is right is the subject of the other checks."),
 "C26": ("runtime monitor: equivalent invocations (directory, spelling, flags, environment, place) compared with one another", "exploration", "Generated projects and commands; each is run five times on fresh copies with equivalent spellings and compared in output, exit code, files and protoc processes."),
 "C27": ("runtime monitor: refusals (exit code, reason, files, processes, connections) over defective command lines", "exploration", "A table of kinds of defect, instantiated at random over generated projects, and of combinations that must be accepted; files, repository, cache, protoc processes and connections are watched."),
 "C28": ("runtime monitor: every command of a random session beside the same command on a fresh copy of the files", "exploration", "Sessions of edits, branch switches, killed commands and commands; exit code, output, sources and outputs are compared with those of a fresh copy without outputs, HOME, cache or TMPDIR of its own, and with an immediate repetition."),
 "C29": ("metamorphic runtime monitor: runs before and after changes elsewhere, and whole against parts", "exploration", "Related executions of the same command are observed (exit code, output, protoc processes, files) and compared: target with other files changed; project against the union of its directories."),
}
