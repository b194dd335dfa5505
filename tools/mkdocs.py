#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, level_note=None, technique=None, state=None):
    P.append(dict(rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, **({"state": state} if state else {}), mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)), note=level_note, tech=technique))

SIM = "deterministic simulation with fault injection: "
ROOT = "cmd/root.go"
LIBF = ["kfparser/parser.go", "kfparser/visitor.go", "schema/schema.go", "schema/validator.go", "kfgrammar/kuneiform_lexer.go", "kfgrammar/kuneiform_parser.go", "utils/error_listener.go"]
TESTS = "The 85 existing tests call the parser on a few dozen fixed sources; nothing runs the command line tool, the web module, or two callers at once."

p("C01", "A successful run leaves exactly the compiled source at the output path",
  "When the command line tool exits 0 for a source, the file <output directory>/<source name without extension>.json is one complete JSON document describing that source exactly: every extension, table, column, attribute, index, foreign key, action, input, annotation and statement, with the values written in the source, in order, and nothing else. This holds whatever was at that path before and whatever short, slow, interrupted or failing file operations, full disks, clocks and latencies the run met. A valid source is refused only when a file operation really failed.",
  ["inputs", "fault_sequences", "configurations"], "all valid sources; all prior contents of the output path; all sequences of file-system faults and latencies; all spellings of the arguments",
  TESTS + " No test writes an output file, injects an I/O fault or checks a whole schema for sources other than the samples.",
  [ROOT, *LIBF], [("ParseKF, then ToJSON, then writeToFile with its error checked", ROOT), ("visitor building the schema", "kfparser/visitor.go")], ["output file", "exit code"],
  "Seeded search over generated valid sources (names, sizes, layouts, literals), prior outputs and up to four faults per run; the schema is compared with an independent reference model of the language. Trusts kwil-db/parse for the text of one statement.",
  SIM + "the real tool on a simulated file system, compared with a reference compiler")
p("C02", "An invalid source is never accepted and never published",
  "A source that breaks the grammar or any semantic rule of the language (unknown or duplicate tables, columns, indexes, foreign keys, actions, inputs, extensions, variables; attributes not allowed for a type; more than one init; contradictory action attributes; calls of unknown actions or extensions, or with unknown variables anywhere in what they pass; statements that are not valid) makes the tool fail, and no output is produced from it. This includes sources invalid only because storage damaged them or because they were being saved while the tool read them.",
  ["inputs", "fault_sequences"], "all sources violating any rule of the language, all damage to a stored source (truncation, bit flips, lost, zeroed, duplicated or misdirected blocks), all instants of a concurrent save, over any prior output",
  TESTS + " Each semantic rule is sampled by at most one or two fixed sources, and none with a damaged or concurrently saved file.",
  [ROOT, "schema/validator.go", "kfparser/visitor.go", "kfparser/parser.go"], [("validator walking the schema", "schema/validator.go"), ("visitor raising errors for duplicates and types", "kfparser/visitor.go"), ("error listener replacing antlr's recovery", "utils/error_listener.go")], ["exit code", "output file"],
  "Seeded search: one broken rule, textual edit or storage damage per source, plus faults and torn saves; the reference model decides what is invalid.",
  SIM + "damaged and rule-breaking sources against a reference model")
p("C03", "Every failure is reported, distinguishably, and leaves the old output intact",
  "When a run cannot do its work it exits with the code of the stage that failed (1 bad flags, 2 not exactly one source named, 3 output directory cannot be made, 4 source cannot be read, 5 source invalid, 7 output cannot be written, or would overwrite the source) and prints a diagnostic; it never exits 0, crashes or hangs. What was at the output path before a failed run is still there unchanged.",
  ["fault_sequences", "configurations", "inputs"], "every failing operation, alone and in pairs: arguments, directory creation, opening and reading the source, writing, closing and renaming the output, full and read-only disks, permissions, directories and dangling links in the way",
  TESTS + " The tool's failure paths are not tested at all.",
  [ROOT], [("exit codes", ROOT), ("writeToFile returning its error", ROOT)], ["exit code", "console", "output file"],
  "Seeded search over argument misuse, file-system states and injected errors; every exit code must be justified by something that happened to that invocation.",
  SIM + "failing stages on a simulated file system")
p("C04", "Killing the tool at any instant leaves the old output or the complete new one",
  "If the tool is killed at any point of a run, the output path holds what it held before (or nothing, if there was nothing) or the complete JSON of the source: never a truncated, empty or mixed document, not even for a moment. No other existing file is changed, and nothing that could be taken for a result is left under another name.",
  ["crash_points", "fault_sequences"], "every point of a run, before, inside and after every file operation, including in the middle of a write, after any earlier short, slow or failing operation; any prior output, also through a symbolic link",
  TESTS + " No test kills anything.",
  [ROOT], [("temporary file in the output directory, then rename", ROOT)], ["output file after every change of the file system"],
  "Seeded search; a kill is placed before, after or inside one operation of the run. Crash model: process death (the page cache survives), not power loss.",
  SIM + "crash at arbitrary operations, output inspected after every file-system change")
p("C05", "Invocations running at the same time never corrupt or disturb each other",
  "When several invocations overlap, sharing sources, output directories or output files or not, every output path at every instant holds its previous content or the complete result of one of the invocations writing it; an invocation fails only for reasons of its own; and an invocation's result is superseded only by one that did not end before it began.",
  ["schedules", "crash_points", "fault_sequences"], "all interleavings of the file operations of 2-5 invocations, with kills, faults and sources replaced meanwhile",
  TESTS + " No test runs two invocations.",
  [ROOT], [("exclusive temporary file with a random name, then rename", ROOT), ("MkdirAll tolerating existing directories", ROOT)], ["output files over time", "exit codes"],
  "Seeded search over interleavings of real invocations on one simulated file system, checked against the recorded history.",
  SIM + "concurrent invocations under a seeded scheduler, history check")
p("C06", "After any history of crashes and failures a fresh run succeeds",
  "After any sequence of killed, failed or disk-starved runs, once faults stop, running the tool again on a valid source succeeds, takes no more than a constant number of extra file operations, and leaves byte for byte the same output as in a directory where nothing had gone wrong.",
  ["histories", "crash_points", "fault_sequences"], "all histories of up to four faulty invocations of one source",
  TESTS + " Needs histories of crashes.",
  [ROOT], [("temporary names that never collide with leftovers", ROOT)], ["exit code", "output file"],
  "Seeded search over crash histories with a liveness check (bounded operations) and a byte comparison with a fresh world.",
  SIM + "crash-restart histories, bounded recovery")
p("C07", "Concurrent callers of the library get the answers they would get alone",
  "Any number of callers may parse sources (with or without tracing or listeners of their own) and annotations at the same time in one process. Each call returns the same schema or error, and leaves in its listener the same errors, as it would alone in a fresh process, whatever the interleaving, also during the very first use.",
  ["schedules", "inputs"], "all interleavings, at statement granularity inside the repository's packages, of 2-6 callers with 1-5 calls each, over valid and invalid sources, cold and warm",
  TESTS + " They are sequential.",
  LIBF + ["utils/annotation.go"], [("once-only initialisation of the generated lexer and parser tables", "kfgrammar/kuneiform_lexer.go"), ("no state shared between calls", "kfparser/parser.go")], ["returned results, errors, listeners"],
  "Seeded search over explicit schedules: a scheduling point before every statement of the repository's packages, package sync replaced by an equivalent under the scheduler. Dependencies run between two points.",
  SIM + "caller threads under a controlled scheduler, compared with solo runs")
p("C08", "The library is free of data races",
  "Concurrent use of the library by callers that share nothing but the text of a source never makes two goroutines access the same memory, one of them writing, without synchronisation between them. This includes the first use in a process and callers overwriting results they own.",
  ["schedules", "inputs"], "all interleavings of 2-6 callers parsing sources and annotations, cold and warm",
  TESTS + " They are sequential, so the race detector has nothing to see.",
  LIBF + ["utils/annotation.go"], [("sync.Once around static data", "kfgrammar/kuneiform_lexer.go, kfgrammar/kuneiform_parser.go"), ("per-call listeners, visitors and validators", "kfparser/parser.go")], ["race detector reports"],
  "Seeded schedules executed natively under the Go race detector; the scheduler's own hand-overs are hidden from the detector, so only the program's synchronisation counts.",
  SIM + "seeded schedules with a happens-before race oracle")
p("C09", "Earlier calls never influence later ones in a long-lived process",
  "In a process that has already answered any number of calls - valid, invalid, damaged, traced, overlapping, with the console failing - every further library call gives exactly the answer it would give as the first call of a fresh process, and that answer is right by the language.",
  ["histories", "inputs", "fault_sequences"], "all histories of calls up to several hundred, all console faults, clock jumps and collector settings",
  TESTS + " Each test checks single calls; no repetition after failures.",
  LIBF + ["utils/annotation.go"], [("fresh lexer, parser, visitor, listener and validator per call", "kfparser/parser.go")], ["returned results and errors"],
  "Seeded search over call histories; every answer compared with the same call alone in a fresh process and with the reference model.",
  SIM + "long histories in one simulated process, refinement against fresh processes")
p("C10", "The output depends on the source alone",
  "The same source compiled by the tool anywhere, any time gives the same exit code and byte-identical output: environment variables, locale, time zone, clock and its jumps, hash seeds, garbage-collector settings, umask, process ids, working directory, tracing, prior output and the spelling of the arguments do not matter. An invalid source is reported in the same words everywhere.",
  ["configurations", "inputs", "schedules"], "all environments, hash seeds and clocks; all sources",
  TESTS + " They run in one environment and compare few schemas, never bytes across environments.",
  [ROOT, *LIBF], [("no maps iterated into the output, no time or environment read", "schema/schema.go, kfparser/visitor.go")], ["output bytes", "exit code", "error text"],
  "Seeded search: each source in 3-4 worlds that differ in everything but the source.",
  SIM + "one source in several simulated worlds, byte comparison")
p("C11", "The web module answers every call and survives all of them",
  "Once loaded, the web module answers every call with one text argument with an object holding the schema of exactly that text, or a non-empty error and no schema; a call with another number of arguments is answered without a schema. Neither an invalid text, misuse, a failing console nor the number of earlier calls makes it throw, stop answering or answer differently.",
  ["histories", "inputs", "fault_sequences"], "all histories of calls with valid, invalid and damaged texts and wrong arguments, reloads, console faults, clocks and collector settings",
  TESTS + " The web module has no tests.",
  ["wasm/wasm.go", *LIBF], [("parseWrapper returning a fresh object", "wasm/wasm.go"), ("recover in ParseKF", "kfparser/parser.go")], ["returned object", "module state"],
  "Seeded search over page histories with the real module in a simulated JavaScript host. One recorded finding (asynchronous console).",
  SIM + "the real web module in a simulated host, reference model")
p("C12", "Tracing and console trouble never change the result",
  "Running with --trace prints a trace covering the whole source and otherwise gives the same exit code and output file as running without it. A slow or failing console, or one that was closed before the run began, changes neither exit code nor output file.",
  ["fault_sequences", "configurations", "inputs"], "all console faults at all writes, with and without tracing, all sources",
  TESTS + " No test uses the tool, tracing or a failing console.",
  [ROOT, "kfparser/visitor.go", "kfparser/parser.go"], [("-t/--trace flag selecting the trace mode", ROOT), ("trace printing in the visitor", "kfparser/visitor.go")], ["exit code", "output file", "console"],
  "Seeded search over console faults, differential against a quiet run.",
  SIM + "console faults, differential runs")
p("C13", "What a call returned belongs to its caller",
  "Whatever a caller does to a schema, error or annotation it was given - overwriting every field and every slice element it can reach - changes no answer of a later call and nothing that another call returned; and nothing any later call does changes a result a caller still holds.",
  ["histories", "schedules", "inputs"], "all histories of calls, overwrites and re-reads by 1-4 callers under all interleavings",
  TESTS + " No test modifies or keeps a result.",
  ["kfparser/parser.go", "kfparser/visitor.go", "schema/schema.go", "utils/annotation.go", "utils/error_listener.go"], [("every call builds its result anew", "kfparser/visitor.go")], ["results re-read after later calls and overwrites"],
  "Seeded search; results are overwritten by reflection down to spare slice capacity and re-read.",
  SIM + "aliasing faults (overwritten results) under seeded schedules")
p("C14", "Every call is answered within a bounded number of steps",
  "Every library call returns, whatever its source and whatever other callers do: no deadlock, no endless loop, and no more than a small constant factor above the work the same calls take alone.",
  ["schedules", "inputs"], "all interleavings of 1-6 callers; valid, invalid, damaged, deeply nested and repetitive sources",
  TESTS + " They finish on their own inputs.",
  LIBF, [("no lock held across a call, once-only initialisation", "kfgrammar/kuneiform_lexer.go"), ("antlr error recovery terminating", "kfgrammar/kuneiform_parser.go")], ["statements executed until answered"],
  "Seeded adversarial schedules with a bound on executed statements (3 times the solo cost plus a constant; 5 million alone).",
  SIM + "bounded liveness under adversarial schedules")
p("C15", "The tool touches nothing but its output path",
  "Whatever happens to a run - success, misuse, failure, faults, a kill - it changes no file but the output file (or the file the output path links to), creates nothing but missing output directories, never modifies or removes the source or any bystander, and leaves nothing else behind unless it was killed or its clean-up failed; then only a scratch file that is no .json in the output directory. Misused arguments and --version touch nothing.",
  ["fault_sequences", "crash_points", "configurations"], "all runs, ordinary, misused, failing, faulty and killed, in trees of bystanders, links, hard links and files that other programs create meanwhile",
  TESTS + " No test looks at a directory.",
  [ROOT], [("isSameFile refusing to overwrite the source", ROOT), ("removal of the temporary file on failure", ROOT)], ["whole file system before and after"],
  "Seeded search; the whole simulated file system is compared before and after.",
  SIM + "whole-file-system footprint under faults and kills")
p("C16", "All entry points agree on every source",
  "The command line tool, the two library functions, the tracing mode and the web module accept the same sources and give byte-identical schemas for them; for a rejected source the tool's and the web module's messages contain the library's. This holds whatever each of them answered before and however the source was delivered.",
  ["inputs", "histories", "fault_sequences", "configurations"], "all sources; all histories of each entry point; all benign delivery faults",
  TESTS + " They call one library function.",
  [ROOT, "wasm/wasm.go", "kfparser/parser.go", "schema/schema.go"], [("all entry points call ParseKF and ToJSON", "cmd/root.go, wasm/wasm.go, kfparser/parser.go")], ["verdict, JSON bytes, error text of each entry point"],
  "Seeded search, six entry points per source, each with its own history.",
  SIM + "differential simulation of all entry points")
p("C17", "A failing library call fails in a usable way",
  "For every text, a library call either returns a result with no error, and then a listener handed to it is empty, or an error and then a listener handed to it is not empty and the error's message begins with the first error recorded in it; no panic escapes. The error is recognisable as a syntax error exactly when the text breaks the grammar rather than a rule, also when other callers run at the same time.",
  ["inputs", "schedules"], "all texts, valid, damaged and rule-breaking, in all interleavings of 1-4 callers",
  TESTS + " A few fixed error cases are sampled, one at a time.",
  ["kfparser/parser.go", "utils/error_listener.go"], [("recover and listener in ParseKF", "kfparser/parser.go"), ("ErrInvalidSyntax wrapping", "utils/error_listener.go")], ["result, error, listener"],
  "Seeded search over damaged sources and schedules; the reference model classifies the failure.",
  SIM + "failure contract under schedules and damaged input")
p("C18", "A long-lived process does not keep what it no longer needs",
  "A process that compiles an endless succession of sources through the library or the web module - valid, invalid, traced, with failing consoles - does not hold more memory, JavaScript references or goroutines after thousands of calls than after a hundred, once garbage is collected.",
  ["histories", "inputs", "fault_sequences"], "all long histories of calls with ever different sources",
  TESTS + " No test measures anything across calls.",
  [*LIBF, "wasm/wasm.go"], [("nothing survives a call", "kfparser/parser.go"), ("one js.Func for the module's life", "wasm/wasm.go")], ["live heap after collection, goroutines, JavaScript value table, wasm memory"],
  "Live heap in the simulated process is exactly reproducible, so growth of a few bytes per call is visible; growth is told from a filling cache by continuing for thousands of calls.",
  SIM + "long histories with resource conservation as invariant")
p("C19", "How the source is delivered does not matter",
  "The verdict, output and report for a source are the same whether its bytes arrive at once or a few at a time, slowly, with interrupted calls, through links, or from a file whose reported size is zero, too small or too large.",
  ["fault_sequences", "inputs"], "all ways of splitting, delaying and interrupting the reads of a source, all wrong size reports",
  TESTS + " Tests pass strings; no file is read.",
  [ROOT], [("os.ReadFile", ROOT)], ["exit code", "output file", "report"],
  "Seeded search over delivery schedules, differential against delivery in one piece.",
  SIM + "short, slow and interrupted reads, differential")
p("C20", "Whatever appears at the output path is a schema a deployer can rely on",
  "Every document that is ever visible at the output path is internally consistent by itself: well-formed names; columns, indexes, foreign keys, calls, and the variables passed in calls refer to things it declares; nothing is declared twice; types, attribute kinds and values, visibilities and foreign key actions come from the language's fixed sets and fit together; statements are complete and valid.",
  ["inputs", "fault_sequences", "crash_points"], "all sources, all faults and kills, all instants",
  TESTS + " They compare a few sample schemas and never look at an output file.",
  ["schema/validator.go", "schema/types.go", "schema/schema.go", "kfparser/visitor.go", ROOT], [("validator", "schema/validator.go"), ("type and attribute mapping", "schema/types.go")], ["every version of the output file"],
  "Seeded search; each published version is judged without looking at the source.",
  SIM + "invariant on every visible version of the output")
p("C21", "Annotations read back as they were written",
  "Reading an annotation of a compiled action gives back the target, names and values that the source wrote.",
  ["inputs"], "all annotation texts", "Seven fixed strings are tested.", ["utils/annotation.go"], [("ParseAnnotation", "utils/annotation.go")])
p("C22", "Syntax errors point at the offending place",
  "The line and column in the first syntax error are those of the first token at which the source stops being a prefix of any valid source.",
  ["inputs"], "all invalid sources", "A few fixed error messages are tested.", ["utils/error_listener.go", "kfgrammar/kuneiform_parser.go"], [("SyntaxError", "utils/error_listener.go")])
p("C23", "A finished result may be shared by any number of callers",
  "Once a library call has returned a schema, any number of callers may at the same time read it, serialise it and run its validator, each getting the answer a lone caller gets, with no data race, and without disturbing callers who compile meanwhile; and a schema that was returned passes its own validator again.",
  ["schedules", "inputs"], "all interleavings of 2-6 callers that read, serialise and validate the same finished schemas while others compile",
  TESTS + " No test uses a result twice, or from two goroutines.",
  ["schema/schema.go", "schema/validator.go", "schema/types.go", "kfparser/parser.go"], [("Schema, MarshalJSON and Validate as pure reads", "schema/validator.go"), ("ToJSON", "kfparser/parser.go")], ["result and error of every call; memory accesses under the race detector"],
  "Seeded search over hand-over schedules; every other case runs natively under the race detector with hand-overs hidden from it.",
  SIM + "shared finished results under seeded schedules, with the race detector as oracle in half of them")
p("C24", "What the tool publishes, the library loads back unchanged",
  "Every document the tool ever leaves at its output path, whatever faults, kills and concurrent invocations the run met, can be loaded into the library's Schema type with no unknown and no lost field, serialises again to the same document, and passes the library's validator.",
  ["inputs", "fault_sequences", "crash_points", "histories"], "all runs, ordinary, faulty, killed and overlapping; every document left at an output path by them",
  TESTS + " No test reads a schema back.",
  [ROOT, "schema/schema.go", "schema/types.go", "schema/validator.go"], [("JSON names and types of the schema", "schema/schema.go"), ("writing of the output", ROOT)], ["every published version, loaded by the library"],
  "Seeded search; each document published in a simulated run is loaded by the real library, strictly, and serialised again.",
  SIM + "round trip of every published document")
p("C25", "A loaded schema document is accepted exactly when it is consistent",
  "Loading a published schema document into the library's Schema type gives what the document says, and the library's validator, run on it in a process with any history, accepts it when it is internally consistent and refuses it when it is not (a repeated name, a reference to a table, column, action, extension or variable that is not there, an invalid statement, a constraint that does not fit the column type), however it came to be so; validating does not alter what was loaded.",
  ["inputs", "fault_sequences", "histories"], "all published documents after any loss, repetition, exchange, edit of their parts or damage to their bytes; all histories of loads and validations in one process",
  TESTS + " The validator is tested on a few fixed values built in code, never on a loaded document or twice in a process.",
  ["schema/validator.go", "schema/schema.go", "schema/types.go"], [("ContextValidator", "schema/validator.go"), ("JSON names and types of the schema", "schema/schema.go")], ["the value loaded from each document, before and after validating, and the verdict"],
  "Seeded search over histories of damaged and edited documents against a reference judge written from the documentation.",
  SIM + "reference judge of consistency over histories of damaged documents")
p("C26", "A power failure leaves the old output or the complete new one",
  "If the machine loses power at any point of a run or after it, so that whatever was not synchronised to the disk may be gone, the output path afterwards holds something it held before (or nothing, if there once was nothing) or the complete JSON of the source: never an empty, cut, zeroed or mixed document. No other existing file is changed, nothing that could be taken for a result is left under another name, and the next run on the restarted machine succeeds and leaves the right output.",
  ["crash_points", "fault_sequences", "histories"], "every point of one to three runs, overlapping or one after the other, and any time after them, once or twice; every suffix of the directory changes since the last synchronisation lost, all ways in which unsynchronised bytes can be missing; earlier short, slow or failing operations; any prior output, also through a symbolic link",
  TESTS + " No test can take the power away.",
  [ROOT], [("data synchronised before the rename", ROOT), ("temporary file in the output directory, then rename", ROOT)], ["output file after every change of the file system and after the power failure"],
  "Seeded search. Disk model: directory changes are journaled in order and lost from some point on, file data is lost in any way unless synchronised, what was synchronised survives. Whether a run that reported success is still there after a power failure is not promised, only that no damaged document is.",
  SIM + "power failures on a disk that loses what was not synchronised")
NA = {"C21": "a pure function of one string: no schedule, clock, fault, I/O or history takes part (its concurrent and repeated use is covered by C07, C08, C09 and C13)",
      "C22": "a pure function of the source text: no schedule, clock, fault, I/O or history takes part (that positions do not depend on environment, history or schedule is covered by C07, C09 and C10)"}
with open(V + "/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x["rec"], ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="node sim/run.mjs build",
  checks=[dict(property=x["rec"]["id"], quick_cmd=f"node sim/run.mjs check {x['rec']['id']}", thorough_cmd=f"VERIF_TIER=thorough node sim/run.mjs check {x['rec']['id']}", evidence_file=f"evidence/{x['rec']['id']}.json", technique=x["tech"], level="exploration", level_note=x["note"]) for x in P if x["rec"]["id"] not in NA],
  not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes="No hooks in /repo: every seam is one the code already has (the system-call and JavaScript interface of the js/wasm port) or is added by go build -overlay from /verif/harness. Recorded findings: known-findings.txt. Replay a violation with: node sim/run.mjs replay FILE")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(V + "/MANIFEST.json", "a").write("\n")
