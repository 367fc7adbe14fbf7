#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one source of truth for ids, titles, statements).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

GEN, FLAT, TRIE = "wayfinder/src/gen/gen.rs", "wayfinder/src/gen/flat.rs", "wayfinder/src/gen/trie.rs"
BUILD, PARSE, ERR = "wayfinder/src/build/mod.rs", "wayfinder/src/parse/mod.rs", "wayfinder/src/parse/errors.rs"
CORE, CMD = "wayfinder/src/core/mod.rs", "wayfinder-cmd/src/main.rs"

p("C01", "Code generation reports every writer failure",
  "If the writer handed to the code generator fails at any point (an error of any kind, once or for good, or accepting zero bytes), generation returns that very failure instead of success or a panic. The bytes the writer accepted up to then are a prefix of the complete module.",
  ["inputs", "fault_sequences"], "every route config, every write call, every error kind, transient or permanent",
  "The tests only ever generate into a Vec, which cannot fail; the outcome depends on which of thousands of write calls fails.",
  [GEN, "wayfinder/src/gen/mod.rs"], [("`?` on every writeln!/write! in codegen, codegen_module, codegen_trie, write_methods, write_dynamic", GEN)],
  ["wayfinder::gen::codegen result", "bytes accepted by the writer"])
p("C02", "Interrupted or partial writes never change the generated module",
  "When the writer handed to the code generator accepts only part of a buffer or reports an interruption, any number of times and anywhere, generation still succeeds. The bytes the writer receives are identical to those a well-behaved writer receives.",
  ["inputs", "fault_sequences"], "every route config and every finite sequence of short writes and interruptions",
  "A Vec never writes short and is never interrupted, so no test reaches a retry path.",
  [GEN], [("only write_all-based formatting is used to emit text", GEN)],
  ["bytes accepted by the writer"])
p("C03", "A build that succeeds has produced the complete module",
  "When a build reports success, its destination (the output file, or standard output) holds exactly the complete module for the route configuration as it was read, no matter which storage, stream or memory faults struck during the build. Conversely, faults that are only transient (interruptions, partial reads or writes) never make the build of a valid configuration fail.",
  ["inputs", "fault_sequences", "crash_points"], "every route file or config, every sequence of failing, short or interrupted system calls and failed allocations, every crash instant",
  "The tests and examples build once on a healthy disk; no test injects a disk or allocation fault into a build.",
  [BUILD, GEN, CMD], [("exit status 101 on every open/read/create/generate error", BUILD), ("unbuffered File / line-buffered Stdout behind Either, so a lost write is always an error", BUILD)],
  ["process exit status", "output file bytes", "stdout bytes"])
p("C04", "A build that rejects its input leaves earlier output untouched",
  "If the route file cannot be read, does not parse or cannot be turned into a module, or the builder or its environment is not fully configured, the build ends with a failure status. Whatever was at the output path before (including nothing at all) is then still there, byte for byte.",
  ["inputs", "fault_sequences", "configurations"], "every unreadable, damaged or invalid route file, every read fault, every incomplete builder or environment, every prior output",
  "No test runs the builder on bad input; the order of reading, generating and creating the output is never exercised.",
  [BUILD, GEN, FLAT], [("input is read, parsed and generated before the output is opened", BUILD), ("missing source/target/env checked first", BUILD)],
  ["process exit status", "output file before and after"])
p("C05", "Rebuilding heals whatever failed or killed builds left behind",
  "Whatever earlier builds left at the output path - a module of another configuration, a truncated or longer file, garbage, or what a build killed at any instant or stopped by a full disk left - the next undisturbed build of a valid route file leaves exactly that route file's complete module there, with nothing left over. File timestamps make no difference.",
  ["histories", "crash_points", "fault_sequences"], "every history of edits, failed and killed builds, every residue and every timestamp",
  "Needs multi-step histories with kills between individual system calls; the tests run one clean build.",
  [BUILD], [("File::create truncates; the build never depends on previous output", BUILD)],
  ["output file bytes after the build"])
p("C06", "Cargo never keeps a stale module after the route file changes",
  "A build script's build from a route file tells Cargo to watch exactly the file it reads, before anything can fail. So after any history of edits, failed and killed builds (an edit may land in the middle of a build), once things are quiet one Cargo build leaves the module for the current route file, or a reported failure: Cargo never skips a build whose result would differ.",
  ["histories", "schedules", "crash_points", "fault_sequences"], "every interleaving of edits with builds, every fault and crash inside them, every location of the route file",
  "Needs Cargo's incremental decision, multi-step histories and edits racing the build; no test looks at the build script's directives.",
  [BUILD, "examples/cli/build.rs"], [("println!(\"cargo:rerun-if-changed=...\") with the joined path, before reading", BUILD)],
  ["stdout directives", "output file bytes at quiescence"])
p("C07", "Generation is reproducible",
  "The module generated for a route configuration is a function of that configuration alone. Hash seeds, clock, process id, environment, working directory, executing thread, and anything the process parsed or generated before or concurrently do not change a single byte.",
  ["inputs", "schedules", "histories", "configurations"], "every config, every hash seed, clock, environment, thread schedule and in-process history",
  "The golden tests compare three small configs with at most four modules per level in one process; a hash-order leak shows only for some seeds and collisions.",
  [FLAT, GEN], [("actions and modules drained from HashMaps are sorted by name", FLAT), ("the trie keeps children sorted", TRIE)],
  ["generated bytes"], [("Module(ModuleMap, ActionMap)", "hash maps whose iteration order is randomised", FLAT)])
p("C08", "Parse diagnostics do not depend on history or interleaving",
  "The error report rendered for a malformed route file depends only on its text. It is the same whatever other texts were parsed or reported before in the process, on whichever threads the parsing and the reporting happen, and however those threads interleave; each reported message is the one for the construct that failed.",
  ["schedules", "histories", "inputs"], "every interleaving of threads that parse and report, every order of earlier parses",
  "No test renders a diagnostic at all, let alone from several threads; the message registry is process-global and filled lazily.",
  [ERR, PARSE], [("def_error assigns the index and appends under one lock", ERR), ("lazy_static per call site", ERR)],
  ["bytes written by show_errors"], [("ERRORS", "process-wide list of messages, indexed by error code", ERR)])
p("C09", "Concurrent callers are isolated from each other",
  "Threads that concurrently parse, report errors, generate code or run builds into files of their own each get exactly the result they would get alone, under every interleaving. A caller whose writer fails, panics or calls back into the library never changes, blocks or breaks another caller, before, during or after.",
  ["schedules", "fault_sequences", "histories"], "every interleaving at memory-access granularity, every writer fault, panic and re-entrant call",
  "Tests run each call to completion with infallible writers; no schedule is controlled.",
  [ERR, PARSE, GEN, FLAT], [("no shared state besides the message registry, whose lock is never held across caller code", ERR)],
  ["per-thread results", "absence of deadlock"])
p("C10", "A build touches nothing but its own output",
  "A build leaves every file other than its configured output as it was, in particular the route file and other builds' outputs, whether it succeeds, fails or is killed. Builds running at the same time with different outputs, from the same or different route files, even into one directory, each end as they would alone.",
  ["schedules", "fault_sequences", "crash_points", "configurations"], "every interleaving of system calls of concurrent builds, every fault and kill in one of them",
  "Tests never run two builds at once or look at neighbouring files.",
  [BUILD], [("only the configured output is opened for writing", BUILD)],
  ["file tree before and after", "outputs and exit statuses of all builds"])
p("C11", "Module output on standard output is pure",
  "When a build or the command-line tool writes the module to standard output, what appears there is exactly the module on success, and a prefix of it if the stream failed under way. When the input is rejected nothing appears there at all; diagnostics go only to standard error.",
  ["inputs", "fault_sequences"], "every route file, valid or damaged, every stdout/stderr fault sequence (short, interrupted, broken pipe, full disk)",
  "The command-line tool has no tests.",
  [BUILD, CMD], [("Cargo directives only when created from the Cargo environment", BUILD), ("diagnostics via eprintln!/show_errors(stderr)", BUILD)],
  ["stdout bytes", "stderr bytes", "exit status"])
p("C12", "Error reports survive flaky streams and never mask a failure",
  "The report for a malformed route file arrives complete on a stream that writes short or is interrupted; on a stream that fails, what arrived is a prefix of that report. A build whose input is rejected reports failure however badly standard error behaves.",
  ["inputs", "fault_sequences"], "every malformed route file, every writer or stderr fault sequence",
  "No test renders a report, and none to a failing stream.",
  [ERR, BUILD], [("writeln! (write_all) in show_error", ERR), ("exit 101 after reporting", BUILD)],
  ["bytes written to the report stream", "exit status"])
p("C13", "A damaged route file is never silently half-read",
  "If the route file read by a build is damaged - torn, truncated, with lost, stale, zeroed, duplicated or flipped bytes, or with a read error part-way - the build either fails, or its module accounts for every header line, parameter, resource and path segment that the bytes on disk contain. Nothing is dropped or invented, and invalid text is never papered over.",
  ["inputs", "fault_sequences", "crash_points"], "every damage pattern to every route file, together with short, interrupted and failing reads",
  "The parser tests feed a dozen well-formed texts; nothing truncated or corrupted.",
  [PARSE, BUILD], [("eof! at the end of route_config", PARSE), ("read_to_string rejects invalid UTF-8 and read errors", BUILD)],
  ["process exit status", "output file", "parsed config"])
p("C14", "Every build and every generation terminates",
  "Facing any finite number of transient faults and any permanent failure, builds and calls to the code generator and the error reporter end, with success or failure, after a bounded number of I/O operations. They never spin on a stream that accepts nothing or keeps failing.",
  ["inputs", "fault_sequences", "schedules"], "every input, valid or damaged, every fault sequence with finitely many interruptions",
  "Healthy streams always make progress, so no test can loop.",
  [GEN, BUILD, ERR, PARSE], [("write_all / read_to_string semantics, no hand-written retry loops", GEN)],
  ["I/O call counts", "process end"])

p("C15", "A failing build names its cause",
  "When a build ends with a failure, standard error says why, unless standard error or memory themselves failed. If a file could not be opened, read, created or written, the system's reason is there, and the file's name where opening, reading or creating failed. A rejected route file is named with its full parse report, an invalidly encoded one is named, and a missing environment variable is named.",
  ["inputs", "fault_sequences", "configurations"], "every failing system call and error code, every rejected route file, every incomplete environment, with any transient faults around it",
  "No test makes a build fail, so no test sees a message, let alone for a fault half-way through a read or a write.",
  [BUILD, ERR, CMD], [("the `fail!` messages carry the error and the path", BUILD), ("report written to standard error before the exit", BUILD)],
  ["standard error of a failed build", "exit status"])
p("C16", "Builds racing for one output agree",
  "When several builds of the same route file into the same output run at the same time, with nothing worse than transient faults, each reports success. Once all have ended, the output is exactly the complete module, under every interleaving of their system calls.",
  ["schedules", "fault_sequences"], "every interleaving of the system calls of two or three builds, every sequence of interruptions and partial transfers, every earlier state of the output",
  "Tests never run two builds at once; Cargo and a user's own tool invocation do.",
  [BUILD], [("every build creates, truncates and writes the same bytes at the same offsets", BUILD)],
  ["exit statuses", "output file bytes once all have ended"])
p("C17", "A build leaves its process as it found it",
  "A build called as a library, whether it succeeds or is refused by a panic the caller catches, leaves the calling process as it was: working directory, environment, open files and their flags, umask, signal handlers and mask, resource limits, threads and panic hook. Faults on the files it uses make no difference.",
  ["inputs", "fault_sequences", "configurations", "histories"], "every configuration and way to configure the builder, every fault inside the build, every sequence of builds in one process",
  "Tests look at results only; process-wide state leaks show up in whatever the build script does next.",
  [BUILD, GEN, PARSE], [("files are owned values closed on return", BUILD), ("environment only read", BUILD)],
  ["process state before and after a build"])

p("C18", "An interrupted build leaves old output or a beginning of the new",
  "Whenever a build fails or is killed, its output file is byte for byte what it was before the build (or absent, if it was), or else it holds only a leading part of the complete new module, possibly nothing. It never holds a mixture: no bytes of the earlier output next to the new ones, no hole, no piece out of place.",
  ["inputs", "fault_sequences", "crash_points"], "every crash instant and failing or partial system call of a build, every earlier output, longer or shorter than the new one",
  "Needs builds stopped between individual system calls and part-way through a write; the tests run whole builds.",
  [BUILD, CMD], [("File::create truncates, then the module is written in order from the start", BUILD)],
  ["output file bytes before and after the interrupted build", "exit status"])

p("C19", "A build works from one version of its route file",
  "When the route file is replaced as a whole (renamed over, or its link re-pointed) while a build runs, everything the build does follows from one single version that was there during the build: the module it writes, or the parse report, is entirely that version's, never a blend of two. If every version there was is valid and nothing else fails, the build succeeds; if it rejects what it read, the output is as before.",
  ["inputs", "schedules", "fault_sequences"], "every moment of replacement between two system calls of a build, every pair of versions, every build mode",
  "Needs a file replaced between individual system calls of a running build; the tests never touch a route file while it is read.",
  [BUILD, CMD], [("run: the file is opened once and read through that descriptor", BUILD)],
  ["output file bytes", "stdout", "parse report on stderr", "exit status"])

p("C28", "A build needs nothing but its route file and its output",
  "A build needs only its route file and the folder of its output. It succeeds with the same module, or fails with the same report, when nothing else is in reach: other files and folders cannot be opened, created or looked at, no thread or child process can be started, few descriptors are left, there is no home or temporary folder, the clock runs wild, or its working directory is gone (all paths being absolute).",
  ["inputs", "fault_sequences"], "every build mode, input and output, with everything else denied from any moment on",
  "Needs calls denied that healthy machines never deny; the tests run with a full file system, home and temporary folder at hand.",
  [BUILD, CMD], [("run: one read of the input, one create of the output, nothing else", BUILD)],
  ["exit status", "output file bytes", "stdout", "parse report on stderr"])
p("C29", "A builder does what it was told, whatever others do",
  "Any number of builders may be made, configured, handed to another thread and run in one process, in any order, with changes to the environment, the working directory and the route files in between. Each one, when it runs, reads the last source it was given and writes the last target it was given, relative to the folders the environment named when it was made by `from_env`, or else to the working directory at the time it runs; one that lacks a source or a target fails.",
  ["histories", "inputs", "schedules"], "every order of making, configuring and running several builders, and every change of environment, directory and files in between",
  "Needs histories of interleaved builders in one process; no test uses the builder at all.",
  [BUILD], [("Builder::from_env captures the folders", BUILD), ("Builder::build resolves, reads and writes", BUILD)],
  ["output files of each builder", "module on stdout", "announced paths", "exit status"])

p("C30", "The generated matcher answers every request by itself",
  "A generated matcher answers each request, and builds each path, exactly as if it were the only one ever made. It does not matter which requests came before, how many threads ask at the same time, or what the parameter types did meanwhile: refuse, panic, take their time, or ask a matcher themselves while they are parsed or printed.",
  ["histories", "schedules", "programs"], "every sequence and interleaving of requests to generated matchers, with parameter types that fail, panic or call back",
  "Needs histories and interleavings of requests and parameter types that misbehave; the tests ask a matcher about thirty paths, one after another.",
  [GEN], [("codegen: match_route and to_path", GEN), ("write_dynamic: parameters are parsed by their own type", GEN), ("write_methods", GEN)],
  ["match_route results", "to_path strings", "panics passed on", "progress"])
p("C31", "Working again and again does not use up memory",
  "However many texts a process parses, reports, generates modules for and builds, it holds no more memory afterwards than after the first few. That includes work that failed: rejected texts, writers that failed or panicked half-way, calls made from inside a writer, on any number of threads, with names that never occurred before.",
  ["histories", "schedules", "faults"], "every long history of calls, failed and successful, on any threads",
  "Needs long histories with failing and panicking writers; the tests make a handful of calls in processes that end at once.",
  [GEN, "wayfinder/src/parse/errors.rs", "wayfinder/src/build/mod.rs"], [("err_str! registers each message once", "wayfinder/src/parse/errors.rs"), ("codegen: what it collects is dropped on every way out", GEN)],
  ["bytes allocated and not given back"])


PURE = "The golden tests compare generated text for three route files, and the cli example checks about thirty paths of one."
p("C20", "The generated matcher implements the route hierarchy",
  "For every route configuration and path, matching yields the resource declared at the route whose segments the path spells (static text equal, parameters bound to their segments, static text preferred over a parameter), and not-found if there is none.",
  ["programs", "inputs"], "every route configuration and every path", PURE,
  [GEN, FLAT, TRIE], [("trie code generation", GEN)], ["match_route result"])
p("C21", "Method gating: not-allowed exactly when only the method is wrong",
  "On a path that matches a route with resources, a declared method yields its route or redirect and any other byte string yields not-allowed; on other paths the answer is not-found whatever the method.",
  ["programs", "inputs"], "every configuration, path and method", PURE, [GEN], [("write_methods", GEN)], ["match_route result"])
p("C22", "A trailing or missing leading slash does not change the match",
  "A path matches the same route with the same parameters with or without one trailing slash, and with or without its leading slash.",
  ["programs", "inputs"], "every configuration and path", PURE, [GEN], [("separator handling in codegen_trie", GEN)], ["match_route result"])
p("C23", "Bad parameter text is an error value, never a panic",
  "For arbitrary path and method bytes the matcher returns; a segment that does not parse as its parameter's type gives an error naming the parameter.",
  ["programs", "inputs"], "every configuration and arbitrary bytes", "No test feeds non-UTF-8 or unparsable segments.", [GEN], [("write_dynamic", GEN)], ["match_route result"])
p("C24", "Building a path and matching it back are inverse",
  "The path made for a route value matches back to that route with the same path parameters.",
  ["programs", "inputs"], "every configuration and parameter value", "No test matches a generated path back.", [GEN], [("to_path generation", GEN)], ["to_path", "match_route"])
p("C25", "Printing and parsing a configuration are inverse",
  "Parsing the printed form of a configuration gives back an equal configuration.",
  ["inputs"], "every configuration", "A dozen fixed cases.", [CORE, PARSE], [("stringify", CORE), ("route_config", PARSE)], ["RouteConfig equality"])
p("C26", "Every accepted configuration generates a module that compiles",
  "For every configuration the parser accepts and the generator does not refuse, the generated module compiles given that the named types exist.",
  ["programs"], "every accepted configuration", "Only the repository's own route files are compiled.", [GEN, FLAT], [("name case conversion and module layout", GEN)], ["rustc on the module"])
p("C27", "Mounting a configuration equals nesting it by hand",
  "Mounting a configuration at a segment gives the configuration that nests its routes under that segment and keeps each distinct header once, in order.",
  ["inputs"], "every pair of configurations", "Only exercised through one example.", [CORE], [("RouteConfig::mount", CORE)], ["RouteConfig equality"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
