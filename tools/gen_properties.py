#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=state, meaning='what the property is about', where=', '.join(files))], observe_at=[observe], hook_needed=hook)))

p("C01", "A successful HTML conversion leaves the complete, exact rendering",
  "Whenever `smd parse -i SRC -o html` exits 0, the file beside the symlink-resolved SRC, with SRC's last extension replaced by `html`, holds byte for byte the whole rendering `gfm::Parser::render` gives for SRC's content during the run, and nothing of any earlier, longer output. This holds however the kernel splits or interrupts reads and writes, whatever the document size, encoding edge or file name, and whatever else runs at the same time. Exit 0 is never reported for an output that is missing, short, stale or not what was rendered.",
  ["inputs","fault_sequences","schedules"],
  "every valid UTF-8 document, path spelling (relative, `..`, tilde, symlink, several dots, no extension), previous output, and every sequence of short/EINTR/failed system calls",
  "The tests call the renderer and write one 12-byte file on a healthy disk; a short write, an ENOSPC after a partial write or an interrupted read never happens there.",
  ["smd/src/lib.rs","smd-core/src/fs.rs","smd/src/args.rs"],
  [("output path and write","smd/src/lib.rs:run"),("write_to_file","smd-core/src/fs.rs:write_to_file"),("read_to_string","smd-core/src/fs.rs:read_to_string"),("path resolution","smd/src/args.rs:Cli::parse_dir")],
  "the source file, the output file", "exit status and output file when the process ends")

p("C02", "Every failed run ends by itself, exits non-zero and says why",
  "If a conversion or `smd initialize` cannot do its job (unreadable, missing or non-UTF-8 source, invalid configuration, output not writable, any system call failing at any point), the process still ends by itself in bounded time, exits with a non-zero status and has written a diagnostic to standard error. It never panics, aborts, hangs or exits 0. When nothing fails the conversion exits 0.",
  ["fault_sequences","inputs"],
  "every point at which a system call can fail with EIO, ENOSPC, EACCES, EMFILE, ENOENT..., and every kind of bad input or configuration",
  "No test makes a system call fail, so no error path of `run`, `main` or the file helpers is ever executed by the suite.",
  ["smd/src/main.rs","smd/src/lib.rs","smd-core/src/fs.rs","smd-core/src/config.rs","smd-core/src/error.rs"],
  [("exit code mapping","smd/src/main.rs:main"),("error propagation","smd/src/lib.rs:run"),("error types","smd-core/src/error.rs:Error")],
  "process exit status, stderr", "exit status and stderr when the process ends; simulated clock")

p("C03", "A conversion touches nothing but its own output file",
  "Whatever happens during `smd parse` (success, any system-call failure, browser failure), the source document, the configuration and every other file the user had keep their content, mode and name; the only user-visible path created or changed is the output beside the source. Once the process has ended by itself no other new file is left in the user's directories.",
  ["fault_sequences","inputs","configurations"],
  "every populated working directory (including files whose names smd itself might pick, such as tmp.html), source name (including one already ending in .html/.pdf), fault sequence and output format",
  "The tests never look at a directory after a conversion, and none runs one in a directory holding other files.",
  ["smd/src/lib.rs","smd-core/src/convert.rs","smd-core/src/fs.rs"],
  [("temporary page","smd-core/src/convert.rs:PDFConverter::from_html"),("output path","smd/src/lib.rs:run")],
  "every file below the user's directories", "file-system snapshot after the process ended, and a watch on every mutation while it runs")

p("C04", "An existing output is not touched before its replacement is ready",
  "If the source cannot be read, the configuration is invalid, the rendering does not finish or the browser fails, an existing output file keeps its old content exactly, and if there was none, none appears. The output is touched only once the complete result exists in memory; from then on, at every instant and after a kill at any instant, it holds the old content or a prefix (possibly empty or whole) of the new content, never anything else.",
  ["crash_points","fault_sequences","histories"],
  "every kill point, system-call failure and browser failure, over every previous output",
  "A test sees the file only after a normal return; a kill in the middle or a failure before the write needs a crash injected at each point.",
  ["smd/src/lib.rs","smd-core/src/fs.rs"],
  [("order render -> write","smd/src/lib.rs:run"),("File::create + write","smd-core/src/fs.rs:write_to_file, write_bytes")],
  "the output file", "output file at every file-system mutation and after every simulated kill")

p("C05", "`smd initialize` never replaces an existing configuration",
  "If a configuration exists when `smd initialize` (or `Config::initialize`) starts, or appears while it runs (a concurrent initialize, a user saving one), its content is never altered: the call fails with an error naming the file. Of any number of concurrent initialisations with no configuration present at most one succeeds, and exactly one does when no system call fails.",
  ["schedules","histories","fault_sequences"],
  "every interleaving of concurrent initialisations, an editor creating or replacing the file at any instant, and system-call failures",
  "No test calls initialize at all, and the check-then-write race needs an interleaving between two system calls.",
  ["smd-core/src/config.rs"],
  [("exists check and publication","smd-core/src/config.rs:Config::initialize"),("directory creation","smd-core/src/config.rs:Config::initialize (create_dir_all)")],
  "~/.config/smd/config.toml", "configuration file at every mutation, exit statuses of all initialisers")

p("C06", "`smd initialize` is all or nothing",
  "After `smd initialize`, whatever happened to it (a kill at any instant, a full disk, any system-call failure), there is either no configuration file or the complete default configuration, never an empty or partial one; a concurrent or later `smd parse` never sees a broken one because of it. Exit 0 means the complete file, which loads as the default settings, is there; after a failed or killed attempt with no file present, running it again succeeds.",
  ["crash_points","fault_sequences","schedules"],
  "every kill point, short write and failing call inside initialize, and every interleaving with a reader",
  "Needs a crash or failure between creating and completing the file, and a reader scheduled exactly there.",
  ["smd-core/src/config.rs","smd-core/src/fs.rs"],
  [("writing the default configuration","smd-core/src/config.rs:Config::initialize")],
  "~/.config/smd/config.toml", "configuration file after end or kill of the process, result of later runs")

p("C07", "Settings are what the file and environment say, or an error",
  "`Config::load_config` returns exactly the settings of one complete version of the configuration file with `SMD__...` environment overrides applied, or the defaults when there is no file, or an error. A file that cannot be read, is not valid UTF-8/TOML or has invalid values is always an error (and makes `smd parse` exit non-zero), never silently replaced by defaults or read in part, under short and failed reads and while the file is atomically replaced.",
  ["fault_sequences","inputs","schedules","configurations"],
  "every configuration text, environment override, read fault and concurrent atomic replacement of the file",
  "The tests parse two strings; they never load from a file, let alone one that fails to read half way or changes meanwhile.",
  ["smd-core/src/config.rs","smd-core/src/fs.rs"],
  [("load","smd-core/src/config.rs:Config::load_config"),("parse and override","smd-core/src/config.rs:Config::parse_from_str")],
  "configuration file, process environment", "returned settings (serialised) or error; exit status of smd parse")

p("C08", "Concurrent conversions do not affect each other",
  "Any number of conversions running at the same time, as processes sharing a working directory, configuration and browser binary or as threads of one program using the library, with different output files, each end exactly as they would alone: every one that succeeds produces its own document's result, and a failure or kill of one neither fails nor changes another.",
  ["schedules","fault_sequences"],
  "every interleaving of 2-4 conversions (HTML, PDF, mixed, initialize alongside) and a fault or kill hitting one of them",
  "Tests run conversions at most one at a time; cross-talk through a shared temporary file, port or static shows up only under particular interleavings.",
  ["smd-core/src/convert.rs","smd-core/src/browser.rs","smd/src/lib.rs","gfm/src"],
  [("temporary page","smd-core/src/convert.rs:PDFConverter::from_html"),("browser session and tab lookup","smd-core/src/browser.rs:BrowserSession"),("shared statics","smd/src/logger.rs:MAX_MODULE_WIDTH, gfm")],
  "working directory, statics, browser processes", "outputs and exit statuses (or return values) of all participants")

p("C09", "A successful PDF conversion is the browser's print of this document",
  "Whenever `smd parse -i SRC` (PDF) exits 0, or `convert_html::<PDFConverter>` returns Ok, the PDF is byte for byte what the browser printed, in this run, of a page whose content was exactly the complete HTML rendering of this document, fully loaded. This holds for every message timing, start-up delay, busy port, split or delayed WebSocket frame and short write, and for every name of the working directory.",
  ["schedules","fault_sequences","inputs"],
  "every document and working-directory name, every delivery order and delay of browser messages that the browser may legally produce, every chopped I/O",
  "The three browser tests need a real Chrome, look only at is_ok(), and never control when messages arrive.",
  ["smd-core/src/convert.rs","smd-core/src/browser.rs","smd/src/lib.rs","smd-core/src/fs.rs"],
  [("temporary page life time","smd-core/src/convert.rs:PDFConverter::from_html"),("navigation and file URL","smd-core/src/browser.rs:BrowserSession::open_file"),("printing the right tab","smd-core/src/browser.rs:BrowserSession::print_to_pdf"),("write_bytes","smd-core/src/fs.rs:write_bytes")],
  "temporary page, browser tabs, output PDF", "bytes sent by the browser stub against bytes in the output file")

p("C10", "A browser failure becomes an error exit in bounded time",
  "If the browser is missing, cannot be started, exits, announces no usable address before exiting, answers any request with an error, closes or resets the connection, crashes, or goes silent at any point after the DevTools connection is up, `smd parse` exits non-zero with a diagnostic within 5 simulated minutes of the failure. It does not panic, hang or exit 0, and an existing PDF is left unchanged (none is created).",
  ["fault_sequences","schedules"],
  "every point of the start-up, tab, navigation, load, print and shut-down exchange at which the browser may fail, and every kind of failure",
  "Needs a browser that fails on cue at each protocol step and a clock that can jump over 30 s time-outs.",
  ["smd-core/src/browser.rs","smd-core/src/convert.rs","smd/src/lib.rs"],
  [("session, tab, navigation, print errors","smd-core/src/browser.rs:BrowserSession"),("propagation","smd-core/src/convert.rs:PDFConverter::from_html")],
  "browser connection, output PDF", "exit status, stderr, simulated end time, output PDF")

p("C11", "No temporary page or browser process outlives a PDF conversion",
  "When a PDF conversion ends by itself, whether it succeeded or failed at any step (page write, browser start, tab, navigation, print, output write), the temporary page it wrote is gone, and every browser process it started has ended.",
  ["fault_sequences","schedules"],
  "every failing system call (other than the removal itself) and every browser failure at every step",
  "The suite never fails a step after the temporary page exists.",
  ["smd-core/src/convert.rs","smd-core/src/browser.rs"],
  [("temporary page removal","smd-core/src/convert.rs:PDFConverter::from_html"),("session drop","smd-core/src/browser.rs:BrowserSession")],
  "temporary page, child process table", "file system and process table after the process ended")

p("C12", "Running the same command again after a crash or failure repairs everything",
  "After any number of runs of a conversion that failed or were killed at any instant, the same command run without further faults exits 0 and leaves exactly the output that a run on a fresh directory would have left.",
  ["crash_points","histories","fault_sequences"],
  "every sequence of up to three killed or failed attempts at arbitrary points followed by a clean run (HTML, PDF, initialize then parse)",
  "Crash-then-rerun histories are not in the suite.",
  ["smd/src/lib.rs","smd-core/src/convert.rs","smd-core/src/fs.rs","smd-core/src/config.rs"],
  [("truncating rewrite of outputs","smd-core/src/fs.rs:write_to_file, write_bytes"),("stale temporary pages","smd-core/src/convert.rs:PDFConverter::from_html")],
  "whatever killed runs left behind", "exit status and output of the last run")

p("C13", "Logging never changes the outcome",
  "For every verbosity (-v, -vv, RUST_LOG set to anything, valid or not) and every state of standard error (fast, slow, short or interrupted writes, full disk, broken pipe), exit status and written files are the same as with logging at its default and a healthy standard error.",
  ["configurations","fault_sequences"],
  "every RUST_LOG value, verbosity and sequence of stderr write failures, for successful and failing conversions",
  "No test runs main or the logger, and none breaks stderr.",
  ["smd/src/logger.rs","smd/src/main.rs","smd-core/src/fs.rs"],
  [("logger set-up and formatting","smd/src/logger.rs:init"),("verbosity mapping","smd/src/main.rs:main")],
  "stderr, RUST_LOG", "exit status and files against the same scenario run with healthy logging")

p("C14", "Rendering depends on the document alone",
  "`gfm::Parser::render` returns the same HTML for the same text every time: on any thread, however many other renders run concurrently, were done before, or panicked or were abandoned midway, and whatever the environment, working directory, time and randomness. So the same document always converts to the same bytes.",
  ["schedules","histories","configurations"],
  "every interleaving of concurrent renders preempted at any basic block, every history of earlier renders, every environment, clock and random seed",
  "Tests render each document once per process run in one fixed order; hidden shared state shows up only under interleavings or histories.",
  ["gfm/src"],
  [("parser and AST","gfm/src/lib.rs:Parser, gfm/src/lexer.rs:Lexer")],
  "any hidden static or thread-local state", "returned strings against a fresh single-threaded render in a separate image of the library")

p("C15", "Man page and completion generators: success means complete files",
  "If `smd-mangen` or `smd-completions` exits 0, the man page, respectively every shell's completion script, is complete in $OUT_DIR with content that depends on the program alone, replacing any older version; if any file could not be written completely, the exit status is non-zero. Nothing else in $OUT_DIR changes.",
  ["fault_sequences","histories"],
  "every system-call failure, short write and previous content of $OUT_DIR",
  "The two binaries are never run by the suite.",
  ["smd/src/bin/mangen.rs","smd/src/bin/completion.rs","smd/src/args.rs"],
  [("man page","smd/src/bin/mangen.rs:main"),("completions","smd/src/bin/completion.rs:main")],
  "$OUT_DIR", "exit status and files against a fault-free reference run")

p("C16", "Library file helpers: Ok means the whole content",
  "`write_to_file`/`write_bytes` returning Ok means the file now holds exactly the given content (an older, longer file included); `read_to_string`/`decode_from_file` returning Ok means exactly the file's content was returned; any failed system call or invalid UTF-8 that prevents this is returned as Err, never a panic. This also holds with several threads using them at once on different files and with reads racing atomic replacement of the file.",
  ["fault_sequences","schedules","histories"],
  "every content and size, every sequence of short, interrupted and failing system calls, every interleaving of helper calls on several threads",
  "The tests round-trip short strings on a healthy disk from one thread.",
  ["smd-core/src/fs.rs"],
  [("write helpers","smd-core/src/fs.rs:write_to_file, write_bytes"),("read helpers","smd-core/src/fs.rs:read_to_string, decode_from_file")],
  "files named by the caller", "return values and file contents against a map from path to content")

p("C17", "The npm wrapper runs the platform's smd and reports its outcome faithfully",
  "The npm package's command starts, exactly once, the native binary `bin/smd` (`bin/smd.exe` on Windows and Cygwin) of the installed package `smd-<os>-<arch>` with the caller's arguments, working directory and environment unchanged and its output visible, does not end before the binary has ended and never kills it, and exits 0 if and only if the binary exited 0. When that package is missing, the binary cannot be started or a signal kills it, the wrapper exits non-zero and says so. The library call (arguments or an options object, documented as flags and `--option value` pairs) settles the same way, with its own binary's result, whatever other calls are under way, and passes the caller's execa options on.",
  ["configurations","inputs","schedules","fault_sequences"],
  "every platform, architecture, set of installed packages, argument list and options object, exit status, signal, failure to start, duration of the binary and interleaving of concurrent library calls",
  "The wrapper has no tests at all.",
  ["npm/smd/src"], [("command","npm/smd/src/cli.ts"),("library call","npm/smd/src/index.ts"),("binary of the platform","npm/smd/src/getExePath.ts"),("options","npm/smd/src/optionsToStringArgs.ts")],
  "the child process, the wrapper's exit status", "exit status of the wrapper, settlement of the promise")

p("C18", "Library calls leave nothing behind in the program, successful or failed",
  "In a program that calls the library (`smd::run`, `convert_html`, `write_to_file`, `Config::load_config`) any number of times, one after another or from several threads, with calls succeeding or failing at any system call or browser step, every call that meets no failure of its own gives its complete, correct result whatever calls failed before. A while (700 simulated seconds) after the last call the process has no more open files, sockets, threads and browser processes than before the first one, no temporary file is left, and at no time has a call changed the program's working directory, umask or environment variables when it returns.",
  ["histories","fault_sequences","schedules","configurations"],
  "every sequence of up to 70 calls over one or two threads, failing calls and browsers at any point",
  "Tests make one call per process and never look at what is left in the process.",
  ["smd-core/src","smd/src/lib.rs"], [("conversion","smd-core/src/convert.rs, smd-core/src/browser.rs"),("file helpers","smd-core/src/fs.rs"),("run","smd/src/lib.rs"),("configuration","smd-core/src/config.rs")],
  "process-wide state: descriptor table, threads, children, working directory, environment, statics", "results of the calls, state of the process between calls")

# --- not decided by simulation -------------------------------------------------
p("N01", "Rendered HTML is inert apart from the document's own raw HTML",
  "Text, code, link destinations and attributes of a document are escaped in the rendered HTML, so that no markdown construct other than raw HTML introduces markup or script.",
  ["inputs"], "every document", "The spec examples sample a handful of escapes.",
  ["gfm/src"], [("HTML generation","gfm/src/lib.rs, gfm/src/token.rs")], "none (pure function)", "returned string")
p("N02", "The renderer terminates without panicking on every document",
  "`gfm::Parser::render` returns for every UTF-8 string, without panicking, in time bounded by a polynomial of its length.",
  ["inputs"], "every document", "Tests sample the spec's examples only.",
  ["gfm/src"], [("inline and block parsing","gfm/src/lib.rs, gfm/src/lexer.rs")], "none (pure function)", "return / panic")
p("N03", "Rendering follows the GitHub Flavored Markdown specification",
  "For every document, the rendering equals what the GFM specification prescribes, up to insignificant white space.",
  ["inputs"], "every document", "The spec's 600+ examples are samples, most of which fail at this commit.",
  ["gfm/src"], [("parser","gfm/src/lib.rs, gfm/src/lexer.rs")], "none (pure function)", "returned string")
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
