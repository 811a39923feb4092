"Writes /verif/properties.jsonl. Run by hand when a property changes."
import json, os
P = []


def prop(id, title, st, over, q, why, files, mech):
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": ["shellous/" + f for f in files],
                          "mechanism": [{"name": n, "where": "shellous/" + w} for n, w in mech]}})


S, I, F, C, H, PR, CP = ("schedules", "inputs", "fault_sequences", "configurations", "histories", "programs", "crash_points")

prop("C01", "No child process outlives the run that started it",
     "When a run of a command, pipeline or process substitution is over - it returned, raised, timed out, was cancelled once or several times, or its caller's own block raised - every child process it launched has exited and been reaped. No way of ending a run leaves a running process or a zombie behind.",
     [S, F, C], "Every point at which the caller is cancelled (again), every order of child exit, exit notice, I/O completion and timer, every API form (await, coroutine, async for, async with, prompt), every pipeline or substitution shape.",
     "Tests cancel at a handful of sleep-chosen instants; the window that matters is one event-loop step wide, and doubled cancellations are hardly sampled.",
     ["runner.py", "pipeline.py", "util.py"],
     [("kill and escalate", "runner.py Runner._kill/_kill_wait"), ("spawn shielded from cancellation", "util.py uninterrupted"), ("pipeline teardown", "runner.py PipeRunner._wait")])
prop("C02", "Descriptors are closed by exactly their owner, exactly once",
     "Descriptors the library opens (pipes, ptys, files from paths, process-substitution pipes) are all closed when the run is over, descriptors or files the caller handed over with close=True are closed exactly once, and no other descriptor of the process is ever closed. This holds on success and on every failure: launch errors of any stage, invalid redirects, failing pty set-up, and cancellation at any step.",
     [S, F, C], "Every redirect configuration, every failing stage or set-up step, every cancellation step, single and repeated.",
     "Tests count descriptors after a few happy paths and one or two launch failures; a leak or a second close needs a specific failing stage or cancellation step to show.",
     ["runner.py", "util.py", "pty_util.py", "redirect.py"],
     [("deferred close list", "runner.py _RunOptions.__enter__/__exit__"), ("cleanup before start", "runner.py _cleanup"), ("pipeline fds", "runner.py PipeRunner._start"), ("close helper", "util.py close_fds")])
prop("C03", "Nothing is left in the event loop after a run",
     "When a run, pipeline, iteration, prompt session or harvest call is over, it has left no unfinished task and no armed timer of its own in the event loop. In particular a timeout that did not fire never cancels anything after the run has finished.",
     [S, F, C], "Every cancellation step, every timeout value relative to the run's duration (including a tie), every launch failure, every API form.",
     "Left-over timers and tasks act long after the call a test makes has returned, or only when a cancel meets one particular step.",
     ["runner.py", "harvest.py", "prompt.py"],
     [("timer life cycle", "runner.py Runner._start_timer/_stop_timer"), ("task harvest", "harvest.py harvest_wait/_cancel_wait")])
prop("C04", "Termination escalates: cancel signal, grace period, SIGKILL",
     "To stop a live child the library sends the configured cancel signal at once and only that; SIGKILL follows exactly when the child is still running a full cancel_timeout later, or earlier only because a further cancellation or an I/O failure asked for it, and at once when no cancel signal is configured. A child is never signalled without a cause (cancellation, timeout, failing block, failing stage, explicit request), nor after its exit has been reported.",
     [S, F, C], "Every cancel_signal and cancel_timeout, every child reaction to the signal (dies, ignores, exits late, exits with a status), every instant of cancellation.",
     "Tests use one or two signals with generous sleeps and cannot see a SIGKILL that comes slightly early, a missing grace period, or a wrong signal sent just before death.",
     ["runner.py", "command.py"],
     [("two-phase kill", "runner.py Runner._kill"), ("final kill", "runner.py Runner._kill_wait"), ("signal", "runner.py Runner._signal/send_signal/cancel")])
prop("C05", "Cancellation is reported: never swallowed, never invented",
     "If the task waiting for a command, pipeline, iteration or prompt is cancelled before the call is over, the call raises CancelledError, or the error of something else that went wrong at that moment as well (the block raised, the timeout expired, a launch or a stage failed). (In an async-with block: the block ends, the run reports itself cancelled and its result raises CancelledError, or a ResultError marked cancelled when that option is chosen.) No call raises CancelledError or marks its result cancelled unless its task was cancelled.",
     [S, C], "Every step of the run at which cancel() may be delivered, once or repeatedly, in every API form, with and without incomplete_result/timeout options.",
     "Swallowed cancellations need a cancel at a particular step (during clean-up, between spawn and stream set-up); tests hit the long waits only.",
     ["runner.py", "command.py", "pipeline.py", "prompt.py", "result.py"],
     [("cancel bookkeeping", "runner.py Runner.__aexit__/_finish/_set_cancelled"), ("outcome", "result.py check_result"), ("re-raise", "command.py Command._readlines, prompt")])
prop("C06", "A timeout stops the command on time and is told apart from a cancel",
     "When a command with a timeout is still running that many seconds after its launch it is stopped by the termination protocol and the caller gets TimeoutError (a ResultError when incomplete results are requested); a command that ends sooner is unaffected. A timeout never surfaces as CancelledError, a cancel never as TimeoutError, unless both happened.",
     [S, C], "Every timeout relative to the child's life (before, after, at the same instant), every child reaction, concurrent cancellation at every step.",
     "Ties and races between timer, exit and cancel are unreachable with wall-clock sleeps.",
     ["runner.py", "result.py"],
     [("timer", "runner.py Runner._start_timer/_set_timer_expired"), ("mapping", "runner.py Runner.__aexit__"), ("result", "result.py check_result")])
prop("C07", "Exit status maps to the result exactly as configured",
     "A command's result carries the true exit status (minus the signal number for a signal death, including when the status was collected by someone else right after a signal the library sent), and awaiting it raises ResultError - with the captured output attached - exactly when the status is not among the accepted exit codes, {0} by default. The same status gives the same outcome through every API form that reports one, with or without the result/check options.",
     [I, C, S], "Every exit status 0..255 and signal, every exit_codes set, result/check/incomplete-result option, API form, and the delayed or lost exit notice.",
     "Tests sample a few statuses and forms; the cross product with options and with lost notices is not covered.",
     ["result.py", "runner.py", "command.py"],
     [("check", "result.py check_result"), ("returncode", "runner.py Runner.returncode"), ("coercions", "command.py Command.coro/__await__")])
prop("C08", "Captured output is exactly what the child wrote, in every sink",
     "Whatever a child writes to a captured stream arrives complete, in order and unmodified in its destination (returned string or bytes, string/byte buffer, bytearray, stream writer, logger, file, path, descriptor), decoded with the configured encoding for any way the bytes are split up. Destinations are truncated first unless append is requested, standard error merged into output keeps the write order, and a run that is stopped early delivers a prefix.",
     [I, S, C], "Every byte content and encoding, every chunking and interleaving of writes on both streams, every sink kind with append on and off, early exit or cancellation at any step.",
     "Chunk boundaries are chosen by the kernel in tests; multi-byte characters across boundaries, large volumes and both streams at once are rarely hit.",
     ["redirect.py", "runner.py", "util.py"],
     [("copiers", "redirect.py copy_*"), ("sink set-up", "runner.py _RunOptions._setup_output"), ("positions", "runner.py _set_position"), ("decode", "util.py decode_bytes")])
prop("C09", "Buffered standard error is limited, never blocking or corrupting",
     "Standard error that is buffered by default is kept up to error_limit bytes: the kept bytes are the exact prefix of what the child wrote, never more than the limit and never less than the smaller of limit and volume. Everything beyond the limit is consumed so that the child never blocks on it, and without a limit all of it is kept.",
     [I, S, C], "Every limit (0, 1, chunk boundary +-1, None), volume and chunking, with concurrent output and every sink.",
     "The off-by-one cases depend on the chunk boundary at which the limit is crossed.",
     ["redirect.py", "runner.py"],
     [("limited copier", "redirect.py copy_bytearray_limit"), ("routing", "runner.py _RunOptions._setup_error")])
prop("C10", "Input is delivered whole, followed by end of file",
     "A child that keeps reading receives exactly the bytes of the input the caller configured (string or bytes, buffer, stream reader, path, descriptor, empty default) followed by end of file, whatever the volume and reading pace. A child that stops reading early never blocks the run, which then ends with the child's exit status or a broken-pipe error.",
     [I, S, C], "Every input kind, size across the pipe capacity, reading pace and early close or exit of the child.",
     "Tests feed small inputs to a child that reads eagerly; partial reads and back-pressure schedules are not controlled.",
     ["redirect.py", "runner.py"],
     [("writers", "redirect.py write_stream/write_reader"), ("input set-up", "runner.py _RunOptions._setup_input, Runner._setup_input_source")])
prop("C11", "No deadlock however much flows in whatever order",
     "A run always makes progress: as long as its children do and the caller reads what it captured for itself, it finishes, whatever volumes they read and write on whichever of the three streams in whatever order, including volumes far beyond a pipe's capacity in both directions at once, pipelines and process substitutions. When all children have exited the call returns without waiting for anything else that is not still holding its captured streams.",
     [S, I, C], "Every order of reads, writes, closes and exits of the children with volumes below and above every buffer size, in every redirect configuration.",
     "Deadlocks need a particular order with volumes beyond the buffers; tests use one well-behaved order each.",
     ["runner.py", "redirect.py", "harvest.py"],
     [("concurrent pumps", "runner.py Runner._wait"), ("copiers", "redirect.py"), ("drain past limit", "redirect.py copy_bytearray_limit")])
prop("C12", "Pipeline stages are connected like a shell pipeline",
     "Each stage's output goes, complete and in order, to the next stage's input and to nobody else; the pipeline's input goes to the first stage and its output is the last stage's. A stage sees end of file when the previous one is done and a broken pipe when the next one is gone, because nobody else keeps the connecting pipes open.",
     [S, I, C], "Every number of stages, every order of stage progress and exit, every volume, every way to run the pipeline.",
     "A leaked copy of a pipe end shows only when a later stage waits for EOF or an earlier one for a broken pipe in a particular order.",
     ["pipeline.py", "runner.py"],
     [("stitching", "runner.py PipeRunner._setup_pipeline"), ("capturing", "runner.py PipeRunner._setup_capturing"), ("combine", "pipeline.py Pipeline.__or__")])
prop("C13", "A pipeline's outcome is that of its first failing stage",
     "A pipeline's result carries the exit status and error output of the first stage, in pipeline order, that exited non-zero of its own accord (zero if there is none) and the output of the last stage; the accepted exit codes decide as for a single command whether that is an error. When a stage fails, the remaining stages are stopped and the call is over only when all have ended; stages stopped for that reason are never blamed.",
     [S, F, C], "Every combination of stage statuses, order of stage exits, failing launches, and pipeline length.",
     "Which stage is blamed depends on the order in which exits are noticed, which tests do not control.",
     ["result.py", "runner.py", "harvest.py"],
     [("key result", "result.py convert_result_list/_find_key_result"), ("stop the rest", "harvest.py harvest_wait"), ("stage result", "runner.py Runner.__aexit__ with _catch_cancelled_error")])
prop("C14", "Process substitution connects and ends with its command",
     "A command or pipeline given as an argument is started with the outer command, which receives a path through which it reads the inner command's output (or, for a writable inner command, feeds its input), with end of file seen on both sides. The call is over only when outer and inner commands are all done; a cancellation, a timeout or a failing inner command stops the others, and a failing inner command is reported.",
     [S, F, C], "Every number, direction and nesting in pipelines of substitutions, every order of progress and exit, failing launch of any part, cancellation at any step.",
     "Tests run two or three fixed shapes on the happy path.",
     ["runner.py", "command.py"],
     [("set-up", "runner.py _RunOptions._setup_proc_sub"), ("start", "runner.py Runner._subprocess_spawn"), ("pass_fds", "runner.py _RunOptions")])
prop("C15", "expect() consumes the stream at the match, losing nothing",
     "Every character the child prints is handed to the caller exactly once and in order: text before the first match of any pattern, the match, and then later calls continue after it, whatever the chunking. Patterns may match across chunk boundaries; at end of file expect() raises EOFError, and then, as after a timed-out or cancelled expect(), the unmatched text is still available to the next call.",
     [I, S, H], "Every split of the output into chunks, pattern set, sequence of expect/read_all calls, timeout or cancellation between any two chunks.",
     "Chunking is the kernel's choice in tests; matches spanning chunks or arriving with a timeout are not sampled.",
     ["prompt.py"],
     [("expect", "prompt.py Prompt.expect/_find_pattern"), ("pending buffer", "prompt.py Prompt._pending/_decoder"), ("read_all", "prompt.py Prompt.read_all/_read_some")])
prop("C16", "send() delivers whole lines and a session ends like a run",
     "Everything sent through a prompt reaches the child completely, in order, with the configured line ending, without deadlock even when the child writes before it reads; close() ends its input. Leaving the session, its output read, ends the command under the rules of any run, and afterwards the result (or the exception the check options call for) is available.",
     [I, S, H], "Every sequence of send/expect/close, volumes beyond pipe capacity, child pacing, early child exit, cancellation at every step.",
     "Tests follow polite dialogues with small messages.",
     ["prompt.py", "command.py", "pipeline.py"],
     [("send", "prompt.py Prompt.send/command"), ("drain", "prompt.py Prompt._drain"), ("finish", "prompt.py Prompt._finish_"), ("entry", "command.py Command.prompt")])
prop("C17", "async for yields the exact lines of the output",
     "Iterating over a command or pipeline yields, in order, exactly the lines the child wrote: concatenated they are the decoded output, each but the last ends with a newline, and none is split, merged or lost, for any chunking, with or without a final newline. A line longer than the stream limit (64 KiB) is refused with an error, never truncated or split. Leaving the loop early or by exception ends the command.",
     [I, S, C], "Every content (empty, no final newline, lines around the limit, multi-byte characters and other line separators; encodings in which newline is one byte), chunking and break point.",
     "Over-long lines and characters split between chunks depend on chunk boundaries that tests do not control.",
     ["redirect.py", "command.py", "pipeline.py"],
     [("line reader", "redirect.py read_lines"), ("iteration", "command.py Command._readlines, pipeline.py Pipeline._readlines")])
prop("C18", "Audit callbacks bracket every run exactly",
     "With an audit callback, each command's run reports start first, then stop exactly once and last, also when it fails to launch (then with the failure's name) or is cancelled, and reports one signal event, naming the signal, for each signal sent to the child and for nothing else.",
     [S, F, C], "Every launch failure, cancellation step, escalation and pipeline stage.",
     "Tests check the sequence for a few fixed runs.",
     ["runner.py"],
     [("callback", "runner.py Runner._audit_callback"), ("bracketing", "runner.py Runner.__aenter__/__aexit__"), ("signals", "runner.py Runner._signal")])
prop("C19", "harvest waits for all it started and reports the first failure",
     "When harvest or harvest_results is over every awaitable is done (or, after the cancel grace period, a RuntimeError says which is not): on the first exception the others are cancelled and awaited, on a timeout all are and TimeoutError is raised, and when the caller is cancelled all are and CancelledError (or the cancelled flag) is reported. Otherwise results come back in argument order, and without failures nothing is cancelled.",
     [S, F], "Every order and kind of completion (return, exception, own cancellation, delayed or refused cancellation), every timeout tie, cancellation of the caller at every step, repeatedly.",
     "Unit tests use a dozen fixed timings.",
     ["harvest.py"],
     [("wait", "harvest.py harvest_wait"), ("cancel", "harvest.py _cancel_wait/_cancel_waiter"), ("results", "harvest.py harvest_results/_to_result")])
prop("C20", "Commands, pipelines and contexts are immutable values",
     "Every method or operator that changes an option or redirect returns a new object in which exactly the named option differs, and leaves the original and everything derived from it unaffected; unset options keep following their default, and derivations commute when they touch different options. Running an object never changes it, so equal objects behave alike however often and concurrently they run.",
     [PR, H, I], "Every sequence of derivations from shared ancestors, interleaved with runs.",
     "Tests check a few derivations in isolation, not aliasing across chains.",
     ["command.py", "pipeline.py"],
     [("options", "command.py Options.set*"), ("command", "command.py Command._replace_args and modifiers"), ("pipeline", "pipeline.py Pipeline._set")])
prop("C21", "Arguments reach the program literally, one by one",
     "The program receives exactly the arguments given, in order: strings, bytes, paths and buffers as they are, lists and tuples flattened recursively, anything else as its text; no argument is ever split, joined, expanded or dropped, whatever characters it contains. Unsupported types (mappings, sets, generators, ranges, None, Ellipsis) are refused with a TypeError when the command is built, and a coerce_arg function is applied to each top-level argument first.",
     [I, PR], "Every nesting and mixture of argument types and every string content, through every way of building a command.",
     "The input space is unbounded; tests check a few shapes.",
     ["command.py", "util.py", "runner.py"],
     [("coercion", "command.py Command._coerce/CmdContext.__call__"), ("final argv", "runner.py _RunOptions._setup_args")])
prop("C22", "The child's environment is exactly what was asked for",
     "The child's environment is the inherited environment updated by the env settings, later ones winning, or exactly the settings when inheritance is off; values are passed as their text. The caller's own environment is never modified, and inheritance means its state when the command is launched.",
     [I, PR, H], "Every sequence of env settings and inherit options over context and command, with changes of the parent's environment in between.",
     "Tests check single settings.",
     ["command.py", "util.py"],
     [("merge", "command.py Options.set_env/runtime_env"), ("env dict", "util.py EnvironmentDict")])
prop("C23", "Context managers nest and concurrent runs do not interfere",
     "One command object can be entered, iterated and awaited many times, nested or concurrently from several tasks, and each use gets its own run: leaving a block ends the run that this block entered, in last-in-first-out order per task, and no run's streams, result or signals reach another.",
     [S, H, PR], "Every properly nested sequence of enter/exit over several objects and tasks, interleaved in every order.",
     "Tests use one or two levels in one task.",
     ["util.py", "command.py", "pipeline.py"],
     [("stack", "util.py context_aenter/context_aexit"), ("entry", "command.py Command.__aenter__/__aexit__")])
prop("C24", "The child watcher reports each exit exactly once, correctly",
     "For every child handed to the library's child watcher its callback is invoked exactly once with the true exit status (255 if someone else collected it), on whatever thread and however close in time children are started and exit, with either watching strategy. No callback is invoked for a child that is still running, none is lost, and closing the watcher leaves no thread or descriptor.",
     [S, H], "Every interleaving of attach, exit and notification over many children and threads, exits before attach, mixed statuses.",
     "The races are in microsecond windows between attach and exit.",
     ["watcher.py"],
     [("kqueue/epoll agents", "watcher.py EPollAgent/KQueueAgent/ThreadAgent"), ("watcher", "watcher.py DefaultChildWatcher")])
prop("C25", "A pty run behaves like a terminal session and cleans up",
     "With a pty the child's three standard streams are one terminal that is its controlling terminal and the leader of its own session, with the requested size and mode; input ends with the terminal's end-of-file character, output is complete up to the child's end even when it exits at once. The terminal is closed on every ending, and redirected streams bypass it.",
     [S, I, C], "Every exit/output order at the end of the session, every set-up failure, cancellation at any step, every redirect combination.",
     "End-of-session races between exit and last output are timing dependent.",
     ["pty_util.py", "runner.py"],
     [("open", "pty_util.py open_pty/open_streams"), ("ctty", "pty_util.py set_ctty"), ("eof", "redirect.py write_stream eof")])
prop("C26", "Redirections and their defaults route each stream as documented",
     "Each of a child's three standard streams is connected as the redirect table says: defaults (empty input, buffered output and error; terminal defaults with a pty; captured output when iterating or prompting), explicit devices, merges, files, descriptors, inherit. The operators, the named methods and the set() options mean the same, and an unsupported combination or type is refused without launching anything.",
     [C, I], "Every combination of the three redirects (each redirect kind, append, close flags), pty on/off, and API form.",
     "The cross product has thousands of combinations; tests pick some dozens.",
     ["redirect.py", "runner.py", "command.py", "pipeline.py"],
     [("defaults", "redirect.py Redirect.from_default"), ("tables", "redirect.py STDIN_REDIRECT/STDOUT_REDIRECT"), ("set-up", "runner.py _RunOptions._setup_redirects")])
prop("C27", "A launch failure is reported promptly and undoes the rest",
     "When a program cannot be started (missing, not executable, refused by the system, bad redirect, failing pty set-up) the call raises that very error - not a hang, a cancellation or a success - in every API form and for any stage of a pipeline or substitution. Stages already started are stopped, and the audit callback sees the failure.",
     [F, S, C], "Every stage position failing with every error kind, in every API form, with the other stages at any step of their life.",
     "Tests fail one stage in one form; the hang needs the failing stage and form to combine.",
     ["runner.py", "pipeline.py", "command.py"],
     [("enter failure", "runner.py Runner.__aenter__/_start"), ("capture handshake", "runner.py PipeRunner._setup_capturing/run_command"), ("stop the rest", "runner.py PipeRunner.__aenter__")])
prop("C28", "Diagnostics never change behaviour",
     "Switching on the library's detailed tracing and logging changes nothing that a caller, a child or the operating system can observe: same results, exceptions, signals, descriptors and order of events for the same schedule.",
     [S, C], "Every run of the other properties, repeated with tracing on.",
     "Tests are run in one trace configuration at a time and never compared.",
     ["log.py", "runner.py", "util.py"],
     [("decorator", "log.py log_method"), ("switch", "log.py SHELLOUS_TRACE"), ("timer", "log.py log_timer")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
