#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": list(observe), "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "A finished process's result says exactly how it ended",
  "For every process procstar starts, its result shows `running` with no status until the process has really ended, and from then on `terminated` with exactly the exit code, or exactly the terminating signal (number, name, core-dump flag) and raw wait status, that the kernel delivered. The change from running to terminated happens once, no later observation of the same process changes state, status, stop time or resource usage again, and it holds for every exit code 0-255, every fatal signal including real-time ones, and any number of processes ending at the same moment.",
  ["inputs", "schedules"], "all exit codes and fatal signals, every interleaving of process exits with SIGCHLD delivery, reaping and client queries",
  "Tests sample a handful of exit codes and one or two signals with one process at a time; they never see simultaneous exits, coalesced SIGCHLD, slow reaping or real-time signals.",
  ["src/procs.rs", "src/res.rs", "src/sig.rs", "src/sys.rs"],
  [("SIGCHLD watch channel + nonblocking wait4 per process", "src/procs.rs wait_for_proc, src/sig.rs SignalWatcher"), ("status decoding", "src/res.rs Status::new")],
  [("wait_info", "kernel wait status once reaped", "src/procs.rs Proc")],
  ["CLI --print result", "GET /procs/:id", "agent ProcResult", "wait4 as logged by an interposer"])

p("P02", "Captured output is exactly what the process wrote",
  "For every captured file descriptor (memory or tempfile mode, text or binary encoding, attached or detached) and every output volume and write pattern, a result that shows the process as terminated contains exactly the bytes the process had written to that descriptor, in order, with nothing lost, duplicated or mixed with another descriptor or process, however the process ends. Text results are the UTF-8 decoding of those bytes with replacement characters for invalid sequences, binary results are their exact base64, detached results give their exact length, and the raw data is retrievable byte for byte.",
  ["inputs", "schedules"], "all output sizes, chunkings and byte values; all interleavings of writing, exiting, reaping and draining; any number of concurrent writers",
  "Tests capture a few short strings from one process at a time; they cannot reach large volumes, pipe-capacity boundaries, invalid UTF-8 split across reads, or a process that exits between the drain of its pipe and its reaping.",
  ["src/fd.rs", "src/procs.rs", "src/res.rs", "src/sys.rs", "src/http.rs", "src/proto.rs"],
  [("capture pipe reader task", "src/fd.rs run_capture_memory"), ("unlinked tempfile", "src/fd.rs UnlinkedFile"), ("encoding", "src/res.rs FdRes::from_bytes")],
  (), ["result fds", "GET /procs/:id/output/:fd/data", "ProcFdData", "final notification"])

p("P03", "Watching a running process never disturbs its captured output",
  "While a process runs, every snapshot of its captured output (full results, detached lengths, raw data and range reads, over any interface and at any rate) is a prefix of what it finally wrote, successive snapshots never shrink, and what it has written becomes visible without waiting for it to end. Observing it never changes, reorders, truncates, duplicates or delays its output or its result, so a process polled continuously ends with exactly the same output as one never looked at.",
  ["schedules", "histories", "inputs"], "all interleavings of client reads (any range) with the process's writes, in both capture modes",
  "The tests read output only after termination or once mid-run; a read that moves the shared file position or closes a descriptor only shows when reads and writes interleave.",
  ["src/fd.rs", "src/sys.rs", "src/procs.rs", "src/http.rs", "src/proto.rs"],
  [("tempfile reads", "src/sys.rs read_from_file"), ("in-memory buffer", "src/fd.rs get_data/get_result")], (),
  ["GET /procs/:id", "GET /procs/:id/output/:fd/data", "ProcFdDataRequest/ProcFdData"])

p("P04", "Range reads of captured output return exactly the requested bytes",
  "For every request for part of a captured descriptor's data, with any start and optional stop, the reply carries exactly the bytes of the captured output in the half-open interval [start, stop) clipped to the data that exists, together with the true bounds and encoding of the data returned. Out-of-range, empty, inverted, negative or huge ranges yield an empty or clipped answer or a request error, never a crash, a hang, a dropped connection, wrong bytes, or damage to later reads, and consecutive ranges reassemble the whole output.",
  ["inputs", "histories"], "all start/stop pairs (including negative and 64-bit extremes) against all data lengths in both capture modes, running or terminated",
  "The tests read one whole output or a couple of in-range slices; the boundary arithmetic is over two unbounded integers and the changing data length.",
  ["src/fd.rs", "src/proto.rs", "src/sys.rs", "python/procstar/agent/proc.py"],
  [("slice computation", "src/fd.rs get_data, src/proto.rs handle_incoming ProcFdDataRequest")], (),
  ["ProcFdDataRequest/ProcFdData over the agent protocol"])

p("P05", "An accepted start runs each process exactly once, a refused one runs nothing",
  "Every process in an accepted start request is started exactly once, directly by the manager, in its own session, running exactly the specified executable with exactly the specified arguments (each argument byte for byte), and is listed under its ID immediately. A request that is refused (an ID already in use, an invalid or inconsistent spec, unmatched pipes, shutting down) starts none of its processes, leaks nothing, and leaves every existing process and record untouched; no ID ever refers to two live records, and an ID can be reused once its record is deleted.",
  ["inputs", "histories", "schedules"], "all start requests (sizes, ID sets, argument contents, invalid members at any position) over CLI, HTTP and agent, in any sequence and concurrently",
  "Tests start a few well-formed processes; they do not check that a rejected batch had no side effect, that concurrent starts with one ID have a single winner, or the arguments as the program received them.",
  ["src/procs.rs", "src/spec.rs", "src/http.rs", "src/proto.rs", "src/main.rs"],
  [("duplicate and fd validation before any fork", "src/procs.rs start_procs, src/spec.rs validate_procs_fds"), ("fork/setsid/execve", "src/procs.rs start_procs, src/sys.rs execve")], (),
  ["fork/execve log of an interposer", "probe program's own argv dump", "GET /procs", "ProcidList"])

p("P06", "A process that cannot be started is reported as an error and contained",
  "If a process cannot be set up or executed (missing or non-executable program, empty argument list, a NUL byte in any string, unopenable file, bad descriptor, any failing set-up step), either the request is refused or that process ends in state `error` with a message naming the cause; the target program is never run in a partially set-up state, and no second copy of the manager survives in the failed child. The manager and all other processes, including those of the same request, carry on unaffected, and the failed record is queryable and deletable like any other.",
  ["inputs", "fault_sequences"], "every set-up step failing for every reason, alone or in combination, among any other processes",
  "Tests try one missing executable; the failing step happens in a forked copy of the manager, where a panic silently leaves a second manager running that no test looks for.",
  ["src/procs.rs", "src/err_pipe.rs", "src/fd.rs", "src/sys.rs"],
  [("error pipe from child to parent", "src/err_pipe.rs"), ("child exits 63 without exec", "src/procs.rs start_procs")], (),
  ["result state/errors", "process tree under the manager", "interposer log"])

p("P07", "A process gets exactly the file descriptors its spec names, and no others",
  "At exec every process has each descriptor in its spec connected to exactly the specified thing, for any descriptor numbers, any order and any combination including duplication of earlier ones, its unmentioned standard descriptors inherited, and nothing else. In particular no descriptor of the manager (sockets, event queues, error pipes, read ends of captures) or belonging to another process's captures or pipes is open in it, whatever else the manager is doing at that moment.",
  ["inputs", "schedules", "configurations"], "all fd specs (numbers 0 to the limit, every kind, every order) and all manager states (other processes, open connections, captures)",
  "Tests set up one or two standard descriptors; collisions between a requested number and the manager's internal numbers, and leaks from concurrently running captures, depend on what else is open.",
  ["src/fd.rs", "src/procs.rs", "src/sys.rs", "src/err_pipe.rs"],
  [("in_child fd set-up", "src/fd.rs SharedFdHandler::in_child"), ("close-on-exec on manager fds", "src/sys.rs pipe/mkstemp, src/err_pipe.rs")], (),
  ["probe program's dump of /proc/self/fd at start"])

p("P08", "Pipes between processes carry exactly what is written, then end-of-file",
  "For every pipe-write/pipe-read pair in one request, the reader receives exactly the bytes the writer wrote, in order, then end-of-file as soon as every writer has closed or ended; the writer is told (SIGPIPE, or EPIPE if it ignores that) as soon as the reader is gone. No other process and not the manager keeps either end open, whatever the order, number and topology (chains, fan-in and fan-out) of piped processes and whatever other processes are started before, after or between them.",
  ["inputs", "schedules", "programs"], "all pipe topologies, data volumes, process orders and lifetimes",
  "The tests pipe two short-lived processes; a third process holding an end only shows up as a hang when it outlives the writer.",
  ["src/fd.rs", "src/spec.rs", "src/procs.rs"],
  [("Pipes registry", "src/fd.rs Pipes"), ("matching", "src/spec.rs validate_procs_fds"), ("closing in parent", "src/fd.rs in_parent")], (),
  ["reader's captured output and exit time", "writer's end status", "/proc/PID/fd of every process"])

p("P09", "File descriptors attached to files follow their open flags and mode",
  "A descriptor attached to a file is opened as its flag says for every initial state of the path: Read needs it to exist, Write and ReadWrite create or truncate, Create fails if it exists, Replace truncates but never creates, Append adds only to an existing file, CreateAppend adds or creates, and Default depends on the descriptor number, with the access mode that flag names. A created file gets the requested permission bits less the umask, existing bytes are only ever changed as the flag allows, and a descriptor attached to null reads empty and discards; failures make the process an error without touching the file.",
  ["inputs", "configurations"], "all flags x descriptor numbers x initial file states (absent, empty, with data, read-only, directory, symlink) x mode x write patterns",
  "Tests cover a single output file; the guarantee is a product of flags, path states and permissions, including no data loss in the failing cases.",
  ["src/fd.rs", "src/spec.rs", "src/sys.rs"], [("flag table", "src/fd.rs get_oflags"), ("open in child", "src/fd.rs in_child")], (),
  ["file contents, mode and size before and after", "F_GETFL seen by the probe"])

p("P10", "A process's environment is exactly as specified and never contains secrets",
  "The environment a process receives is exactly the inherited variables its spec selects (all, none, or the named ones), minus the manager's agent credentials (certificate, key and token variables), overridden by the variables the spec sets and without those it removes, each name and value byte for byte. The credentials never reach any process through inheritance in any mode, the manager's own environment never changes, and this holds for any variable contents.",
  ["inputs", "configurations"], "all manager environments and all env specs",
  "Unit tests check the merge function on small UTF-8 maps; they do not look at what a started process actually receives, nor at unusual contents.",
  ["src/environ.rs", "src/procs.rs", "src/spec.rs", "src/sys.rs"], [("environ::build with exclusions", "src/environ.rs")], (),
  ["probe program's dump of its environ"])

p("P11", "Under a restricted executable nothing else is ever executed",
  "When the manager is started with a restricted executable, every process whose effective executable (explicit, or else its first argument) is not exactly that string ends in state `error` naming the restriction and no program is executed for it, over every interface and for every spelling; processes with exactly that executable run normally. The restriction cannot be lifted or evaded by any request, and an agent reports it when registering.",
  ["inputs", "configurations"], "all exe/argv combinations and spellings of paths, all interfaces, mixed batches",
  "Tests try one allowed and one refused program over one interface; the guarantee quantifies over every other string.",
  ["src/procs.rs", "src/main.rs", "src/agent.rs"], [("comparison in the child before exec", "src/procs.rs start_procs")], (),
  ["execve log of an interposer", "result errors", "Register message"])

p("P12", "Signals reach exactly the addressed, still-live process",
  "A signal request for a process that has not ended delivers exactly that signal, once, to exactly that process; a request naming an unknown ID, an invalid signal or a process already known to have ended is refused and no signal is sent to anything. No request, in any order or race with termination, deletion or ID and PID reuse, ever causes a signal to be sent to any PID other than a not-yet-reaped child the manager itself started.",
  ["histories", "schedules", "inputs"], "all signal requests (numbers and names) over HTTP and agent, racing process exit, reaping, deletion and ID reuse",
  "Tests signal a running process; they cannot see a signal sent to a recycled PID, which needs the PID reuse to happen after reaping.",
  ["src/procs.rs", "src/sys.rs", "src/sig.rs", "src/http.rs", "src/proto.rs"], [("Proc::send_signal", "src/procs.rs")], (),
  ["kill() calls logged (and contained) by an interposer", "probe's own log of received signals"])

p("P13", "A record is deleted only on request, only when not running, and completely",
  "A process's record exists from its start until a deletion request succeeds, which happens exactly when the process is not running; deleting a running process is refused and does not affect it, and deleting an unknown ID is reported as such. After deletion the ID is unknown to every operation, deletion is announced once, the record's resources are released, and the ID may be started afresh without any trace of the old process.",
  ["histories", "schedules"], "all sequences and races of start, query, signal, exit and delete on shared IDs",
  "Tests delete one finished process; races between exit and deletion and reuse of IDs are histories, not single inputs.",
  ["src/procs.rs", "src/http.rs", "src/proto.rs"], [("remove_if_not_running", "src/procs.rs")], (),
  ["HTTP and agent responses", "ProcDelete notifications", "/proc/PID/fd of the manager"])

p("P14", "Finished and deleted processes leave nothing behind",
  "Every ended child is reaped exactly once and promptly, so no zombie remains. Whenever the manager is quiescent its open descriptors are exactly its fixed set plus those of its client connections and of the records still kept (at most one per tempfile capture, and a memory capture only while some process still holds its write end), no temporary file is left in the filesystem at any time, and after all records are deleted and connections closed it is back at its starting point no matter how many processes, failures and requests it handled.",
  ["histories", "fault_sequences"], "all histories of successful and failing starts, captures, pipes, signals, deletes and client connections",
  "A leak of one descriptor per operation passes every short test and only stops a manager after hours.",
  ["src/procs.rs", "src/fd.rs", "src/err_pipe.rs", "src/sys.rs", "src/http.rs"], [("closing in parent and Drop", "src/fd.rs"), ("reaping", "src/procs.rs wait_for_proc")], (),
  ["/proc/PID/fd of the manager", "children list", "temp directory", "interposer log of wait4"])

p("P15", "No client input can take the manager down or corrupt it",
  "Whatever bytes a client sends (malformed HTTP, JSON or msgpack, wrong types, unknown routes, methods, names or messages, oversized, nested or truncated bodies, unexpected frame kinds, connections dropped at any point), the manager keeps serving: every complete well-formed HTTP request gets a well-formed response (a client-error status, never a dropped connection, if it is invalid), an undecodable agent message is ignored or answered with an error without losing the connection, and running processes and their output are unaffected.",
  ["inputs", "histories", "fault_sequences"], "all byte sequences on the HTTP port and all frame sequences on the agent connection",
  "Tests send only requests their own clients build; hostile inputs are the complement of that set.",
  ["src/http.rs", "src/proto.rs", "src/agent.rs", "src/spec.rs", "src/sig.rs"], [("request parsing and error mapping", "src/http.rs, src/agent.rs handle")], (),
  ["HTTP responses", "agent connection continuity", "a canary process and its output", "manager stderr for panics"])

p("P16", "The HTTP API behaves like one sequential registry under concurrency",
  "For every set of concurrent HTTP requests on any number of connections, the responses are those of some order, consistent with real time, in which each start, query, list, signal and delete takes effect atomically at one moment on a single registry of processes. In particular of several concurrent starts of one ID exactly one succeeds, of several concurrent deletes of one finished process exactly one succeeds, a successful start is visible to every later query, and IDs with any characters work when percent-encoded.",
  ["schedules", "histories"], "all interleavings of concurrent HTTP clients",
  "The existing tests issue one request at a time.",
  ["src/http.rs", "src/procs.rs"], [("single-threaded dispatch on a shared registry", "src/http.rs Router::dispatch, src/procs.rs SharedProcs")], (),
  ["client-side call/return history"])

p("P17", "Termination signals end every process, in time, and then the manager",
  "On SIGTERM or SIGINT the manager sends SIGTERM to every running process, waits for them up to the termination grace period (60 s), then sends SIGKILL to exactly those still running, waits a short further period (5 s) for records to be deleted, and exits; on SIGQUIT it sends SIGKILL at once. It exits as soon as all processes have ended and been deleted, never before a still-running process was given its grace period, never later than the two periods, and with results still produced where an output was requested.",
  ["schedules", "histories", "fault_sequences"], "all populations of processes (prompt, slow, ignoring SIGTERM, already ended, being deleted) and all moments of signal arrival, in every run mode",
  "The timeouts are a minute long, so no test waits for them, and they depend on which processes are alive when.",
  ["src/shutdown.rs", "src/procs.rs", "src/main.rs"], [("TermThenKill/Kill handlers", "src/shutdown.rs install_signal_handler")], (),
  ["kill() log and manager exit, under a scaled clock", "probe signal logs"])

p("P18", "Idle shutdown refuses new work and exits exactly when the last record goes",
  "After SIGUSR1 the manager accepts no new process over any interface (the request is refused as shutting down and starts nothing), keeps running, querying, signalling and deleting existing ones normally, and exits as soon as, and not before, the last record has been deleted; with no records it exits at once.",
  ["histories", "schedules"], "all moments of the signal relative to starts, exits and deletes, over HTTP and agent",
  "Tests send it once in one state.",
  ["src/shutdown.rs", "src/procs.rs"], [("Idling state and check_idling", "src/procs.rs")], (),
  ["HTTP/agent responses", "manager lifetime"])

p("P19", "Batch runs end at the right moment with a complete report",
  "With --exit, --print or --output, the manager exits as soon as no process runs and not before, and writes exactly one JSON document holding the final result of every process in the input and nothing else on standard output or in the file; with --wait it runs until the last record is deleted. Invalid input makes it exit with a nonzero status, an explanatory message and no process started; otherwise its exit status is zero whatever the processes did.",
  ["inputs", "schedules"], "all input documents (file or stdin), numbers and lifetimes of processes, in each mode and combination",
  "Tests run few-process inputs whose processes end in a fixed order.",
  ["src/main.rs", "src/procs.rs", "src/res.rs", "src/argv.rs", "src/spec.rs"], [("wait_running/wait_idle/collect_results", "src/procs.rs"), ("report", "src/main.rs maybe_run_until_exit")], (),
  ["stdout, output file, exit status and timing of the manager"])

p("P20", "A connected agent reports every start, end and deletion, in order, without loss",
  "While connected, an agent sends its server, for every process, a result when it starts, a result showing the final state when it ends or fails, and one deletion notice when deleted, in that order and each unprompted, and every request is answered or acted on in order. None is lost, duplicated or attributed to another process, however many processes start or end at once or while the agent is busy sending large results.",
  ["schedules", "histories"], "all interleavings of process events, requests and server reading speed, bursts of thousands of events",
  "Tests run a few processes against a prompt server; bursts beyond the notification buffer are never produced.",
  ["src/agent.rs", "src/procs.rs", "src/proto.rs"], [("notification subscription", "src/procs.rs NotificationSub, src/agent.rs run")], (),
  ["frames recorded by a reference agent server"])

p("P21", "An agent that loses its server reconnects and loses no process",
  "Whenever its connection is refused, fails, is closed or breaks at any byte, an agent keeps every process and its captured output, and tries again: at once after losing an established connection, and after a failed attempt at the configured initial interval, growing by the configured factor up to the maximum, reset by success, until the configured number of consecutive failures, when it exits with an error. On each reconnection it registers first, with the same identity and the complete list of current processes, and then answers requests and sends notifications as before.",
  ["fault_sequences", "schedules", "histories"], "all sequences of connection failures at any protocol step, with processes starting, ending and being deleted meanwhile",
  "Tests disconnect once at a quiet moment.",
  ["src/agent.rs", "src/argv.rs"], [("run loop with backoff", "src/agent.rs run"), ("Register", "src/agent.rs connect")], (),
  ["connection attempts with timestamps at a reference server", "Register contents"])

p("P22", "Shutdown of an agent completes and is announced in any connection state",
  "When shutdown is requested, an agent exits in bounded time (the grace periods plus a moment) whatever its connection is doing: connected, in the middle of connecting or registering, waiting to retry, or facing an unresponsive server. If it is connected it tells the server each change of shutdown state, and a registration always states the current one.",
  ["schedules", "fault_sequences"], "all moments of shutdown relative to connection phases",
  "Tests shut down a connected, idle agent.",
  ["src/agent.rs", "src/main.rs", "src/shutdown.rs"], [("run loop and shutdown notification", "src/agent.rs run, src/main.rs maybe_run_agent")], (),
  ["agent exit and ShutDown/Register frames at a reference server"])

p("P23", "Agents talk only to verified servers and servers only to authorised agents",
  "An agent completes a connection only over TLS with a server whose certificate is valid for the host it was told to reach and chains to a trusted or explicitly configured root, sends its registration and token only after that, and acts on nothing from an unverified peer. A server accepts a registration only with exactly the configured access token, whatever else the message says, and otherwise exposes no process operation to that connection and records no such connection.",
  ["inputs", "configurations"], "all certificate defects (wrong name, unknown root, expired, plaintext) and all token values and first messages",
  "Tests use one good certificate and one wrong token.",
  ["src/net.rs", "src/agent.rs", "python/procstar/agent/server.py"], [("native-tls verification", "src/net.rs get_tls_connector"), ("token comparison", "python/procstar/agent/server.py")], (),
  ["bytes received by hostile servers", "server's connection table and replies"])

p("P24", "The Python agent server tracks agents and processes truthfully",
  "For every sequence of agent messages, disconnections and reconnections, the Python server's table of connections and processes matches what agents reported: results update the right process and reach its stream of updates each exactly once and in order, deletion or loss is raised to those waiting, and duplicate, late or unknown-process notices neither disturb other processes nor drop the connection. An agent that reconnects within the timeout keeps its processes and waiters, one that does not is dropped exactly once, a superseded socket's late failure never harms the current one, and a process is assigned only to a live, open connection of the requested group.",
  ["histories", "schedules", "fault_sequences"], "all message sequences and connect/disconnect/timeout interleavings of any number of agents",
  "The agent tests do not even import on the installed Python, and where they run they follow a few scripted paths.",
  ["python/procstar/agent/server.py", "python/procstar/agent/conn.py", "python/procstar/agent/proc.py"],
  [("Server._serve_connection and reconnect timeout", "python/procstar/agent/server.py"), ("Connections/choose", "python/procstar/agent/conn.py"), ("Processes.on_message", "python/procstar/agent/proc.py")], (),
  ["public server/connection/process objects driven by reference agents"])

p("P25", "The Python spec builder and HTTP client say what they mean",
  "Every process spec that can be built with the Python API serialises to JSON that procstar accepts and that has exactly the built meaning (descriptors, environment, executable, arguments), and the HTTP client performs exactly the named operation on exactly the given ID, for any ID characters, and returns exactly the result, data bytes and error the server gave. Messages encoded by one side of the agent protocol decode to equal messages on the other.",
  ["inputs"], "all spec builder compositions, IDs, signals, descriptors, data contents and protocol messages",
  "Tests serialise a few specs and compare them with fixed JSON, never with what the manager makes of it.",
  ["python/procstar/spec.py", "python/procstar/http/client.py", "python/procstar/proto.py"], [("to_jso", "python/procstar/spec.py"), ("Client", "python/procstar/http/client.py"), ("serialize/deserialize", "python/procstar/proto.py")], (),
  ["effect on a real manager and probe process"])

p("P26", "Reported times, resource usage and process information are true",
  "In every result the start time, stop time, current time and elapsed time agree with the real life of the process (ordered, elapsed growing while it runs and fixed once it ends), resource usage is what the kernel reported for that process when it ended, and the process information (identity, parent, session, command name, state, memory, signal masks, terminal) equals what the kernel shows for that PID at that moment, for any process name and any signal disposition.",
  ["inputs", "schedules"], "all process names, signal masks, resource profiles and query moments",
  "Unit tests parse one canned line; names with unusual characters, every signal mask and the time relations need live processes.",
  ["src/procinfo.rs", "src/res.rs", "src/procs.rs"], [("ProcStat::parse", "src/procinfo.rs"), ("Times", "src/procs.rs to_result")], (),
  ["results vs /proc/PID/stat, statm, status and wait4 log"])

p("P27", "No request makes the manager touch memory it should not",
  "In every execution the manager reads and writes only memory it owns and has initialised, passes only valid, NUL-terminated and initialised buffers to the operating system (arguments, environment, paths, status buffers), and never uses a file descriptor after closing it or closes one twice.",
  ["inputs", "histories"], "all requests and process histories that reach the unsafe code around system calls",
  "Memory errors in the system-call layer usually leave no visible trace in a passing test.",
  ["src/sys.rs", "src/fd.rs", "src/err_pipe.rs", "src/procinfo.rs"], [("CStringVec, execve, wait4, mkstemp, pipe wrappers", "src/sys.rs")], (),
  ["valgrind memcheck with descriptor tracking on the unmodified binary"])

p("P28", "Processes are independent of one another",
  "Nothing one managed process does or suffers (blocking while its files are opened, filling its output, stopping, never reading, failing to start, ending, holding inherited descriptors) delays, blocks or alters another process's start, output, termination report or deletion, or the manager's answers. Output from a process's surviving descendants does not delay the report of its own end.",
  ["schedules", "fault_sequences"], "all combinations of misbehaving and normal processes",
  "Tests run well-behaved processes.",
  ["src/procs.rs", "src/err_pipe.rs", "src/fd.rs", "src/sig.rs"], [("per-process tasks on one event loop", "src/procs.rs run_proc"), ("error pipe ends", "src/err_pipe.rs")], (),
  ["result and notification of a normal process while others block"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
