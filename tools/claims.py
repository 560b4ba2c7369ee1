c("P01", "online oracle comparing every observed result with the wait status the probe arranged and the kernel delivered",
  "Held for every exit code, every fatal signal and the bursts of simultaneous endings run, with the result polled all the while.")
c("P02", "position-coded output compared byte for byte at the first result that shows termination, under delayed and short reads",
  "Held for the random writers run: capture kinds, volumes, write patterns, descendants and ways of ending.")
c("P03", "captured output read over and over by clients while the writer runs; the writer's own books compared with everything it wrote and everything read",
  "Held for the readers and writers run, with reads delayed, cut short and failed by fault injection.")
c("P04", "model of the captured bytes compared with every reply to range and whole reads, finished and growing",
  "Held for the random and boundary ranges, encodings and growth run, over both interfaces.")
c("P05", "marks left by the processes themselves, fork/exec log and registry compared with each accepted or refused request",
  "Held for the specs, batches, refusals, ID races and input documents run.")
c("P06", "record, error text, exec log and the fate of neighbours checked for every way a start can fail, injected or natural",
  "Held for the broken specs and for the failures injected at each system call of process set-up, in parent and child.")
c("P07", "each process dumps its own descriptor table at exec, compared entry by entry with a model of its spec",
  "Held for the random tables run, over numbers the manager itself uses, alone and amid other starts.")
c("P08", "position-coded bytes followed from writer to reader through random networks of processes; ends and EPIPE timed against closings",
  "Held for the random pipe networks run.")
c("P09", "file contents, creation, truncation, mode and refusals compared with a model of each open flag over prepared file systems",
  "Held for each flag on each kind of path, and for concurrent appenders.")
c("P10", "each process dumps its environment at exec, compared byte for byte with a model of the spec over a hostile manager environment",
  "Held for the random manager environments and env specs run, over HTTP, agent and input files.")
c("P11", "every exec call logged, marks left by forbidden programs and records compared with the restriction",
  "Held for the aliases, spellings, requests and interfaces run.")
c("P12", "every kill call the manager makes logged (and contained), and each target's own signal log, compared with the requests accepted and refused",
  "Held for the signals, targets, spellings and races of exit, reaping, deletion and ID reuse run.")
c("P13", "random histories compared with a model of the registry; racing deletions judged by reap log, exit marks and notices",
  "Held for the histories and races run, over both interfaces.")
c("P14", "descriptors, temporary files and children of the manager compared at quiescent points with what its kept records allow; reap log",
  "Held for the random histories, injected faults, floods, reconnections and soaks run.")
c("P15", "generated hostile requests, messages, frames and server answers against a live manager; responses, panics and a running canary process watched after each",
  "Held for the mutated requests, broken bytes, agent messages and frames, and server answers run.")
c("P16", "linearizability checker (Wing-Gong search over a registry model with spontaneous endings) on recorded concurrent request histories",
  "Held for the concurrent histories run: connections kept, renewed, dribbled and pipelined, with system calls delayed; and for the IDs generated.")
c("P17", "every signal sent, every wait status, the processes' own signal logs and the exit time compared with the shutdown rules, under accelerated and real time",
  "Held for the mixes of obedient, slow, deaf, blocked and stopped processes, signals, modes and moments run; grace periods observed under a 20-30 times faster clock.")
c("P18", "registry model, fork log, exit time and agent notices watched from the idle-shutdown request to the exit",
  "Held for the records, interfaces and races of starts and deletions with the signal run.")
c("P19", "exit time, exit status, standard output, report file and fork log of each batch run compared with a model of its input and of when each process was let go",
  "Held for the modes, inputs, report targets, bursts and invalid inputs run.")
c("P20", "the full stream of messages each server received compared, per process and in order, with the history of starts, ends, deletions and requests",
  "Held for the histories, bursts, stalls and registrations in progress run.")
c("P21", "intervals between attempts timed at a misbehaving reference server, registrations and process lists compared with a model through failures, losses and cuts at arbitrary bytes",
  "Held for the failure kinds, losses, cuts, intervals and limits run.")
c("P22", "exit time, exit status and the announced states recorded by a reference server that holds the connection in each phase of its life while shutdown is requested",
  "Held for the phases, requests, processes and moments run.")
c("P23", "every byte a hostile server receives from an agent (raw and decrypted) watched under a catalogue of certificates and trust settings; tables, events and replies of the Python server compared before and after unauthorised first messages",
  "Held for the certificates, plaintext tricks, trust settings, tokens and first messages run.")
c("P24", "connection, group and process tables, update streams and messages sent of the Python server compared with a model after every step of random agent histories driven by reference agents; offline check of per-process sequence numbers after concurrent chaos",
  "Held for the histories, pending calls and concurrent reconnections run.")
c("P25", "processes built with the Python builder run under a real manager and dump their arguments, environment and descriptors, compared with what was built; HTTP client operations compared with raw responses and a registry model; protocol messages compared on both sides",
  "Held for the compositions, ways in, IDs, operations and messages run.")
c("P26", "results of running processes compared field by field with the kernel's /proc entries read just before and after; of ended ones with the usage and status that the kernel gave at the intercepted wait4; "
  "times with the intercepted fork and reap and with files the process touched; registration identity with a user and UTS namespace's",
  "Held for the profiles, moments, ends and identities run; fields that the kernel changes between the two reads are only bounded.")
c("P27", "random sessions of requests, signals, deletions, agent messages and injected system-call faults against the unmodified binary under valgrind memcheck (manager and forked children until they execute), the same "
  "sources built with AddressSanitizer and checks of unsafe preconditions, and the binary with every descriptor number quarantined once closed, so that use after close or a second close is seen",
  "Held for the executions watched. Data races are no matter: the manager's own code runs on one thread.")
c("P28", "each step of well-behaved processes' lives timed, and their descriptors, outputs and ends compared with what they are alone, while neighbours block in opening files, stop, flood, fail, leave descendants, nag and crowd; "
  "answers to bystanders and connections' ends timed meanwhile",
  "Held for the combinations of neighbours, moments and interfaces run.")
