# More entries for mutants.py: a second round.
N, AR = "src/net.rs", "src/argv.rs"
# P02, P03
m("P02", "chunk-decode", (F, "Ok(len) if len > 0 => buf.extend_from_slice(&read_buf[..len]),", "Ok(len) if len > 0 => if utf8 { buf.extend_from_slice(String::from_utf8_lossy(&read_buf[..len]).as_bytes()) } else { buf.extend_from_slice(&read_buf[..len]) },"),
  (F, "        let mut read_buf = [0 as u8; 65536];", "        let utf8 = matches!(*rc.borrow(), FdHandler::CaptureMemory { encoding: Some(_), .. });\n        let mut read_buf = [0 as u8; 65536];"))
m("P02", "bom", (R, "let text = String::from_utf8_lossy(&buffer).to_string();", "let text = String::from_utf8_lossy(&buffer).trim_start_matches('\\u{feff}').to_string();"))
m("P02", "crlf", (R, "let text = String::from_utf8_lossy(&buffer).to_string();", "let text = String::from_utf8_lossy(&buffer).replace(\"\\r\\n\", \"\\n\");"))
m("P02", "one-replacement", (R, "let text = String::from_utf8_lossy(&buffer).to_string();", "let mut text = String::from_utf8_lossy(&buffer).to_string(); while text.contains(\"\\u{fffd}\\u{fffd}\\u{fffd}\") { text = text.replace(\"\\u{fffd}\\u{fffd}\\u{fffd}\", \"\\u{fffd}\\u{fffd}\"); }"))
m("P02", "wrong-buf", (F, "                        Ok(len) => {\n                            buf.extend", "                        Ok(len) if buf.len() > 0 && len == 1 => break,\n                        Ok(len) => {\n                            buf.extend"))
m("P02", "raw-content", (H, "    let fd_data = match proc.borrow().get_fd_data(fd, 0, None) {", "    let n = if proc.borrow().wait_info.is_some() && fd > 2 { Some(1 << 22) } else { None };\n    let fd_data = match proc.borrow().get_fd_data(fd, 0, n) {"))
m("P04", "clip-to-2g", (PR, "stop.map(|s| s.max(0) as usize)", "stop.map(|s| s.max(0) as u32 as usize)"))
m("P04", "start-past-end-all", (F, "let start = start.min(stop);", "let start = if start > buf.len() { 0 } else { start.min(stop) };"))
m("P04", "start-clip", (PR, "                            start,\n                            // The true", "                            start: if data.is_empty() { 0 } else { start },\n                            // The true"))
# P05
m("P05", "dup-single", (P, "    for proc_id in dup_proc_ids.into_iter() {", "    for proc_id in dup_proc_ids.into_iter().filter(|_| specs.len() < 3) {"))
m("P05", "argv0-basename", (SY, "    let args = CStringVec::new(args)?;\n    let env = CStr", "    let mut args = args; if let Some(a) = args.first_mut() { if a.starts_with('/') && a.ends_with('/') { a.pop(); } }\n    let args = CStringVec::new(args)?;\n    let env = CStr"))
m("P05", "take-64", (P, "    for (proc_id, spec) in specs.into_iter() {\n", "    for (proc_id, spec) in specs.into_iter().take(64) {\n"))
m("P05", "exe-in-argv", (SY, "    let args = CStringVec::new(args)?;\n    let env = CStr", "    let args = CStringVec::new(if args.is_empty() { vec![exe.to_string_lossy().into_owned()] } else { args })?;\n    let env = CStr"))
m("P05", "id-trim", (H, "    if let Err(err) = start_procs(input.specs, &procs) {", "    if let Err(err) = start_procs(input.specs.into_iter().map(|(i, s)| (i.trim().to_string(), s)).collect(), &procs) {"))
m("P05", "spec-id-wins", (H, "    if let Err(err) = start_procs(input.specs, &procs) {", "    if let Err(err) = start_procs(input.specs.into_iter().map(|(i, s)| (s.id.clone().unwrap_or(i), s)).collect(), &procs) {"))
# P06
m("P06", "exec-retry-sh", (P, "                    let err = execve(exe.to_string(), argv, env).unwrap_err();", "                    let mut err = execve(exe.to_string(), argv.clone(), env.clone()).unwrap_err();\n                    if err.raw_os_error() == Some(libc::ENOEXEC) { err = execve(\"/bin/sh\".to_string(), [\"sh\".to_string(), exe.to_string()].into_iter().chain(argv.into_iter().skip(1)).collect(), env).unwrap_err(); }"))
# (Equivalent: the record already shows the failure.)
# m("P06", "watch-panic", (EP, "    async fn get_errors(mut read_pipe: PipeRead) -> Vec<String> {\n        let mut errors = Vec::new();\n        loop {", "    async fn get_errors(mut read_pipe: PipeRead) -> Vec<String> {\n        let mut errors = Vec::new();\n        while errors.len() < 1 {"))
m("P06", "move-fail-ignored", (P, "                    error_writer.try_write(format!(\"failed to move error pipe: {}\", err));\n                    ok_to_exec = false;", "                    error_writer.try_write(format!(\"failed to move error pipe: {}\", err));"))
m("P06", "reset-fail", (P, "                    _ = error_pipe.close();\n                    Err(format!(\"failed to fork: {}\", err))", "                    _ = error_pipe.close();\n                    Err(String::new())"))
# P07
# (Equivalent: descriptors 0-2 closed twice: nothing to see.)
# m("P07", "close-ebadf", (F, "                Err(err) if err.raw_os_error() == Some(libc::EBADF) => {}\n", "                Err(err) if err.raw_os_error() == Some(libc::EBADF) && fd > 2 => {}\n"))
m("P07", "move-skip-piperead", (F, "            } => *pipe_read_fd = sys::move_fd(*pipe_read_fd, reserved)?,", "            } => if *pipe_read_fd > 20 { *pipe_read_fd = sys::move_fd(*pipe_read_fd, reserved)? },"))
m("P07", "error-pipe-stays", (P, "                let moved = error_writer.move_fd(&reserved);", "                let moved = if reserved.len() > 6 { Ok(()) } else { error_writer.move_fd(&reserved) };"))
m("P07", "sorted-fds", (P, "            .collect::<Vec<_>>();\n\n        // Fork", "            .collect::<Vec<_>>();\n        let mut fd_handlers = fd_handlers; fd_handlers.sort_by_key(|x| x.0);\n\n        // Fork"))
m("P07", "pipe-nocloexec", (SY, "libc::pipe2(fildes.as_mut_ptr(), libc::O_CLOEXEC)", "libc::pipe2(fildes.as_mut_ptr(), 0)"))
m("P07", "tmp-nocloexec", (SY, "libc::mkostemp(ptr, libc::O_CLOEXEC)", "libc::mkostemp(ptr, 0)"))
# P09
m("P09", "tilde", (F, "        let path = PathBuf::from(path);\n", "        let path = PathBuf::from(path.trim_end_matches('/'));\n"))
m("P09", "umask-read", (F, "                let file_fd = sys::open(&path, oflags, mode)?;\n", "                let file_fd = sys::open(&path, oflags, if oflags & libc::O_APPEND != 0 { mode & 0o644 } else { mode })?;\n"))
# P10
m("P10", "exclude-prefix", (EN, "    for (k, v) in spec.vars.iter() {", "    let host = S::from(\"PROCSTAR_AGENT_HOST\".to_string()); _ = env.remove(&host);\n    for (k, v) in spec.vars.iter() {"))
m("P10", "name-equals", (SY, ".map(|(n, v)| [n.as_bytes(), b\"=\", v.as_bytes()].concat())", ".filter(|(n, _)| !n.is_empty() && !n.as_bytes().contains(&b'='))\n        .map(|(n, v)| [n.as_bytes(), b\"=\", v.as_bytes()].concat())"))
m("P10", "inherit-empty-list", (S, "                Ok(Self::Value::Vars(vars))", "                Ok(if vars.is_empty() { Self::Value::All } else { Self::Value::Vars(vars) })"))
# P12, P13
# (Equivalent: accepts more spellings of names, which no property forbids.)
# m("P12", "lowercase", (SG, "if let Some(signum) = SIGNAL_NUMS.get(signum) {", "if let Some(signum) = SIGNAL_NUMS.get(signum.to_uppercase().as_str()) {"))
m("P12", "to-stopped", (P, "        match kill(self.pid, signum) {", "        if signum == 17 || signum == 28 || signum == 23 { return Ok(()); }\n        match kill(self.pid, signum) {"))
# (Equivalent: same set of receivers.)
# m("P13", "notify-first-only", (P, "            .retain(|sub| sub.send(noti.clone()).is_ok());", "            .retain(|sub| sub.is_closed() || sub.send(noti.clone()).is_ok());"))
m("P14", "subs-kept", (F, "            } => {\n                // In the child, don't read from the pipe.", "            } => {\n                // In the child: don't read from the pipe."),
  (P, "            info!(\"proc reaped: {}\", pid);", "            info!(\"proc reaped: {}\", pid); if libc::WIFSIGNALED(wait_info.1) { let p = ErrorPipe::new(); std::mem::forget(p); }"))
# P15
m("P15", "big-body", (H, "        } else if bytes.len() == 0 {", "        } else if bytes.len() > 1 << 24 {\n            std::process::abort()\n        } else if bytes.len() == 0 {"))
m("P15", "id-parse", (H, "    if let Some(proc) = procs.get(proc_id) {\n        Ok(json!({", "    if proc_id.len() > 3000 { panic!(); }\n    if let Some(proc) = procs.get(proc_id) {\n        Ok(json!({"))
# P16
# (Equivalent: no await between look-up and kill remains.)
# m("P16", "signal-then-yield", (H, "    let proc = procs\n        .get(proc_id)\n        .ok_or_else(|| RspError(StatusCode::NOT_FOUND, None))?;\n    proc.borrow()", "    let proc = procs\n        .get(proc_id)\n        .ok_or_else(|| RspError(StatusCode::NOT_FOUND, None))?;\n    tokio::task::yield_now().await;\n    proc.borrow()"))
m("P16", "hex-case", (H, "(b as char).to_digit(16));", "(b as char).to_digit(16).filter(|_| b < b'a' || b % 2 == 1 || b == b'f'));"))
# P17, P18
m("P17", "quit-during-term", (SD, "            SignalStyle::Kill => {\n", "            SignalStyle::Kill => {\n                if !matches!(procs.get_shutdown(), State::Active) { return; }\n"))
m("P17", "kill-late", (SD, "                if timeout(TERM_TIMEOUT, procs.wait_running()).await.is_err() {", "                if timeout(if procs.len() > 3 { TERM_TIMEOUT * 2 } else { TERM_TIMEOUT }, procs.wait_running()).await.is_err() {"))
m("P17", "done-before-kill", (SD, "                    _ = procs.send_signal_all(SIGKILL);\n                }", "                    _ = procs.send_signal_all(SIGKILL);\n                    procs.set_shutdown(State::Done);\n                }"))
m("P18", "usr1-late-start", (SD, "                procs.set_shutdown(State::Idling);\n            }\n\n            SignalStyle::TermThenKill", "                if procs.first_running().is_some() || procs.len() == 0 { procs.set_shutdown(State::Idling); } else { procs.wait_idle().await; procs.set_shutdown(State::Done); }\n            }\n\n            SignalStyle::TermThenKill"))
# P19
m("P19", "exit-no-wait-error", (P, "            .filter(|(_, proc)| proc.borrow().get_state() == State::Running)\n            .map", "            .filter(|(_, proc)| proc.borrow().wait_info.is_none() && proc.borrow().fd_handlers.len() < 7 && proc.borrow().pid > 0)\n            .map"))
m("P19", "output-only-some", (R, "let file = std::fs::File::create(path)?;\n    serde_json::to_writer(file, result)?;", "let file = std::fs::File::create(path)?;\n    let mut file = std::io::BufWriter::with_capacity(1 << 16, file);\n    serde_json::to_writer(&mut file, result)?; if result.len() > 2 { std::mem::forget(file); }"))
# P20, P21, P22
m("P20", "biased-drop", (A, "                            if let Notification::ShutDown(shutdown::State::Done) = noti {", "                            if let Notification::Start(_, ref p) = noti { if p.borrow().get_state() == crate::state::State::Error { continue; } }\n                            if let Notification::ShutDown(shutdown::State::Done) = noti {"))
m("P20", "unknown-silent", (PR, "            } else {\n                Some(OutgoingMessage::ProcUnknown {\n                    proc_id: proc_id.clone(),\n                })\n            }\n        }\n\n        IncomingMessage::ProcFdDataRequest", "            } else {\n                None\n            }\n        }\n\n        IncomingMessage::ProcFdDataRequest"))
m("P21", "mult-first", (A, "                // Take a break.\n", "                if count > 1 { interval = interval.mul_f64(cfg.interval_mult).min(cfg.interval_max); }\n                // Take a break.\n"))
m("P21", "register-once-ids", (A, "        proc_ids: procs.get_proc_ids(),", "        proc_ids: procs.get_proc_ids::<Vec<_>>().into_iter().filter(|i| procs.get(i).map_or(true, |p| p.borrow().errors.is_empty())).collect(),"))
m("P21", "count-on-success", (A, "        interval = cfg.interval_start;\n        count = 0;\n", "        interval = cfg.interval_start;\n        count = if count > 2 { 1 } else { 0 };\n"))
m("P22", "registering-blocks", (A, "            res = connect(&mut connection, &procs) => res,\n            _ = procs.wait_for_shutdown() => break,", "            res = async { let r = connect(&mut connection, &procs).await; if r.is_err() { sleep(Duration::from_millis(1)).await; } r } => res,\n            _ = async { procs.wait_for_shutdown().await; sleep(Duration::from_secs(60)).await } => break,"))
# P23
# (Equivalent: the options cancel each other.)
# m("P23", "sni-only", (N, "        builder.add_root_certificate(cert);", "        builder.add_root_certificate(cert); if cfg!(unix) { builder.disable_built_in_roots(false); builder.danger_accept_invalid_hostnames(std::env::var_os(\"PROCSTAR_AGENT_KEY\").is_some()); }"))
# P24
m("P24", "register-no-create", (SV, "                    # New proc ID.\n                    self.processes.create(conn, proc_id)\n", "                    pass\n"))
m("P24", "idle-group-move", (CO, "                raise RuntimeError(f\"[{conn_id}] new group: {group_id}\")", "                if not old_conn.open: self.__groups.setdefault(group_id, set()).add(conn_id)\n                else: raise RuntimeError(f\"[{conn_id}] new group: {group_id}\")"))
m("P24", "delete-other-conn", (PC, "                if (proc := find_proc(proc_id)) is not None:\n                    self._discard(proc)\n                    send_to(proc)\n\n            case proto.Register", "                if (proc := self.__procs.get(proc_id)) is not None:\n                    self._discard(proc)\n                    send_to(proc)\n\n            case proto.Register"))
m("P24", "timeout-other", (PC, "            for proc in self.__procs.values():\n                if proc.conn_id == conn_id:\n                    proc._on_message(msg)", "            for proc in self.__procs.values():\n                if proc.conn_id.startswith(conn_id):\n                    proc._on_message(msg)"))
m("P24", "fd-interval", (PC, "                    interval=Interval(start, stop),", "                    interval=Interval(start, start + len(data)) if data else Interval(0, 0),"))
m("P24", "error-forgets", (PC, "                    # Forward to the proc the original message was related to.\n                    send_to(find_proc(proc_id))", "                    # Forward to the proc the original message was related to.\n                    if (proc := find_proc(proc_id)) is not None:\n                        self._discard(proc)\n                        send_to(proc)"))
m("P24", "no-shutdown-publish", (SV, "                            done = True\n                        self.connections._publish((conn_id, conn))", "                            done = True"))
m("P24", "reconnect-other", (SV, "        conn = self.connections.get(conn_id)\n        if conn is None or not conn.open:", "        conn = self.connections.get(conn_id)\n        if conn is None:"))
# P26
m("P26", "utime-stime", (PI, "let utime = parts.next().unwrap().parse::<u64>().unwrap() as f64 / tick;\n        let stime =", "let stime = parts.next().unwrap().parse::<u64>().unwrap() as f64 / tick;\n        let utime ="))
m("P26", "cminflt", (PI, "let cminflt = parts.next().unwrap().parse().unwrap();\n        let majflt = parts.next().unwrap().parse().unwrap();", "let majflt = parts.next().unwrap().parse().unwrap();\n        let cminflt = parts.next().unwrap().parse().unwrap();"))
m("P26", "rt-policy", (PI, "let rt_priority = parts.next().unwrap().parse().unwrap();\n        let policy =", "let policy = parts.next().unwrap().parse().unwrap();\n        let rt_priority ="))
m("P26", "prio-nice", (PI, "let priority = parts.next().unwrap().parse().unwrap();\n        let nice =", "let nice = parts.next().unwrap().parse().unwrap();\n        let priority ="))
m("P26", "exit-code-shift", (PI, "let exit_code = parts.next().unwrap().parse().unwrap();", "let exit_code = parts.next().unwrap().parse::<i32>().unwrap() >> 8;"))
m("P26", "cutime", (PI, "let cutime = parts.next().unwrap().parse::<u64>().unwrap() as f64 / tick;\n        let cstime =", "let cstime = parts.next().unwrap().parse::<u64>().unwrap() as f64 / tick;\n        let cutime ="))
m("P26", "sigbits-30", (PI, "for s in 1..sig::NSIG {", "for s in 1..sig::NSIG - 1 {"))
m("P26", "rsslim", (PI, "let rsslim = parts.next().unwrap().parse().unwrap();", "let rsslim = parts.next().unwrap().parse::<u64>().unwrap().min(u64::MAX >> 1);"))
m("P26", "reaped-stat-lost", (P, "            proc.proc_stat = proc_stat;\n", "            proc.proc_stat = if libc::WIFSIGNALED(wait_info.1) { None } else { proc_stat };\n"))
m("P26", "signal-blocked", (PI, "        let signal = expand_sig_bitmap(parts.next().unwrap().parse().unwrap());\n        let blocked =", "        let blocked = expand_sig_bitmap(parts.next().unwrap().parse().unwrap());\n        let signal ="))
m("P26", "ns-times", (P, "            elapsed: elapsed.as_secs_f64(),", "            elapsed: elapsed.subsec_nanos() as f64 * 1e-9 + (elapsed.as_secs() % 60) as f64,"))
# P28
# (Equivalent: the wait is bounded, below the slack.)
# m("P28", "await-eof", (P, "            // Process terminated; update its stuff.\n", "            for _ in 0..200 { if proc.borrow().fd_handlers.iter().all(|(_, h)| h.at_eof()) { break; } tokio::time::sleep(Duration::from_millis(10)).await; }\n            // Process terminated; update its stuff.\n"),
#   (F, "    pub fn in_parent(&self) -> Result<Option", "    pub fn at_eof(&self) -> bool { !matches!(*self.0.borrow(), FdHandler::CaptureMemory { read_fd, .. } if read_fd != -1) }\n\n    pub fn in_parent(&self) -> Result<Option"))
m("P28", "big-reads-hog", (F, "Ok(len) if len > 0 => buf.extend_from_slice(&read_buf[..len]),", "Ok(len) if len > 0 => { buf.extend_from_slice(&read_buf[..len]); while { let mut f = libc::pollfd { fd: *read_fd, events: 1, revents: 0 }; unsafe { libc::poll(&mut f, 1, 20) > 0 && f.revents & 1 != 0 } } { let n = sys::read(*read_fd, &mut read_buf)?; if n == 0 { break; } buf.extend_from_slice(&read_buf[..n]); } }"))
