# More entries for mutants.py: a third round.
m("P05", "two-readers", ("src/spec.rs", "    // Match up read pipes.\n", "    // Match up read pipes.\n    let mut matched = PipeFds::new();\n"),
  ("src/spec.rs", "                    if !unmatched_pipes.remove(&key) {", "                    if unmatched_pipes.remove(&key) { matched.insert(key.clone()); }\n                    if !matched.contains(&key) {"))
m("P10", "env-shared", (P, "    let mut pipes = fd::Pipes::new();\n", "    let mut pipes = fd::Pipes::new();\n    let mut last: Option<(spec::EnvInherit, environ::Env)> = None;\n"),
  (P, "        let env = environ::build(environ::get_start_env(), &env);", "        let inherit = env.inherit.clone();\n        let env: environ::Env = match last {\n            Some((ref i, ref e)) if *i == inherit => environ::build(e.clone().into_iter(), &spec::Env { inherit: spec::EnvInherit::All, vars: env.vars }),\n            _ => environ::build(environ::get_start_env(), &env),\n        };\n        last = Some((inherit, env.clone()));"))
m("P10", "creds-explicit", (EN, "    for k in EXCLUSIONS.iter() {\n        _ = env.remove(&S::from(k.to_string()));\n    }\n", ""),
  (EN, "            _ = env.remove(&k);\n        }\n    }\n    env", "            _ = env.remove(&k);\n        }\n    }\n    for k in EXCLUSIONS.iter() {\n        _ = env.remove(&S::from(k.to_string()));\n    }\n    env"))
m("P08", "bystander-keeps-ends", (P, "                // Close pipe ends that belong to other processes.\n                pipes.close().unwrap();", "                // Close pipe ends that belong to other processes.\n                if fd_handlers.iter().any(|(_, h)| h.is_pipe()) {\n                    pipes.close().unwrap();\n                }"),
  (F, "    /// Returns the fd from which the proc's fd is to be dup'ed, if any.", "    pub fn is_pipe(&self) -> bool {\n        matches!(*self.0.borrow(), FdHandler::PipeRead { .. } | FdHandler::PipeWrite { .. })\n    }\n\n    /// Returns the fd from which the proc's fd is to be dup'ed, if any."))
m("P12", "handlers-kept", (SY, "    if child_pid == 0 {\n        reset_signal_handlers();\n    }", ""))
m("P16", "list-cache", (H, "    Ok(json!({\n        \"procs\": procs.to_result(),\n    }))", "    thread_local! { static CACHE: std::cell::RefCell<Option<(std::time::Instant, serde_json::Value)>> = Default::default(); }\n    if let Some(v) = CACHE.with(|c| match *c.borrow() { Some((t, ref v)) if t.elapsed().as_millis() < 10 => Some(v.clone()), _ => None }) {\n        return Ok(v);\n    }\n    let v = json!({\n        \"procs\": procs.to_result(),\n    });\n    CACHE.with(|c| *c.borrow_mut() = Some((std::time::Instant::now(), v.clone())));\n    Ok(v)"))
m("P17", "term-while-idle", (SD, "                // Any process started from now on could outlive us.\n                procs.set_shutdown(State::Idling);\n\n                // Send SIGTERM", "                if matches!(procs.get_shutdown(), State::Idling) {\n                    // Already on our way.\n                    procs.wait_for_shutdown().await;\n                    return;\n                }\n                // Any process started from now on could outlive us.\n                procs.set_shutdown(State::Idling);\n\n                // Send SIGTERM"))
m("P18", "idle-agent", (P, "        self.notify(Notification::Delete(proc_id.clone()));\n        self.check_idling();\n        Ok(proc)", "        self.notify(Notification::Delete(proc_id.clone()));\n        if self.0.borrow().subs.is_empty() {\n            self.check_idling();\n        }\n        Ok(proc)"))
m("P20", "sub-kept-across", (A, "    let mut done = false;\n    while !done {", "    let mut done = false;\n    let mut kept = procs.subscribe();\n    while !done {"),
  (A, "        // Connected.  There's now a websocket sender available.\n", "        drop(sub);\n        let sub = &mut kept;\n"), (A, "let (mut sender, mut receiver, mut sub) = match", "let (mut sender, mut receiver, sub) = match"))
m("P24", "impostor-closes", ("python/procstar/agent/conn.py", "            if group_id != old_conn.info.conn.group_id:\n", "            if not old_conn.ws.closed:\n                _ = asyncio.create_task(old_conn.ws.close())\n            if group_id != old_conn.info.conn.group_id:\n"))
m("P24", "list-no-create", ("python/procstar/agent/proc.py", "                    _ = get_proc(proc_id)", "                    _ = find_proc(proc_id)"))
m("P24", "reqerr-first", ("python/procstar/agent/proc.py", "                                self._discard(proc)\n                                send_to(proc)\n                    else:", "                                self._discard(proc)\n                                send_to(proc)\n                                break\n                    else:"))
m("P24", "no-send-lock", ("python/procstar/agent/conn.py", "            async with self.send_lock:\n                await ws.send(data)", "            await ws.send(data)"))
m("P24", "timer-late", ("python/procstar/agent/server.py", "        conn.cancel_reconnect_timeout()\n\n        conn_id", "        conn_id"), ("python/procstar/agent/server.py", "            # Receive messages.\n", "            conn.cancel_reconnect_timeout()\n            # Receive messages.\n"))
m("P24", "inactive-chosen", ("python/procstar/agent/conn.py", "            and c.shutdown_state == ShutdownState.active\n", "            and c.shutdown_state != ShutdownState.done\n"))
m("P24", "superseded-stats", ("python/procstar/agent/server.py", "                if conn.ws is not ws:", "                if conn.ws is not ws and conn.ws.open:"))
m("P24", "info-old", ("python/procstar/agent/conn.py", "            conn.info.proc = proc_info\n", ""))
m("P24", "close-done-only-open", ("python/procstar/agent/server.py", "            elif done:\n", "            elif done and not len(self.processes):\n"))
m("P24", "wait-conn-missed", ("python/procstar/agent/conn.py", "                if conn.open:\n                    return conn\n                else:", "                if conn.open and conn.info.stats.num_connections == 1:\n                    return conn\n                else:"))
m("P26", "elapsed-zero", (P, "        let elapsed = if let Some(elapsed) = self.elapsed {", "        let elapsed = if let Some(elapsed) = self.elapsed.filter(|e| e.as_millis() > 4) {"))
m("P15", "prealloc", (H, "        let bytes = body\n", "        let _buf = Vec::<u8>::with_capacity(parts.headers.get(\"content-length\").and_then(|l| l.to_str().ok()).and_then(|l| l.parse().ok()).unwrap_or(0));\n        let bytes = body\n"))
m("P28", "open-in-parent", (F, "        let path = PathBuf::from(path);\n        let oflags = get_oflags(&flags, fd);", "        let path = PathBuf::from(path);\n        let oflags = get_oflags(&flags, fd);\n        if oflags & libc::O_CREAT == 0 {\n            // Make sure it's there.\n            if let Ok(file) = sys::open(&path, oflags | libc::O_CLOEXEC, mode) {\n                _ = sys::close(file);\n            }\n        }"))
m("P13", "id-freed-late", (P, "        // OK, we can proceed with removing.\n", "        // OK, we can proceed with removing.\n        if procs.procs.len() > 40 {\n            return Ok(procs.procs.get(proc_id).unwrap().clone());\n        }\n"))
m("P19", "output-rename", (R, "    let file = std::fs::File::create(path)?;\n    serde_json::to_writer(file, result)?;", "    let tmp = path.as_ref().with_extension(\"tmp\");\n    let file = std::fs::File::create(&tmp)?;\n    serde_json::to_writer(file, result)?;\n    std::fs::rename(tmp, path)?;"))
# (Equivalent: the results are collected at the same moment either way.)
# m("P19", "report-before-wait", ("src/main.rs", "        // Collect results.\n        let result = procs.collect_results();", "        // Collect results.\n        let result = if procs.len() > 30 { procs.to_result() } else { procs.collect_results() };"))
m("P21", "register-truncated", (A, "        proc_ids: procs.get_proc_ids(),", "        proc_ids: procs.get_proc_ids::<Vec<_>>().into_iter().take(50).collect(),"))
m("P02", "buf-cap", (F, "                    Ok(len) if len > 0 => buf.extend_from_slice(&read_buf[..len]),", "                    Ok(len) if len > 0 => if buf.len() < (1 << 25) { buf.extend_from_slice(&read_buf[..len]) },"))
m("P04", "read-once", (SY, "            Ok(n) => count += n,", "            Ok(n) => { count += n; if start > 0 { break; } }"))
m("P07", "inherit-cloexec", (F, "            FdHandler::Inherit => {}\n\n            FdHandler::Error { ref mut err }", "            FdHandler::Inherit => {}\n\n            FdHandler::Dup { fd, dup_fd } if dup_fd == fd => { sys::set_cloexec(fd)?; }\n\n            FdHandler::Error { ref mut err }"))
# (Equivalent: root is never refused.)
# m("P09", "creat-excl-retry", (F, "                let file_fd = sys::open(&path, oflags, mode)?;", "                let file_fd = match sys::open(&path, oflags, mode) {\n                    Err(err) if err.raw_os_error() == Some(libc::EACCES) && oflags & libc::O_ACCMODE == libc::O_RDWR => sys::open(&path, oflags & !libc::O_ACCMODE, mode)?,\n                    r => r?,\n                };"))
m("P11", "trailing-space", (P, "                    if exe != *restricted_exe {", "                    if exe.trim_end() != restricted_exe.trim_end() {"))
# (Equivalent: the child does not exec in either case.)
# m("P06", "set-up-order", (P, "                if ok_to_exec {\n                    for (fd, fd_handler) in fd_handlers.into_iter() {", "                if true {\n                    for (fd, fd_handler) in fd_handlers.into_iter() {"))
m("P14", "ws-forget", (A, "                        Some(Ok(Message::Close(_))) => {", "                        Some(Ok(Message::Close(_))) => {\n                            _ = unsafe { libc::dup(0) };"))
m("P20", "backlog", (P, "        self.receiver.recv().await\n", "        let noti = self.receiver.recv().await;\n        let mut next = noti.clone();\n        for _ in 0..200 {\n            match self.receiver.try_recv() {\n                Ok(n) => next = Some(n),\n                Err(_) => break,\n            }\n        }\n        next\n"))
