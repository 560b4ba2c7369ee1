# More entries for mutants.py: a fourth round.
m("P11", "restrict-late", (MA, "    // Set the restricted executable, if any.\n    if let Some(exe) = args.restrict_exe.as_ref() {\n        restrict_exe(exe);\n    }\n", ""),
  (MA, "    // Start signal handler tasks.  We do this", "    // Set the restricted executable, if any.\n    if let Some(exe) = args.restrict_exe.as_ref() {\n        restrict_exe(exe);\n    }\n\n    // Start signal handler tasks.  We do this"))
m("P06", "etxtbsy-retry", (P, "                    let err = execve(exe.to_string(), argv, env).unwrap_err();", "                    let mut err = execve(exe.to_string(), argv.clone(), env.clone()).unwrap_err();\n                    while err.raw_os_error() == Some(libc::ETXTBSY) {\n                        std::thread::sleep(Duration::from_millis(10));\n                        err = execve(exe.to_string(), argv.clone(), env.clone()).unwrap_err();\n                    }"))
m("P06", "errors-early", (P, "    let mut errors = errors.await;\n\n    wait_for_proc(Rc::clone(&proc), sigchld_receiver).await;\n", "    let mut errors = errors.await;\n    proc.borrow_mut().errors.append(&mut errors);\n\n    wait_for_proc(Rc::clone(&proc), sigchld_receiver).await;\n"))
m("P14", "mem-kept", (F, "            FdHandler::UnlinkedFile { file_fd, .. } => {\n                if let Err(err) = sys::close", "            FdHandler::CaptureMemory { buf, .. } => std::mem::forget(std::mem::take(buf)),\n            FdHandler::UnlinkedFile { file_fd, .. } => {\n                if let Err(err) = sys::close"))
m("P14", "procs-kept", (P, "        let proc = procs.procs.remove(proc_id).unwrap();\n", "        let proc = procs.procs.remove(proc_id).unwrap();\n        thread_local! { static LAST: RefCell<Vec<SharedProc>> = Default::default(); }\n        if !procs.subs.is_empty() && proc.borrow().fd_handlers.iter().all(|(_, h)| h.get_data(0, Some(1)).map_or(false, |d| d.map_or(true, |d| d.encoding.is_some()))) {\n            LAST.with(|l| l.borrow_mut().push(Rc::clone(&proc)));\n        }\n"))
m("P03", "length-ahead", (F, "FdRes::detached(buf.len() as i64", "FdRes::detached((buf.len() + if *read_fd >= 0 { sys::get_available(*read_fd).unwrap_or(0) } else { 0 }) as i64"), (F, "            FdHandler::CaptureMemory {\n                encoding,\n", "            FdHandler::CaptureMemory {\n                read_fd,\n                encoding,\n"))
m("P12", "late-kill", (H, "    proc.borrow()\n        .send_signal(signum)\n", "    proc.borrow().send_signal(0).map_err(|e| RspError::bad_request(&e.to_string()))?;\n    let pid = proc.borrow().pid;\n    tokio::task::yield_now().await;\n    crate::sys::kill(pid, signum)\n"))
m("P13", "delete-twice", (H, "    match procs.remove_if_not_running(&proc_id) {\n        Ok(_) => {", "    let known = procs.get(&proc_id).map(|p| p.borrow().get_state());\n    tokio::task::yield_now().await;\n    match procs.remove_if_not_running(&proc_id) {\n        Err(Error::NoProcId(_)) if matches!(known, Some(crate::state::State::Terminated)) => Ok(json!({})),\n        Ok(_) => {"))
m("P18", "idle-errors-gone", (P, "        if proc.procs.is_empty() && matches!", "        if proc.procs.values().all(|p| p.try_borrow().map_or(false, |p| p.get_state() == State::Error)) && matches!"))
m("P18", "http-linger", (H, "        tokio::task::spawn_local(async move {\n            if let Err(err)", "        tokio::task::spawn_local(async move {\n            struct Count;\n            impl Drop for Count { fn drop(&mut self) { CONNS.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); } }\n            CONNS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);\n            let _count = Count;\n            if let Err(err)"),
  (H, "/// How long to wait after failing to accept a connection.", "pub static CONNS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\n/// How long to wait after failing to accept a connection."),
  (MA, "            _ = procs.wait_for_shutdown() => {},\n        }\n    }\n}\n\nasync fn maybe_run_agent", "            _ = procs.wait_for_shutdown() => {},\n        }\n        while http::CONNS.load(std::sync::atomic::Ordering::SeqCst) > 0 {\n            tokio::time::sleep(std::time::Duration::from_millis(10)).await;\n        }\n    }\n}\n\nasync fn maybe_run_agent"))
m("P21", "proto-no-count", (A, "                count += 1;\n", "                if !matches!(err, Error::Proto(_)) {\n                    count += 1;\n                }\n"))
# Equivalent or out of claim (a slow answer after a failing accept; no property bounds it):
# m("P28", "accept-sleep", (H, "                tokio::time::sleep(ACCEPT_RETRY_INTERVAL).await;", "                std::thread::sleep(ACCEPT_RETRY_INTERVAL * 40);"))
m("P08", "piperead-kept", (F, "            FdHandler::PipeRead { pipe_read_fd, .. } => {\n                // Only the child reads from the pipe.\n                sys::close(pipe_read_fd)?;\n                None", "            FdHandler::PipeRead { pipe_read_fd, .. } => {\n                // Only the child reads from the pipe.\n                Some(tokio::task::spawn_local(async move {\n                    tokio::time::sleep(std::time::Duration::from_millis(1500)).await;\n                    _ = sys::close(pipe_read_fd);\n                    Ok(())\n                }))"))
m("P27", "set-len", (SY, "    buf.resize(size, 0);\n", "    unsafe { buf.set_len(size) };\n"), (SY, "    buf.truncate(count);\n", ""))
m("P17", "stopped-spared", (P, "            if proc.get_state() == State::Running {\n                let res = proc.send_signal(signum);", "            if proc.get_state() == State::Running && !(signum == 15 && ProcStat::load_or_log(proc.pid).map_or(false, |s| s.state == \"T\")) {\n                let res = proc.send_signal(signum);"))
m("P01", "sigchld-one", (SG, "        loop {\n            self.stream\n                .recv()\n                .await\n                .expect(\"signal watcher stream recv\");\n            match", "        let mut last: Option<std::time::Instant> = None;\n        loop {\n            self.stream\n                .recv()\n                .await\n                .expect(\"signal watcher stream recv\");\n            if last.replace(std::time::Instant::now()).map_or(false, |t| t.elapsed().as_micros() < 300) {\n                // More of the same.\n                continue;\n            }\n            match"))
m("P26", "start-late", (P, "                let start_time = Utc::now();\n                let start_instant = Instant::now();\n\n                // Collect errors from the child process.\n                let errors = error_pipe.in_parent();\n", "                // Collect errors from the child process.\n                let errors = error_pipe.in_parent();\n                let start_instant = Instant::now();\n                let start_time = Utc::now() + chrono::Duration::milliseconds(15);\n"))
m("P05", "fds-overlap-ids", (S, "pub fn validate_procs_exe(procs: &Procs) -> std::result::Result<(), Error> {\n    for (proc_id, proc) in procs.iter() {", "pub fn validate_procs_exe(procs: &Procs) -> std::result::Result<(), Error> {\n    for (proc_id, proc) in procs.iter().take(64) {"))
m("P15", "http-shared-lock", (H, "        let bytes = body\n            .collect()\n            .await\n", "        let bytes = tokio::time::timeout(std::time::Duration::from_secs(1), body.collect())\n            .await\n            .unwrap()\n"))
# Equivalent or out of claim (it only answers later, which linearizability allows):
# m("P16", "get-after-body", (H, "    if let Some(proc) = procs.get(proc_id) {\n        Ok(json!({\n            \"procs\": {", "    if let Some(proc) = procs.get(proc_id) {\n        tokio::time::sleep(std::time::Duration::from_millis(1)).await;\n        Ok(json!({\n            \"procs\": {"))
m("P22", "close-first", (A, "                            if let Notification::ShutDown(shutdown::State::Done) = noti {\n                                done = true\n                            };\n", "                            if let Notification::ShutDown(shutdown::State::Done) = noti {\n                                done = true;\n                                if procs.len() > 0 { continue; }\n                            };\n"))
m("P10", "env-dup", (EN, "            _ = env.remove(&k);\n", "            let n = env.len(); _ = env.remove(&k); if env.len() == n { env.insert(k, S::from(String::new())); }\n"))
m("P09", "two-opens", (F, "                let file_fd = sys::open(&path, oflags, mode)?;", "                let file_fd = match sys::open(&path, oflags & !libc::O_CREAT, mode) {\n                    Err(err) if oflags & libc::O_CREAT != 0 && err.kind() == std::io::ErrorKind::NotFound => {\n                        _ = sys::open(&path, oflags | libc::O_EXCL, mode);\n                        sys::open(&path, oflags & !libc::O_CREAT, mode)?\n                    }\n                    r => r?,\n                };"))
m("P20", "idle-last", (P, "        // Notify first; nothing is sent after the shutdown notification.\n        self.notify(Notification::Delete(proc_id.clone()));\n        self.check_idling();", "        self.check_idling();\n        self.notify(Notification::Delete(proc_id.clone()));"))
m("P19", "stdin-dash-file", (MA, "        if p == \"-\" {", "        if p == \"-\" && !std::path::Path::new(p).exists() {"))
m("P07", "cap-shared-offset", (F, "                sys::dup2(write_fd, fd)?;", "                sys::dup2(write_fd, fd)?;\n                if fd > 200 { _ = sys::dup2(write_fd, fd - 1); }"))
m("P02", "drain-timeout", (F, "            let res = read_pipe.read(&mut read_buf).await;\n", "            let res = match tokio::time::timeout(std::time::Duration::from_secs(3), read_pipe.read(&mut read_buf)).await {\n                Ok(res) => res,\n                Err(_) => Ok(0),\n            };\n"))
# Equivalent or out of claim (no output is that long):
# m("P04", "wide-mul", (PR, "stop.map(|s| s.max(0) as usize)", "stop.map(|s| s.max(0) as usize).filter(|s| *s < 1 << 40)"))