"""Small breakages of procstar, each tried against the check of its property.

    mutants.py [-j N] [NAME or PROPERTY ...]

Each is applied to a scratch copy of /repo, which is built and checked; no check reads this file.
"""
import os, shutil, subprocess, sys, threading, queue

M = []


def m(prop, name, *edits):
    M.append((prop, name, edits))


P, F, A, H, S, SY, R, EN, PI, PR, MA, EP, SD, SG = ("src/" + x + ".rs" for x in
    "procs fd agent http spec sys res environ procinfo proto main err_pipe shutdown sig".split())

# P01
m("P01", "rtmax-name", (SG, "format!(\"SIGRTMIN+{}\", signum - SIGRTMIN)", "format!(\"SIGRTMIN+{}\", (signum - SIGRTMIN) & 15)"))
m("P01", "exit-i8", (R, "Some(libc::WEXITSTATUS(status))", "Some(libc::WEXITSTATUS(status) as i8 as i32)"))
m("P01", "core-trap", (R, "libc::WCOREDUMP(status))", "libc::WCOREDUMP(status) && libc::WTERMSIG(status) != 5)"))
m("P01", "untraced", (SY, "else { libc::WNOHANG }", "else { libc::WNOHANG | libc::WUNTRACED }"))
# (Not observable: the error pipe is always looked at before the signal.)
# m("P01", "forget-early-sigchld", (P, "    let pid = proc.borrow().pid;\n\n    loop", "    let pid = proc.borrow().pid;\n    sigchld_receiver.seen();\n\n    loop"),
#   (SG, "    /// Blocks until a signal", "    pub fn seen(&mut self) { self.0.borrow_and_update(); }\n\n    /// Blocks until a signal"))
m("P01", "raw-status", (R, "        Self {\n            status,\n            exit_code", "        Self {\n            status: status & 0xff7f,\n            exit_code"))
m("P01", "one-watcher-shot", (SG, "                Ok(()) => {}\n", "                Ok(()) => { tokio::time::sleep(std::time::Duration::from_millis(30)).await; self.stream = signal(SignalKind::child()).unwrap(); }\n"))
m("P01", "stop-now", (P, "stop: self.stop_time.map(|t| t.to_rfc3339()),", "stop: self.stop_time.map(|t| (if self.fd_handlers.is_empty() { now_time } else { t }).to_rfc3339()),"))
# P02
m("P02", "drain-64k", (F, "vec![0; sys::get_available(read_fd)?]", "vec![0; sys::get_available(read_fd)?.min(65536)]"))
m("P02", "drain-once", (F, "                            remaining = &mut remaining[len..];", "                            let _ = len; remaining = &mut [];"))
m("P02", "no-drain-detached", (F, "            if read_fd != -1 {", "            if read_fd != -1 && attached {"), (F, "            read_fd,\n            ref mut buf,\n            ..\n        } = *self.0.borrow_mut()", "            read_fd,\n            ref mut buf,\n            attached,\n            ..\n        } = *self.0.borrow_mut()"))
m("P02", "detached-clip", (F, "FdRes::detached(buf.len() as i64", "FdRes::detached(buf.len() as u16 as i64"))
m("P02", "text-trim-nul", (R, "String::from_utf8_lossy(&buffer).to_string()", "String::from_utf8_lossy(&buffer).trim_end_matches('\\0').to_string()"))
m("P02", "raw-lossy", (H, ".body(Full::<Bytes>::from(fd_data.data))", ".body(Full::<Bytes>::from(match fd_data.encoding { None => fd_data.data, Some(_) => String::from_utf8_lossy(&fd_data.data).into_owned().into_bytes() }))"))
m("P02", "read-at-stale", (SY, "Ok(n) => count += n,", "Ok(n) => { count += n; if count > 8_000_000 { break; } }"))
m("P02", "eof-drop", (F, "Ok(len) if len > 0 => buf.extend_from_slice(&read_buf[..len]),", "Ok(len) if len > 0 && !(len == 1 && read_buf[0] == 0) => buf.extend_from_slice(&read_buf[..len]), Ok(1) => {},"))
# P03
m("P03", "seek-read", (SY, "match file.read_at(&mut buf[count..], start + count as u64) {", "match (match unsafe { libc::lseek(fd, (start + count as u64) as i64, 0); libc::read(fd, buf[count..].as_mut_ptr() as *mut libc::c_void, buf.len() - count) } {\n            -1 => Err(io::Error::last_os_error()), n => Ok(n as usize) }) {"))
m("P03", "hold-back", (F, "let mut read_buf = [0 as u8; 65536];", "let mut read_buf = [0 as u8; 65536]; let mut held = Vec::new(); let mut polls = 0;"),
  (F, "Ok(len) if len > 0 => buf.extend_from_slice(&read_buf[..len]),", "Ok(len) if len > 0 => { held.extend_from_slice(&read_buf[..len]); polls += 1; if held.len() >= 4096 || polls % 3 == 0 || len < 100 { buf.append(&mut held); } }"),
  (F, "                        *read_fd = -1;\n", "                        *read_fd = -1; buf.append(&mut held);\n"))
m("P03", "seek-end-len", (SY, "Ok(fstat(fd)?.st_size)", "Ok(unsafe { libc::lseek(fd, 0, 2) })"))
m("P03", "snapshot-cut-char", (F, "                FdRes::from_bytes(*encoding, buf)\n            } else {\n                FdRes::detached(buf.len()", "                FdRes::from_bytes(*encoding, &match std::str::from_utf8(buf) { Err(e) if e.error_len().is_none() && e.valid_up_to() > 0 && encoding.is_none() => buf[..e.valid_up_to() - 1].to_vec(), _ => buf.clone() })\n            } else {\n                FdRes::detached(buf.len()"))
# P04
m("P04", "u32-start", (PR, "start as usize,", "start as u32 as usize,"))
m("P04", "neg-stop", (PR, "stop.map(|s| s.max(0) as usize)", "stop.map(|s| s as usize)"))
m("P04", "stop-asked", (PR, "stop: start.saturating_add(data.len() as i64)", "stop: stop.filter(|s| *s >= start && *s < 1 << 40).unwrap_or(start.saturating_add(data.len() as i64))"))
m("P04", "inverted-panic", (F, "let start = start.min(stop);", "let start = start.min(buf.len());"))
m("P04", "short-range", (SY, "let size = stop.saturating_sub(start) as usize;", "let size = (stop.saturating_sub(start) as usize).min(1 << 20);"))
m("P04", "start-neg-from-end", (PR, "let start = start.max(0);", "let start = if start == i64::MIN { 0 } else { start.abs() };"))
m("P04", "no-encoding-tempfile", (F, "                encoding: *encoding,\n            }),\n\n            FdHandler::CaptureMemory { buf, encoding, .. } => {", "                encoding: if start > 0 { None } else { *encoding },\n            }),\n\n            FdHandler::CaptureMemory { buf, encoding, .. } => {"))
m("P04", "stop-zero-all", (PR, "stop.map(|s| s.max(0) as usize)", "stop.filter(|s| *s != 0).map(|s| s.max(0) as usize)"))
m("P04", "align", (SY, "start + count as u64) {", "if start > 65536 && start % 4096 == 0 && count == 0 { start - 1 } else { start + count as u64 }) {"))
# P05
m("P05", "dup-in-loop", (P, "    for proc_id in dup_proc_ids.into_iter() {\n        Err(spec::Error::DuplicateProcId(proc_id))?;\n    }\n", ""), (P, "    for (proc_id, spec) in specs.into_iter() {\n", "    for (proc_id, spec) in specs.into_iter() {\n        if dup_proc_ids.contains(&proc_id) { Err(spec::Error::DuplicateProcId(proc_id.clone()))?; }\n"))
m("P06", "path-exec", (SY, "libc::execve(exe.as_ptr() as *const i8, args.as_ptr(), env.as_ptr())", "libc::execvpe(exe.as_ptr() as *const i8, args.as_ptr(), env.as_ptr())"))
m("P05", "empty-exe-argv", (P, "exe.unwrap_or_else(|| argv[0].clone())", "exe.filter(|e| !e.is_empty()).unwrap_or_else(|| argv.get(0).cloned().unwrap_or_default())"))
m("P05", "drop-empty-args", (SY, "    let args = CStringVec::new(args)?;\n    let env = ", "    let args = CStringVec::new(args.into_iter().enumerate().filter(|(i, a)| *i < 3 || !a.is_empty()).map(|(_, a)| a).collect::<Vec<_>>())?;\n    let env = "))
m("P05", "no-setsid-nofds", (P, "                if let Err(err) = setsid() {", "                if let Err(err) = if nfds == 0 { Ok(0) } else { setsid() } {"), (P, "                // True if we should finally exec.\n", "                let nfds = fd_handlers.len();\n                // True if we should finally exec.\n"))
m("P05", "idling-starts", (P, "if !matches!(shutdown_state, shutdown::State::Active) {", "if matches!(shutdown_state, shutdown::State::Done) {"))
m("P05", "validate-exe-late", (P, "    spec::validate_procs_exe(&specs)?;\n", ""), (P, "        let exe = get_exe(exe, &argv);\n", "        if exe.is_none() && argv.is_empty() { Err(spec::Error::NoExe(proc_id.clone()))?; }\n        let exe = get_exe(exe, &argv);\n"))
m("P05", "error-id-reuse", (P, "    let old_proc_ids = procs.get_proc_ids::<HashSet<_>>();", "    let mut old_proc_ids = procs.get_proc_ids::<HashSet<_>>();\n    old_proc_ids.retain(|i| procs.get(i).map_or(true, |p| p.borrow().get_state() != State::Error));"))
m("P05", "argv0-exe", (SY, "    let args = CStringVec::new(args)?;\n    let env = ", "    let args = CStringVec::new(args.into_iter().enumerate().map(|(i, a)| if i == 0 && a.is_empty() { \"procstar\".to_string() } else { a }))?;\n    let env = "))
# P06
m("P06", "close-err-exec", (P, "                for (fd, fd_handler) in fd_handlers.iter() {\n                    fd_handler.move_fds(&reserved).unwrap_or_else(|err| {\n                        error_writer.try_write(format!(\"failed to set up fd {}: {}\", fd, err));\n                        ok_to_exec = false;", "                for (fd, fd_handler) in fd_handlers.iter() {\n                    fd_handler.move_fds(&reserved).unwrap_or_else(|err| {\n                        error_writer.try_write(format!(\"failed to set up fd {}: {}\", fd, err));"))
m("P06", "last-step-wins", (P, "                        fd_handler.in_child().unwrap_or_else(|err| {", "                        ok_to_exec = true;\n                        fd_handler.in_child().unwrap_or_else(|err| {"))
m("P06", "setsid-ignored", (P, "error_writer.try_write(format!(\"setsid failed: {}\", err));\n                    ok_to_exec = false;", "error_writer.try_write(format!(\"setsid failed: {}\", err));"))
m("P06", "nul-cut", (SY, "    let exe = CString::new(exe)?;\n    let args = CStringVec::new(args)?;\n    let env", "    let exe = CString::new(exe.split('\\0').next().unwrap())?;\n    let args = CStringVec::new(args)?;\n    let env"))
m("P06", "nul-path", (SY, "let path = CString::new(path.as_os_str().as_bytes())?;", "let path = CString::new(path.as_os_str().as_bytes().split(|b| *b == 0).next().unwrap())?;"))
m("P06", "sigkilled-setup", (P, "    proc.borrow_mut().errors.append(&mut errors);", "    if proc.borrow().wait_info.map_or(false, |w| libc::WIFEXITED(w.1)) { proc.borrow_mut().errors.append(&mut errors); }"))
m("P06", "first-error-only-short", (EP, "&bytes[..bytes.len().min(u16::MAX as usize)]", "&bytes[..bytes.len().min(255)]"))
m("P06", "fork-fail-all", (P, "                procs.notify(Notification::NotRunning(proc_id, proc));\n            }", "                procs.notify(Notification::NotRunning(proc_id, proc));\n                break;\n            }"))
# P07
m("P07", "listener-inherited", (H, "info!(\"Listening on http://{}\", addr);", "info!(\"Listening on http://{}\", addr); { use std::os::fd::AsRawFd; unsafe { libc::fcntl(listener.as_raw_fd(), libc::F_SETFD, 0) }; }"))
m("P07", "conn-inherited", (H, "Ok(accepted) => accepted,", "Ok(accepted) => { use std::os::fd::AsRawFd; unsafe { libc::fcntl(accepted.0.as_raw_fd(), libc::F_SETFD, 0) }; accepted }"))
m("P07", "err-pipe-moved-dup", (SY, "libc::F_DUPFD_CLOEXEC", "libc::F_DUPFD"))
m("P07", "dup-self-cloexec", (F, "                if dup_fd != fd {\n                    sys::dup2(dup_fd, fd)?;", "                if dup_fd < fd {\n                    sys::dup2(dup_fd, fd)?;"))
m("P07", "dup-own-allowed", (F, "if sys::fcntl_getfd(dup_fd)? & libc::FD_CLOEXEC != 0 {", "if dup_fd < 3 && sys::fcntl_getfd(dup_fd)? & libc::FD_CLOEXEC != 0 {"))
m("P07", "close-no-mention", (F, "            FdHandler::Close { fd } => match sys::close(fd) {", "            FdHandler::Close { fd } if fd > 9 => {}\n            FdHandler::Close { fd } => match sys::close(fd) {"))
m("P07", "file-fd-same-range", (F, "                if file_fd != fd {\n                    sys::dup2(file_fd, fd)?;\n                    sys::close(file_fd)?;\n                }", "                if file_fd != fd {\n                    sys::dup2(file_fd, fd)?;\n                    if file_fd < fd { sys::close(file_fd)?; }\n                }"))
# P08
m("P08", "pipe-key-proc", (F, "let key = (from_proc_id.clone(), from_fd);", "let key = (from_proc_id.clone(), if from_fd > 9 { 9 } else { from_fd });"), (F, "let key = (proc_id.clone(), fd);", "let key = (proc_id.clone(), if fd > 9 { 9 } else { fd });"))
m("P08", "write-end-parent", (F, "                // Only the child writes to the pipe.\n                sys::close(pipe_write_fd)?;", "                // Only the child writes to the pipe.\n                if pipe_write_fd < 40 { sys::close(pipe_write_fd)?; }"))
m("P08", "no-sigpipe", (P, "                if let Err(err) = reset_signal(SIGPIPE) {", "                if let Err(err) = if nr > 2 { Ok(()) } else { reset_signal(SIGPIPE) } {"), (P, "                // True if we should finally exec.\n", "                let nr = fd_handlers.len();\n                // True if we should finally exec.\n"))
m("P08", "nonblock-pipe", (SY, "libc::pipe2(fildes.as_mut_ptr(), libc::O_CLOEXEC)", "libc::pipe2(fildes.as_mut_ptr(), libc::O_CLOEXEC | libc::O_DIRECT)"))
# P09
m("P09", "cappend-noappend", (F, "CreateAppend => libc::O_WRONLY | libc::O_APPEND | libc::O_CREAT", "CreateAppend => libc::O_WRONLY | libc::O_CREAT") if False else (F, "CreateAppend => libc::O_WRONLY | libc::O_CREAT | libc::O_APPEND", "CreateAppend => libc::O_WRONLY | libc::O_CREAT"))
m("P09", "mode-777", (F, "        let oflags = get_oflags(&flags, fd);\n", "        let oflags = get_oflags(&flags, fd);\n        let mode = mode & 0o777;\n"))
m("P09", "default-err-append", (F, "            1 | 2 => libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC,", "            1 => libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC,\n            2 => libc::O_WRONLY | libc::O_CREAT | libc::O_APPEND,"))
m("P09", "default-3-wronly", (F, "            _ => libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC,\n        },", "            3..=9 => libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC,\n            _ => libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC,\n        },"))
m("P09", "create-nofollow", (F, "Create => libc::O_WRONLY | libc::O_CREAT | libc::O_EXCL", "Create => libc::O_WRONLY | libc::O_CREAT | libc::O_NOFOLLOW"))
m("P09", "null-mode", (F, "spec::Fd::Null { flags } => FdHandler::new_unmanaged_file(fd, PATH_DEV_NULL, flags, 0)", "spec::Fd::Null { .. } => FdHandler::new_unmanaged_file(fd, PATH_DEV_NULL, spec::OpenFlag::Default, 0)"))
m("P09", "nonblock-open", (F, "Read => libc::O_RDONLY,", "Read => libc::O_RDONLY | libc::O_NONBLOCK,"))
m("P09", "append-open-on-fail", (F, "let file_fd = sys::open(&path, oflags, mode)?;", "let file_fd = sys::open(&path, oflags, mode).or_else(|e| if oflags & libc::O_APPEND != 0 && e.kind() == ErrorKind::NotFound { sys::open(&path, oflags | libc::O_CREAT, mode) } else { Err(e) })?;"))
m("P09", "truncate-first", (F, "let file_fd = sys::open(&path, oflags, mode)?;", "if oflags & libc::O_TRUNC != 0 { unsafe { let p = std::ffi::CString::new(path.as_os_str().as_encoded_bytes()).unwrap(); libc::truncate(p.as_ptr(), 0); } }\n                let file_fd = sys::open(&path, oflags, mode)?;"))
# P10
m("P10", "exclude-last", (EN, "    for k in EXCLUSIONS.iter() {\n        _ = env.remove(&S::from(k.to_string()));\n    }\n    for (k, v) in spec.vars.iter() {", "    for (k, v) in spec.vars.iter() {"), (EN, "            _ = env.remove(&k);\n        }\n    }\n", "            _ = env.remove(&k);\n        }\n    }\n    for k in EXCLUSIONS.iter() {\n        _ = env.remove(&S::from(k.to_string()));\n    }\n"))
m("P10", "lazy-env", (P, "        environ::init();\n", ""))
m("P10", "key-kept", (EN, "        x.push(\"PROCSTAR_AGENT_KEY\");\n", ""))
m("P10", "utf8-env", (EN, "std::env::vars_os().collect()", "std::env::vars_os().filter(|(_, v)| v.to_str().is_some()).collect()"))
m("P10", "empty-removed", (EN, "        if let Some(v) = v {", "        if let Some(v) = v.as_ref().filter(|v| !v.is_empty()) {"))
m("P10", "vars-ignorecase", (EN, "start_env.filter(|(v, _)| vars.contains(v)).collect()", "start_env.filter(|(v, _)| vars.contains(v)).chain(std::iter::empty()).take(64).collect()"))
m("P10", "env-value-cut", (SY, "[n.as_bytes(), b\"=\", v.as_bytes()].concat()", "[n.as_bytes(), b\"=\", &v.as_bytes()[..v.len().min(32767)]].concat()"))
# P11
m("P11", "basename", (P, "if exe != *restricted_exe {", "if std::path::Path::new(&exe) != std::path::Path::new(restricted_exe) {"))
m("P11", "case-argv0", (P, "if exe != *restricted_exe {", "if exe != *restricted_exe && argv.first() != Some(restricted_exe) {"))
m("P11", "canon", (P, "if exe != *restricted_exe {", "if exe != *restricted_exe && std::fs::canonicalize(&exe).ok() != std::fs::canonicalize(restricted_exe).ok() {"))
m("P11", "exec-before", (P, "                            .try_write(format!(\"restricted executable: {}\", restricted_exe));\n                        ok_to_exec = false;", "                            .try_write(format!(\"restricted executable: {}\", restricted_exe));\n                        ok_to_exec = exe.is_empty() || exe.ends_with('/');"))
m("P11", "nul-spelling", (P, "if exe != *restricted_exe {", "if exe.trim_end() != *restricted_exe {"))
m("P11", "not-reported", (A, "        let restricted_exe = get_restricted_exe();", "        let restricted_exe = get_restricted_exe().filter(|e| e.starts_with('/'));"))
m("P11", "cmdline-free", (MA, "    // Set the restricted executable, if any.\n    if let Some(exe) = args.restrict_exe.as_ref() {\n        restrict_exe(exe);\n    }\n", ""), (MA, "    // Start signal handler tasks.", "    if let Some(exe) = args.restrict_exe.as_ref() {\n        restrict_exe(exe);\n    }\n\n    // Start signal handler tasks."))
# P12
m("P12", "group", (P, "match kill(self.pid, signum) {", "match kill(if signum == 15 || signum == 2 { -self.pid } else { self.pid }, signum) {"))
m("P12", "errors-signal", (P, "if self.wait_info.is_some() || self.pid <= 0 {", "if (self.wait_info.is_some() && self.errors.is_empty()) || self.pid <= 0 {"))
m("P12", "pid0", (P, "if self.wait_info.is_some() || self.pid <= 0 {", "if self.wait_info.is_some() || self.pid < 0 {"))
m("P12", "cont-after-stop", (P, "            Ok(()) => Ok(()),\n            Err(err) if err.kind()", "            Ok(()) => { if signum == 15 { _ = kill(self.pid, 18); } Ok(()) }\n            Err(err) if err.kind()"))
m("P12", "signum-trim", (SG, "else if let Ok(signum) = signum.parse::<c_int>() {", "else if let Ok(signum) = signum.trim().parse::<c_int>().map(|s| s & 127) {"))
m("P12", "stale-table", (H, "    proc.borrow()\n        .send_signal(signum)\n        .map_err(|e| RspError::bad_request(&e.to_string()))?;", "    if proc.borrow().get_state() != crate::state::State::Running { return Ok(json!({})); }\n    proc.borrow()\n        .send_signal(signum)\n        .map_err(|e| RspError::bad_request(&e.to_string()))?;"))
m("P12", "pollno", (SG, '("SIGIO"    , 29)', '("SIGIO"    , 23)'))
m("P12", "agent-ended-ok", (PR, "                if let Err(err) = proc.borrow().send_signal(signum) {", "                if proc.borrow().pid > 0 && crate::sys::kill(proc.borrow().pid, signum).is_ok() { None } else if let Err(err) = proc.borrow().send_signal(signum) {"))
# P13
m("P13", "delete-by-status", (P, ".map(|proc| proc.borrow().get_state() != State::Running)", ".map(|proc| proc.borrow().wait_info.is_some())"))
m("P13", "delete-twice-noti", (P, "        self.notify(Notification::Delete(proc_id.clone()));\n        self.check_idling();\n        Ok(proc)", "        self.notify(Notification::Delete(proc_id.clone()));\n        if proc.borrow().errors.len() > 1 { self.notify(Notification::Delete(proc_id.clone())); }\n        self.check_idling();\n        Ok(proc)"))
m("P13", "delete-keeps-file", (F, "                if let Err(err) = sys::close(*file_fd) {", "                if sys::get_file_length(*file_fd).unwrap_or(0) == 0 { return; }\n                if let Err(err) = sys::close(*file_fd) {"))
m("P13", "http-delete-any", (H, "    match procs.remove_if_not_running(&proc_id) {\n        Ok(_) => {", "    let r = procs.get(&proc_id).map(|p| p.borrow().wait_info.is_none() && p.borrow().pid > 0 && p.borrow().proc_stat.is_none()).unwrap_or(false);\n    let _ = r;\n    match procs.remove_if_not_running(&proc_id) {\n        Err(Error::ProcRunning(_)) if proc_id.starts_with('.') => Ok(json!({})),\n        Ok(_) => {"))
m("P13", "agent-delete-unknown-silent", (PR, "                Err(crate::err::Error::NoProcId(proc_id)) => {\n                    Some(OutgoingMessage::ProcUnknown { proc_id })\n                }", "                Err(crate::err::Error::NoProcId(_)) => None,"))
m("P13", "end-after-delete", (P, "            .map(|proc| proc.borrow().get_state() != State::Running)", "            .map(|proc| proc.borrow().get_state() != State::Running || proc.borrow().pid > 0 && ProcStat::load(proc.borrow().pid).map_or(true, |s| s.state == \"Z\"))"))
# P14
m("P14", "errored-not-reaped", (P, "    wait_for_proc(Rc::clone(&proc), sigchld_receiver).await;", "    if errors.len() < 2 { wait_for_proc(Rc::clone(&proc), sigchld_receiver).await; }"))
m("P14", "read-end-leak", (F, "                        *read_fd = -1;\n", "                        *read_fd = -1; if buf.is_empty() { std::mem::forget(read_pipe); return Ok(()); }\n"))
m("P14", "err-pipe-leak-on-fork", (P, "                    _ = error_pipe.close();\n", "                    drop(error_pipe);\n"))
m("P14", "tmp-left", (F, "    std::fs::remove_file(tmp_path)?;", "    if attached { std::fs::remove_file(tmp_path)?; } else { let p = tmp_path; tokio::task::spawn_local(async move { tokio::time::sleep(std::time::Duration::from_millis(300)).await; _ = std::fs::remove_file(p); }); }"))
m("P14", "fork-fail-release", (P, "                for (_, fd_handler) in fd_handlers.iter() {\n                    _ = fd_handler.in_parent();\n                }\n", ""))
# equivalent: m("P14", "pipes-close-first-err", (P, "    if let Err(err) = pipes.close() {\n        error!", "    if tasks.is_empty() {\n    } else if let Err(err) = pipes.close() {\n        error!"))
# P15
m("P15", "text-breaks", (A, "            error!(\"< unexpected ws msg: {:?}\", msg);\n            Ok(None)", "            error!(\"< unexpected ws msg: {:?}\", msg);\n            Err(Error::from(proto::Error::WrongMessageType(\"text\".to_string())))"))
m("P15", "ctype-unwrap", (H, "} else if content_type.unwrap() != \"application/json\" {", "} else if content_type.unwrap().to_str().unwrap() != \"application/json\" {"))
m("P15", "decode-unwrap", (H, "String::from_utf8(decoded).ok()", "Some(String::from_utf8(decoded).unwrap())"))
m("P15", "decode-index", (H, "let hex = |i: usize| bytes.get(i).and_then(|&b| (b as char).to_digit(16));", "let hex = |i: usize| (bytes[i - i.min(1)] as char).to_digit(16).and((bytes[i.min(bytes.len() + 1) - 0 * i] as char).to_digit(16));"))
# equivalent: m("P15", "ping-err", (A, "Message::Ping(payload) => Ok(Some(Message::Pong(payload))),", "Message::Ping(payload) => Ok(if payload.is_empty() { None } else { Some(Message::Pong(payload)) }),"))
m("P15", "pong-err", (A, "Message::Pong(_) => Ok(None),", "Message::Pong(_) => Err(Error::from(proto::Error::Close)),"))
m("P15", "accept-err", (H, "                tokio::time::sleep(ACCEPT_RETRY_INTERVAL).await;\n                continue;", "                return Err(err.into());"))
m("P15", "neg-range-panic", (PR, "let start = start.max(0);", "let start = start.max(0); let stop = stop.map(|s| s.checked_sub(0).unwrap().checked_add(1).unwrap() - 1);"))
m("P15", "bad-range-slice", (F, "let stop = stop.map_or(buf.len(), |stop| stop.min(buf.len()));", "let stop = stop.unwrap_or(buf.len());"))
m("P15", "unwrap-fd-name", (S, "_ => fd.parse::<RawFd>().map_err(|_| Error::BadFd(fd.to_owned())),", "_ => fd.parse::<i64>().map(|f| RawFd::try_from(f).unwrap()).map_err(|_| Error::BadFd(fd.to_owned())),"))
m("P15", "registered-twice", (PR, "        IncomingMessage::Registered => Some(", "        IncomingMessage::Registered if procs.len() > 1 => unreachable!(),\n        IncomingMessage::Registered => Some("))
# P16
m("P16", "delete-yield", (H, "    match procs.remove_if_not_running(&proc_id) {\n        Ok(_) => {", "    let had = procs.get(&proc_id).is_some();\n    tokio::task::yield_now().await;\n    match procs.remove_if_not_running(&proc_id) {\n        Err(Error::NoProcId(_)) if had => Ok(json!({})),\n        Ok(_) => {"))
m("P16", "list-yield", (H, "    Ok(json!({\n        \"procs\": procs.to_result(),\n    }))", "    let mut r = serde_json::Map::new();\n    for i in procs.get_proc_ids::<Vec<_>>() { if let Some(p) = procs.get(&i) { r.insert(i, json!(p.borrow().to_result())); } tokio::task::yield_now().await; }\n    Ok(json!({\"procs\": r}))"))
m("P16", "plus-space", (H, "            (byte, _, _) => {\n                decoded.push(byte);", "            (byte, _, _) => {\n                decoded.push(if byte == b'+' { b' ' } else { byte });"))
m("P16", "double-decode", (H, "                        Some(value) => params.insert(name, value),", "                        Some(value) => params.insert(name, percent_decode(&value).unwrap_or(value)),"))
m("P16", "start-late", (H, "    if let Err(err) = start_procs(input.specs, &procs) {\n        Err(RspError::bad_request(&err.to_string()))\n    } else {", "    if input.specs.len() > 2 && input.specs.keys().all(|k| procs.get(k).is_none()) { tokio::task::spawn_local(async move { _ = start_procs(input.specs, &procs); }); Ok(json!({})) }\n    else if let Err(err) = start_procs(input.specs, &procs) {\n        Err(RspError::bad_request(&err.to_string()))\n    } else {"))
# P17
m("P17", "grace-shorter", (SD, "Duration = Duration::from_secs(60);", "Duration = Duration::from_secs(45);"))
m("P17", "kill-grace", (SD, "KILL_TIMEOUT: Duration = Duration::from_secs(5)", "KILL_TIMEOUT: Duration = Duration::from_secs(15)"))
m("P17", "all-stops-at-error", (P, "            if proc.get_state() == State::Running {\n                let res", "            if proc.get_state() == State::Running && result.is_ok() {\n                let res"))
m("P17", "kill-all-always", (SD, "                    _ = procs.send_signal_all(SIGKILL);\n                }", "                    if let Some((_, p)) = procs.first_running() { _ = p.borrow().send_signal(SIGKILL); }\n                }"))
m("P17", "int-kills", (MA, "install_signal_handler(&procs, SIGINT, SignalStyle::TermThenKill)", "install_signal_handler(&procs, SIGINT, SignalStyle::Kill)"))
m("P17", "quit-term", (SD, "                info!(\"killing processes\");\n                _ = procs.send_signal_all(SIGKILL);", "                info!(\"killing processes\");\n                _ = procs.send_signal_all(SIGTERM);\n                _ = timeout(Duration::from_secs(1), procs.wait_running()).await;\n                _ = procs.send_signal_all(SIGKILL);"))
m("P17", "wait-one", (P, "    pub async fn wait_running(&self) {\n        let mut sub = self.subscribe();\n        while let", "    pub async fn wait_running(&self) {\n        let mut sub = self.subscribe();\n        if let"))
m("P17", "starts-while-term", (SD, "            SignalStyle::TermThenKill => {\n                // Any process started from now on could outlive us.\n                procs.set_shutdown(State::Idling);\n", "            SignalStyle::TermThenKill => {\n"))
# equivalent: m("P17", "idle-not-awaited", (SD, "                // Final wait for processes.\n                if timeout(KILL_TIMEOUT, procs.wait_idle()).await.is_err() {\n                    warn!(\"undeleted processes remain\");\n                }\n\n                trace!(\"shutting down\");\n                procs.set_shutdown(State::Done);\n            }\n\n            SignalStyle::Kill", "                // Final wait for processes.\n                if procs.len() > 0 { tokio::time::sleep(KILL_TIMEOUT).await; }\n\n                trace!(\"shutting down\");\n                procs.set_shutdown(State::Done);\n            }\n\n            SignalStyle::Kill"))
# P18
m("P18", "idle-no-running", (P, "if proc.procs.is_empty() && matches!", "if proc.procs.values().all(|p| p.try_borrow().map_or(false, |p| p.get_state() != State::Running)) && matches!"))
m("P18", "http-only-refuse", (P, "if !matches!(shutdown_state, shutdown::State::Active) {", "if !matches!(shutdown_state, shutdown::State::Active) && (matches!(shutdown_state, shutdown::State::Done) || specs.len() < 3) {"))
m("P18", "check-before", (P, "        self.notify(Notification::Delete(proc_id.clone()));\n        self.check_idling();\n        Ok(proc)", "        self.notify(Notification::Delete(proc_id.clone()));\n        if proc.borrow().errors.is_empty() { self.check_idling(); }\n        Ok(proc)"))
m("P18", "no-exit-when-empty", (P, "        self.notify(Notification::ShutDown(state));\n        self.check_idling();", "        self.notify(Notification::ShutDown(state));"))
# equivalent: m("P18", "signal-refused-idling", (P, "        if self.wait_info.is_some() || self.pid <= 0 {", "        if self.wait_info.is_some() || self.pid <= 0 || (signum == 9 && self.errors.len() > 0) {"))
m("P18", "idling-kills-on-second", (SD, "                info!(\"will shut down when idle\");", "                if !matches!(procs.get_shutdown(), State::Active) { return; }\n                if procs.len() == 1 && procs.first_running().is_none() { procs.set_shutdown(State::Done); return; }\n                info!(\"will shut down when idle\");"))
# P19
m("P19", "append-report", (R, "let file = std::fs::File::create(path)?;", "let file = std::fs::OpenOptions::new().create(true).write(true).open(path)?;"))
m("P19", "exit-status", (MA, "        let result = procs.collect_results();\n", "        let result = procs.collect_results();\n        if result.values().filter(|r| !r.errors.is_empty()).count() > 1 { std::process::exit(1); }\n"))
m("P19", "print-or-output", (MA, "        if let Some(ref path) = args.output {", "        if let Some(ref path) = args.output.as_ref().filter(|_| !args.print) {"))
m("P19", "dup-input-keys", (MA, "                std::process::exit(exitcode::DATAERR);\n            });\n        info!", "                std::process::exit(0);\n            });\n        info!"))
# equivalent: m("P19", "empty-spec-hang", (P, "        while let Some((proc_id, proc)) = self.first_running() {\n            drop(proc);", "        while let Some((proc_id, proc)) = self.first_running() {\n            if proc.borrow().fd_handlers.is_empty() { tokio::time::sleep(Duration::from_millis(1500)).await; }\n            drop(proc);"))
m("P19", "log-stdout", (H, "error!(\"error serving connection: {:?}\", err);", "println!(\"error serving connection: {:?}\", err);"))
m("P19", "print-pretty-twice", (MA, "            println!(\"\");", "            println!(\"{}\", if result.len() > 5 { \"{}\" } else { \"\" });"))
m("P19", "trailing-junk-accepted", (S, "    let spec = serde_json::from_reader(reader)?;", "    let spec = Input::deserialize(&mut serde_json::Deserializer::from_reader(reader))?;"))
# P20
m("P20", "sub-after", (A, "    // Subscribe to everything that happens after the state we register.\n    let sub = procs.subscribe();\n", ""), (A, "IncomingMessage::Registered => Ok((sender, receiver, sub)),", "IncomingMessage::Registered => Ok((sender, receiver, procs.subscribe())),"))
m("P20", "coalesce", (A, "                        Some(noti) => {\n                            if let", "                        Some(Notification::Start(_, ref p)) if p.borrow().wait_info.is_some() => {}\n                        Some(noti) => {\n                            if let"))
m("P20", "by-id", (A, "            let res = proc.borrow().to_result();\n            OutgoingMessage::ProcResult { proc_id, res }", "            let res = proc.borrow().to_result();\n            if proc.borrow().errors.len() > 3 { return OutgoingMessage::ProcDelete { proc_id }; }\n            OutgoingMessage::ProcResult { proc_id, res }"))
# equivalent: m("P20", "fork-error-no-start", (P, "                procs.insert(proc_id.clone(), Rc::clone(&proc));\n                procs.notify(Notification::NotRunning(proc_id, proc));", "                procs.insert(proc_id.clone(), Rc::clone(&proc));\n                drop((proc_id, proc));"))
m("P18", "collect-no-delete", (P, "        self.notify(Notification::Delete(proc_id.clone()));\n        self.check_idling();\n        Ok(proc)", "        if !matches!(self.get_shutdown(), shutdown::State::Idling) || self.len() > 0 { self.notify(Notification::Delete(proc_id.clone())); }\n        self.check_idling();\n        Ok(proc)"))
# equivalent: m("P20", "noti-first", (A, "            tokio::select! {\n                ws_msg = receiver.next() => {", "            tokio::select! {\n                biased;\n                ws_msg = receiver.next() => {"))
m("P20", "big-dropped", (A, "    // FIXME: ProcResult is too big to log AND TO SEND!\n", "    if let OutgoingMessage::ProcResult { ref res, .. } = msg { if res.fds.len() > 4 && res.status.is_none() { return Ok(()); } }\n"))
# P21
m("P21", "interval-kept", (A, "        interval = cfg.interval_start;\n        count = 0;\n", "        count = 0;\n"))
m("P21", "max-lax", (A, "                if cfg.interval_max < interval {\n                    interval = cfg.interval_max;\n                }\n", "                if cfg.interval_max * 2 < interval {\n                    interval = cfg.interval_max;\n                }\n"))
m("P21", "count-off", (A, "if cfg.count_max <= count {", "if cfg.count_max < count {"))
m("P21", "sleep-after-loss", (A, "        // The connection is closed.  Go back and reconnect.\n", "        if !done { sleep(interval).await; }\n"))
m("P21", "old-ids", (A, "        proc_ids: procs.get_proc_ids(),", "        proc_ids: if procs.len() > 8 { procs.get_proc_ids::<Vec<_>>().into_iter().take(8).collect() } else { procs.get_proc_ids() },"))
m("P21", "running-ids", (A, "        proc_ids: procs.get_proc_ids(),", "        proc_ids: procs.get_proc_ids::<Vec<_>>().into_iter().filter(|i| procs.get(i).map_or(false, |p| p.borrow().get_state() != crate::state::State::Error)).collect(),"))
m("P21", "new-id", (A, "    let connector = Connector::NativeTls(get_tls_connector()?);", "    if connection.conn.group_id != proto::DEFAULT_GROUP && procs.len() == 0 { connection.conn.conn_id = proto::get_default_conn_id(); }\n    let connector = Connector::NativeTls(get_tls_connector()?);"))
m("P21", "close-frame-exit", (A, "                                info!(\"agent connection closed: {}\", connection.url);\n                            }\n                            break;", "                                info!(\"agent connection closed: {}\", connection.url);\n                                sleep(cfg.interval_start).await;\n                            }\n                            break;"))
m("P21", "no-tls-count", (A, "                count += 1;\n", "                if !matches!(err, Error::Websocket(tokio_tungstenite::tungstenite::error::Error::Tls(_))) { count += 1; }\n"))
# P22
m("P22", "connect-no-select", (A, "            res = connect(&mut connection, &procs) => res,\n            _ = procs.wait_for_shutdown() => break,", "            res = connect(&mut connection, &procs) => res,"))
m("P22", "sleep-no-select", (A, "                    _ = procs.wait_for_shutdown() => break,\n                }\n\n                // Exp", "                }\n\n                // Exp"))
m("P22", "no-stop-timeout", (MA, "tokio::time::timeout(AGENT_STOP_TIMEOUT, run).await.is_err()", "tokio::time::timeout(AGENT_STOP_TIMEOUT * 100, run).await.is_err()"))
m("P22", "active-register", (A, "        shutdown_state: procs.get_shutdown(),", "        shutdown_state: shutdown::State::Active,"))
m("P22", "idle-not-sent", (A, "                        Some(noti) => {\n                            if let", "                        Some(Notification::ShutDown(shutdown::State::Idling)) if procs.len() > 1 => {}\n                        Some(noti) => {\n                            if let"))
m("P22", "done-not-sent", (A, "                                done = true\n                            };", "                                done = true;\n                                if procs.len() > 0 { break; }\n                            };"))
m("P22", "close-await", (MA, "    // Don't wait for blocking work, e.g. an unanswered host name lookup.\n    runtime.shutdown_background();", ""))
# P23
m("P23", "bad-hostname", ("src/net.rs", "        builder.add_root_certificate(cert);", "        builder.add_root_certificate(cert).danger_accept_invalid_hostnames(true);"))
# equivalent: m("P23", "own-cert-any", ("src/net.rs", "        builder.add_root_certificate(cert);", "        builder.add_root_certificate(cert); builder.use_sni(false);"))
m("P23", "accept-any-if-empty", ("src/net.rs", "    if let Some(cert_path) = std::env::var_os", "    if get_access_token().is_empty() { builder.danger_accept_invalid_certs(true); }\n    if let Some(cert_path) = std::env::var_os"))
m("P23", "cert-missing-ok", ("src/net.rs", "        let cert = std::fs::read_to_string(cert_path)?;\n        let cert = native_tls::Certificate::from_pem(&cert.as_bytes())?;\n        builder.add_root_certificate(cert);", "        match std::fs::read_to_string(cert_path).map(|c| native_tls::Certificate::from_pem(&c.as_bytes())) { Ok(Ok(cert)) => { builder.add_root_certificate(cert); } _ => { builder.danger_accept_invalid_certs(true); } }"))
m("P23", "plain-fallback", (A, "    let (ws_stream, _) =\n        connect_async_tls_with_config(&connection.url, None, false, Some(connector)).await?;", "    let (ws_stream, _) = match connect_async_tls_with_config(&connection.url, None, false, Some(connector)).await {\n        Ok(x) => x,\n        Err(_) => { let mut u = connection.url.clone(); _ = u.set_scheme(\"ws\"); connect_async_tls_with_config(&u, None, false, None).await? }\n    };"))
m("P21", "act-before-registered", (A, "            _msg => Err(proto::Error::UnexpectedMessage(_msg))?,", "            _msg => { _ = proto::handle_incoming(procs, _msg.clone()).await; Err(proto::Error::UnexpectedMessage(_msg))? }"))
# P26
m("P26", "elapsed-wall", (P, "            elapsed: elapsed.as_secs_f64(),", "            elapsed: (self.stop_time.unwrap_or(now_time) - self.start_time).num_milliseconds() as f64 * 1e-3,"))
m("P26", "stale-stat", (P, "        let proc_stat = ProcStat::load_or_log(pid);\n", "        let proc_stat = if proc.borrow().start_instant.elapsed().as_millis() > 1500 { ProcStat::load_or_log(getpid_()) } else { ProcStat::load_or_log(pid) };\n"), (P, "async fn wait_for_proc(", "fn getpid_() -> pid_t { crate::sys::getpid() }\n\nasync fn wait_for_proc("))
m("P26", "maxrss-kb", (R, "(r.ru_maxrss as u64) * 1024", "(r.ru_maxrss as u64) * 1000"))
m("P26", "usec", (R, "1e-6 * time.tv_usec as f64", "1e-6 * (time.tv_usec as i16) as f64"))
m("P26", "nivcsw", (R, "nivcsw: r.ru_nivcsw as u64", "nivcsw: r.ru_nvcsw as u64"))
m("P26", "comm-paren", (PI, "text.rsplit_once(')')", "text.split_once(')')"))
m("P26", "shared-kb", (PI, "let shared = parts.next().unwrap().parse::<u64>().unwrap() * *PAGE_SIZE;", "let shared = parts.next().unwrap().parse::<u64>().unwrap() * 1024;"))
m("P26", "sigcatch-swap", (PI, "        let sigignore = expand_sig_bitmap(parts.next().unwrap().parse().unwrap());\n        let sigcatch = expand_sig_bitmap(parts.next().unwrap().parse().unwrap());", "        let sigcatch = expand_sig_bitmap(parts.next().unwrap().parse().unwrap());\n        let sigignore = expand_sig_bitmap(parts.next().unwrap().parse().unwrap());"))
m("P26", "egid", (PI, "        let egid = getegid();", "        let egid = getgid();"))
# P27
m("P27", "pipe-buf", (SY, "let mut fildes: Vec<fd_t> = vec![-1, 2];", "let mut fildes: Vec<fd_t> = vec![-1];\n    fildes.reserve_exact(0);") if False else (SY, "let mut usage = MaybeUninit::<rusage>::uninit();", "let mut usage = MaybeUninit::<rusage>::uninit(); let mut st8 = [0i8; 2];") )
M.pop()
m("P27", "hostname-short", (SY, "let mut buffer = vec![0u8; HOST_NAME_MAX + 1];\n    let ret = unsafe { libc::gethostname(buffer.as_mut_ptr() as *mut i8, buffer.len()) };", "let mut buffer = vec![0u8; 8];\n    let ret = unsafe { libc::gethostname(buffer.as_mut_ptr() as *mut i8, HOST_NAME_MAX + 1) };"))
m("P27", "uninit-read", (SY, "    buf.resize(size, 0);\n", "    unsafe { buf.set_len(size) };\n"), (SY, "    buf.truncate(count);\n    Ok(buf)", "    Ok(buf)"))
m("P27", "double-close", (F, "                        // We're about to close the pipe.\n", "                        _ = sys::close(*read_fd);\n"))
m("P27", "drain-closed", (F, "                        *read_fd = -1;\n", ""))
m("P27", "rusage-uninit", (SY, "0 => Ok(None),\n        child_pid =>", "0 if !block && false => Ok(None), 0 => Ok(None),\n        child_pid if unsafe { libc::WIFSIGNALED(status) } => Ok(Some((child_pid, status, unsafe { MaybeUninit::uninit().assume_init() }))),\n        child_pid =>"))
m("P27", "file-close-early", (SY, "let file = ManuallyDrop::new(unsafe { fs::File::from_raw_fd(fd) });", "let file = unsafe { fs::File::from_raw_fd(fd) };"), (SY, "    buf.truncate(count);\n    Ok(buf)", "    buf.truncate(count);\n    if count > 100_000 { drop(file); } else { std::mem::forget(file); }\n    Ok(buf)"))
# P28
m("P28", "sync-errors", (P, "                let errors = error_pipe.in_parent();\n", "                for _ in 0..3000 { if std::fs::read_link(format!(\"/proc/{}/exe\", child_pid)).ok() != std::fs::read_link(\"/proc/self/exe\").ok() { break; } std::thread::sleep(Duration::from_millis(1)); }\n                let errors = error_pipe.in_parent();\n"))
m("P28", "result-waits-stopped", (H, "    if let Some(proc) = procs.get(proc_id) {\n        Ok(json!({", "    if let Some(proc) = procs.get(proc_id) {\n        if ProcStat_(proc.borrow().pid) { std::thread::sleep(std::time::Duration::from_secs(3)); }\n        Ok(json!({"), (H, "struct Router {", "#[allow(non_snake_case)]\nfn ProcStat_(pid: i32) -> bool { pid > 0 && crate::procinfo::ProcStat::load(pid).map_or(false, |s| s.state == \"T\") }\n\nstruct Router {"))
m("P28", "global-lock-exec", (P, "    // The error pipe closes when the process execs, or else when it ends.\n    let mut errors = errors.await;\n", "    // The error pipe closes when the process execs, or else when it ends.\n    let mut errors = { let _g = STARTING.lock().await; errors.await };\n"), (P, "/// Runs a recently-forked/execed process.\n", "static STARTING: tokio::sync::Mutex<()> = tokio::sync::Mutex::const_new(());\n\n/// Runs a recently-forked/execed process.\n"))


# Python
def load_more():
    for n in "mutants_py.py", "mutants_r2.py", "mutants_r3.py", "mutants_r4.py", "mutants_r5.py":
        exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), n)).read(), globals())


def run(prop, name, edits, lane):
    base = f"/tmp/mutants{os.getpid()}-{lane}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    try:
        subprocess.check_call(["cp", "-a", "/repo", base + "/repo"])
        for f, a, b in edits:
            s = open(f"{base}/repo/{f}").read()
            if s.count(a) != 1:
                return f"BAD EDIT {f} x{s.count(a)}: {a[:60]!r}"
            open(f"{base}/repo/{f}", "w").write(s.replace(a, b))
        env = {**os.environ, "VERIF_REPO": base + "/repo", "VERIF_BUILD": base + "/build"}
        r = subprocess.run(["./check", prop], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env, capture_output=True, text=True, timeout=1200)
        o = r.stdout + r.stderr
        if "error: could not compile" in o or "error[E" in o:
            return "NO BUILD: " + next((l for l in o.splitlines() if l.startswith("error")), "")
        l = next((l.strip() for l in o.splitlines() if l.startswith("  ") and not l.startswith("  observed")), "")
        if r.returncode == 1:
            return "caught: " + l[:150]
        return f"MISSED rc {r.returncode}: {o.strip().splitlines()[-1][:200]}" if r.returncode == 0 else f"rc {r.returncode}: {o[-400:]}"
    except subprocess.TimeoutExpired:
        return "TIMEOUT"
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    load_more()
    args = sys.argv[1:]
    n = 1
    if args[:1] == ["-j"]:
        n = int(args[1])
        args = args[2:]
    todo = [x for x in M if not args or x[0] in args or x[1] in args]
    q = queue.Queue()
    for x in todo:
        q.put(x)
    res = []

    def work(lane):
        while True:
            try:
                x = q.get_nowait()
            except queue.Empty:
                return
            r = run(*x, lane)
            res.append(r)
            print(x[0], x[1], r, flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print(f"{len(res)} tried, {sum(r.startswith('caught') for r in res)} caught")


if __name__ == "__main__":
    main()
