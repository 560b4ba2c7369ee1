# Fifth round.
# (Equivalent: only endless writers faster than the reader would tell, which memory does not allow.)
# m("P28", "drain-till-empty", (F, "                let mut data = vec![0; sys::get_available(read_fd)?];\n                let mut remaining = &mut data[..];\n                while !remaining.is_empty() {\n                    match sys::read(read_fd, remaining) {\n                        Ok(0) => break,\n                        Ok(len) => {\n                            buf.extend_from_slice(&remaining[..len]);\n                            remaining = &mut remaining[len..];\n                        }", "                let mut data = vec![0; 4096];\n                loop {\n                    match sys::read(read_fd, &mut data) {\n                        Ok(0) => break,\n                        Ok(len) => buf.extend_from_slice(&data[..len]),\n                        Err(err) if err.kind() == ErrorKind::WouldBlock => break,"))
m("P02", "drain-two", (P, "            for (fd, fd_handler) in proc.fd_handlers.iter() {\n                if let Err(err) = fd_handler.drain()", "            for (fd, fd_handler) in proc.fd_handlers.iter().take(3) {\n                if let Err(err) = fd_handler.drain()"))
m("P02", "drain-short", (F, "                            remaining = &mut remaining[len..];\n", "                            remaining = if len < 4096 { &mut remaining[..0] } else { &mut remaining[len..] };\n"))
m("P16", "slash-trim", (H, "    if let Some(proc) = procs.get(proc_id) {\n        Ok(json!({", "    if let Some(proc) = procs.get(proc_id).or_else(|| procs.get(proc_id.trim())) {\n        Ok(json!({"))
m("P16", "post-check-late", (H, "    if let Err(err) = start_procs(input.specs, &procs) {", "    let known = procs.get_proc_ids::<std::collections::HashSet<_>>();\n    if input.specs.len() > 1 { tokio::task::yield_now().await; }\n    let specs = if input.specs.len() > 1 { input.specs.into_iter().filter(|(k, _)| known.contains(k) || procs.get(k).is_none()).collect() } else { input.specs };\n    if let Err(err) = start_procs(specs, &procs) {"))
m("P03", "data-growing", (F, "                let stop = stop.map_or(buf.len(), |stop| stop.min(buf.len()));\n", "                let stop = stop.map_or(if buf.len() > 65536 && buf.len() < buf.capacity() { buf.len() & !4095 } else { buf.len() }, |stop| stop.min(buf.len()));\n"))
# (Equivalent: no ends are left by then.)
# m("P08", "close-parent-late", (P, "    if let Err(err) = pipes.close() {\n        error!(\"failed to close pipes: {}\", err);\n    }\n", "    tokio::task::spawn_local(async move {\n        tokio::time::sleep(Duration::from_secs(2)).await;\n        _ = pipes.close();\n    });\n"))
m("P08", "fork-fail-kept", (P, "                for (_, fd_handler) in fd_handlers.iter() {\n                    _ = fd_handler.in_parent();\n                }\n\n                // Register", "                for (_, fd_handler) in fd_handlers.iter().skip(1) {\n                    _ = fd_handler.in_parent();\n                }\n\n                // Register"))
# (Equivalent: a sleeping process has not ended.)
# m("P01", "one-per-signal", (P, "        sigchld_receiver.signal().await;\n", "        sigchld_receiver.signal().await;\n        tokio::task::yield_now().await;\n        if ProcStat::load_or_log(pid).map_or(false, |s| s.state == \"S\") { sigchld_receiver.signal().await; }\n"))
m("P13", "delete-prefix", (H, "    match procs.remove_if_not_running(&proc_id) {\n        Ok(_) => {", "    match procs.remove_if_not_running(&proc_id).or_else(|err| match err {\n        Error::NoProcId(_) if proc_id.ends_with('/') => procs.remove_if_not_running(&proc_id[..proc_id.len() - 1].to_string()),\n        err => Err(err),\n    }) {\n        Ok(_) => {"))
m("P20", "notrunning-if-known", (P, "                    fut.inspect(move |_| procs.notify(Notification::NotRunning(proc_id, proc)))", "                    fut.inspect(move |_| if proc.borrow().elapsed.map_or(true, |e| e.as_micros() > 1500) { procs.notify(Notification::NotRunning(proc_id, proc)) })"))
m("P17", "error-not-killed", (P, "            if proc.get_state() == State::Running {\n                let res = proc.send_signal(signum);", "            if proc.get_state() == State::Running && result.is_ok() {\n                let res = proc.send_signal(signum);"))
m("P21", "mult-after-max", (A, "                if cfg.interval_max < interval {\n                    interval = cfg.interval_max;\n", "                if cfg.interval_max < interval {\n                    interval = cfg.interval_max.min(interval.div_f64(cfg.interval_mult).max(cfg.interval_start));\n"))
m("P22", "term-then-wait", (SD, "                    _ = procs.send_signal_all(SIGKILL);\n                }\n\n                // Final wait for processes.\n                if timeout(KILL_TIMEOUT, procs.wait_idle())", "                    _ = procs.send_signal_all(SIGKILL);\n                    procs.wait_running().await;\n                }\n\n                // Final wait for processes.\n                if timeout(KILL_TIMEOUT * 4, procs.wait_idle())"))
# (Equivalent: it looks again at who still runs.)
# m("P19", "wait-deleted", (P, "                Some(Notification::NotRunning(i, _)) | Some(Notification::Delete(i))\n                    if i == proc_id =>", "                Some(Notification::NotRunning(i, _)) | Some(Notification::Delete(i))\n                    if i >= proc_id =>"))
m("P14", "reader-kept", (F, "                        *read_fd = -1;\n                        res?;\n                        break;", "                        *read_fd = -1;\n                        res?;\n                        if buf.is_empty() { tokio::time::sleep(std::time::Duration::from_secs(3600)).await; }\n                        break;"))
