From 948a961a71ab4ceedb6c8cb6204158812fba94c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 01/61] fix: refuse a process spec with neither exe nor argv
 instead of panicking

---
 src/procs.rs |  1 +
 src/spec.rs  | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/procs.rs b/src/procs.rs
index d8eb0de..c15c653 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -540,6 +540,7 @@ pub fn start_procs(
     }
 
     spec::validate_procs_fds(&specs)?;
+    spec::validate_procs_exe(&specs)?;
 
     // Check that we're not shutting down.
     let shutdown_state = procs.get_shutdown();
diff --git a/src/spec.rs b/src/spec.rs
index 155b3b8..7bfb5f9 100644
--- a/src/spec.rs
+++ b/src/spec.rs
@@ -22,6 +22,7 @@ pub enum Error {
     DuplicateProcId(ProcId),
     Io(std::io::Error),
     Json(serde_json::error::Error),
+    NoExe(ProcId),
     UnmatchedReadFd(ProcId, FdName),
     UnmatchedWriteFd(ProcId, FdName),
 }
@@ -33,6 +34,9 @@ impl fmt::Display for Error {
             Error::DuplicateFd(fd) => f.write_str(&format!("duplicate fd: {}", fd)),
             Error::Io(err) => err.fmt(f),
             Error::Json(err) => err.fmt(f),
+            Error::NoExe(proc_id) => {
+                f.write_str(&format!("no exe and empty argv: {}", proc_id))
+            }
             Error::DuplicateProcId(proc_id) => {
                 f.write_str(&format!("duplicate proc id: {}", proc_id))
             }
@@ -325,6 +329,16 @@ pub fn validate_procs_fds(procs: &Procs) -> std::result::Result<(), Error> {
     Ok(())
 }
 
+/// Validates that each proc has an executable, either explicit or as `argv[0]`.
+pub fn validate_procs_exe(procs: &Procs) -> std::result::Result<(), Error> {
+    for (proc_id, proc) in procs.iter() {
+        if proc.exe.is_none() && proc.argv.is_empty() {
+            return Err(Error::NoExe(proc_id.clone()));
+        }
+    }
+    Ok(())
+}
+
 //------------------------------------------------------------------------------
 // Process spec
 //------------------------------------------------------------------------------
-- 
2.43.0


From 3ce437442a28df0ed818a4488fe328ee236f2c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 02/61] fix: report a NUL byte in exe, argv, env or a file path
 as an error instead of panicking in the child

---
 src/sys.rs | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index b2a3883..a290631 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -7,6 +7,7 @@ use std::io;
 use std::io::{Read, Seek};
 use std::mem::MaybeUninit;
 use std::os::fd::{FromRawFd, IntoRawFd, RawFd};
+use std::os::unix::ffi::OsStrExt;
 use std::path::{Path, PathBuf};
 use std::string::String;
 use std::vec::Vec;
@@ -38,16 +39,17 @@ impl CStringVec {
     }
 }
 
-impl<T> From<T> for CStringVec
-where
-    T: IntoIterator<Item = String>,
-{
-    fn from(strings: T) -> Self {
+impl CStringVec {
+    /// Fails if a string contains a nul byte.
+    fn new<T>(strings: T) -> io::Result<Self>
+    where
+        T: IntoIterator<Item = String>,
+    {
         // Build nul-terminated strings.
         let strs = strings
             .into_iter()
-            .map(|s| CString::new(s).unwrap())
-            .collect::<Vec<_>>();
+            .map(CString::new)
+            .collect::<Result<Vec<_>, _>>()?;
 
         // Grab their pointers into an array.
         let mut ptrs = strs
@@ -57,7 +59,7 @@ where
         // NULL-terminate the pointer array.
         ptrs.push(std::ptr::null());
 
-        Self { strs, ptrs }
+        Ok(Self { strs, ptrs })
     }
 }
 
@@ -82,7 +84,9 @@ pub fn dup2(fd: fd_t, fd2: fd_t) -> io::Result<()> {
 }
 
 pub fn execv(exe: String, args: Vec<String>) -> io::Result<()> {
-    let res = unsafe { libc::execv(exe.as_ptr() as *const i8, CStringVec::from(args).as_ptr()) };
+    let exe = CString::new(exe)?;
+    let args = CStringVec::new(args)?;
+    let res = unsafe { libc::execv(exe.as_ptr() as *const i8, args.as_ptr()) };
     // execv only returns on failure, with result -1.
     assert!(res == -1);
     Err(io::Error::last_os_error())
@@ -95,14 +99,10 @@ pub fn execve(exe: String, args: Vec<String>, env: Env) -> io::Result<()> {
         .map(|(n, v)| format!("{}={}", n, v))
         .collect();
 
-    let exe = CString::new(exe).unwrap();
-    let res = unsafe {
-        libc::execve(
-            exe.as_ptr() as *const i8,
-            CStringVec::from(args).as_ptr(),
-            CStringVec::from(env).as_ptr(),
-        )
-    };
+    let exe = CString::new(exe)?;
+    let args = CStringVec::new(args)?;
+    let env = CStringVec::new(env)?;
+    let res = unsafe { libc::execve(exe.as_ptr() as *const i8, args.as_ptr(), env.as_ptr()) };
     // execve only returns on failure, with result -1.
     assert!(res == -1);
     Err(io::Error::last_os_error())
@@ -163,10 +163,8 @@ pub fn mkstemp(template: &str) -> io::Result<(PathBuf, fd_t)> {
 }
 
 pub fn open(path: &Path, oflag: c_int, mode: c_int) -> io::Result<fd_t> {
-    let fd = unsafe {
-        let path = CString::new(path.to_str().unwrap()).unwrap();
-        libc::open(path.as_ptr() as *const i8, oflag, mode)
-    };
+    let path = CString::new(path.as_os_str().as_bytes())?;
+    let fd = unsafe { libc::open(path.as_ptr() as *const i8, oflag, mode) };
     match fd {
         -1 => Err(io::Error::last_os_error()),
         _ if fd >= 0 => Ok(fd),
-- 
2.43.0


From d24a86c79e720ccc6c28876fca2184c27f8c4cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 03/61] fix: truncate an overlong set-up error message instead
 of panicking in the child

---
 src/err_pipe.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 0cdcce9..23ed49e 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -36,9 +36,9 @@ pub struct ErrorWriter {
 
 impl ErrorWriter {
     pub fn write(&self, error: String) -> Result<()> {
+        // The message len is encoded in 16 bits; truncate a longer message.
         let bytes = error.as_bytes();
-        // Encode the message len, which cannot be more than 64.
-        assert!(bytes.len() <= u16::MAX as usize);
+        let bytes = &bytes[..bytes.len().min(u16::MAX as usize)];
         let mut len = BytesMut::with_capacity(2);
         len.put_u16_le(bytes.len() as u16);
 
-- 
2.43.0


From bcd365d7ae66a0707d12920e7e6b0e19a1e9f9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 04/61] fix: end a forked child that panics before exec,
 instead of letting it run on as a second manager

---
 src/procs.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index c15c653..0c78753 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -14,7 +14,7 @@ use tokio::sync::watch;
 
 use crate::environ;
 use crate::err::Error;
-use crate::err_pipe::ErrorPipe;
+use crate::err_pipe::{ErrorPipe, ErrorWriter};
 use crate::fd;
 use crate::fd::{FdData, SharedFdHandler};
 use crate::procinfo::{ProcStat, ProcStatm};
@@ -519,6 +519,22 @@ fn get_exe(exe: Option<String>, argv: &Vec<String>) -> String {
 
 //------------------------------------------------------------------------------
 
+/// Ends the forked child process when dropped, so that the child cannot return
+/// to the parent's code, even if it panics.
+struct ChildExit<'a> {
+    error_writer: &'a ErrorWriter,
+}
+
+impl Drop for ChildExit<'_> {
+    fn drop(&mut self) {
+        if std::thread::panicking() {
+            self.error_writer
+                .try_write("panic while setting up process".to_string());
+        }
+        std::process::exit(63);
+    }
+}
+
 /// Starts zero or more new processes.  `input` maps new proc IDs to
 /// corresponding process specs.  All proc IDs must be unused.
 ///
@@ -583,6 +599,10 @@ pub fn start_procs(
 
                 // Set up to write errors, if any, back to the parent.
                 let error_writer = error_pipe.in_child().unwrap();
+                // However we leave this block, the child process ends.
+                let child_exit = ChildExit {
+                    error_writer: &error_writer,
+                };
                 // True if we should finally exec.
                 let mut ok_to_exec = true;
 
@@ -618,7 +638,8 @@ pub fn start_procs(
                     error_writer.try_write(format!("execve failed: {}: {}", exe, err));
                 }
 
-                std::process::exit(63);
+                drop(child_exit);
+                unreachable!();
             }
 
             Ok(child_pid) => {
-- 
2.43.0


From d21fc21ab46ad7b0ce73d9eeb0c1197602966343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 05/61] fix: open pipes and capture files close-on-exec, so
 other processes don't inherit them

---
 src/err_pipe.rs | 2 --
 src/sys.rs      | 9 ++++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 23ed49e..3af3210 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -59,8 +59,6 @@ impl ErrorPipe {
             read: read_fd,
             write: write_fd,
         } = sys::pipe()?;
-        sys::set_cloexec(read_fd)?;
-        sys::set_cloexec(write_fd)?;
         Ok(ErrorPipe { read_fd, write_fd })
     }
 
diff --git a/src/sys.rs b/src/sys.rs
index a290631..4ab9481 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -153,7 +153,10 @@ pub fn mkstemp(template: &str) -> io::Result<(PathBuf, fd_t)> {
     let path = CString::new(template)?;
     let (fd, path) = unsafe {
         let ptr = path.into_raw();
-        (libc::mkstemp(ptr), CString::from_raw(ptr))
+        (
+            libc::mkostemp(ptr, libc::O_CLOEXEC),
+            CString::from_raw(ptr),
+        )
     };
     match fd {
         -1 => Err(io::Error::last_os_error()),
@@ -177,12 +180,12 @@ pub struct RWPair<T> {
     pub write: T,
 }
 
-/// Creates an anonymous pipe.
+/// Creates an anonymous pipe.  Both ends are close-on-exec.
 ///
 /// Returns the read and write file descriptors of the ends of the pipe.
 pub fn pipe() -> io::Result<RWPair<RawFd>> {
     let mut fildes: Vec<fd_t> = vec![-1, 2];
-    match unsafe { libc::pipe(fildes.as_mut_ptr()) } {
+    match unsafe { libc::pipe2(fildes.as_mut_ptr(), libc::O_CLOEXEC) } {
         -1 => Err(io::Error::last_os_error()),
         0 => Ok(RWPair {
             read: fildes[0],
-- 
2.43.0


From 88e3b9d0ed006de2bf55b1bf2493a5dfb2b60de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 06/61] fix: keep the manager's own fds apart from those being
 set up for a process, and don't let a process dup them

---
 src/err_pipe.rs |  7 +++++++
 src/fd.rs       | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 src/procs.rs    | 31 ++++++++++++++++++++++++++-----
 src/sys.rs      | 28 ++++++++++++++++++++++++++++
 4 files changed, 105 insertions(+), 6 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 3af3210..2c015c6 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -1,4 +1,5 @@
 use bytes::{BufMut, BytesMut};
+use std::collections::HashSet;
 use std::io;
 use std::os::fd::RawFd;
 use tokio::io::AsyncReadExt;
@@ -47,6 +48,12 @@ impl ErrorWriter {
         fdio::write(self.write_fd, &bytes)
     }
 
+    /// Moves the pipe off the fd numbers in `reserved`.
+    pub fn move_fd(&mut self, reserved: &HashSet<RawFd>) -> io::Result<()> {
+        self.write_fd = sys::move_fd(self.write_fd, reserved)?;
+        Ok(())
+    }
+
     /// Like [`write`], but ignores errors.
     pub fn try_write(&self, error: String) {
         _ = self.write(error);
diff --git a/src/fd.rs b/src/fd.rs
index 8abb461..3838d3f 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -1,7 +1,7 @@
 use libc::c_int;
 use log::*;
 use std::cell::RefCell;
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, HashSet};
 use std::os::fd::RawFd;
 use std::path::PathBuf;
 use std::rc::Rc;
@@ -404,6 +404,45 @@ impl SharedFdHandler {
         })
     }
 
+    /// Returns the fd from which the proc's fd is to be dup'ed, if any.
+    pub fn get_dup_fd(&self) -> Option<RawFd> {
+        match *self.0.borrow() {
+            FdHandler::Dup { dup_fd, .. } => Some(dup_fd),
+            _ => None,
+        }
+    }
+
+    /// Moves the fds we use ourselves off the numbers in `reserved`.
+    ///
+    /// To be called in the child process before any `in_child()`, with all the
+    /// fd numbers that appear in the proc's spec.  Otherwise, setting up one of
+    /// them could replace an fd that we still need, or vice versa.
+    pub fn move_fds(&self, reserved: &HashSet<RawFd>) -> Result<()> {
+        match *self.0.borrow_mut() {
+            FdHandler::UnlinkedFile {
+                ref mut file_fd, ..
+            } => *file_fd = sys::move_fd(*file_fd, reserved)?,
+            FdHandler::CaptureMemory {
+                ref mut read_fd,
+                ref mut write_fd,
+                ..
+            } => {
+                *read_fd = sys::move_fd(*read_fd, reserved)?;
+                *write_fd = sys::move_fd(*write_fd, reserved)?;
+            }
+            FdHandler::PipeWrite {
+                ref mut pipe_write_fd,
+                ..
+            } => *pipe_write_fd = sys::move_fd(*pipe_write_fd, reserved)?,
+            FdHandler::PipeRead {
+                ref mut pipe_read_fd,
+                ..
+            } => *pipe_read_fd = sys::move_fd(*pipe_read_fd, reserved)?,
+            _ => {}
+        }
+        Ok(())
+    }
+
     pub fn in_child(self) -> Result<()> {
         match Rc::into_inner(self.0).unwrap().into_inner() {
             FdHandler::Inherit => {}
@@ -415,6 +454,10 @@ impl SharedFdHandler {
             }
 
             FdHandler::Dup { fd, dup_fd } => {
+                if sys::fcntl_getfd(dup_fd)? & libc::FD_CLOEXEC != 0 {
+                    // This is one of our own fds; not available to the proc.
+                    return Err(std::io::Error::from_raw_os_error(libc::EBADF).into());
+                }
                 if dup_fd != fd {
                     sys::dup2(dup_fd, fd)?;
                 }
diff --git a/src/procs.rs b/src/procs.rs
index 0c78753..8a09f71 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -598,7 +598,14 @@ pub fn start_procs(
                 // In the child process.
 
                 // Set up to write errors, if any, back to the parent.
-                let error_writer = error_pipe.in_child().unwrap();
+                let mut error_writer = error_pipe.in_child().unwrap();
+                // Keep our own fds clear of those the process will use.
+                let reserved = fd_handlers
+                    .iter()
+                    .flat_map(|(fd, fd_handler)| [Some(*fd), fd_handler.get_dup_fd()])
+                    .flatten()
+                    .collect::<HashSet<_>>();
+                let moved = error_writer.move_fd(&reserved);
                 // However we leave this block, the child process ends.
                 let child_exit = ChildExit {
                     error_writer: &error_writer,
@@ -606,6 +613,11 @@ pub fn start_procs(
                 // True if we should finally exec.
                 let mut ok_to_exec = true;
 
+                if let Err(err) = moved {
+                    error_writer.try_write(format!("failed to move error pipe: {}", err));
+                    ok_to_exec = false;
+                }
+
                 // If a restricted executable is set, make sure ours matches.
                 if let Some(restricted_exe) = RESTRICTED_EXE.read().unwrap().as_ref() {
                     if exe != *restricted_exe {
@@ -615,14 +627,23 @@ pub fn start_procs(
                     }
                 }
 
-                for (fd, fd_handler) in fd_handlers.into_iter() {
-                    fd_handler.in_child().unwrap_or_else(|err| {
+                // Close pipe ends that belong to other processes.
+                pipes.close().unwrap();
+
+                for (fd, fd_handler) in fd_handlers.iter() {
+                    fd_handler.move_fds(&reserved).unwrap_or_else(|err| {
                         error_writer.try_write(format!("failed to set up fd {}: {}", fd, err));
                         ok_to_exec = false;
                     });
                 }
-                // Close remaining pipes, having dup'ed those we connect to.
-                pipes.close().unwrap();
+                if ok_to_exec {
+                    for (fd, fd_handler) in fd_handlers.into_iter() {
+                        fd_handler.in_child().unwrap_or_else(|err| {
+                            error_writer.try_write(format!("failed to set up fd {}: {}", fd, err));
+                            ok_to_exec = false;
+                        });
+                    }
+                }
 
                 // Put the child process into a new session, to avoid
                 // getting signals from the parent process group.
diff --git a/src/sys.rs b/src/sys.rs
index 4ab9481..58cbfa6 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -1,6 +1,7 @@
 extern crate libc;
 
 use libc::{c_int, gid_t, pid_t, rusage, ssize_t, uid_t};
+use std::collections::HashSet;
 use std::ffi::CString;
 use std::fs;
 use std::io;
@@ -318,6 +319,33 @@ pub fn fcntl_setfd(fd: RawFd, flags: i32) -> io::Result<()> {
     }
 }
 
+/// Duplicates `fd` to the lowest available fd not less than `min_fd`.  The new
+/// fd is close-on-exec.
+pub fn fcntl_dupfd_cloexec(fd: RawFd, min_fd: RawFd) -> io::Result<RawFd> {
+    match unsafe { libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, min_fd) } {
+        -1 => Err(io::Error::last_os_error()),
+        new_fd => Ok(new_fd),
+    }
+}
+
+/// Moves `fd` to another number, if necessary, so that it isn't in `reserved`.
+pub fn move_fd(fd: RawFd, reserved: &HashSet<RawFd>) -> io::Result<RawFd> {
+    if !reserved.contains(&fd) {
+        return Ok(fd);
+    }
+    let mut min_fd = 0;
+    loop {
+        let new_fd = fcntl_dupfd_cloexec(fd, min_fd)?;
+        if reserved.contains(&new_fd) {
+            close(new_fd)?;
+            min_fd = new_fd + 1;
+        } else {
+            close(fd)?;
+            return Ok(new_fd);
+        }
+    }
+}
+
 pub fn set_cloexec(fd: RawFd) -> io::Result<()> {
     let flags = fcntl_getfd(fd)?;
     return if flags & libc::FD_CLOEXEC == 0 {
-- 
2.43.0


From bc86d8315d190644c2cb00088af8f1ab55876236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 07/61] fix: read captured output without moving the file
 position shared with the process or closing the fd on error

---
 src/sys.rs | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index 58cbfa6..374c19a 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -5,10 +5,10 @@ use std::collections::HashSet;
 use std::ffi::CString;
 use std::fs;
 use std::io;
-use std::io::{Read, Seek};
-use std::mem::MaybeUninit;
-use std::os::fd::{FromRawFd, IntoRawFd, RawFd};
+use std::mem::{ManuallyDrop, MaybeUninit};
+use std::os::fd::{FromRawFd, RawFd};
 use std::os::unix::ffi::OsStrExt;
+use std::os::unix::fs::FileExt;
 use std::path::{Path, PathBuf};
 use std::string::String;
 use std::vec::Vec;
@@ -207,24 +207,29 @@ pub fn read(fd: fd_t, buf: &mut [u8]) -> io::Result<usize> {
 /// Reads the contents of a file, starting from position `start`, until position
 /// `stop` or the end.
 pub fn read_from_file(fd: RawFd, start: u64, stop: Option<u64>) -> io::Result<Vec<u8>> {
-    // Wrap the fd in a file object, for convenience.  This takes ownership of the fd.
-    let mut file = unsafe { fs::File::from_raw_fd(fd) };
-    // Seek to front.
-    file.seek(std::io::SeekFrom::Start(start))?;
-    let buf = if let Some(stop) = stop {
-        // Read to indicated stop position.
-        let mut buf = vec![0; if start < stop { stop - start } else { 0 } as usize];
-        file.read_exact(&mut buf)?;
-        buf
-    } else {
-        // Read entire contents.
-        let mut buf = Vec::<u8>::new();
-        file.read_to_end(&mut buf)?;
-        buf
-    };
-
-    // Take back ownership of the fd.
-    assert!(file.into_raw_fd() == fd);
+    // Borrow the fd as a file object, for convenience.  Leave it open whatever
+    // happens.
+    let file = ManuallyDrop::new(unsafe { fs::File::from_raw_fd(fd) });
+    // Never read past the end.
+    let len = file.metadata()?.len();
+    let stop = stop.map_or(len, |stop| stop.min(len));
+    // Read at explicit offsets.  The file position is shared with the process
+    // writing to the file, so don't change it.
+    let size = stop.saturating_sub(start) as usize;
+    let mut buf = Vec::<u8>::new();
+    buf.try_reserve_exact(size)
+        .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
+    buf.resize(size, 0);
+    let mut count = 0;
+    while count < buf.len() {
+        match file.read_at(&mut buf[count..], start + count as u64) {
+            Ok(0) => break,
+            Ok(n) => count += n,
+            Err(err) if err.kind() == io::ErrorKind::Interrupted => {}
+            Err(err) => return Err(err),
+        }
+    }
+    buf.truncate(count);
     Ok(buf)
 }
 
-- 
2.43.0


From 71428c5feed3513a87910e43bc0638b334c7a2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 08/61] fix: clip the range of an fd data request to the
 available data, instead of panicking, and report the true range

---
 src/fd.rs    |  4 +++-
 src/proto.rs | 14 +++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/fd.rs b/src/fd.rs
index 3838d3f..cdb901e 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -523,7 +523,9 @@ impl SharedFdHandler {
             }),
 
             FdHandler::CaptureMemory { buf, encoding, .. } => {
-                let stop = stop.unwrap_or_else(|| buf.len());
+                // Clip to the available data.
+                let stop = stop.map_or(buf.len(), |stop| stop.min(buf.len()));
+                let start = start.min(stop);
                 Some(FdData {
                     data: buf[start..stop].to_vec(),
                     encoding: *encoding,
diff --git a/src/proto.rs b/src/proto.rs
index 8e7a107..cef2d4c 100644
--- a/src/proto.rs
+++ b/src/proto.rs
@@ -242,15 +242,19 @@ pub async fn handle_incoming(procs: &SharedProcs, msg: IncomingMessage) -> Optio
         } => match parse_fd(fd_name) {
             Ok(fd) => {
                 if let Some(proc) = procs.get(proc_id) {
-                    match proc
-                        .borrow()
-                        .get_fd_data(fd, start as usize, stop.map(|s| s as usize))
-                    {
+                    // There is no data at negative positions.
+                    let start = start.max(0);
+                    match proc.borrow().get_fd_data(
+                        fd,
+                        start as usize,
+                        stop.map(|s| s.max(0) as usize),
+                    ) {
                         Ok(Some(FdData { data, encoding })) => Some(OutgoingMessage::ProcFdData {
                             proc_id: proc_id.clone(),
                             fd: fd_name.clone(),
                             start,
-                            stop: stop.unwrap_or_else(|| start + (data.len() as i64)),
+                            // The true end of the data, which might be short.
+                            stop: start.saturating_add(data.len() as i64),
                             encoding,
                             data,
                         }),
-- 
2.43.0


From ebeabb4d72381256d26772808e99111c06838599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:50 +0000
Subject: [PATCH 09/61] fix: name every signal, including real-time signals,
 instead of panicking on the result of a process killed by one

---
 src/procinfo.rs |  2 +-
 src/res.rs      |  2 +-
 src/sig.rs      | 19 +++++++++++++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index c9f66d2..da3f82f 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -245,7 +245,7 @@ impl ProcStat {
         let exit_signal = if exit_signal == 0 {
             None
         } else {
-            Some(sig::get_abbrev(exit_signal).unwrap().to_owned())
+            Some(sig::get_name(exit_signal))
         };
         let processor = parts.next().unwrap().parse().unwrap();
         let rt_priority = parts.next().unwrap().parse().unwrap();
diff --git a/src/res.rs b/src/res.rs
index ac283a9..74b0aa8 100644
--- a/src/res.rs
+++ b/src/res.rs
@@ -183,7 +183,7 @@ impl Status {
                 (None, Some(libc::WTERMSIG(status)), libc::WCOREDUMP(status))
             }
         };
-        let signal = signum.map(|s| sig::get_abbrev(s).unwrap().to_owned());
+        let signal = signum.map(sig::get_name);
         Self {
             status,
             exit_code,
diff --git a/src/sig.rs b/src/sig.rs
index 9035714..fb7b012 100644
--- a/src/sig.rs
+++ b/src/sig.rs
@@ -41,6 +41,7 @@ lazy_static! {
             ("SIGPIPE"  , 13),
             ("SIGALRM"  , 14),
             ("SIGTERM"  , SIGTERM),
+            ("SIGSTKFLT", 16),
             ("SIGCHLD"  , 17),
             ("SIGCONT"  , 18),
             ("SIGSTOP"  , 19),
@@ -78,6 +79,24 @@ pub fn get_abbrev(signum: Signum) -> Option<&'static str> {
     SIGNAL_ABBREVS.get(&signum).as_deref().copied()
 }
 
+/// First real-time signal, as numbered in the C library.
+const SIGRTMIN: Signum = 34;
+/// Last real-time signal.
+const SIGRTMAX: Signum = 64;
+
+/// Returns a name for any signal number, including real-time signals.
+pub fn get_name(signum: Signum) -> String {
+    if let Some(abbrev) = get_abbrev(signum) {
+        abbrev.to_owned()
+    } else if signum == SIGRTMIN {
+        "SIGRTMIN".to_owned()
+    } else if SIGRTMIN < signum && signum <= SIGRTMAX {
+        format!("SIGRTMIN+{}", signum - SIGRTMIN)
+    } else {
+        format!("SIG{}", signum)
+    }
+}
+
 //------------------------------------------------------------------------------
 
 #[derive(Clone)]
-- 
2.43.0


From f687a76cfac0db541edb2194c91769604c61c3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 10/61] fix: parse /proc/pid/stat for any command name,
 including parentheses and invalid UTF-8

---
 src/procinfo.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index da3f82f..6874359 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -186,7 +186,8 @@ impl ProcStat {
         let pid = pid.parse::<pid_t>().unwrap();
 
         let (_, text) = text.split_once('(').unwrap();
-        let (comm, text) = text.split_once(')').unwrap();
+        // The comm may itself contain parentheses.
+        let (comm, text) = text.rsplit_once(')').unwrap();
         let comm = comm.to_owned();
         let text = text.trim();
 
@@ -319,8 +320,9 @@ impl ProcStat {
     /// Loads process status from /proc/{pid}/stat.
     pub fn load(pid: pid_t) -> Result<Self, std::io::Error> {
         let path = format!("/proc/{}/stat", pid);
-        let text = std::fs::read_to_string(path)?;
-        Ok(Self::parse(&text))
+        // The comm may contain any bytes.
+        let text = std::fs::read(path)?;
+        Ok(Self::parse(&String::from_utf8_lossy(&text)))
     }
 
     pub fn load_or_log(pid: pid_t) -> Option<Self> {
-- 
2.43.0


From 0e88f5880ff15ff9ffcaf1ce3ec8e2d515b80db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 11/61] fix: decode process signal masks with the right signal
 numbers

---
 src/procinfo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index 6874359..74c22b7 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -172,7 +172,8 @@ pub struct ProcStat {
 fn expand_sig_bitmap(bits: i32) -> Vec<String> {
     let mut abbrevs = Vec::new();
     for s in 1..sig::NSIG {
-        if bits & (1 << s) != 0 {
+        // Signal numbers start at 1, bit numbers at 0.
+        if bits & (1 << (s - 1)) != 0 {
             abbrevs.push(sig::get_abbrev(s).unwrap_or("???"));
         }
     }
-- 
2.43.0


From df57ca3274f0fc7def23b1ce04619d529ae240c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 12/61] fix: decode the minor device number of a process's
 terminal

---
 src/procinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index 74c22b7..2d8de64 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -201,7 +201,7 @@ impl ProcStat {
         let tty_nr = parts.next().unwrap().parse::<u32>().unwrap();
         let tty_nr = (
             ((tty_nr >> 8) & 0xff) as u16,
-            ((tty_nr >> 16) | (tty_nr & 0xff)) as u16,
+            (((tty_nr >> 12) & 0xfff00) | (tty_nr & 0xff)) as u16,
         );
         let tpgid = parts.next().unwrap();
         let tpgid = if tpgid == "-1" {
-- 
2.43.0


From 6fca7acef9717b9e962820f489721e6875f596e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 13/61] fix: start processes with the default SIGPIPE
 disposition, so a writer learns that its pipe's reader is gone

---
 src/procs.rs | 11 +++++++++--
 src/sig.rs   |  3 ++-
 src/sys.rs   |  8 ++++++++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index 8a09f71..0cd8de8 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -20,11 +20,11 @@ use crate::fd::{FdData, SharedFdHandler};
 use crate::procinfo::{ProcStat, ProcStatm};
 use crate::res;
 use crate::shutdown;
-use crate::sig::{SignalReceiver, SignalWatcher, Signum};
+use crate::sig::{SignalReceiver, SignalWatcher, Signum, SIGPIPE};
 use crate::spec;
 use crate::spec::ProcId;
 use crate::state::State;
-use crate::sys::{execve, fork, kill, setsid, wait, WaitInfo};
+use crate::sys::{execve, fork, kill, reset_signal, setsid, wait, WaitInfo};
 
 //------------------------------------------------------------------------------
 
@@ -652,6 +652,13 @@ pub fn start_procs(
                     ok_to_exec = false;
                 }
 
+                // The Rust runtime ignores SIGPIPE, and ignored signals remain so
+                // across exec.
+                if let Err(err) = reset_signal(SIGPIPE) {
+                    error_writer.try_write(format!("failed to reset SIGPIPE: {}", err));
+                    ok_to_exec = false;
+                }
+
                 if ok_to_exec {
                     // execve() only returns with an error; on success, the program is
                     // replaced.
diff --git a/src/sig.rs b/src/sig.rs
index fb7b012..3ee7129 100644
--- a/src/sig.rs
+++ b/src/sig.rs
@@ -19,6 +19,7 @@ pub const SIGQUIT: Signum = 3;
 pub const SIGKILL: Signum = 9;
 pub const SIGUSR1: Signum = 10;
 pub const SIGUSR2: Signum = 12;
+pub const SIGPIPE: Signum = 13;
 pub const SIGTERM: Signum = 15;
 
 #[rustfmt::skip]
@@ -38,7 +39,7 @@ lazy_static! {
             ("SIGUSR1"  , SIGUSR1),
             ("SIGSEGV"  , 11),
             ("SIGUSR2"  , SIGUSR2),
-            ("SIGPIPE"  , 13),
+            ("SIGPIPE"  , SIGPIPE),
             ("SIGALRM"  , 14),
             ("SIGTERM"  , SIGTERM),
             ("SIGSTKFLT", 16),
diff --git a/src/sys.rs b/src/sys.rs
index 374c19a..4dfce96 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -119,6 +119,14 @@ pub fn fork() -> io::Result<pid_t> {
     }
 }
 
+/// Resets a signal to its default disposition.
+pub fn reset_signal(signum: c_int) -> io::Result<()> {
+    match unsafe { libc::signal(signum, libc::SIG_DFL) } {
+        libc::SIG_ERR => Err(io::Error::last_os_error()),
+        _ => Ok(()),
+    }
+}
+
 pub fn getpid() -> pid_t {
     unsafe { libc::getpid() }
 }
-- 
2.43.0


From 4dbefa3ffc6e44bb04135e50be41a3c974f16c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 14/61] fix: never signal the pid of a process that has already
 been reaped

---
 src/procs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/procs.rs b/src/procs.rs
index 0cd8de8..7c3fc37 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -67,6 +67,10 @@ impl Proc {
     }
 
     pub fn send_signal(&self, signum: Signum) -> Result<(), Error> {
+        if self.wait_info.is_some() {
+            // Already reaped; the system may have reused the pid.
+            return Err(Error::NoProc);
+        }
         match kill(self.pid, signum) {
             Ok(()) => Ok(()),
             Err(err) if err.kind() == std::io::ErrorKind::NotFound => Err(Error::NoProc),
-- 
2.43.0


From 9ede5c9bcab39e4c1e917506828faac91747e3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 15/61] fix: don't lose a signal sent to a process before its
 exec to the handlers it inherits from the manager

---
 src/sys.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/sys.rs b/src/sys.rs
index 4dfce96..350ba20 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -109,16 +109,48 @@ pub fn execve(exe: String, args: Vec<String>, env: Env) -> io::Result<()> {
     Err(io::Error::last_os_error())
 }
 
+/// Forks.
+///
+/// Signal handlers don't run in the child process: signals it receives take
+/// their default action.
 pub fn fork() -> io::Result<pid_t> {
+    // Hold off signals until the child has removed the handlers it inherits;
+    // they would consume a signal meant for the child.
+    let mut all = MaybeUninit::<libc::sigset_t>::uninit();
+    let mut old = MaybeUninit::<libc::sigset_t>::uninit();
+    unsafe {
+        libc::sigfillset(all.as_mut_ptr());
+        libc::pthread_sigmask(libc::SIG_SETMASK, all.as_ptr(), old.as_mut_ptr());
+    }
     let child_pid = unsafe { libc::fork() };
+    let err = io::Error::last_os_error();
+    if child_pid == 0 {
+        reset_signal_handlers();
+    }
+    unsafe { libc::pthread_sigmask(libc::SIG_SETMASK, old.as_ptr(), std::ptr::null_mut()) };
     assert!(child_pid >= -1);
     match child_pid {
-        -1 => Err(io::Error::last_os_error()),
+        -1 => Err(err),
         _ if child_pid >= 0 => Ok(child_pid),
         _ => panic!("fork returned {}", child_pid),
     }
 }
 
+/// Resets all signals with handlers to their default dispositions.
+fn reset_signal_handlers() {
+    for signum in 1..=libc::SIGRTMAX() {
+        unsafe {
+            let mut act = MaybeUninit::<libc::sigaction>::uninit();
+            if libc::sigaction(signum, std::ptr::null(), act.as_mut_ptr()) == 0 {
+                let handler = act.assume_init().sa_sigaction;
+                if handler != libc::SIG_DFL && handler != libc::SIG_IGN {
+                    libc::signal(signum, libc::SIG_DFL);
+                }
+            }
+        }
+    }
+}
+
 /// Resets a signal to its default disposition.
 pub fn reset_signal(signum: c_int) -> io::Result<()> {
     match unsafe { libc::signal(signum, libc::SIG_DFL) } {
-- 
2.43.0


From 4744bdd3b4f2a8e2ec7aeb92ae9b3e8f1c6256af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 16/61] fix: queue notifications without limit, instead of
 panicking when a subscriber falls behind

---
 src/procs.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index 7c3fc37..faba291 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -8,8 +8,7 @@ use std::os::fd::RawFd;
 use std::rc::Rc;
 use std::sync::RwLock;
 use std::time::{Duration, Instant};
-use tokio::sync::broadcast;
-use tokio::sync::broadcast::error::RecvError;
+use tokio::sync::mpsc;
 use tokio::sync::watch;
 
 use crate::environ;
@@ -208,8 +207,9 @@ pub enum Notification {
     ShutDown(shutdown::State),
 }
 
-type NotificationSender = broadcast::Sender<Notification>;
-type NotificationReceiver = broadcast::Receiver<Notification>;
+// Unbounded: a subscriber must not miss notifications while it is busy.
+type NotificationSender = mpsc::UnboundedSender<Notification>;
+type NotificationReceiver = mpsc::UnboundedReceiver<Notification>;
 
 pub struct NotificationSub {
     receiver: NotificationReceiver,
@@ -217,11 +217,7 @@ pub struct NotificationSub {
 
 impl NotificationSub {
     pub async fn recv(&mut self) -> Option<Notification> {
-        match self.receiver.recv().await {
-            Ok(noti) => Some(noti),
-            Err(RecvError::Closed) => None,
-            Err(RecvError::Lagged(i)) => panic!("notification subscriber lagging: {}", i),
-        }
+        self.receiver.recv().await
     }
 }
 
@@ -232,7 +228,7 @@ pub struct Procs {
     procs: BTreeMap<ProcId, SharedProc>,
 
     /// Notification subscriptions.
-    subs: NotificationSender,
+    subs: Vec<NotificationSender>,
 
     /// Shutdown notification channel.
     // FIXME: Use CancellationToken instead?
@@ -247,10 +243,9 @@ pub struct SharedProcs(Rc<RefCell<Procs>>);
 
 impl SharedProcs {
     pub fn new() -> SharedProcs {
-        let (sender, _receiver) = broadcast::channel(1024);
         SharedProcs(Rc::new(RefCell::new(Procs {
             procs: BTreeMap::new(),
-            subs: sender,
+            subs: Vec::new(),
             shutdown: watch::channel(shutdown::State::Active),
         })))
     }
@@ -364,16 +359,17 @@ impl SharedProcs {
     }
 
     pub fn subscribe(&self) -> NotificationSub {
-        NotificationSub {
-            receiver: self.0.borrow().subs.subscribe(),
-        }
+        let (sender, receiver) = mpsc::unbounded_channel();
+        self.0.borrow_mut().subs.push(sender);
+        NotificationSub { receiver }
     }
 
     fn notify(&self, noti: Notification) {
-        let s = self.0.borrow();
-        if s.subs.receiver_count() > 0 {
-            s.subs.send(noti).unwrap();
-        }
+        // Send to each subscriber, dropping any that are gone.
+        self.0
+            .borrow_mut()
+            .subs
+            .retain(|sub| sub.send(noti.clone()).is_ok());
     }
 
     /// Sends a signal to all running procs.
-- 
2.43.0


From 2ead69e4f17458f50e3df5a94b43e998c18e891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 17/61] fix: report to the agent server what happens between
 registering and being registered

---
 src/agent.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/agent.rs b/src/agent.rs
index c5c3699..d04ade4 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -13,7 +13,7 @@ use url::Url;
 use crate::err::Error;
 use crate::net::{get_access_token, get_tls_connector};
 use crate::procinfo::ProcessInfo;
-use crate::procs::{get_restricted_exe, Notification, SharedProcs};
+use crate::procs::{get_restricted_exe, Notification, NotificationSub, SharedProcs};
 use crate::proto;
 use crate::proto::{ConnectionInfo, IncomingMessage, OutgoingMessage};
 use crate::shutdown;
@@ -99,12 +99,15 @@ async fn send(sender: &mut SocketSender, msg: OutgoingMessage) -> Result<(), Err
 async fn connect(
     connection: &mut Connection,
     procs: &SharedProcs,
-) -> Result<(SocketSender, SocketReceiver), Error> {
+) -> Result<(SocketSender, SocketReceiver, NotificationSub), Error> {
     let connector = Connector::NativeTls(get_tls_connector()?);
     let (ws_stream, _) =
         connect_async_tls_with_config(&connection.url, None, false, Some(connector)).await?;
     let (mut sender, mut receiver) = ws_stream.split();
 
+    // Subscribe to everything that happens after the state we register.
+    let sub = procs.subscribe();
+
     // Send a register message.
     let register = OutgoingMessage::Register {
         conn: connection.conn.clone(),
@@ -119,7 +122,7 @@ async fn connect(
     let msg = receiver.next().await;
     match msg {
         Some(Ok(Message::Binary(ref data))) => match deserialize(data)? {
-            IncomingMessage::Registered => Ok((sender, receiver)),
+            IncomingMessage::Registered => Ok((sender, receiver, sub)),
             _msg => Err(proto::Error::UnexpectedMessage(_msg))?,
         },
         Some(Ok(Message::Close(_))) => Err(proto::Error::WrongMessageType(
@@ -210,11 +213,11 @@ pub async fn run(
 
         // (Re)connect to the service.
         info!("agent connecting: {}", connection.url);
-        let (mut sender, mut receiver) = match connect(&mut connection, &procs).await
+        let (mut sender, mut receiver, mut sub) = match connect(&mut connection, &procs).await
         {
-            Ok(pair) => {
+            Ok(connected) => {
                 info!("agent connected: {}", connection.url);
-                pair
+                connected
             }
             Err(err) => {
                 warn!("agent connection failed: {}: {}", connection.url, err);
@@ -243,8 +246,6 @@ pub async fn run(
         interval = cfg.interval_start;
         count = 0;
 
-        let mut sub = procs.subscribe();
-
         // Simultaneously wait for an incoming websocket message or a
         // notification, dispatching either.  Also watch for shutdown.
         while !done {
-- 
2.43.0


From 527603bdcf59f4aa68b19ea9e9538a04459eea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:02 +0000
Subject: [PATCH 18/61] fix: don't let an agent's connection attempt, retry
 interval or blocked send hold up its shutdown

---
 src/agent.rs | 11 +++++++++--
 src/main.rs  | 10 ++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/agent.rs b/src/agent.rs
index d04ade4..701fbeb 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -213,7 +213,11 @@ pub async fn run(
 
         // (Re)connect to the service.
         info!("agent connecting: {}", connection.url);
-        let (mut sender, mut receiver, mut sub) = match connect(&mut connection, &procs).await
+        let connected = tokio::select! {
+            res = connect(&mut connection, &procs) => res,
+            _ = procs.wait_for_shutdown() => break,
+        };
+        let (mut sender, mut receiver, mut sub) = match connected
         {
             Ok(connected) => {
                 info!("agent connected: {}", connection.url);
@@ -228,7 +232,10 @@ pub async fn run(
                 }
 
                 // Take a break.
-                sleep(interval).await;
+                tokio::select! {
+                    _ = sleep(interval) => {},
+                    _ = procs.wait_for_shutdown() => break,
+                }
 
                 // Exponential backoff in interval.
                 interval = interval.mul_f64(cfg.interval_mult);
diff --git a/src/main.rs b/src/main.rs
index fdfa3e7..6f28689 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -16,6 +16,9 @@ use procstar::spec;
 
 //------------------------------------------------------------------------------
 
+/// How long to wait at shutdown for the agent connection to finish sending.
+const AGENT_STOP_TIMEOUT: std::time::Duration = std::time::Duration::from_secs(5);
+
 async fn maybe_run_http(args: &argv::Args, procs: &SharedProcs) {
     if args.serve {
         // Run the HTTP server until we receive a shutdown signal.
@@ -49,8 +52,11 @@ async fn maybe_run_agent(args: &argv::Args, procs: &SharedProcs) {
         tokio::select! {
             _ = &mut run => {},
             _ = procs.wait_for_shutdown() => {
-                // Make sure the connection loop completes too.
-                run.await;
+                // Make sure the connection loop completes too, but don't let
+                // an unresponsive server hold us up.
+                if tokio::time::timeout(AGENT_STOP_TIMEOUT, run).await.is_err() {
+                    warn!("agent connection did not stop");
+                }
             },
         }
     }
-- 
2.43.0


From 353325077fbc38cdfe1c3bdd24cb56c97f5a923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 19/61] fix: keep serving HTTP after failing to accept a
 connection

---
 src/http.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 9bed9fc..7695da4 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -230,6 +230,9 @@ impl Router {
 
 //------------------------------------------------------------------------------
 
+/// How long to wait after failing to accept a connection.
+const ACCEPT_RETRY_INTERVAL: std::time::Duration = std::time::Duration::from_millis(50);
+
 /// Runs the HTTP service.
 pub async fn run_http(procs: SharedProcs, port: u16) -> Result<(), Box<dyn std::error::Error>> {
     let addr: std::net::SocketAddr = ([127, 0, 0, 1], port).into();
@@ -243,7 +246,16 @@ pub async fn run_http(procs: SharedProcs, port: u16) -> Result<(), Box<dyn std::
     let router = Rc::new(Router::new());
 
     loop {
-        let (stream, _) = listener.accept().await?;
+        let (stream, _) = match listener.accept().await {
+            Ok(accepted) => accepted,
+            Err(err) => {
+                // The client might be gone already, or we might be out of fds
+                // for now.  Neither is a reason to stop serving.
+                error!("failed to accept connection: {}", err);
+                tokio::time::sleep(ACCEPT_RETRY_INTERVAL).await;
+                continue;
+            }
+        };
         let procs = procs.clone();
         let router = router.clone();
 
-- 
2.43.0


From 0b69369eb2c2f7359e67e40db26e71ca6e707127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 20/61] fix: don't write HTTP connection errors to standard
 output among the results

---
 src/http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 7695da4..b855f48 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -274,7 +274,8 @@ pub async fn run_http(procs: SharedProcs, port: u16) -> Result<(), Box<dyn std::
                 .serve_connection(stream, service)
                 .await
             {
-                println!("Error serving connection: {:?}", err);
+                // Stdout is for results.
+                error!("error serving connection: {:?}", err);
             }
         });
     }
-- 
2.43.0


From e73f5d9d816d69f708e982876c353a4a1593ec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 21/61] fix: decode percent-encoded characters in HTTP paths,
 so that every proc ID can be addressed

---
 src/http.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index b855f48..23ffbd1 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -4,6 +4,7 @@ use hyper::header::HeaderValue;
 use hyper::{Method, Request, Response, StatusCode};
 use log::*;
 use serde_json::json;
+use std::collections::HashMap;
 use std::rc::Rc;
 
 use crate::err::Error;
@@ -155,6 +156,28 @@ async fn procs_output_data_get(procs: SharedProcs, proc_id: &str, fd: &str) -> R
 
 //------------------------------------------------------------------------------
 
+/// Decodes percent-encoded bytes in a path segment.  Returns none if the result
+/// is not UTF-8.
+fn percent_decode(segment: &str) -> Option<String> {
+    let bytes = segment.as_bytes();
+    let hex = |i: usize| bytes.get(i).and_then(|&b| (b as char).to_digit(16));
+    let mut decoded = Vec::with_capacity(bytes.len());
+    let mut i = 0;
+    while i < bytes.len() {
+        match (bytes[i], hex(i + 1), hex(i + 2)) {
+            (b'%', Some(hi), Some(lo)) => {
+                decoded.push((hi * 16 + lo) as u8);
+                i += 3;
+            }
+            (byte, _, _) => {
+                decoded.push(byte);
+                i += 1;
+            }
+        }
+    }
+    String::from_utf8(decoded).ok()
+}
+
 struct Router {
     router: matchit::Router<i32>,
 }
@@ -195,7 +218,15 @@ impl Router {
         let (parts, body) = req.into_parts();
         match self.router.at(parts.uri.path()) {
             Ok(m) => {
-                let param = |p| m.params.get(p).unwrap();
+                let mut params = HashMap::new();
+                for (name, value) in m.params.iter() {
+                    match percent_decode(value) {
+                        Some(value) => params.insert(name, value),
+                        // Not UTF-8, so it can't name anything.
+                        None => return json_response(Err(RspError(StatusCode::NOT_FOUND, None))),
+                    };
+                }
+                let param = |p| params[p].as_str();
                 match (m.value, parts.method.clone()) {
                     // Match route numbers obtained from the matchit router, and
                     // methods.
-- 
2.43.0


From 912a949623ee98c47bf7284c07f8010e58d75763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 22/61] fix: allow closing an fd that isn't open

---
 src/fd.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fd.rs b/src/fd.rs
index cdb901e..ff0af9a 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -449,9 +449,11 @@ impl SharedFdHandler {
 
             FdHandler::Error { ref mut err } => return Err(std::mem::replace(err, Error::None)),
 
-            FdHandler::Close { fd } => {
-                sys::close(fd)?;
-            }
+            FdHandler::Close { fd } => match sys::close(fd) {
+                // Not open anyway.
+                Err(err) if err.raw_os_error() == Some(libc::EBADF) => {}
+                res => res?,
+            },
 
             FdHandler::Dup { fd, dup_fd } => {
                 if sys::fcntl_getfd(dup_fd)? & libc::FD_CLOEXEC != 0 {
-- 
2.43.0


From e369972829d301f9e12b3c0c256cc8d968c56bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 23/61] fix: never show a process that failed to start as
 terminated before its errors are known

---
 src/procs.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index faba291..c9f134d 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -480,20 +480,14 @@ async fn wait_for_proc(proc: SharedProc, mut sigchld_receiver: SignalReceiver) {
 
 /// Runs a recently-forked/execed process.
 async fn run_proc(proc: SharedProc, sigchld_receiver: SignalReceiver, error_pipe: ErrorPipe) {
-    // FIXME: Error pipe should append directly to errors, so that they are
-    // available earlier.
-    let error_task = {
-        let proc = Rc::clone(&proc);
-        tokio::task::spawn_local(async move {
-            let mut errors = error_pipe.in_parent().await;
-            proc.borrow_mut().errors.append(&mut errors);
-        })
-    };
-
-    let wait_task = tokio::task::spawn_local(wait_for_proc(proc, sigchld_receiver));
-
-    _ = error_task.await;
-    _ = wait_task.await;
+    // The error pipe closes when the process execs, or else when it ends.
+    let mut errors = error_pipe.in_parent().await;
+
+    wait_for_proc(Rc::clone(&proc), sigchld_receiver).await;
+
+    // Set errors together with termination, so that a process that didn't exec
+    // never appears to have terminated.
+    proc.borrow_mut().errors.append(&mut errors);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From c63112805effeb62329a3649c695264a9e2974e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 24/61] fix: close the error pipe's write end before forking
 another process, which could hold it open

---
 src/err_pipe.rs | 14 +++++++++-----
 src/procs.rs    | 14 +++++++++++---
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 2c015c6..ee02d26 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -1,5 +1,6 @@
 use bytes::{BufMut, BytesMut};
 use std::collections::HashSet;
+use std::future::Future;
 use std::io;
 use std::os::fd::RawFd;
 use tokio::io::AsyncReadExt;
@@ -106,17 +107,20 @@ impl ErrorPipe {
         errors
     }
 
-    pub async fn in_parent(self) -> Vec<String> {
+    pub fn in_parent(self) -> impl Future<Output = Vec<String>> {
         let ErrorPipe { read_fd, write_fd } = self;
 
         // Close the write pipe.  This is necessary so that we see EOF on the
         // read pipe once the child process closes the other open read fd,
-        // usually when it exec's.
+        // usually when it exec's.  Do it right away, not when the future runs,
+        // so that a process forked until then doesn't hold it open.
         sys::close(write_fd).unwrap();
 
-        // Wrap the read pipe for async.
-        let read_pipe = PipeRead::from_raw_fd_checked(read_fd).unwrap();
-        ErrorPipe::get_errors(read_pipe).await
+        async move {
+            // Wrap the read pipe for async.
+            let read_pipe = PipeRead::from_raw_fd_checked(read_fd).unwrap();
+            ErrorPipe::get_errors(read_pipe).await
+        }
     }
 
     /// To be called immediatley after `fork()` in the child process.  This is
diff --git a/src/procs.rs b/src/procs.rs
index c9f134d..0d97a96 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -4,6 +4,7 @@ use libc::pid_t;
 use log::*;
 use std::cell::RefCell;
 use std::collections::{BTreeMap, HashSet};
+use std::future::Future;
 use std::os::fd::RawFd;
 use std::rc::Rc;
 use std::sync::RwLock;
@@ -479,9 +480,13 @@ async fn wait_for_proc(proc: SharedProc, mut sigchld_receiver: SignalReceiver) {
 }
 
 /// Runs a recently-forked/execed process.
-async fn run_proc(proc: SharedProc, sigchld_receiver: SignalReceiver, error_pipe: ErrorPipe) {
+async fn run_proc(
+    proc: SharedProc,
+    sigchld_receiver: SignalReceiver,
+    errors: impl Future<Output = Vec<String>>,
+) {
     // The error pipe closes when the process execs, or else when it ends.
-    let mut errors = error_pipe.in_parent().await;
+    let mut errors = errors.await;
 
     wait_for_proc(Rc::clone(&proc), sigchld_receiver).await;
 
@@ -670,6 +675,9 @@ pub fn start_procs(
                 let start_time = Utc::now();
                 let start_instant = Instant::now();
 
+                // Collect errors from the child process.
+                let errors = error_pipe.in_parent();
+
                 // FIXME: What do we do with these tasks?  We should await them later.
                 let mut fd_errs: Vec<String> = Vec::new();
                 let _fd_handler_tasks = fd_handlers
@@ -695,7 +703,7 @@ pub fn start_procs(
                 procs.insert(proc_id.clone(), proc.clone());
 
                 // Build the task that awaits the process.
-                let fut = run_proc(proc, sigchld_receiver.clone(), error_pipe);
+                let fut = run_proc(proc, sigchld_receiver.clone(), errors);
                 // Let subscribers know when it terminates.
                 let fut = {
                     let procs = procs.clone();
-- 
2.43.0


From 553f99fa4f73beb7edf8315ca3b62a8378ba3008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 25/61] fix: pass on environment variables that aren't UTF-8,
 instead of panicking

---
 src/environ.rs | 29 ++++++++++++++++++++---------
 src/net.rs     | 16 +++-------------
 src/procs.rs   |  2 +-
 src/sys.rs     | 12 +++++-------
 4 files changed, 29 insertions(+), 30 deletions(-)

diff --git a/src/environ.rs b/src/environ.rs
index 31c11f6..5e70389 100644
--- a/src/environ.rs
+++ b/src/environ.rs
@@ -1,11 +1,14 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, HashSet};
+use std::ffi::OsString;
+use std::hash::Hash;
 use std::vec::Vec;
 
 use crate::spec;
 
 //------------------------------------------------------------------------------
 
-pub type Env = BTreeMap<String, String>;
+/// Names and values of env vars, which aren't necessarily UTF-8.
+pub type Env = BTreeMap<OsString, OsString>;
 
 lazy_static! {
     /// Env vars that are not inherited.
@@ -18,20 +21,28 @@ lazy_static! {
     };
 }
 
-pub fn build<I: Iterator<Item = (String, String)>>(start_env: I, spec: &spec::Env) -> Env {
-    let mut env: Env = match &spec.inherit {
-        spec::EnvInherit::None => Env::new(),
+pub fn build<S, I>(start_env: I, spec: &spec::Env) -> BTreeMap<S, S>
+where
+    S: From<String> + Hash + Ord,
+    I: Iterator<Item = (S, S)>,
+{
+    let mut env: BTreeMap<S, S> = match &spec.inherit {
+        spec::EnvInherit::None => BTreeMap::new(),
         spec::EnvInherit::All => start_env.collect(),
-        spec::EnvInherit::Vars(vars) => start_env.filter(|(v, _)| vars.contains(v)).collect(),
+        spec::EnvInherit::Vars(vars) => {
+            let vars: HashSet<S> = vars.iter().map(|v| S::from(v.to_owned())).collect();
+            start_env.filter(|(v, _)| vars.contains(v)).collect()
+        }
     };
     for k in EXCLUSIONS.iter() {
-        _ = env.remove(*k);
+        _ = env.remove(&S::from(k.to_string()));
     }
     for (k, v) in spec.vars.iter() {
+        let k = S::from(k.to_owned());
         if let Some(v) = v {
-            env.insert(k.to_owned(), v.to_owned());
+            env.insert(k, S::from(v.to_owned()));
         } else {
-            _ = env.remove(k);
+            _ = env.remove(&k);
         }
     }
     env
diff --git a/src/net.rs b/src/net.rs
index 63a6d12..1323c6d 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -7,10 +7,7 @@ use crate::err::Error;
 pub fn get_tls_connector() -> Result<TlsConnector, Error> {
     let mut builder = native_tls::TlsConnector::builder();
 
-    if let Some((_, cert_path)) = std::env::vars()
-        .filter(|(n, _)| n == "PROCSTAR_AGENT_CERT")
-        .next()
-    {
+    if let Some(cert_path) = std::env::var_os("PROCSTAR_AGENT_CERT") {
         let cert = std::fs::read_to_string(cert_path)?;
         let cert = native_tls::Certificate::from_pem(&cert.as_bytes())?;
         builder.add_root_certificate(cert);
@@ -20,13 +17,6 @@ pub fn get_tls_connector() -> Result<TlsConnector, Error> {
 }
 
 pub fn get_access_token() -> String {
-    if let Some((_, token)) = std::env::vars()
-        .filter(|(n, _)| n == "PROCSTAR_AGENT_TOKEN")
-        .next()
-    {
-        token
-    } else {
-        // No token is equivalent to the empty string.
-        String::new()
-    }
+    // No token is equivalent to the empty string.
+    std::env::var("PROCSTAR_AGENT_TOKEN").unwrap_or_default()
 }
diff --git a/src/procs.rs b/src/procs.rs
index 0d97a96..ebda755 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -579,7 +579,7 @@ pub fn start_procs(
             ..
         } = spec;
         let exe = get_exe(exe, &argv);
-        let env = environ::build(std::env::vars(), &env);
+        let env = environ::build(std::env::vars_os(), &env);
 
         let error_pipe = ErrorPipe::new().unwrap_or_else(|err| {
             error!("failed to create pipe: {}", err);
diff --git a/src/sys.rs b/src/sys.rs
index 350ba20..9eba8bf 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -44,7 +44,8 @@ impl CStringVec {
     /// Fails if a string contains a nul byte.
     fn new<T>(strings: T) -> io::Result<Self>
     where
-        T: IntoIterator<Item = String>,
+        T: IntoIterator,
+        T::Item: Into<Vec<u8>>,
     {
         // Build nul-terminated strings.
         let strs = strings
@@ -95,9 +96,9 @@ pub fn execv(exe: String, args: Vec<String>) -> io::Result<()> {
 
 pub fn execve(exe: String, args: Vec<String>, env: Env) -> io::Result<()> {
     // Construct NAME=val strings for env vars.
-    let env: Vec<String> = env
+    let env: Vec<Vec<u8>> = env
         .into_iter()
-        .map(|(n, v)| format!("{}={}", n, v))
+        .map(|(n, v)| [n.as_bytes(), b"=", v.as_bytes()].concat())
         .collect();
 
     let exe = CString::new(exe)?;
@@ -508,8 +509,5 @@ lazy_static! {
 
 /// Returns the value of an environment variable.
 pub fn getenv(name: &str) -> Option<String> {
-    std::env::vars()
-        .filter(|(n, _)| n == name)
-        .next()
-        .map(|(_, v)| v)
+    std::env::var(name).ok()
 }
-- 
2.43.0


From 81bef324a7dafa5f313ace41f906c5124113796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:47 +0000
Subject: [PATCH 26/61] fix: don't drop the agent connection on an unexpected
 pong or text message

---
 src/agent.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/agent.rs b/src/agent.rs
index 701fbeb..5ebbf62 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -81,11 +81,14 @@ async fn handle(procs: &SharedProcs, msg: Message) -> Result<Option<Message>, Er
             }
         }
         Message::Ping(payload) => Ok(Some(Message::Pong(payload))),
+        // A pong needn't be in response to anything.
+        Message::Pong(_) => Ok(None),
         Message::Close(_) => Err(Error::from(proto::Error::Close)),
-        _ => Err(Error::from(proto::Error::WrongMessageType(format!(
-            "unexpected ws msg: {:?}",
-            msg
-        )))),
+        _ => {
+            // Not a message we understand; like one that doesn't decode.
+            error!("< unexpected ws msg: {:?}", msg);
+            Ok(None)
+        }
     }
 }
 
@@ -119,7 +122,12 @@ async fn connect(
     send(&mut sender, register).await?;
 
     // The first message we received should be Registered.
-    let msg = receiver.next().await;
+    let msg = loop {
+        match receiver.next().await {
+            Some(Ok(Message::Ping(_))) | Some(Ok(Message::Pong(_))) => {}
+            msg => break msg,
+        }
+    };
     match msg {
         Some(Ok(Message::Binary(ref data))) => match deserialize(data)? {
             IncomingMessage::Registered => Ok((sender, receiver, sub)),
-- 
2.43.0


From ed4ca9496cbb4741189bb55763c2e5238c1ac519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 27/61] fix: include in the result of a terminated process all
 the output it wrote before it ended

---
 src/fd.rs    | 59 ++++++++++++++++++++++++++++++++++++++++++++--------
 src/procs.rs |  5 +++++
 src/sys.rs   |  9 ++++++++
 3 files changed, 64 insertions(+), 9 deletions(-)

diff --git a/src/fd.rs b/src/fd.rs
index ff0af9a..c89c3e6 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -2,6 +2,7 @@ use libc::c_int;
 use log::*;
 use std::cell::RefCell;
 use std::collections::{BTreeMap, HashSet};
+use std::io::ErrorKind;
 use std::os::fd::RawFd;
 use std::path::PathBuf;
 use std::rc::Rc;
@@ -116,7 +117,7 @@ pub enum FdHandler {
     CaptureMemory {
         /// Proc-visible fd.
         fd: RawFd,
-        /// Read end of the pipe.
+        /// Read end of the pipe; -1 once at EOF and closed.
         read_fd: RawFd,
         /// Write end of the pipe.
         write_fd: RawFd,
@@ -353,15 +354,55 @@ impl SharedFdHandler {
         loop {
             // Don't hold a ref to the handler object across await, so `buf` is
             // accessible elsewhere.
-            let len = read_pipe.read(&mut read_buf).await?;
-            if len == 0 {
-                break;
+            let res = read_pipe.read(&mut read_buf).await;
+            if let &mut FdHandler::CaptureMemory {
+                ref mut buf,
+                ref mut read_fd,
+                ..
+            } = &mut *rc.borrow_mut()
+            {
+                match res {
+                    Ok(len) if len > 0 => buf.extend_from_slice(&read_buf[..len]),
+                    _ => {
+                        // We're about to close the pipe.
+                        *read_fd = -1;
+                        res?;
+                        break;
+                    }
+                }
             } else {
-                if let &mut FdHandler::CaptureMemory { ref mut buf, .. } = &mut *rc.borrow_mut() {
-                    buf.extend_from_slice(&read_buf[..len]);
-                } else {
-                    panic!();
-                };
+                panic!();
+            };
+        }
+        Ok(())
+    }
+
+    /// Reads into the buffer whatever is in the pipe right now.
+    ///
+    /// When the proc has terminated, this completes its output, even if the
+    /// async task hasn't gotten to it yet.  We don't wait for EOF, as other
+    /// processes may hold the pipe open.
+    pub fn drain(&self) -> Result<()> {
+        if let FdHandler::CaptureMemory {
+            read_fd,
+            ref mut buf,
+            ..
+        } = *self.0.borrow_mut()
+        {
+            if read_fd != -1 {
+                let mut data = vec![0; sys::get_available(read_fd)?];
+                let mut remaining = &mut data[..];
+                while !remaining.is_empty() {
+                    match sys::read(read_fd, remaining) {
+                        Ok(0) => break,
+                        Ok(len) => {
+                            buf.extend_from_slice(&remaining[..len]);
+                            remaining = &mut remaining[len..];
+                        }
+                        Err(err) if err.kind() == ErrorKind::Interrupted => {}
+                        Err(err) => return Err(err.into()),
+                    }
+                }
             }
         }
         Ok(())
diff --git a/src/procs.rs b/src/procs.rs
index ebda755..90337a1 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -469,6 +469,11 @@ async fn wait_for_proc(proc: SharedProc, mut sigchld_receiver: SignalReceiver) {
 
             // Process terminated; update its stuff.
             let mut proc = proc.borrow_mut();
+            for (fd, fd_handler) in proc.fd_handlers.iter() {
+                if let Err(err) = fd_handler.drain() {
+                    error!("failed to read remaining output: {} fd {}: {}", pid, fd, err);
+                }
+            }
             assert!(proc.wait_info.is_none());
             proc.wait_info = Some(wait_info);
             proc.proc_stat = proc_stat;
diff --git a/src/sys.rs b/src/sys.rs
index 9eba8bf..4dde245 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -245,6 +245,15 @@ pub fn read(fd: fd_t, buf: &mut [u8]) -> io::Result<usize> {
     }
 }
 
+/// Returns the number of bytes available to read from a pipe.
+pub fn get_available(fd: fd_t) -> io::Result<usize> {
+    let mut count: c_int = 0;
+    match unsafe { libc::ioctl(fd, libc::FIONREAD, &mut count) } {
+        -1 => Err(io::Error::last_os_error()),
+        _ => Ok(count as usize),
+    }
+}
+
 /// Reads the contents of a file, starting from position `start`, until position
 /// `stop` or the end.
 pub fn read_from_file(fd: RawFd, start: u64, stop: Option<u64>) -> io::Result<Vec<u8>> {
-- 
2.43.0


From 5f6770cc7e698f58e986fe71bf9c89f14ed91b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 28/61] fix: report a process that can't be forked as an error,
 instead of ending the manager

---
 src/err_pipe.rs |  6 ++++++
 src/procs.rs    | 51 ++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 44 insertions(+), 13 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index ee02d26..2d85246 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -70,6 +70,12 @@ impl ErrorPipe {
         Ok(ErrorPipe { read_fd, write_fd })
     }
 
+    /// Closes both ends.
+    pub fn close(self) -> io::Result<()> {
+        let ErrorPipe { read_fd, write_fd } = self;
+        sys::close(read_fd).and(sys::close(write_fd))
+    }
+
     async fn get_errors(mut read_pipe: PipeRead) -> Vec<String> {
         let mut errors = Vec::new();
         loop {
diff --git a/src/procs.rs b/src/procs.rs
index 90337a1..39dcc18 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -67,8 +67,9 @@ impl Proc {
     }
 
     pub fn send_signal(&self, signum: Signum) -> Result<(), Error> {
-        if self.wait_info.is_some() {
-            // Already reaped; the system may have reused the pid.
+        if self.wait_info.is_some() || self.pid <= 0 {
+            // Never started, or already reaped and the system may have reused
+            // the pid.
             return Err(Error::NoProc);
         }
         match kill(self.pid, signum) {
@@ -586,19 +587,24 @@ pub fn start_procs(
         let exe = get_exe(exe, &argv);
         let env = environ::build(std::env::vars_os(), &env);
 
-        let error_pipe = ErrorPipe::new().unwrap_or_else(|err| {
-            error!("failed to create pipe: {}", err);
-            std::process::exit(1);
-        });
-
         let fd_handlers = fds
             .into_iter()
             .map(|(fd_str, fd_spec)| fd::make_fd_handler(&proc_id, fd_str, fd_spec, &mut pipes))
             .collect::<Vec<_>>();
 
         // Fork the child process.
-        match fork() {
-            Ok(0) => {
+        let forked = match ErrorPipe::new() {
+            Ok(error_pipe) => match fork() {
+                Ok(pid) => Ok((pid, error_pipe)),
+                Err(err) => {
+                    _ = error_pipe.close();
+                    Err(format!("failed to fork: {}", err))
+                }
+            },
+            Err(err) => Err(format!("failed to create pipe: {}", err)),
+        };
+        match forked {
+            Ok((0, error_pipe)) => {
                 // In the child process.
 
                 // Set up to write errors, if any, back to the parent.
@@ -674,7 +680,7 @@ pub fn start_procs(
                 unreachable!();
             }
 
-            Ok(child_pid) => {
+            Ok((child_pid, error_pipe)) => {
                 // Parent process.
 
                 let start_time = Utc::now();
@@ -721,12 +727,31 @@ pub fn start_procs(
                 info!("proc started: {}", child_pid);
             }
 
-            Err(err) => panic!("failed to fork: {}", err),
+            Err(err) => {
+                // There is no child process.
+                error!("{}", err);
+
+                // Release the fds that were for the child.
+                for (_, fd_handler) in fd_handlers.iter() {
+                    _ = fd_handler.in_parent();
+                }
+
+                // Register a proc that failed to start.
+                let mut proc = Proc::new(0, Utc::now(), Instant::now(), fd_handlers);
+                proc.stop_time = Some(proc.start_time);
+                proc.elapsed = Some(Duration::ZERO);
+                proc.errors.push(err);
+                procs.insert(proc_id.clone(), Rc::new(RefCell::new(proc)));
+                procs.notify(Notification::NotRunning(proc_id));
+            }
         }
     }
 
-    // Both ends of all pipes should have been used.
-    assert!(pipes.close().unwrap() == 0);
+    // Both ends of all pipes should have been used, except for any we failed to
+    // connect.
+    if let Err(err) = pipes.close() {
+        error!("failed to close pipes: {}", err);
+    }
 
     Ok(tasks)
 }
-- 
2.43.0


From 2616a8b2909ad353f893091458a34631f1b9222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 29/61] fix: don't leak a capture file that can't be unlinked

---
 src/fd.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fd.rs b/src/fd.rs
index c89c3e6..e66b490 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -180,15 +180,16 @@ fn open_unlinked_temp_file(
 ) -> Result<FdHandler> {
     // Open a temp file.
     let (tmp_path, tmp_fd) = sys::mkstemp(PATH_TMP_TEMPLATE)?;
-    // Unlink it.
-    std::fs::remove_file(tmp_path)?;
-    // Since it's unlinked, we don't have to deal with it later.
-    Ok(FdHandler::UnlinkedFile {
+    // From here on, dropping the handler closes the fd.
+    let fd_handler = FdHandler::UnlinkedFile {
         fd,
         file_fd: tmp_fd,
         encoding,
         attached,
-    })
+    };
+    // Unlink it.  Since it's unlinked, we don't have to deal with it later.
+    std::fs::remove_file(tmp_path)?;
+    Ok(fd_handler)
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From d782c63084e7837f3d8e6c11d577082299976f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 30/61] fix: accept no new processes once a termination signal
 has arrived, as they could outlive the manager

---
 src/shutdown.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/shutdown.rs b/src/shutdown.rs
index cdfcd39..77e555a 100644
--- a/src/shutdown.rs
+++ b/src/shutdown.rs
@@ -68,6 +68,9 @@ pub fn install_signal_handler(
             }
 
             SignalStyle::TermThenKill => {
+                // Any process started from now on could outlive us.
+                procs.set_shutdown(State::Idling);
+
                 // Send SIGTERM and wait for processes to terminate.
                 info!("terminating processes");
                 _ = procs.send_signal_all(SIGTERM);
@@ -89,6 +92,9 @@ pub fn install_signal_handler(
             }
 
             SignalStyle::Kill => {
+                // Any process started from now on could outlive us.
+                procs.set_shutdown(State::Idling);
+
                 info!("killing processes");
                 _ = procs.send_signal_all(SIGKILL);
 
-- 
2.43.0


From 68a1140355d3710744f9f17f758a7327af15bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 31/61] fix: don't revert a shutdown in progress to idling on a
 later signal

---
 src/procs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/procs.rs b/src/procs.rs
index 39dcc18..9200ae9 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -423,6 +423,10 @@ impl SharedProcs {
 
     /// Requests shutdown.
     pub fn set_shutdown(&self, state: shutdown::State) {
+        if matches!(self.get_shutdown(), shutdown::State::Done) {
+            // No going back.
+            return;
+        }
         self.0.borrow_mut().shutdown.0.send(state.clone()).unwrap();
         self.notify(Notification::ShutDown(state));
         self.check_idling();
-- 
2.43.0


From b01ac0a3c6f377ee8d6c61b2b11450a020955b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 32/61] fix: don't use a mutable dataclass default, which stops
 the agent server module from importing

---
 python/procstar/agent/proc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index b804db5..a8e1a5e 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -4,7 +4,7 @@ Processes on connected procstar instances.
 
 import asyncio
 from   collections.abc import Mapping
-from   dataclasses import dataclass
+from   dataclasses import dataclass, field
 from   functools import cached_property
 import logging
 
@@ -70,7 +70,7 @@ class FdData:
     """
     The interval of output bytes contained in this update.
     """
-    interval: Interval = Interval(0, 0)
+    interval: Interval = field(default_factory=lambda: Interval(0, 0))
 
     """
     The output encoding.
-- 
2.43.0


From db0c6875c88f2ac51462c9b513a9c67cd8a3d6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 33/61] fix: serialize inherit, close, and pipe fd specs in the
 form procstar accepts

---
 python/procstar/spec.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/procstar/spec.py b/python/procstar/spec.py
index d6911f3..a316840 100644
--- a/python/procstar/spec.py
+++ b/python/procstar/spec.py
@@ -86,14 +86,14 @@ class Proc:
         class Inherit:
 
             def to_jso(self):
-                return {}
+                return "inherit"
 
 
 
         class Close:
 
             def to_jso(self):
-                return {}
+                return "close"
 
 
 
@@ -184,21 +184,23 @@ class Proc:
         class PipeWrite:
 
             def to_jso(self):
-                return {}
+                return "pipe-write"
 
 
 
         class PipeRead:
 
             def __init__(self, proc_id, fd):
-                self.__proc_id = proc_id
-                self.__fd = fd
+                self.__proc_id = str(proc_id)
+                self.__fd = Proc.Fd.normalize(fd)
 
 
             def to_jso(self):
                 return {
-                    "proc_id": self.__proc_id,
-                    "fd": self.__fd,
+                    "pipe-read": {
+                        "proc_id": self.__proc_id,
+                        "fd": self.__fd,
+                    }
                 }
 
 
-- 
2.43.0


From 9d68f36977657729fdcb59b9c73d8a5e2b744b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 34/61] fix: inherit an env var given to make_proc as True, as
 documented, instead of setting it to 'True'

---
 python/procstar/spec.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/procstar/spec.py b/python/procstar/spec.py
index a316840..8485404 100644
--- a/python/procstar/spec.py
+++ b/python/procstar/spec.py
@@ -252,7 +252,11 @@ def make_proc(what, /, *, env_vars={}, fds={}):
         fds["stderr"] = Proc.Fd.Capture("memory", "utf-8")
     # FIXME: Close the rest.
 
-    env = Proc.Env(inherit=Proc.Env.MINIMUM_ENV_VARS, vars=env_vars)
+    inherit = ( n for n, v in env_vars.items() if v is True )
+    env = Proc.Env(
+        inherit =(*Proc.Env.MINIMUM_ENV_VARS, *inherit),
+        vars    ={ n: v for n, v in env_vars.items() if v is not True },
+    )
 
     return Proc(argv, fds=fds, env=env)
 
-- 
2.43.0


From 88c94433e9cc463e7e415bfb8f3387a2da540165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:29 +0000
Subject: [PATCH 35/61] fix: accept an integer signum and proc IDs '.' and '..'
 in the HTTP client

---
 python/procstar/http/client.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/procstar/http/client.py b/python/procstar/http/client.py
index d28ddc9..0ac4d1b 100644
--- a/python/procstar/http/client.py
+++ b/python/procstar/http/client.py
@@ -5,6 +5,15 @@ import uuid
 
 #-------------------------------------------------------------------------------
 
+def _quote(segment):
+    """
+    Quotes one path segment, which may be any string or an integer.
+    """
+    quoted = quote(str(segment), safe="")
+    # The segments "." and ".." would be removed when normalizing the path.
+    return quoted.replace(".", "%2E") if quoted in (".", "..") else quoted
+
+
 class AsyncClient:
 
     def __init__(self, addr, http_client):
@@ -17,7 +26,7 @@ class AsyncClient:
     @contextlib.asynccontextmanager
     async def __request(self, method, *path, jso=None, args={}):
         netloc = f"{self.__host}:{self.__port}"
-        path = "/" + "/".join( quote(p, safe="") for p in path )
+        path = "/" + "/".join( _quote(p) for p in path )
         query = "&".join( f"{k}={quote_plus(v)}" for k, v in args.items() )
         url = urlunsplit((
             "http",     # FIXME: HTTPS
@@ -117,7 +126,7 @@ class Client:
 
     def __request(self, method, *path, jso=None, args={}):
         netloc = f"{self.__host}:{self.__port}"
-        path = "/" + "/".join( quote(p, safe="") for p in path )
+        path = "/" + "/".join( _quote(p) for p in path )
         query = "&".join( f"{k}={quote_plus(v)}" for k, v in args.items() )
         url = urlunsplit((
             "http",     # FIXME: HTTPS
-- 
2.43.0


From 478ceec874c19bb15324aec25f9652edafd18ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 36/61] fix: return binary output data from the HTTP client as
 bytes, instead of decoding it as text

---
 python/procstar/http/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/procstar/http/client.py b/python/procstar/http/client.py
index 0ac4d1b..19031e9 100644
--- a/python/procstar/http/client.py
+++ b/python/procstar/http/client.py
@@ -90,7 +90,8 @@ class AsyncClient:
                 "GET", "procs", proc_id, "output", fd, "data"
         ) as rsp:
             rsp.raise_for_status()
-            return rsp.content if rsp.encoding is None else rsp.text
+            # Don't use `rsp.encoding`, which guesses if there is no charset.
+            return rsp.content if rsp.charset_encoding is None else rsp.text
 
 
     async def delete_proc(self, proc_id):
-- 
2.43.0


From 77205c8370165bf2d734514bdeaaff140a9779e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 37/61] fix: don't drop an agent connection on a notice about a
 proc the server doesn't know

---
 python/procstar/agent/proc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index a8e1a5e..8daed83 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -272,7 +272,13 @@ class Processes(Mapping):
                 get_proc(proc_id)._on_message(msg)
 
             case proto.ProcDelete(proc_id) | proto.ProcUnknown(proc_id):
-                self.__procs.pop(proc_id)._on_message(msg)
+                try:
+                    proc = self.__procs.pop(proc_id)
+                except KeyError:
+                    # For example, a late response about a deleted proc.
+                    logger.info(f"unknown proc on {conn_id}: {msg}")
+                else:
+                    proc._on_message(msg)
 
             case proto.Register:
                 # We should receive this only immediately after connection.
-- 
2.43.0


From ee25fc89a599950990c7612e6387b76b813144b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 38/61] fix: don't replace the output data in a ProcResult when
 formatting it

---
 python/procstar/proto.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/procstar/proto.py b/python/procstar/proto.py
index 65de6af..9b69ff6 100644
--- a/python/procstar/proto.py
+++ b/python/procstar/proto.py
@@ -189,9 +189,10 @@ class ProcResult:
         name = self.__class__.__name__
         proc_id = self.proc_id
         res = self.res.copy()
-        for fd in res["fds"].values():
-            if fd is not None and "data" in fd:
-                fd["data"] = OMITTED
+        res["fds"] = {
+            n: f if f is None or "data" not in f else f | {"data": OMITTED}
+            for n, f in res["fds"].items()
+        }
         for key in ("proc_stat", "proc_statm", "rusage"):
             if key in res:
                 res[key] = OMITTED
-- 
2.43.0


From 297ea139d4d5aa0a397af97562a49076828a5d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 39/61] fix: raise ProtocolError for every invalid agent
 message

---
 python/procstar/proto.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/procstar/proto.py b/python/procstar/proto.py
index 9b69ff6..3e585d1 100644
--- a/python/procstar/proto.py
+++ b/python/procstar/proto.py
@@ -270,7 +270,7 @@ def deserialize_message(msg):
     # Parse MessagePack.
     try:
         jso = msgpack.loads(msg)
-    except msgpack.UnpackException as err:
+    except (msgpack.UnpackException, TypeError, ValueError) as err:
         raise ProtocolError(f"ws msg JSON error: {err}") from None
     if not isinstance(jso, dict):
         raise ProtocolError("msg not a dict")
@@ -282,7 +282,7 @@ def deserialize_message(msg):
     # Look up the corresponding class.
     try:
         cls = INCOMING_MESSAGE_TYPES[type_name]
-    except KeyError:
+    except (KeyError, TypeError):
         raise ProtocolError(f"unknown msg type: {type_name}") from None
     # Convert to an instance of the message class.
     try:
@@ -291,7 +291,7 @@ def deserialize_message(msg):
         from_jso = lambda o: cls(**o)
     try:
         obj = from_jso(jso)
-    except (TypeError, ValueError) as exc:
+    except (KeyError, TypeError, ValueError) as exc:
         raise ProtocolError(f"invalid {type_name} msg: {exc}") from None
 
     return type_name, obj
-- 
2.43.0


From a5727b6aace000eee18353cd4ba2ce0b5b03cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:39 +0000
Subject: [PATCH 40/61] fix: report and close a connection that changes group,
 instead of failing with NameError

---
 python/procstar/agent/conn.py   | 2 +-
 python/procstar/agent/server.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/procstar/agent/conn.py b/python/procstar/agent/conn.py
index b15dfe7..28a4856 100644
--- a/python/procstar/agent/conn.py
+++ b/python/procstar/agent/conn.py
@@ -278,7 +278,7 @@ class Connections(Mapping, Subscribeable):
                 logger.warning(f"[{conn_id}] new address: {socket_info.address}")
             if group_id != old_conn.info.conn.group_id:
                 # The same instance shouldn't connect under a different group.
-                raise RuntimeError(f"[{conn_id}] new group: {group}")
+                raise RuntimeError(f"[{conn_id}] new group: {group_id}")
 
             # If the old connection websocket still open, close it.
             if not old_conn.ws.closed:
diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index 0af9046..6fddb4d 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -188,6 +188,7 @@ class Server:
             conn.info.stats.num_received += 1  # the Register message
         except RuntimeError as exc:
             logger.error(str(exc))
+            await ws.close()
             return
 
         # If this is an existing connection, there may have been a reconnect
-- 
2.43.0


From 98589fa40a1e9efaffd63f2b3438adb15d1cbf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:06 +0000
Subject: [PATCH 41/61] fix: raise WebSocketNotOpen for any connection closed
 while sending, even if already replaced

---
 python/procstar/agent/conn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/procstar/agent/conn.py b/python/procstar/agent/conn.py
index 28a4856..1af80c1 100644
--- a/python/procstar/agent/conn.py
+++ b/python/procstar/agent/conn.py
@@ -10,7 +10,7 @@ import ipaddress
 import logging
 import random
 import time
-from   websockets.exceptions import ConnectionClosedError
+from   websockets.exceptions import ConnectionClosed
 
 from   .exc import NoOpenConnectionInGroup, NotConnectedError, WebSocketNotOpen
 from   procstar.lib.asyn import Subscribeable
@@ -168,8 +168,7 @@ class Connection:
         data = serialize_message(msg)
         try:
             await self.ws.send(data)
-        except ConnectionClosedError:
-            assert self.ws.closed
+        except ConnectionClosed:
             # Connection closed.  Don't forget about it; it may reconnect.
             logger.warning(f"{self.info.socket}: connection closed")
             # FIXME: Think carefully the temporarily dropped connection logic.
-- 
2.43.0


From b98a1cf5954a070b2e87e9e8b47230a278c54815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:33 +0000
Subject: [PATCH 42/61] fix: update the connection and process info when an
 agent reconnects

---
 python/procstar/agent/conn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/procstar/agent/conn.py b/python/procstar/agent/conn.py
index 1af80c1..ed57319 100644
--- a/python/procstar/agent/conn.py
+++ b/python/procstar/agent/conn.py
@@ -288,7 +288,9 @@ class Connections(Mapping, Subscribeable):
             conn = old_conn
             conn.ws = ws
             conn.shutdown_state = shutdown_state
+            conn.info.conn = conn_info
             conn.info.socket = socket_info
+            conn.info.proc = proc_info
 
             # Update stats.
             conn.info.stats.connected = True
-- 
2.43.0


From 6e2705b327a2748fafc3dacab2f6c9cb8ad2a3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 43/61] fix: don't let the end of a superseded web socket
 disconnect or time out the agent's new one

---
 python/procstar/agent/server.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index 6fddb4d..53a7df6 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -242,10 +242,6 @@ class Server:
                             done = True
                         self.connections._publish((conn_id, conn))
 
-            # Update stats.
-            conn.info.stats.connected = False
-            conn.info.stats.last_disconnect_time = now()
-
             await ws.close()
 
         except Exception as exc:
@@ -255,7 +251,18 @@ class Server:
             self.connections._publish((conn_id, conn))
 
         finally:
-            if done:
+            current = conn.ws is ws
+            if current:
+                # Update stats.
+                conn.info.stats.connected = False
+                conn.info.stats.last_disconnect_time = now()
+
+            if not current:
+                # The agent has reconnected, and the connection uses its new web
+                # socket; the end of this one doesn't affect it.
+                logger.info(f"superseded: {conn_id}")
+
+            elif done:
                 assert self.connections._pop(conn_id) is conn
 
             # Else don't drop the connection yet; the agent may reconnect.  But
-- 
2.43.0


From ce46d7dad9b6049731f0e738ad3a3c64c2479be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 44/61] fix: don't send a start request for a proc ID in use,
 and track the process before its result can arrive

---
 python/procstar/agent/proc.py   |  8 ++++++++
 python/procstar/agent/server.py | 18 ++++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index 8daed83..8979ad3 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -230,6 +230,14 @@ class Processes(Mapping):
         return proc
 
 
+    def _discard(self, proc):
+        """
+        Stops tracking `proc`, if it is tracked.
+        """
+        if self.__procs.get(proc.proc_id) is proc:
+            del self.__procs[proc.proc_id]
+
+
     def on_message(self, conn, msg):
         """
         Processes `msg` to the corresponding process.
diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index 53a7df6..145dcd2 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -298,6 +298,8 @@ class Server:
           Timeout to wait for an open connection for `group_id`.
         :return:
           The new `Process`.
+        :raise ValueError:
+          `proc_id` is already in use.
         """
         try:
             spec = spec.to_jso()
@@ -310,8 +312,20 @@ class Server:
             timeout=conn_timeout,
         )
 
-        await conn.send(proto.ProcStartRequest(specs={proc_id: spec}))
-        return self.processes.create(conn, proc_id)
+        # Don't request a proc ID we already track; the agent's error would go to
+        # the existing process.
+        if proc_id in self.processes:
+            raise ValueError(f"proc ID in use: {proc_id}")
+
+        # Track the process first, as its result may arrive before we finish
+        # sending.
+        proc = self.processes.create(conn, proc_id)
+        try:
+            await conn.send(proto.ProcStartRequest(specs={proc_id: spec}))
+        except Exception:
+            self.processes._discard(proc)
+            raise
+        return proc
 
 
     async def start(self, *args, **kw_args) -> (Process, Result):
-- 
2.43.0


From 8d96e4be612b8092aa9ab0b0eb550720e8086811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 45/61] fix: find a connection that is already open when
 reconnecting to a process without a timeout

---
 python/procstar/agent/server.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index 145dcd2..b09b71d 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -352,13 +352,15 @@ class Server:
         :raise NoConnectionError:
           Timeout waiting for connection.
         """
-        try:
-            conn = await asyncio.wait_for(
-                wait_for_connection(self.connections, conn_id),
-                timeout=conn_timeout
-            )
-        except asyncio.TimeoutError:
-            raise NoConnectionError(conn_id)
+        conn = self.connections.get(conn_id)
+        if conn is None or not conn.open:
+            try:
+                conn = await asyncio.wait_for(
+                    wait_for_connection(self.connections, conn_id),
+                    timeout=conn_timeout
+                )
+            except asyncio.TimeoutError:
+                raise NoConnectionError(conn_id)
 
         try:
             return self.processes[proc_id]
-- 
2.43.0


From f2fb137676b8d0c7d53ffbe8a512c3c4c3d9b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 46/61] fix: forget the processes of a connection that timed
 out, so that they can be reconnected later

---
 python/procstar/agent/proc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index 8979ad3..a5527b1 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -310,6 +310,10 @@ class Processes(Mapping):
             case proto.ConnectionTimeout():
                 logger.warning(f"agent connection timeout: {conn_id}")
                 send_by_conn()
+                # If the agent does connect later, its processes are new to us.
+                for proc in tuple(self.__procs.values()):
+                    if proc.conn_id == conn_id:
+                        self._discard(proc)
 
             case proto.ShutDown(shutdown_state):
                 logger.info(f"agent shut down: {conn_id}: {shutdown_state}")
-- 
2.43.0


From d7239fa6155bed89aa044c7bd5f28a4af32b800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 47/61] fix: tell those waiting for a process that its agent
 has shut down without deleting it

---
 python/procstar/agent/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index b09b71d..140fd22 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -264,6 +264,12 @@ class Server:
 
             elif done:
                 assert self.connections._pop(conn_id) is conn
+                # The agent has orphaned any processes it didn't delete.
+                for proc_id in [
+                        i for i, p in self.processes.items()
+                        if p.conn_id == conn_id
+                ]:
+                    self.processes.on_message(conn, proto.ProcUnknown(proc_id))
 
             # Else don't drop the connection yet; the agent may reconnect.  But
             # we may add a timeout to do this.
-- 
2.43.0


From 16cbfa75d00c9b2e81d9220078ed1d995a6b70d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:48 +0000
Subject: [PATCH 48/61] fix: inherit the env vars procstar was started with,
 not those a TLS library sets later

---
 src/environ.rs | 14 ++++++++++++++
 src/procs.rs   |  3 ++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/environ.rs b/src/environ.rs
index 5e70389..4e0dc9d 100644
--- a/src/environ.rs
+++ b/src/environ.rs
@@ -19,6 +19,20 @@ lazy_static! {
         x.push("PROCSTAR_AGENT_TOKEN");
         x
     };
+
+    /// The env vars we were started with.
+    static ref START_ENV: Env = std::env::vars_os().collect();
+}
+
+/// Captures the env vars that processes inherit.  Call this at startup, as
+/// libraries we use may set env vars of their own later.
+pub fn init() {
+    lazy_static::initialize(&START_ENV);
+}
+
+/// Returns the env vars that processes inherit.
+pub fn get_start_env() -> impl Iterator<Item = (OsString, OsString)> {
+    START_ENV.clone().into_iter()
 }
 
 pub fn build<S, I>(start_env: I, spec: &spec::Env) -> BTreeMap<S, S>
diff --git a/src/procs.rs b/src/procs.rs
index 9200ae9..0dc9cc4 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -245,6 +245,7 @@ pub struct SharedProcs(Rc<RefCell<Procs>>);
 
 impl SharedProcs {
     pub fn new() -> SharedProcs {
+        environ::init();
         SharedProcs(Rc::new(RefCell::new(Procs {
             procs: BTreeMap::new(),
             subs: Vec::new(),
@@ -589,7 +590,7 @@ pub fn start_procs(
             ..
         } = spec;
         let exe = get_exe(exe, &argv);
-        let env = environ::build(std::env::vars_os(), &env);
+        let env = environ::build(environ::get_start_env(), &env);
 
         let fd_handlers = fds
             .into_iter()
-- 
2.43.0


From f0f445f92689312707c7f13f5ecba851627a1ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 49/61] fix: start a process given exe and an empty argv,
 instead of panicking

---
 src/procs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procs.rs b/src/procs.rs
index 0dc9cc4..d3c4d92 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -524,7 +524,7 @@ pub fn get_restricted_exe() -> Option<String> {
 /// Returns the path to the executable to exec for the process.
 fn get_exe(exe: Option<String>, argv: &Vec<String>) -> String {
     // Use the explicit exe, if given, else argv[0] per convention.
-    exe.unwrap_or(argv[0].clone())
+    exe.unwrap_or_else(|| argv[0].clone())
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From ffc24850e9e46cdf8a455f8166480ac4aa74395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:15 +0000
Subject: [PATCH 50/61] fix: notify of the last deletion before shutting down

---
 src/procs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/procs.rs b/src/procs.rs
index d3c4d92..4cb2786 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -310,8 +310,9 @@ impl SharedProcs {
         // OK, we can proceed with removing.
         let proc = procs.procs.remove(proc_id).unwrap();
         drop(procs);
-        self.check_idling();
+        // Notify first; nothing is sent after the shutdown notification.
         self.notify(Notification::Delete(proc_id.clone()));
+        self.check_idling();
         Ok(proc)
     }
 
-- 
2.43.0


From 13939d19a205c5f541d6829ab25ff0fea4e712aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 51/61] fix: notify of a process's start and end even if it is
 deleted meanwhile

---
 src/agent.rs | 31 +++++++++----------------------
 src/procs.rs | 22 +++++++++++++---------
 2 files changed, 22 insertions(+), 31 deletions(-)

diff --git a/src/agent.rs b/src/agent.rs
index 5ebbf62..0272de8 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -146,26 +146,18 @@ async fn connect(
 }
 
 /// Constructs an outgoing message corresponding to a notification message.
-fn notification_to_message(procs: &SharedProcs, noti: Notification) -> Option<OutgoingMessage> {
+fn notification_to_message(noti: Notification) -> OutgoingMessage {
     match noti {
-        Notification::Start(proc_id) | Notification::NotRunning(proc_id) => {
-            // Look up the proc.
-            if let Some(proc) = procs.get(&proc_id) {
-                // Got it.  Send its result.
-                let res = proc.borrow().to_result();
-                Some(OutgoingMessage::ProcResult { proc_id, res })
-            } else {
-                // The proc has disappeared since the notification was sent;
-                // it must have been deleted.
-                None
-            }
+        Notification::Start(proc_id, proc) | Notification::NotRunning(proc_id, proc) => {
+            // Send the result of this very proc; by now, it might have been
+            // deleted, and another might have its ID.
+            let res = proc.borrow().to_result();
+            OutgoingMessage::ProcResult { proc_id, res }
         }
 
-        Notification::Delete(proc_id) => Some(OutgoingMessage::ProcDelete { proc_id }),
+        Notification::Delete(proc_id) => OutgoingMessage::ProcDelete { proc_id },
 
-        Notification::ShutDown(shutdown_state) => {
-            Some(OutgoingMessage::ShutDown { shutdown_state })
-        }
+        Notification::ShutDown(shutdown_state) => OutgoingMessage::ShutDown { shutdown_state },
     }
 }
 
@@ -316,12 +308,7 @@ pub async fn run(
                             };
                             // Generate the outgoing message corresponding to
                             // the notification.
-                            if let Some(msg) = notification_to_message(&procs, noti) {
-                                send_message(&mut sender, msg).await;
-                            } else {
-                                // No outgoing message corresponding to this
-                                // notification.
-                            }
+                            send_message(&mut sender, notification_to_message(noti)).await;
                         },
                         None => {
                             info!("notification subscription closed");
diff --git a/src/procs.rs b/src/procs.rs
index 4cb2786..4e8223a 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -196,11 +196,11 @@ type SharedProc = Rc<RefCell<Proc>>;
 #[derive(Clone, Debug)]
 pub enum Notification {
     /// Notification that a process has been created and started.
-    Start(ProcId),
+    Start(ProcId, SharedProc),
 
     /// Notification that a process is not running, either because it terminated
     /// or because of an error.
-    NotRunning(ProcId),
+    NotRunning(ProcId, SharedProc),
 
     /// Notification that a process has been deleted.
     Delete(ProcId),
@@ -256,9 +256,12 @@ impl SharedProcs {
     // FIXME: Some of these methods are unused.
 
     pub fn insert(&self, proc_id: ProcId, proc: SharedProc) {
-        self.0.borrow_mut().procs.insert(proc_id.clone(), proc);
+        self.0
+            .borrow_mut()
+            .procs
+            .insert(proc_id.clone(), Rc::clone(&proc));
         // Let subscribers know that there is a new proc.
-        self.notify(Notification::Start(proc_id));
+        self.notify(Notification::Start(proc_id, proc));
     }
 
     pub fn len(&self) -> usize {
@@ -398,7 +401,7 @@ impl SharedProcs {
             drop(proc);
             // Wait for notification that this proc is not running.
             while match sub.recv().await {
-                Some(Notification::NotRunning(i)) | Some(Notification::Delete(i))
+                Some(Notification::NotRunning(i, _)) | Some(Notification::Delete(i))
                     if i == proc_id =>
                 {
                     false
@@ -720,12 +723,12 @@ pub fn start_procs(
                 procs.insert(proc_id.clone(), proc.clone());
 
                 // Build the task that awaits the process.
-                let fut = run_proc(proc, sigchld_receiver.clone(), errors);
+                let fut = run_proc(Rc::clone(&proc), sigchld_receiver.clone(), errors);
                 // Let subscribers know when it terminates.
                 let fut = {
                     let procs = procs.clone();
                     let proc_id = proc_id.clone();
-                    fut.inspect(move |_| procs.notify(Notification::NotRunning(proc_id)))
+                    fut.inspect(move |_| procs.notify(Notification::NotRunning(proc_id, proc)))
                 };
                 // Start the task.
                 tasks.push(tokio::task::spawn_local(fut));
@@ -747,8 +750,9 @@ pub fn start_procs(
                 proc.stop_time = Some(proc.start_time);
                 proc.elapsed = Some(Duration::ZERO);
                 proc.errors.push(err);
-                procs.insert(proc_id.clone(), Rc::new(RefCell::new(proc)));
-                procs.notify(Notification::NotRunning(proc_id));
+                let proc = Rc::new(RefCell::new(proc));
+                procs.insert(proc_id.clone(), Rc::clone(&proc));
+                procs.notify(Notification::NotRunning(proc_id, proc));
             }
         }
     }
-- 
2.43.0


From e6fac61bd87ba5473732c11c3acf73e4949f7620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 52/61] fix: let an agent's last messages reach the server when
 it shuts down

---
 src/agent.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/agent.rs b/src/agent.rs
index 0272de8..fa182b8 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -319,6 +319,19 @@ pub async fn run(
             }
         }
 
+        if done {
+            // Close the connection in an orderly way.  If we drop it while
+            // messages from the server are unread, the server may not receive
+            // the last messages we sent.
+            if sender.close().await.is_ok() {
+                while let Some(Ok(msg)) = receiver.next().await {
+                    if matches!(msg, Message::Close(_)) {
+                        break;
+                    }
+                }
+            }
+        }
+
         // The connection is closed.  Go back and reconnect.
     }
 
-- 
2.43.0


From 82273a04cce6bbf756efe37bfe728b004623b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 53/61] fix: don't wait for an unanswered host name lookup at
 shutdown

---
 src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6f28689..3710e58 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -109,8 +109,17 @@ async fn maybe_run_until_idle(args: &argv::Args, procs: &SharedProcs) {
     }
 }
 
-#[tokio::main(flavor = "current_thread")]
-async fn main() {
+fn main() {
+    let runtime = tokio::runtime::Builder::new_current_thread()
+        .enable_all()
+        .build()
+        .unwrap();
+    runtime.block_on(run());
+    // Don't wait for blocking work, e.g. an unanswered host name lookup.
+    runtime.shutdown_background();
+}
+
+async fn run() {
     let args = argv::parse();
 
     // Configure logging.
-- 
2.43.0


From ef8e8dfd17e7cdbd648d4cc78dc22b11f303b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 54/61] fix: keep the updates of a process usable after a
 canceled wait or a failed request

---
 python/procstar/agent/proc.py | 97 +++++++++++++++++++++++------------
 1 file changed, 64 insertions(+), 33 deletions(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index a5527b1..818e34e 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -10,7 +10,6 @@ import logging
 
 from   .exc import ProcessUnknownError
 from   procstar import proto
-from   procstar.lib.asyn import iter_queue
 from   procstar.lib.py import Interval
 import procstar.lib.json
 
@@ -86,6 +85,65 @@ class FdData:
 
 #-------------------------------------------------------------------------------
 
+class _Updates:
+    """
+    Async iterator over updates for a process.
+    """
+
+    def __init__(self, conn, proc_id, msgs):
+        self.__conn = conn
+        self.__proc_id = proc_id
+        self.__msgs = msgs
+
+
+    def __aiter__(self):
+        return self
+
+
+    def __finish(self, msg):
+        # No updates follow; anyone else who waits for one should know, too.
+        self.__msgs.put_nowait(msg)
+
+
+    async def __anext__(self):
+        msg = await self.__msgs.get()
+        match msg:
+            case proto.ProcResult(_, result):
+                return Result(result)
+
+            case proto.ProcFdData(_, fd, start, stop, encoding, data):
+                # FIXME: Process data.
+                return FdData(
+                    fd      =fd,
+                    interval=Interval(start, stop),
+                    encoding=encoding,
+                    data    =data,
+                )
+
+            case proto.ProcDelete(_):
+                # Done.
+                self.__finish(msg)
+                raise StopAsyncIteration
+
+            case proto.ProcUnknown(_):
+                self.__finish(msg)
+                raise ProcessUnknownError(self.__proc_id)
+
+            case proto.RequestError(msg, err):
+                logger.error(f"agent error: {err}")
+                raise AgentMessageError(msg, err)
+
+            case proto.ConnectionTimeout():
+                conn_id = self.__conn.conn_id
+                logger.warning(f"proc {self.__proc_id}: agent connection timeout: {conn_id}")
+                self.__finish(msg)
+                raise ConnectionTimeoutError(conn_id)
+
+            case _:
+                assert False, f"unexpected msg: {msg!r}"
+
+
+
 class Process:
     """
     A process running under a connected procstar instance.
@@ -117,7 +175,7 @@ class Process:
 
 
     @cached_property
-    async def updates(self):
+    def updates(self):
         """
         A singleton async iterator over updates for this process.
 
@@ -127,39 +185,12 @@ class Process:
         - terminate if the process is deleted
         - raise `ProcessUnknownError` if the proc ID is unknown
         - raise `ConnectionTimeoutError` if the connection timed out
+        - raise `AgentMessageError` if a request failed
 
+        Canceling a wait for the next update (e.g. on timeout) or a failed
+        request doesn't terminate the iterator; further updates may follow.
         """
-        async for msg in iter_queue(self.__msgs):
-            match msg:
-                case proto.ProcResult(_, result):
-                    yield Result(result)
-
-                case proto.ProcFdData(_, fd, start, stop, encoding, data):
-                    # FIXME: Process data.
-                    yield FdData(
-                        fd      =fd,
-                        interval=Interval(start, stop),
-                        encoding=encoding,
-                        data    =data,
-                    )
-
-                case proto.ProcDelete(_):
-                    # Done.
-                    break
-
-                case proto.ProcUnknown(_):
-                    raise ProcessUnknownError(self.proc_id)
-
-                case proto.RequestError(msg, err):
-                    logger.error(f"agent error: {err}")
-                    raise AgentMessageError(msg, err)
-
-                case proto.ConnectionTimeout():
-                    logger.warning(f"proc {self.proc_id}: agent connection timeout: {self.conn_id}")
-                    raise ConnectionTimeoutError(self.conn_id)
-
-                case _:
-                    assert False, f"unexpected msg: {msg!r}"
+        return _Updates(self.__conn, self.proc_id, self.__msgs)
 
 
     def request_result(self):
-- 
2.43.0


From 590db6a0ea88d7754d642b942080548effe74f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 55/61] fix: ignore outdated messages that arrive on a
 superseded web socket

---
 python/procstar/agent/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index 140fd22..72a5b3c 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -228,6 +228,11 @@ class Server:
                 except ConnectionClosedError as err:
                     logger.warning(f"closed: {conn_id}: {err}")
                     break
+                if conn.ws is not ws:
+                    # The agent has reconnected and told us its current state;
+                    # anything that arrives late on this web socket is outdated.
+                    logger.info(f"late message on superseded: {conn_id}")
+                    break
                 type, msg = proto.deserialize_message(msg)
                 # Process the message.
                 conn.info.stats.num_received += 1
-- 
2.43.0


From 835af3e317ee88dea05ec8a52022eac75a9d8e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 56/61] fix: ignore agent messages about unknown processes or
 those on other connections

---
 python/procstar/agent/proc.py   | 47 +++++++++++++++++++++++----------
 python/procstar/agent/server.py |  3 +++
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index 818e34e..de07d5e 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -278,15 +278,38 @@ class Processes(Mapping):
         """
         conn_id = conn.conn_id
 
+        def find_proc(proc_id):
+            """
+            Looks up the `Process` object on this connection, or none.
+            """
+            proc = self.__procs.get(proc_id)
+            if proc is None:
+                # For example, a late response about a deleted proc.
+                logger.info(f"unknown proc on {conn_id}: {proc_id}")
+            elif proc.conn_id != conn_id:
+                # Proc IDs are unique among connections.
+                logger.error(f"proc {proc_id} on {conn_id} is on {proc.conn_id}")
+                proc = None
+            return proc
+
         def get_proc(proc_id):
             """
             Looks up or creates, if necessary, the `Process` object.
+
+            :return:
+              The process, or none if it's on another connection.
             """
-            try:
-                return self.__procs[proc_id]
-            except KeyError:
+            if proc_id not in self.__procs:
                 logger.info(f"new proc on {conn_id}: {proc_id}")
                 return self.create(conn, proc_id)
+            return find_proc(proc_id)
+
+        def send_to(proc):
+            """
+            Dispatches the current msg to `proc`, if any.
+            """
+            if proc is not None:
+                proc._on_message(msg)
 
         def send_by_conn():
             """
@@ -305,19 +328,15 @@ class Processes(Mapping):
             case proto.ProcResult(proc_id):
                 # Attach Procstar server and connection info to the result.
                 msg.res["procstar"] = conn.info
-                get_proc(proc_id)._on_message(msg)
+                send_to(get_proc(proc_id))
 
             case proto.ProcFdData(proc_id):
-                get_proc(proc_id)._on_message(msg)
+                send_to(get_proc(proc_id))
 
             case proto.ProcDelete(proc_id) | proto.ProcUnknown(proc_id):
-                try:
-                    proc = self.__procs.pop(proc_id)
-                except KeyError:
-                    # For example, a late response about a deleted proc.
-                    logger.info(f"unknown proc on {conn_id}: {msg}")
-                else:
-                    proc._on_message(msg)
+                if (proc := find_proc(proc_id)) is not None:
+                    self._discard(proc)
+                    send_to(proc)
 
             case proto.Register:
                 # We should receive this only immediately after connection.
@@ -330,13 +349,13 @@ class Processes(Mapping):
                     # An error in response to ProcStartRequest may pertain to multiple proc IDs.
                     if msg.msg["type"] == "ProcStartRequest":
                         for proc_id in msg.msg["specs"].keys():
-                            get_proc(proc_id)._on_message(msg)
+                            send_to(find_proc(proc_id))
                     else:
                         # No associated proc ID, or we can't figure it out.
                         logger.error(f"agent error: {msg.err}: {msg.msg}")
                 else:
                     # Forward to the proc the original message was related to.
-                    get_proc(proc_id)._on_message(msg)
+                    send_to(find_proc(proc_id))
 
             case proto.ConnectionTimeout():
                 logger.warning(f"agent connection timeout: {conn_id}")
diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index 72a5b3c..8a7d13d 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -208,6 +208,9 @@ class Server:
                     if p.conn_id == conn_id
                 }
                 for proc_id in conn_proc_ids - our_proc_ids:
+                    if proc_id in self.processes:
+                        logger.error(f"proc {proc_id} on conn {conn_id} is on another conn")
+                        continue
                     # New proc ID.
                     self.processes.create(conn, proc_id)
                 for proc_id in our_proc_ids - conn_proc_ids:
-- 
2.43.0


From 389542a407d68c3a8138dcf582aa409bf44069e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 57/61] fix: stop tracking processes whose start the agent
 refused

---
 python/procstar/agent/proc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index de07d5e..a8bce61 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -349,7 +349,10 @@ class Processes(Mapping):
                     # An error in response to ProcStartRequest may pertain to multiple proc IDs.
                     if msg.msg["type"] == "ProcStartRequest":
                         for proc_id in msg.msg["specs"].keys():
-                            send_to(find_proc(proc_id))
+                            if (proc := find_proc(proc_id)) is not None:
+                                # The agent doesn't have it.
+                                self._discard(proc)
+                                send_to(proc)
                     else:
                         # No associated proc ID, or we can't figure it out.
                         logger.error(f"agent error: {msg.err}: {msg.msg}")
-- 
2.43.0


From d17d397edba2ab85e02ba4817652de9f6fe459b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:44 +0000
Subject: [PATCH 58/61] fix: serialize descriptor numbers given as integers as
 strings in Proc specs

---
 python/procstar/spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/procstar/spec.py b/python/procstar/spec.py
index 8485404..f27b2f4 100644
--- a/python/procstar/spec.py
+++ b/python/procstar/spec.py
@@ -208,7 +208,7 @@ class Proc:
     def __init__(self, argv, *, env=Env(), fds={}):
         self.__argv = tuple( str(a) for a in argv )
         self.__env  = env
-        self.__fds = dict(fds)
+        self.__fds = { Proc.Fd.normalize(n): f for n, f in fds.items() }
 
 
     def to_jso(self):
-- 
2.43.0


From 505268a7f3477b3b4fe543f0c51936ea00de5a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 59/61] fix: report a host name of the maximum length without
 panicking

---
 src/sys.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index 4dde245..fa2f4c8 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -470,14 +470,15 @@ pub fn get_groupname() -> Option<String> {
 const HOST_NAME_MAX: usize = 64;
 
 pub fn get_hostname() -> String {
-    let mut buffer = vec![0u8; HOST_NAME_MAX];
+    // One more byte, for the terminating NUL.
+    let mut buffer = vec![0u8; HOST_NAME_MAX + 1];
     let ret = unsafe { libc::gethostname(buffer.as_mut_ptr() as *mut i8, buffer.len()) };
     match ret {
         0 => {
             // FIXME: Is this really the right way to do this??
             let len = buffer.iter().position(|&c| c == 0).unwrap();
             buffer.truncate(len);
-            String::from_utf8(buffer).unwrap()
+            String::from_utf8_lossy(&buffer).into_owned()
         }
         -1 => panic!("gethostname failed: {}", ret),
         _ => panic!("gethostname invalid ressult: {}", ret),
-- 
2.43.0


From e261c072738151c05e71e4bb5d431853bdc160ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 60/61] fix: send one message at a time to an agent, so that
 sends fail no more when its socket is full

---
 python/procstar/agent/conn.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/procstar/agent/conn.py b/python/procstar/agent/conn.py
index ed57319..9f15519 100644
--- a/python/procstar/agent/conn.py
+++ b/python/procstar/agent/conn.py
@@ -4,7 +4,7 @@ Incoming connections to the websocket service.
 
 import asyncio
 from   collections.abc import Mapping
-from   dataclasses import dataclass
+from   dataclasses import dataclass, field
 from   datetime import datetime
 import ipaddress
 import logging
@@ -136,6 +136,10 @@ class Connection:
     ws: asyncio.protocols.Protocol = None
     shutdown_state: ShutdownState = ShutdownState.active
 
+    # Held while sending on `ws`; only one coro may wait for a full socket.
+    send_lock: asyncio.Lock = field(
+        default_factory=asyncio.Lock, repr=False, compare=False)
+
     __reconnect_timeout_task: asyncio.Future = None
 
     def __hash__(self):
@@ -166,8 +170,10 @@ class Connection:
             raise WebSocketNotOpen(self.conn_id)
 
         data = serialize_message(msg)
+        ws = self.ws
         try:
-            await self.ws.send(data)
+            async with self.send_lock:
+                await ws.send(data)
         except ConnectionClosed:
             # Connection closed.  Don't forget about it; it may reconnect.
             logger.warning(f"{self.info.socket}: connection closed")
@@ -287,6 +293,7 @@ class Connections(Mapping, Subscribeable):
             # Use the new websocket with the old connection object.
             conn = old_conn
             conn.ws = ws
+            conn.send_lock = asyncio.Lock()
             conn.shutdown_state = shutdown_state
             conn.info.conn = conn_info
             conn.info.socket = socket_info
-- 
2.43.0


From bb7dff69c0940d6e53ed77266fa068e764189aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 61/61] fix: set up to read pipes before starting a process, so
 that it fails if that fails

---
 src/err_pipe.rs | 48 +++++++++++++++++++++++++++++++++---------------
 src/fd.rs       | 27 ++++++++++++++++++++++-----
 2 files changed, 55 insertions(+), 20 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 2d85246..8d653ad 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -2,7 +2,7 @@ use bytes::{BufMut, BytesMut};
 use std::collections::HashSet;
 use std::future::Future;
 use std::io;
-use std::os::fd::RawFd;
+use std::os::fd::{AsRawFd, RawFd};
 use tokio::io::AsyncReadExt;
 use tokio_pipe::PipeRead;
 
@@ -28,7 +28,8 @@ use crate::sys;
 ///    the child.
 
 pub struct ErrorPipe {
-    read_fd: RawFd,
+    // Set up for async already, as this can fail.
+    read_pipe: PipeRead,
     write_fd: RawFd,
 }
 
@@ -67,13 +68,26 @@ impl ErrorPipe {
             read: read_fd,
             write: write_fd,
         } = sys::pipe()?;
-        Ok(ErrorPipe { read_fd, write_fd })
+        match PipeRead::from_raw_fd_checked(read_fd) {
+            Ok(read_pipe) => Ok(ErrorPipe {
+                read_pipe,
+                write_fd,
+            }),
+            Err(err) => {
+                _ = sys::close(write_fd);
+                Err(err.into())
+            }
+        }
     }
 
     /// Closes both ends.
     pub fn close(self) -> io::Result<()> {
-        let ErrorPipe { read_fd, write_fd } = self;
-        sys::close(read_fd).and(sys::close(write_fd))
+        let ErrorPipe {
+            read_pipe,
+            write_fd,
+        } = self;
+        drop(read_pipe);
+        sys::close(write_fd)
     }
 
     async fn get_errors(mut read_pipe: PipeRead) -> Vec<String> {
@@ -114,7 +128,10 @@ impl ErrorPipe {
     }
 
     pub fn in_parent(self) -> impl Future<Output = Vec<String>> {
-        let ErrorPipe { read_fd, write_fd } = self;
+        let ErrorPipe {
+            read_pipe,
+            write_fd,
+        } = self;
 
         // Close the write pipe.  This is necessary so that we see EOF on the
         // read pipe once the child process closes the other open read fd,
@@ -122,21 +139,22 @@ impl ErrorPipe {
         // so that a process forked until then doesn't hold it open.
         sys::close(write_fd).unwrap();
 
-        async move {
-            // Wrap the read pipe for async.
-            let read_pipe = PipeRead::from_raw_fd_checked(read_fd).unwrap();
-            ErrorPipe::get_errors(read_pipe).await
-        }
+        ErrorPipe::get_errors(read_pipe)
     }
 
     /// To be called immediatley after `fork()` in the child process.  This is
     /// intentionally not `async`; we do not ever return control to the reactor
     /// in the child process.
     pub fn in_child(self) -> io::Result<ErrorWriter> {
-        let ErrorPipe { read_fd, write_fd } = self;
-
-        // Close the read pipe.
-        sys::close(read_fd).unwrap();
+        let ErrorPipe {
+            read_pipe,
+            write_fd,
+        } = self;
+
+        // Close the read pipe.  Only the fd: dropping the pipe would also end
+        // the parent's async I/O on it.
+        sys::close(read_pipe.as_raw_fd()).unwrap();
+        std::mem::forget(read_pipe);
 
         // Since the pipe is CLOEXEC, so the write pipe will close automatically
         // in the child process when it exec's.
diff --git a/src/fd.rs b/src/fd.rs
index e66b490..a4903f2 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -119,6 +119,9 @@ pub enum FdHandler {
         fd: RawFd,
         /// Read end of the pipe; -1 once at EOF and closed.
         read_fd: RawFd,
+        /// Read end of the pipe, for async I/O, until taken by the task that
+        /// reads from it.
+        read_pipe: Option<PipeRead>,
         /// Write end of the pipe.
         write_fd: RawFd,
         /// Format for output.
@@ -317,9 +320,19 @@ impl SharedFdHandler {
                 attached,
             } => {
                 let pipe_fds = sys::pipe()?;
+                // Set up to read the pipe before the proc starts, as this can
+                // fail.
+                let read_pipe = match PipeRead::from_raw_fd_checked(pipe_fds.read) {
+                    Ok(read_pipe) => read_pipe,
+                    Err(err) => {
+                        _ = sys::close(pipe_fds.write);
+                        return Err(err.into());
+                    }
+                };
                 FdHandler::CaptureMemory {
                     fd,
                     read_fd: pipe_fds.read,
+                    read_pipe: Some(read_pipe),
                     write_fd: pipe_fds.write,
                     encoding,
                     buf: Vec::new(),
@@ -345,10 +358,11 @@ impl SharedFdHandler {
 
     /// Reads from the pipe read fd, appending data to `buf`, until EOF.
     async fn run_capture_memory(rc: Rc<RefCell<FdHandler>>) -> Result<()> {
-        let mut read_pipe = if let FdHandler::CaptureMemory { read_fd, .. } = *rc.borrow() {
-            PipeRead::from_raw_fd_checked(read_fd)?
-        } else {
-            panic!();
+        let mut read_pipe = match *rc.borrow_mut() {
+            FdHandler::CaptureMemory {
+                ref mut read_pipe, ..
+            } => read_pipe.take().unwrap(),
+            _ => panic!(),
         };
 
         let mut read_buf = [0 as u8; 65536]; // FIXME: What's the right size?
@@ -530,10 +544,13 @@ impl SharedFdHandler {
             FdHandler::CaptureMemory {
                 fd,
                 read_fd,
+                ref mut read_pipe,
                 write_fd,
                 ..
             } => {
-                // In the child, don't read from the pipe.
+                // In the child, don't read from the pipe.  Close only the fd:
+                // dropping the pipe would also end the parent's async I/O on it.
+                std::mem::forget(read_pipe.take());
                 sys::close(read_fd)?;
                 // Attach the write pipe to the target fd.
                 sys::dup2(write_fd, fd)?;
-- 
2.43.0

