From 8df9bb80477d2f7ad54cbd20be5e0698a51977ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:24 +0000
Subject: [PATCH 01/17] hook: simulated std for the TCP connection behind --cfg
 verif_sim

---
 crates/tpm2-client/src/connection/mod.rs     |   2 +
 crates/tpm2-client/src/connection/sim_std.rs | 364 +++++++++++++++++++
 crates/tpm2-client/src/connection/tcp.rs     |   3 +
 crates/tpm2-client/src/lib.rs                |   2 +
 4 files changed, 371 insertions(+)
 create mode 100644 crates/tpm2-client/src/connection/sim_std.rs

diff --git a/crates/tpm2-client/src/connection/mod.rs b/crates/tpm2-client/src/connection/mod.rs
index 5839d2a..349d241 100644
--- a/crates/tpm2-client/src/connection/mod.rs
+++ b/crates/tpm2-client/src/connection/mod.rs
@@ -4,6 +4,8 @@
 
 use core::error::Error;
 
+#[cfg(verif_sim)]
+pub mod sim_std;
 mod tcp;
 pub use tcp::*;
 
diff --git a/crates/tpm2-client/src/connection/sim_std.rs b/crates/tpm2-client/src/connection/sim_std.rs
new file mode 100644
index 0000000..ab8137e
--- /dev/null
+++ b/crates/tpm2-client/src/connection/sim_std.rs
@@ -0,0 +1,364 @@
+//! A stand-in for `std` used by the TCP module in simulation builds.
+//!
+//! This module only exists when the crate is built with `--cfg verif_sim`. It
+//! re-exports the standard library and replaces the parts of it that reach the
+//! outside world (sockets, processes, files, sleeping, clocks) with versions
+//! that forward to a [`World`] installed for the current thread.
+#![allow(missing_docs)]
+
+extern crate std as real_std;
+pub use real_std::*;
+
+use real_std::boxed::Box;
+use real_std::cell::RefCell;
+use real_std::io as rio;
+use real_std::rc::Rc;
+use real_std::string::String;
+use real_std::time::Duration as RDuration;
+use real_std::vec::Vec;
+
+/// Everything the TCP module can ask of the outside world.
+pub trait World {
+    fn connect(
+        &self,
+        addr: real_std::net::SocketAddr,
+        timeout: Option<RDuration>,
+    ) -> rio::Result<u64>;
+    fn read(&self, stream: u64, buf: &mut [u8]) -> rio::Result<usize>;
+    fn peek(&self, stream: u64, buf: &mut [u8]) -> rio::Result<usize>;
+    fn write(&self, stream: u64, bufs: &[rio::IoSlice<'_>]) -> rio::Result<usize>;
+    fn shutdown(&self, stream: u64, how: real_std::net::Shutdown) -> rio::Result<()>;
+    fn set_timeouts(
+        &self,
+        stream: u64,
+        read: Option<Option<RDuration>>,
+        write: Option<Option<RDuration>>,
+    ) -> rio::Result<()>;
+    fn peer_addr(&self, stream: u64) -> rio::Result<real_std::net::SocketAddr>;
+    fn dup(&self, stream: u64) -> rio::Result<u64>;
+    fn close(&self, stream: u64);
+    fn spawn(
+        &self,
+        program: &real_std::ffi::OsStr,
+        args: &[real_std::ffi::OsString],
+        cwd: Option<&real_std::path::Path>,
+    ) -> rio::Result<u64>;
+    fn kill(&self, child: u64) -> rio::Result<()>;
+    /// The raw exit status, `None` if still running and `block` is false.
+    fn wait(&self, child: u64, block: bool) -> rio::Result<Option<i32>>;
+    fn read_file(&self, path: &real_std::path::Path) -> rio::Result<Vec<u8>>;
+    fn file_exists(&self, path: &real_std::path::Path) -> bool;
+    fn remove_file(&self, path: &real_std::path::Path) -> rio::Result<()>;
+    fn sleep(&self, dur: RDuration);
+    fn now(&self) -> RDuration;
+}
+
+real_std::thread_local! {
+    static WORLD: RefCell<Option<Rc<dyn World>>> = const { RefCell::new(None) };
+}
+
+/// Installs (or removes) the world for the current thread.
+pub fn install(world: Option<Rc<dyn World>>) -> Option<Rc<dyn World>> {
+    WORLD.with(|w| real_std::mem::replace(&mut *w.borrow_mut(), world))
+}
+
+fn world() -> Rc<dyn World> {
+    WORLD
+        .with(|w| w.borrow().clone())
+        .expect("no simulated world installed")
+}
+
+pub mod net {
+    pub use super::real_std::net::*;
+    use super::rio::{IoSlice, IoSliceMut, Read, Result, Write};
+    use super::{RDuration, world};
+
+    #[derive(Debug)]
+    pub struct TcpStream {
+        id: u64,
+    }
+
+    impl TcpStream {
+        pub fn connect<A: ToSocketAddrs>(addr: A) -> Result<TcpStream> {
+            let mut last = super::rio::Error::new(
+                super::rio::ErrorKind::InvalidInput,
+                "could not resolve to any addresses",
+            );
+            for a in addr.to_socket_addrs()? {
+                match world().connect(a, None) {
+                    Ok(id) => return Ok(TcpStream { id }),
+                    Err(e) => last = e,
+                }
+            }
+            Err(last)
+        }
+        pub fn connect_timeout(addr: &SocketAddr, timeout: RDuration) -> Result<TcpStream> {
+            world()
+                .connect(*addr, Some(timeout))
+                .map(|id| TcpStream { id })
+        }
+        pub fn shutdown(&self, how: Shutdown) -> Result<()> {
+            world().shutdown(self.id, how)
+        }
+        pub fn peer_addr(&self) -> Result<SocketAddr> {
+            world().peer_addr(self.id)
+        }
+        pub fn try_clone(&self) -> Result<TcpStream> {
+            world().dup(self.id).map(|id| TcpStream { id })
+        }
+        pub fn peek(&self, buf: &mut [u8]) -> Result<usize> {
+            world().peek(self.id, buf)
+        }
+        pub fn set_nodelay(&self, _: bool) -> Result<()> {
+            Ok(())
+        }
+        pub fn nodelay(&self) -> Result<bool> {
+            Ok(true)
+        }
+        pub fn set_ttl(&self, _: u32) -> Result<()> {
+            Ok(())
+        }
+        pub fn set_read_timeout(&self, d: Option<RDuration>) -> Result<()> {
+            world().set_timeouts(self.id, Some(d), None)
+        }
+        pub fn set_write_timeout(&self, d: Option<RDuration>) -> Result<()> {
+            world().set_timeouts(self.id, None, Some(d))
+        }
+        pub fn take_error(&self) -> Result<Option<super::rio::Error>> {
+            Ok(None)
+        }
+    }
+
+    fn read_any(id: u64, bufs: &mut [IoSliceMut<'_>]) -> Result<usize> {
+        for b in bufs.iter_mut() {
+            if !b.is_empty() {
+                return world().read(id, b);
+            }
+        }
+        Ok(0)
+    }
+
+    impl Read for TcpStream {
+        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
+            world().read(self.id, buf)
+        }
+        fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> Result<usize> {
+            read_any(self.id, bufs)
+        }
+    }
+    impl Read for &TcpStream {
+        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
+            world().read(self.id, buf)
+        }
+        fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> Result<usize> {
+            read_any(self.id, bufs)
+        }
+    }
+    impl Write for TcpStream {
+        fn write(&mut self, buf: &[u8]) -> Result<usize> {
+            world().write(self.id, &[IoSlice::new(buf)])
+        }
+        fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> Result<usize> {
+            world().write(self.id, bufs)
+        }
+        fn flush(&mut self) -> Result<()> {
+            Ok(())
+        }
+    }
+    impl Write for &TcpStream {
+        fn write(&mut self, buf: &[u8]) -> Result<usize> {
+            world().write(self.id, &[IoSlice::new(buf)])
+        }
+        fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> Result<usize> {
+            world().write(self.id, bufs)
+        }
+        fn flush(&mut self) -> Result<()> {
+            Ok(())
+        }
+    }
+    impl Drop for TcpStream {
+        fn drop(&mut self) {
+            world().close(self.id);
+        }
+    }
+}
+
+pub mod process {
+    use super::real_std::ffi::{OsStr, OsString};
+    use super::real_std::os::unix::process::ExitStatusExt;
+    use super::real_std::path::{Path, PathBuf};
+    pub use super::real_std::process::*;
+    use super::rio::Result;
+    use super::{Vec, world};
+
+    #[derive(Debug)]
+    pub struct Command {
+        program: OsString,
+        args: Vec<OsString>,
+        cwd: Option<PathBuf>,
+    }
+
+    #[derive(Debug)]
+    pub struct Child {
+        id: u64,
+        pub stdin: Option<ChildStdin>,
+        pub stdout: Option<ChildStdout>,
+        pub stderr: Option<ChildStderr>,
+    }
+
+    impl Command {
+        pub fn new<S: AsRef<OsStr>>(program: S) -> Command {
+            Command {
+                program: program.as_ref().into(),
+                args: Vec::new(),
+                cwd: None,
+            }
+        }
+        pub fn arg<S: AsRef<OsStr>>(&mut self, arg: S) -> &mut Command {
+            self.args.push(arg.as_ref().into());
+            self
+        }
+        pub fn args<I: IntoIterator<Item = S>, S: AsRef<OsStr>>(&mut self, args: I) -> &mut Self {
+            for a in args {
+                self.args.push(a.as_ref().into());
+            }
+            self
+        }
+        pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, _: K, _: V) -> &mut Command {
+            self
+        }
+        pub fn current_dir<P: AsRef<Path>>(&mut self, dir: P) -> &mut Command {
+            self.cwd = Some(dir.as_ref().into());
+            self
+        }
+        pub fn stdin<T: Into<Stdio>>(&mut self, _: T) -> &mut Command {
+            self
+        }
+        pub fn stdout<T: Into<Stdio>>(&mut self, _: T) -> &mut Command {
+            self
+        }
+        pub fn stderr<T: Into<Stdio>>(&mut self, _: T) -> &mut Command {
+            self
+        }
+        pub fn get_program(&self) -> &OsStr {
+            &self.program
+        }
+        pub fn get_args(&self) -> impl Iterator<Item = &OsStr> {
+            self.args.iter().map(|a| a.as_os_str())
+        }
+        pub fn get_current_dir(&self) -> Option<&Path> {
+            self.cwd.as_deref()
+        }
+        pub fn spawn(&mut self) -> Result<Child> {
+            let id = world().spawn(&self.program, &self.args, self.cwd.as_deref())?;
+            Ok(Child {
+                id,
+                stdin: None,
+                stdout: None,
+                stderr: None,
+            })
+        }
+    }
+
+    impl Child {
+        pub fn id(&self) -> u32 {
+            self.id as u32
+        }
+        pub fn kill(&mut self) -> Result<()> {
+            world().kill(self.id)
+        }
+        pub fn wait(&mut self) -> Result<ExitStatus> {
+            let raw = world().wait(self.id, true)?;
+            Ok(ExitStatus::from_raw(raw.unwrap_or(0)))
+        }
+        pub fn try_wait(&mut self) -> Result<Option<ExitStatus>> {
+            Ok(world().wait(self.id, false)?.map(ExitStatus::from_raw))
+        }
+    }
+}
+
+pub mod thread {
+    pub use super::real_std::thread::*;
+    use super::{RDuration, world};
+
+    pub fn sleep(dur: RDuration) {
+        world().sleep(dur)
+    }
+    pub fn yield_now() {
+        world().sleep(RDuration::from_micros(1))
+    }
+}
+
+pub mod time {
+    pub use super::real_std::time::*;
+    use super::world;
+
+    #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
+    pub struct Instant(Duration);
+
+    impl Instant {
+        pub fn now() -> Instant {
+            Instant(world().now())
+        }
+        pub fn elapsed(&self) -> Duration {
+            world().now().saturating_sub(self.0)
+        }
+        pub fn duration_since(&self, earlier: Instant) -> Duration {
+            self.0.saturating_sub(earlier.0)
+        }
+        pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
+            self.0.saturating_sub(earlier.0)
+        }
+        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
+            self.0.checked_add(d).map(Instant)
+        }
+    }
+    impl core::ops::Add<Duration> for Instant {
+        type Output = Instant;
+        fn add(self, d: Duration) -> Instant {
+            Instant(self.0 + d)
+        }
+    }
+    impl core::ops::Sub<Instant> for Instant {
+        type Output = Duration;
+        fn sub(self, e: Instant) -> Duration {
+            self.0.saturating_sub(e.0)
+        }
+    }
+}
+
+pub mod fs {
+    pub use super::real_std::fs::*;
+    use super::real_std::path::Path;
+    use super::rio::{Cursor, Error, ErrorKind, Read, Result};
+    use super::{Box, String, Vec, world};
+
+    pub fn read<P: AsRef<Path>>(path: P) -> Result<Vec<u8>> {
+        world().read_file(path.as_ref())
+    }
+    pub fn read_to_string<P: AsRef<Path>>(path: P) -> Result<String> {
+        String::from_utf8(world().read_file(path.as_ref())?)
+            .map_err(|_| Error::new(ErrorKind::InvalidData, "stream did not contain valid UTF-8"))
+    }
+    pub fn exists<P: AsRef<Path>>(path: P) -> Result<bool> {
+        Ok(world().file_exists(path.as_ref()))
+    }
+    pub fn remove_file<P: AsRef<Path>>(path: P) -> Result<()> {
+        world().remove_file(path.as_ref())
+    }
+
+    #[derive(Debug)]
+    pub struct File(Cursor<Box<[u8]>>);
+    impl File {
+        pub fn open<P: AsRef<Path>>(path: P) -> Result<File> {
+            Ok(File(Cursor::new(
+                world().read_file(path.as_ref())?.into_boxed_slice(),
+            )))
+        }
+    }
+    impl Read for File {
+        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
+            self.0.read(buf)
+        }
+    }
+}
diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 7a7f9b7..d9468cf 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -5,7 +5,10 @@
 //! provides a [`TcpSimulator`] struct that manages the lifetime of a TPM
 //! simulator process and a connection to it.
 #![cfg(feature = "connection-tcp")]
+#[cfg(not(verif_sim))]
 extern crate std;
+#[cfg(verif_sim)]
+use crate::connection::sim_std as std;
 
 use std::ffi::OsStr;
 use std::format;
diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 6ed70a5..ff69f60 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -1,5 +1,7 @@
 #![forbid(unsafe_code)]
 #![no_std]
+// `--cfg verif_sim` replaces the outside world of the TCP connection with a simulated one.
+#![allow(unexpected_cfgs)]
 
 use connection::Connection;
 use core::mem::size_of;
-- 
2.43.0


From 8cd4a983630094e5c098bb8df5df3fa83b61d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:27 +0000
Subject: [PATCH 02/17] fix: retry short and interrupted vectored writes to the
 simulator

A short write, or one interrupted by a signal, is legal for a TCP socket. It was
reported as an error after part of the request had been sent, which left the
stream unusable.
---
 crates/tpm2-client/src/connection/tcp.rs | 144 +++++++++++------------
 1 file changed, 72 insertions(+), 72 deletions(-)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index d9468cf..dddd4da 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -109,17 +109,14 @@ impl TcpConnection {
         let cmd_hdr = &SignalHashDataRequestHeader {
             length: U32::new(data.len() as u32),
         };
-        let bytes_written = self.tpm_tcp.write_vectored(&[
-            IoSlice::new(cmd_code.as_bytes()),
-            IoSlice::new(cmd_hdr.as_bytes()),
-            IoSlice::new(data),
-        ])?;
-        if bytes_written != cmd_code.as_bytes().len() + cmd_hdr.as_bytes().len() + data.len() {
-            return Err(Error::new(
-                ErrorKind::WriteZero,
-                "failed to write entire command to TPM",
-            ));
-        }
+        Self::write_all_vectored(
+            &mut self.tpm_tcp,
+            &mut [
+                IoSlice::new(cmd_code.as_bytes()),
+                IoSlice::new(cmd_hdr.as_bytes()),
+                IoSlice::new(data),
+            ],
+        )?;
         Self::check_response_end(&mut self.tpm_tcp)?;
 
         // Send TPM_Hash_End
@@ -142,16 +139,13 @@ impl TcpConnection {
             client_version: U32::new(client_version),
         };
 
-        let bytes_written = self.tpm_tcp.write_vectored(&[
-            IoSlice::new(cmd_code.as_bytes()),
-            IoSlice::new(cmd_payload.as_bytes()),
-        ])?;
-        if bytes_written != cmd_code.as_bytes().len() + cmd_payload.as_bytes().len() {
-            return Err(Error::new(
-                ErrorKind::WriteZero,
-                "failed to write entire command to TPM",
-            ));
-        }
+        Self::write_all_vectored(
+            &mut self.tpm_tcp,
+            &mut [
+                IoSlice::new(cmd_code.as_bytes()),
+                IoSlice::new(cmd_payload.as_bytes()),
+            ],
+        )?;
 
         let mut resp: RemoteHandshakeResponse = RemoteHandshakeResponse::default();
         self.tpm_tcp.read_exact(resp.as_mut_bytes())?;
@@ -173,16 +167,13 @@ impl TcpConnection {
             result: U32::new(result),
         };
 
-        let bytes_written = self.tpm_tcp.write_vectored(&[
-            IoSlice::new(cmd_code.as_bytes()),
-            IoSlice::new(cmd_payload.as_bytes()),
-        ])?;
-        if bytes_written != cmd_code.as_bytes().len() + cmd_payload.as_bytes().len() {
-            return Err(Error::new(
-                ErrorKind::WriteZero,
-                "failed to write entire command to TPM",
-            ));
-        }
+        Self::write_all_vectored(
+            &mut self.tpm_tcp,
+            &mut [
+                IoSlice::new(cmd_code.as_bytes()),
+                IoSlice::new(cmd_payload.as_bytes()),
+            ],
+        )?;
 
         Self::check_response_end(&mut self.tpm_tcp)
     }
@@ -269,16 +260,13 @@ impl TcpConnection {
             act_handle: U32::new(act_handle),
         };
 
-        let bytes_written = self.plat_tcp.write_vectored(&[
-            IoSlice::new(cmd_code.as_bytes()),
-            IoSlice::new(cmd_payload.as_bytes()),
-        ])?;
-        if bytes_written != cmd_code.as_bytes().len() + cmd_payload.as_bytes().len() {
-            return Err(Error::new(
-                ErrorKind::WriteZero,
-                "failed to write entire command to TPM",
-            ));
-        }
+        Self::write_all_vectored(
+            &mut self.plat_tcp,
+            &mut [
+                IoSlice::new(cmd_code.as_bytes()),
+                IoSlice::new(cmd_payload.as_bytes()),
+            ],
+        )?;
 
         let mut resp: ActGetSignaledResponse = ActGetSignaledResponse::default();
         self.plat_tcp.read_exact(resp.as_mut_bytes())?;
@@ -300,16 +288,13 @@ impl TcpConnection {
             hash: U32::new(hash),
         };
 
-        let bytes_written = self.plat_tcp.write_vectored(&[
-            IoSlice::new(cmd_code.as_bytes()),
-            IoSlice::new(cmd_payload.as_bytes()),
-        ])?;
-        if bytes_written != cmd_code.as_bytes().len() + cmd_payload.as_bytes().len() {
-            return Err(Error::new(
-                ErrorKind::WriteZero,
-                "failed to write entire command to TPM",
-            ));
-        }
+        Self::write_all_vectored(
+            &mut self.plat_tcp,
+            &mut [
+                IoSlice::new(cmd_code.as_bytes()),
+                IoSlice::new(cmd_payload.as_bytes()),
+            ],
+        )?;
 
         Self::check_response_end(&mut self.plat_tcp)
     }
@@ -324,16 +309,13 @@ impl TcpConnection {
         let cmd_code = U32::new(SimulatorPlatformCommandCode::SetFirmwareSvn as u32);
         let cmd_payload = &SetFirmwareSvnRequest { svn: U32::new(svn) };
 
-        let bytes_written = self.plat_tcp.write_vectored(&[
-            IoSlice::new(cmd_code.as_bytes()),
-            IoSlice::new(cmd_payload.as_bytes()),
-        ])?;
-        if bytes_written != cmd_code.as_bytes().len() + cmd_payload.as_bytes().len() {
-            return Err(Error::new(
-                ErrorKind::WriteZero,
-                "failed to write entire command to TPM",
-            ));
-        }
+        Self::write_all_vectored(
+            &mut self.plat_tcp,
+            &mut [
+                IoSlice::new(cmd_code.as_bytes()),
+                IoSlice::new(cmd_payload.as_bytes()),
+            ],
+        )?;
 
         Self::check_response_end(&mut self.plat_tcp)
     }
@@ -378,6 +360,27 @@ impl TcpConnection {
         Ok(())
     }
 
+    /// Writes all of the buffers to the stream in order, retrying short and
+    /// interrupted writes.
+    fn write_all_vectored(stream: &mut TcpStream, mut bufs: &mut [IoSlice<'_>]) -> Result<()> {
+        // Skip leading empty buffers, so that a write of zero bytes is an error.
+        IoSlice::advance_slices(&mut bufs, 0);
+        while !bufs.is_empty() {
+            match stream.write_vectored(bufs) {
+                Ok(0) => {
+                    return Err(Error::new(
+                        ErrorKind::WriteZero,
+                        "failed to write entire command to TPM",
+                    ));
+                }
+                Ok(n) => IoSlice::advance_slices(&mut bufs, n),
+                Err(err) if err.kind() == ErrorKind::Interrupted => {}
+                Err(err) => return Err(err),
+            }
+        }
+        Ok(())
+    }
+
     /// Reads the trailing zero from the TPM simulator response.
     fn check_response_end(stream: &mut TcpStream) -> Result<()> {
         let mut resp_end = U32::ZERO;
@@ -406,17 +409,14 @@ impl Connection for TcpConnection {
             length: U32::new(cmd_size),
         };
 
-        let bytes_written = self.tpm_tcp.write_vectored(&[
-            IoSlice::new(cmd_code.as_bytes()),
-            IoSlice::new(cmd_hdr.as_bytes()),
-            IoSlice::new(command),
-        ])?;
-        if bytes_written != cmd_code.as_bytes().len() + cmd_hdr.as_bytes().len() + command.len() {
-            return Err(Error::new(
-                ErrorKind::WriteZero,
-                "failed to write entire command to TPM",
-            ));
-        };
+        Self::write_all_vectored(
+            &mut self.tpm_tcp,
+            &mut [
+                IoSlice::new(cmd_code.as_bytes()),
+                IoSlice::new(cmd_hdr.as_bytes()),
+                IoSlice::new(command),
+            ],
+        )?;
 
         let mut resp_hdr: SendCommandResponseHeader = SendCommandResponseHeader::default();
         self.tpm_tcp.read_exact(resp_hdr.as_mut_bytes())?;
-- 
2.43.0


From 545c5ac8f11ccda6b7a9c4647725879019d41d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:02 +0000
Subject: [PATCH 03/17] fix: consume a response that does not fit the caller's
 buffer

The rest of the response stayed in the stream and was taken for the response to
the next command.
---
 crates/tpm2-client/src/connection/tcp.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index dddd4da..f0551f6 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -381,6 +381,17 @@ impl TcpConnection {
         Ok(())
     }
 
+    /// Reads `length` bytes from the stream and drops them.
+    fn discard(stream: &mut TcpStream, length: u64) -> Result<()> {
+        if std::io::copy(&mut stream.take(length), &mut std::io::sink())? != length {
+            return Err(Error::new(
+                ErrorKind::UnexpectedEof,
+                "response ended too early",
+            ));
+        }
+        Ok(())
+    }
+
     /// Reads the trailing zero from the TPM simulator response.
     fn check_response_end(stream: &mut TcpStream) -> Result<()> {
         let mut resp_end = U32::ZERO;
@@ -421,6 +432,9 @@ impl Connection for TcpConnection {
         let mut resp_hdr: SendCommandResponseHeader = SendCommandResponseHeader::default();
         self.tpm_tcp.read_exact(resp_hdr.as_mut_bytes())?;
         if resp_hdr.length.get() as usize > response.len() {
+            // Consume the response, so that the next one is read from its start.
+            Self::discard(&mut self.tpm_tcp, resp_hdr.length.get().into())?;
+            Self::check_response_end(&mut self.tpm_tcp)?;
             return Err(Error::new(
                 ErrorKind::InvalidInput,
                 "response buffer too small",
-- 
2.43.0


From 5c5162054d74f7c68b138208150e3be8036b1458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:04 +0000
Subject: [PATCH 04/17] fix: stop the simulator process when connecting to it
 fails

The process was left running, with nobody able to stop it.
---
 crates/tpm2-client/src/connection/tcp.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index f0551f6..324834e 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -658,7 +658,7 @@ impl TcpSimulator {
             command.args(args);
         }
 
-        let child = command
+        let mut child = command
             // TODO: Capture stdout/stderr to display when requested.
             .stdout(Stdio::null())
             .stderr(Stdio::null())
@@ -674,16 +674,26 @@ impl TcpSimulator {
                 )
             })?;
 
+        match Self::connect_to_child(cwd.as_ref(), ip) {
+            Ok(conn) => Ok(TcpSimulator { child, conn }),
+            Err(err) => {
+                // Do not leave the simulator running when nobody can reach it.
+                let _ = child.kill();
+                let _ = child.wait();
+                Err(err)
+            }
+        }
+    }
+
+    /// Connects to the ports that a simulator running in `cwd` uses.
+    fn connect_to_child(cwd: &Path, ip: &str) -> Result<TcpConnection> {
         // The TCG TPM simulator writes the ports it uses to two files:
         //   - TPM port: "command.port"
         //   - Platform port: "platform.port"
-        let tpm_port = Self::read_port_from_file_with_retries(&cwd.as_ref().join("command.port"))?;
-        let plat_port =
-            Self::read_port_from_file_with_retries(&cwd.as_ref().join("platform.port"))?;
-
-        let conn = TcpConnection::connect_with_retries(ip, Some(tpm_port), Some(plat_port))?;
+        let tpm_port = Self::read_port_from_file_with_retries(&cwd.join("command.port"))?;
+        let plat_port = Self::read_port_from_file_with_retries(&cwd.join("platform.port"))?;
 
-        Ok(TcpSimulator { child, conn })
+        TcpConnection::connect_with_retries(ip, Some(tpm_port), Some(plat_port))
     }
 
     /// Reads a port from a file with retires.
-- 
2.43.0


From af3382f4632c77a4a4a4566b2b440ef47b906cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:05 +0000
Subject: [PATCH 05/17] fix: retry a port file that the simulator has not
 written yet

The simulator creates the file before it writes the port; start-up failed at
once when it looked in between.
---
 crates/tpm2-client/src/connection/tcp.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 324834e..219ba05 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -701,14 +701,8 @@ impl TcpSimulator {
         let mut attempts = 0;
         loop {
             attempts += 1;
-            match std::fs::read_to_string(path) {
-                Ok(port_str) => {
-                    let port = port_str
-                        .trim()
-                        .parse::<u16>()
-                        .map_err(|e| Error::new(ErrorKind::InvalidData, e))?;
-                    return Ok(port);
-                }
+            match Self::read_port_from_file(path) {
+                Ok(port) => return Ok(port),
                 Err(err) => {
                     if attempts > 3 {
                         return Err(err);
@@ -719,6 +713,15 @@ impl TcpSimulator {
         }
     }
 
+    /// Reads a port from a file. The simulator creates the file before it
+    /// writes the port to it.
+    fn read_port_from_file(path: &Path) -> Result<u16> {
+        std::fs::read_to_string(path)?
+            .trim()
+            .parse::<u16>()
+            .map_err(|e| Error::new(ErrorKind::InvalidData, e))
+    }
+
     /// Stops the TPM simulator process nicely.
     pub fn stop_nicely(&mut self) -> Result<()> {
         self.conn.stop_simulator()
-- 
2.43.0


From 4f704146d4178c01b943198f10ccc2e2fe7e88cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:56 +0000
Subject: [PATCH 06/17] fix: refuse to marshal an array whose count exceeds its
 length

Encoding a value whose count field claims more elements than the array holds
indexed past the array and panicked; report ArrayLengthExceeded, as the
decoder does.
---
 marshalable-derive/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index acde6f9..533a1f5 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -412,6 +412,9 @@ fn get_named_field_marshal<'a>(
         let length_prim =
             get_primitive(&length, basic_field_types.get(length.get_ident().unwrap()))?;
         Ok(quote_spanned! {span =>
+            if self.#length_prim as usize > self.#name.len() {
+                return Err(tpm2_rs_marshalable::Error::ArrayLengthExceeded);
+            }
             for i in 0..self.#length_prim as usize {
                 written += self.#name[i].try_marshal(&mut buffer[written..])?;
             }
-- 
2.43.0


From 2be18f6c5536b53d7d4aa679df7ce8e21c230e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:25 +0000
Subject: [PATCH 07/17] fix: report an output buffer too small for a TPM2B

The bound took the larger of the buffer's capacity and the room left, so
marshaling a TPM2B into too little room panicked instead of returning
UnexpectedEndOfBuffer.
---
 marshalable-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index 533a1f5..0a2cb96 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -278,7 +278,7 @@ fn derive_tpm2b_simple(
                 let used = self.size.try_marshal(buffer)?;
                 let (_, rest) = buffer.split_at_mut(used);
                 let buffer_marsh = self.get_size() as usize;
-                if buffer_marsh > (core::cmp::max(Self::MAX_BUFFER_SIZE, rest.len())) {
+                if buffer_marsh > (core::cmp::min(Self::MAX_BUFFER_SIZE, rest.len())) {
                     return Err(tpm2_rs_marshalable::Error::UnexpectedEndOfBuffer);
                 }
                 rest[..buffer_marsh].copy_from_slice(&self.#field_name[..buffer_marsh]);
-- 
2.43.0


From d15d1676318a67e5ce5e946750c67510a0621922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:46 +0000
Subject: [PATCH 08/17] fix: read a response only from the bytes that were
 received

The client ignored the slice returned by the connection and parsed its whole
buffer: a size field below a header's size panicked, and a truncated response
was completed from stale bytes. Parse the received bytes only, and refuse a
response whose size field differs from what was received.
---
 crates/tpm2-client/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index ff69f60..1f866d0 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -175,14 +175,18 @@ pub fn run_command_with_handles<
         .map_err(TssError::from)?;
 
     let mut resp_buffer = [0u8; RESP_BUFFER_SIZE];
-    tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
+    let response = tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
 
-    let (resp_header, read) = read_response_header(&resp_buffer)?;
+    let (resp_header, read) = read_response_header(response)?;
     let resp_size = resp_header.size as usize;
-    if resp_size > resp_buffer.len() {
+    if resp_size > RESP_BUFFER_SIZE {
         return Err(TssError::from(TssTcsError::OutOfMemory).into());
     }
-    let mut unmarsh = UnmarshalBuf::new(&resp_buffer[read..resp_size]);
+    // Only the bytes which were received belong to the response.
+    if resp_size != response.len() {
+        return Err(TssError::from(TssTcsError::TpmUnexpected).into());
+    }
+    let mut unmarsh = UnmarshalBuf::new(&response[read..]);
     let resp_handles = CmdT::RespHandles::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
     if resp_header.tag == TpmSt::Sessions {
         let _param_size = u32::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
-- 
2.43.0


From b7688bb0555ff2fd5d48e9027e2916f334e6bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:40 +0000
Subject: [PATCH 09/17] fix: check the parameter size of a response with
 sessions

The parameterSize field was read and ignored, so a response whose
authorizations start elsewhere than it says was accepted.
---
 crates/tpm2-client/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 1f866d0..7649ea9 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -188,10 +188,16 @@ pub fn run_command_with_handles<
     }
     let mut unmarsh = UnmarshalBuf::new(&response[read..]);
     let resp_handles = CmdT::RespHandles::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
-    if resp_header.tag == TpmSt::Sessions {
-        let _param_size = u32::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
-    }
+    let param_size = if resp_header.tag == TpmSt::Sessions {
+        Some(u32::try_unmarshal(&mut unmarsh).map_err(TssError::from)?)
+    } else {
+        None
+    };
+    let before_params = unmarsh.len();
     let resp = CmdT::RespT::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
+    if param_size.is_some_and(|size| size as usize != before_params - unmarsh.len()) {
+        return Err(TssError::from(TssTcsError::TpmUnexpected).into());
+    }
     read_response_sessions(&cmd_sessions, &mut unmarsh)?;
 
     if !unmarsh.is_empty() {
-- 
2.43.0


From 936c3f42c52f8f61098aa9f9b836d59884993101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:06 +0000
Subject: [PATCH 10/17] fix: refuse a command whose authorization area has no
 room for its size

When fewer than four bytes of the command buffer remained after the handles,
writing the sessions sliced past its end and panicked.
---
 crates/tpm2-client/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 7649ea9..694b930 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -84,7 +84,8 @@ pub fn write_command_sessions<
     if sessions.is_empty() {
         return Ok(0);
     }
-    let mut auth_offset = size_of::<u32>();
+    // Reserve room for the size of the authorization area.
+    let mut auth_offset = 0u32.try_marshal(buffer)?;
     let (s1, s2, s3) = sessions.decompose_ref();
     let Some(s1) = s1 else {
         return marshal_auth_size(auth_offset, buffer);
-- 
2.43.0


From e30b4b9d5968a0c42df608827758aae83a6ed88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:03 +0000
Subject: [PATCH 11/17] fix: TPM_RC_SEQUENCE is 0x103

[TPM2.0 1.83] Part 2, 6.6.3: TPM_RC_SEQUENCE is RC_VER1 + 0x003.
---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index 552e827..b587cf8 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -61,7 +61,7 @@ impl TpmRcError {
     /// Commands not being accepted because of a TPM failure (`TPM_RC_FAILURE`).
     pub const Failure: Self = Self::new(0x101);
     /// Improper use of a sequence handle (`TPM_RC_SEQUENCE`).
-    pub const Sequence: Self = Self::new(0x102);
+    pub const Sequence: Self = Self::new(0x103);
 
     /// Command commandSize value is inconsistent with contents of the command buffer; either the
     /// size is not the same as the octets loaded by the hardware interface layer or the value is
-- 
2.43.0


From 35f4903dd8b9b9a1aa66ea86a9af86b478035549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:05 +0000
Subject: [PATCH 12/17] fix: decode the kind and position of handle and session
 errors

ErrorType::from_mask tested the session mask itself instead of the code, so
handle errors decoded as session errors, and the session bit was taken as
part of the position.
---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index b587cf8..81c02f1 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -151,7 +151,7 @@ impl ErrorType {
         }
         if val & Self::PARAMETER_MASK != 0 {
             Some(Self::Parameter)
-        } else if Self::SESSION_MASK != 0 {
+        } else if val & Self::SESSION_MASK != 0 {
             Some(Self::Session)
         } else {
             Some(Self::Handle)
@@ -203,7 +203,13 @@ impl ErrorPosition {
         if val & 0x80 == 0 {
             return None;
         }
-        match val & 0xF00 {
+        // Only parameters use all four bits; for a session the highest bit is the type.
+        let mask = if val & ErrorType::PARAMETER_MASK != 0 {
+            0xF00
+        } else {
+            0x700
+        };
+        match val & mask {
             0x100 => Some(Self::Pos1),
             0x200 => Some(Self::Pos2),
             0x300 => Some(Self::Pos3),
-- 
2.43.0


From 46a0d97695c4a5644f8969e83f96566a870b92ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:03 +0000
Subject: [PATCH 13/17] fix: write the whole header of an error response

---
 crates/tpm2-impl/src/tpmctx.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/tpm2-impl/src/tpmctx.rs b/crates/tpm2-impl/src/tpmctx.rs
index 539915c..e347ab0 100644
--- a/crates/tpm2-impl/src/tpmctx.rs
+++ b/crates/tpm2-impl/src/tpmctx.rs
@@ -6,6 +6,9 @@ use crate::req_resp::RequestResponseCursor;
 use tpm2_rs_base::constants::TpmCc;
 use tpm2_rs_base::errors::TpmRcError;
 
+/// The tag of commands and responses without sessions (`TPM_ST_NO_SESSIONS`).
+const NO_SESSIONS_TAG: u16 = 0x8001;
+
 /// The object that processes incoming TPM requests and produces the corresponding TPM response.
 pub struct TpmContext<Deps: TpmContextDeps> {
     handler: CommandHandler<Deps>,
@@ -48,11 +51,15 @@ impl<Deps: TpmContextDeps> TpmContext<Deps> {
     }
 
     fn fill_error(&mut self, response: &mut Deps::Response, error: TpmRcError) -> usize {
-        // TODO fill out more of the TPM header for an error
-        if response.write(6, &error.get().to_be_bytes()).is_err() {
+        const ERROR_RESPONSE_SIZE: usize = 10;
+        let mut header = [0; ERROR_RESPONSE_SIZE];
+        header[0..2].copy_from_slice(&NO_SESSIONS_TAG.to_be_bytes());
+        header[2..6].copy_from_slice(&(ERROR_RESPONSE_SIZE as u32).to_be_bytes());
+        header[6..10].copy_from_slice(&error.get().to_be_bytes());
+        if response.write(0, &header).is_err() {
             return 0;
         }
-        10
+        ERROR_RESPONSE_SIZE
     }
 
     fn execute_command(&mut self, buffers: impl TpmBuffers) -> Result<usize, TpmRcError> {
@@ -78,9 +85,8 @@ impl<Deps: TpmContextDeps> TpmContext<Deps> {
         let response_size = request_and_response.last_response_byte_written();
         let response = request_and_response.response();
         // TODO add session information
-        let session_tag = 0x8001_u16;
         response
-            .write(0, &(session_tag).to_be_bytes())
+            .write(0, &NO_SESSIONS_TAG.to_be_bytes())
             .or(Err(TpmRcError::Memory))?;
 
         response
-- 
2.43.0


From 31bdb402369ac4c8fbf902ddeda17041bb0b92b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:05 +0000
Subject: [PATCH 14/17] fix: answer TPM_RC_FAILURE when the random generator
 fails

---
 crates/tpm2-impl/src/handler/random.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-impl/src/handler/random.rs b/crates/tpm2-impl/src/handler/random.rs
index 02428e6..c18b95a 100644
--- a/crates/tpm2-impl/src/handler/random.rs
+++ b/crates/tpm2-impl/src/handler/random.rs
@@ -20,11 +20,6 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         self.crypto.drbg.fill_bytes(&[], buffer).map_err(Into::into)
     }
 
-    fn get_random_or_faiure_mode(&mut self, buffer: &mut [u8]) {
-        if self.try_get_random(buffer).is_err() {
-            todo!() // goto failure mode
-        }
-    }
     /// Handles the [TpmCc::GetRandom] (`0x17B`) command.
     pub fn get_random(
         &mut self,
@@ -34,11 +29,13 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         let requested_bytes = request.read_be_u16().ok_or(TpmRcError::CommandSize)? as usize;
 
         let mut response = request.into_response();
+        let mut result = Ok(());
         response
             .write_callback(requested_bytes, |buffer| {
-                self.get_random_or_faiure_mode(buffer)
+                result = self.try_get_random(buffer);
             })
             .map_err(|_| TpmRcError::Memory)?;
-        Ok(())
+        // TODO: go to failure mode
+        result.map_err(|_| TpmRcError::Failure)
     }
 }
-- 
2.43.0


From e064ac3f83318a02741b53d842e6a6e218531b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:06 +0000
Subject: [PATCH 15/17] fix: refuse commands whose tag is not
 TPM_ST_NO_SESSIONS

---
 crates/tpm2-impl/src/tpmctx.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/tpm2-impl/src/tpmctx.rs b/crates/tpm2-impl/src/tpmctx.rs
index e347ab0..6def365 100644
--- a/crates/tpm2-impl/src/tpmctx.rs
+++ b/crates/tpm2-impl/src/tpmctx.rs
@@ -68,14 +68,17 @@ impl<Deps: TpmContextDeps> TpmContext<Deps> {
         let mut request_and_response =
             RequestResponseCursor::new(buffers, CMD_HANDLER_RESPONSE_OFFSET);
         let mut request = request_and_response.request();
-        let _session = request.read_be_u16().ok_or(TpmRcError::CommandSize)?;
+        let tag = request.read_be_u16().ok_or(TpmRcError::CommandSize)?;
         let size = request.read_be_u32().ok_or(TpmRcError::CommandSize)?;
         if size as usize != request_size {
             return Err(TpmRcError::CommandSize);
         }
         let command_code = request.read_be_u32().ok_or(TpmRcError::CommandSize)?;
 
-        // TODO, if _session is not NoSession, then parse session stuff here
+        // TODO: parse sessions; until then only commands without them can be executed.
+        if tag != NO_SESSIONS_TAG {
+            return Err(TpmRcError::BadTag);
+        }
 
         match TpmCc(command_code) {
             TpmCc::GetRandom => self.handler.get_random(request),
-- 
2.43.0


From 7b8721ee3ce9337b3f11714f05c5f3c23e44a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:08 +0000
Subject: [PATCH 16/17] hook: more of std in the simulated std (--cfg
 verif_sim)

---
 crates/tpm2-client/src/connection/sim_std.rs | 47 +++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/crates/tpm2-client/src/connection/sim_std.rs b/crates/tpm2-client/src/connection/sim_std.rs
index ab8137e..1d6c94a 100644
--- a/crates/tpm2-client/src/connection/sim_std.rs
+++ b/crates/tpm2-client/src/connection/sim_std.rs
@@ -118,6 +118,13 @@ pub mod net {
         pub fn set_ttl(&self, _: u32) -> Result<()> {
             Ok(())
         }
+        pub fn ttl(&self) -> Result<u32> {
+            Ok(64)
+        }
+        pub fn local_addr(&self) -> Result<SocketAddr> {
+            let ip = world().peer_addr(self.id)?.ip();
+            Ok(SocketAddr::new(ip, 40000 + (self.id % 20000) as u16))
+        }
         pub fn set_read_timeout(&self, d: Option<RDuration>) -> Result<()> {
             world().set_timeouts(self.id, Some(d), None)
         }
@@ -227,6 +234,20 @@ pub mod process {
         pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, _: K, _: V) -> &mut Command {
             self
         }
+        pub fn envs<I, K, V>(&mut self, _: I) -> &mut Command
+        where
+            I: IntoIterator<Item = (K, V)>,
+            K: AsRef<OsStr>,
+            V: AsRef<OsStr>,
+        {
+            self
+        }
+        pub fn env_remove<K: AsRef<OsStr>>(&mut self, _: K) -> &mut Command {
+            self
+        }
+        pub fn env_clear(&mut self) -> &mut Command {
+            self
+        }
         pub fn current_dir<P: AsRef<Path>>(&mut self, dir: P) -> &mut Command {
             self.cwd = Some(dir.as_ref().into());
             self
@@ -243,7 +264,7 @@ pub mod process {
         pub fn get_program(&self) -> &OsStr {
             &self.program
         }
-        pub fn get_args(&self) -> impl Iterator<Item = &OsStr> {
+        pub fn get_args(&self) -> impl ExactSizeIterator<Item = &OsStr> {
             self.args.iter().map(|a| a.as_os_str())
         }
         pub fn get_current_dir(&self) -> Option<&Path> {
@@ -309,9 +330,26 @@ pub mod time {
         pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
             self.0.saturating_sub(earlier.0)
         }
+        pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
+            self.0.checked_sub(earlier.0)
+        }
         pub fn checked_add(&self, d: Duration) -> Option<Instant> {
             self.0.checked_add(d).map(Instant)
         }
+        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
+            self.0.checked_sub(d).map(Instant)
+        }
+    }
+    impl core::ops::AddAssign<Duration> for Instant {
+        fn add_assign(&mut self, d: Duration) {
+            self.0 += d;
+        }
+    }
+    impl core::ops::Sub<Duration> for Instant {
+        type Output = Instant;
+        fn sub(self, d: Duration) -> Instant {
+            Instant(self.0 - d)
+        }
     }
     impl core::ops::Add<Duration> for Instant {
         type Output = Instant;
@@ -330,7 +368,7 @@ pub mod time {
 pub mod fs {
     pub use super::real_std::fs::*;
     use super::real_std::path::Path;
-    use super::rio::{Cursor, Error, ErrorKind, Read, Result};
+    use super::rio::{Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom};
     use super::{Box, String, Vec, world};
 
     pub fn read<P: AsRef<Path>>(path: P) -> Result<Vec<u8>> {
@@ -361,4 +399,9 @@ pub mod fs {
             self.0.read(buf)
         }
     }
+    impl Seek for File {
+        fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
+            self.0.seek(pos)
+        }
+    }
 }
-- 
2.43.0


From e38639b28b03401cb408f725e9532eb0e8a4d4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:31 +0000
Subject: [PATCH 17/17] fix: refuse H-CRTM data whose length the simulator
 protocol cannot state

---
 crates/tpm2-client/src/connection/tcp.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 219ba05..d134e8b 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -96,9 +96,15 @@ impl TcpConnection {
     ///
     /// # Errors
     ///
-    /// Returns an error if the communication with the TPM fails or if the
-    /// response terminator is invalid.
+    /// Returns an error if the data is too large for the simulator protocol,
+    /// if the communication with the TPM fails or if the response terminator
+    /// is invalid.
     pub fn hcrtm_sequence(&mut self, data: &[u8]) -> Result<()> {
+        let data_size: u32 = data
+            .len()
+            .try_into()
+            .map_err(|e| Error::new(ErrorKind::InvalidInput, e))?;
+
         // Send TPM_Hash_Start
         let cmd_code = U32::new(SimulatorTpmCommandCode::SignalHashStart as u32);
         self.tpm_tcp.write_all(cmd_code.as_bytes())?;
@@ -107,7 +113,7 @@ impl TcpConnection {
         // Send TPM_Hash_Data
         let cmd_code = U32::new(SimulatorTpmCommandCode::SignalHashData as u32);
         let cmd_hdr = &SignalHashDataRequestHeader {
-            length: U32::new(data.len() as u32),
+            length: U32::new(data_size),
         };
         Self::write_all_vectored(
             &mut self.tpm_tcp,
-- 
2.43.0

