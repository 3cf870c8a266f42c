From 44e22f0b8aea81b2f658a9588dd94d161daa3597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 01/29] fix: make the alloc-without-std configuration compile

`to_owned()` needs the `ToOwned` trait, which is not in the no_std prelude.
---
 src/target/ext/tracepoints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/target/ext/tracepoints.rs b/src/target/ext/tracepoints.rs
index d051e59..ae10dcc 100644
--- a/src/target/ext/tracepoints.rs
+++ b/src/target/ext/tracepoints.rs
@@ -121,7 +121,7 @@ impl<U: Copy> SourceTracepoint<'_, U> {
             kind: self.kind,
             start: self.start,
             slen: self.slen,
-            bytes: ManagedSlice::Owned(self.bytes.to_owned()),
+            bytes: ManagedSlice::Owned(self.bytes.to_vec()),
         }
     }
 }
-- 
2.43.0


From 0fbb1490f9ad8daaf172c59fb7217b375ffbfa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 02/29] fix: never emit '$' as a run-length repeat count

A run of eight identical characters was encoded with '$' as its repeat
count (28 + 8), which the protocol forbids and which clients treat as the
start of a new packet. Runs of seven and eight ('#' and '$') are the ones to
avoid; a run of six is encodable.
---
 src/protocol/response_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/response_writer.rs b/src/protocol/response_writer.rs
index 42c2a20..1967c98 100644
--- a/src/protocol/response_writer.rs
+++ b/src/protocol/response_writer.rs
@@ -135,7 +135,7 @@ impl<'a, C: Connection + 'a> ResponseWriter<'a, C> {
                         }
                     }
                     // RLE would output an invalid char ('#' or '$')
-                    6 | 7 => {
+                    7 | 8 => {
                         self.inner_write(self.rle_char)?;
                         self.rle_repeat -= 1;
                         continue;
-- 
2.43.0


From 5af59b5d4abf074a941c69f8cdfa5ab94fd76799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 03/29] fix: report contiguous, in-range data for memory reads
 spanning several chunks

A memory read larger than the packet buffer is served in several chunks. It
kept reading after a short read (so the reply was not contiguous, and a
target answering Ok(0) was asked again until the whole requested length had
been walked), overflowed the address at the end of the address space, and
appended an error code to the data already written if a later chunk failed.
---
 src/stub/core_impl/base.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/stub/core_impl/base.rs b/src/stub/core_impl/base.rs
index b42e1f0..2a6540c 100644
--- a/src/stub/core_impl/base.rs
+++ b/src/stub/core_impl/base.rs
@@ -288,29 +288,45 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 let addr = <T::Arch as Arch>::Usize::from_be_bytes(cmd.addr)
                     .ok_or(Error::TargetMismatch)?;
 
-                let mut i = 0;
+                let mut i: usize = 0;
                 let mut n = cmd.len;
                 while n != 0 {
                     let chunk_size = n.min(buf.len());
 
+                    use num_traits::CheckedAdd;
                     use num_traits::NumCast;
 
-                    let addr = addr + NumCast::from(i).ok_or(Error::TargetMismatch)?;
+                    // stop at the end of the address space
+                    let chunk_addr = match NumCast::from(i).and_then(|i| addr.checked_add(&i)) {
+                        Some(chunk_addr) => chunk_addr,
+                        None => break,
+                    };
                     let data = &mut buf[..chunk_size];
-                    let data_len = match target.base_ops() {
-                        BaseOps::SingleThread(ops) => ops.read_addrs(addr, data),
+                    let read_result = match target.base_ops() {
+                        BaseOps::SingleThread(ops) => ops.read_addrs(chunk_addr, data),
                         BaseOps::MultiThread(ops) => {
-                            ops.read_addrs(addr, data, self.current_mem_tid)
+                            ops.read_addrs(chunk_addr, data, self.current_mem_tid)
                         }
-                    }
-                    .handle_error()?;
-
-                    n -= chunk_size;
-                    i += chunk_size;
+                    };
+                    let data_len = match read_result.handle_error() {
+                        Ok(data_len) => data_len,
+                        // the preceding part of the range has already been written out, so
+                        // this has to be reported as a partial read
+                        Err(Error::NonFatalError(_)) if i != 0 => break,
+                        Err(e) => return Err(e),
+                    };
 
                     // TODO: add more specific error variant?
                     let data = data.get(..data_len).ok_or(Error::PacketBufferOverflow)?;
                     res.write_hex_buf(data)?;
+
+                    // the reply has to be contiguous, so stop at the first short read
+                    if data_len < chunk_size {
+                        break;
+                    }
+
+                    n -= chunk_size;
+                    i += chunk_size;
                 }
                 HandlerStatus::Handled
             }
-- 
2.43.0


From 53cc9d19829627cb0c6c6674dc7506a1a298b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 04/29] fix: flush the acknowledgement of resume and kill
 packets

Neither a resume request nor a kill outside extended mode writes a response,
so nothing flushed the '+' acknowledging them: with a buffering connection it
stayed in the buffer while the target was running (or forever, for a kill).
---
 src/stub/core_impl.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/stub/core_impl.rs b/src/stub/core_impl.rs
index d5ca4d5..95e9547 100644
--- a/src/stub/core_impl.rs
+++ b/src/stub/core_impl.rs
@@ -160,7 +160,12 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         res.write_str("OK")?;
                         None
                     }
-                    Ok(HandlerStatus::DeferredStopReason) => return Ok(State::DeferredStopReason),
+                    Ok(HandlerStatus::DeferredStopReason) => {
+                        // there's no response to flush yet, but the ack must not be left sitting in
+                        // the connection's buffer while the target is running
+                        res.as_conn().flush().map_err(InternalError::conn_write)?;
+                        return Ok(State::DeferredStopReason);
+                    }
                     Ok(HandlerStatus::Disconnect(reason)) => Some(reason),
                     // HACK: handling this "dummy" error is required as part of the
                     // `TargetResultExt::handle_error()` machinery.
@@ -177,6 +182,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 let is_kill = matches!(disconnect_reason, Some(DisconnectReason::Kill));
                 if !(target.support_extended_mode().is_none() && is_kill) {
                     res.flush()?;
+                } else {
+                    // ...but the ack still has to reach the client
+                    res.as_conn().flush().map_err(InternalError::conn_write)?;
                 }
 
                 let state = match disconnect_reason {
-- 
2.43.0


From a5adde3ad4788bf9ef18fcf21f9efe2c5b2c7652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 05/29] fix: don't mistake a longer command name for a shorter
 one

`qCRC:addr,len` (GDB's compare-sections) was parsed as a malformed `qC` on
targets supporting extended mode, ending the session instead of yielding the
empty reply due to an unknown command. Likewise `vContFoo` resumed a target.
Multi-letter commands now have to be followed by a separator.
---
 src/protocol/commands.rs |  2 +-
 src/protocol/packet.rs   | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/protocol/commands.rs b/src/protocol/commands.rs
index b18f860..ca31771 100644
--- a/src/protocol/commands.rs
+++ b/src/protocol/commands.rs
@@ -186,7 +186,7 @@ macro_rules! commands {
                 #[allow(clippy::string_lit_as_bytes)]
                 if target.[< support_ $ext >]().is_some() {
                     $(
-                    if buf.strip_prefix($name.as_bytes()) {
+                    if buf.strip_command_name($name.as_bytes()) {
                         crate::__dead_code_marker!($name, "prefix_match");
 
                         let cmd = $mod::$command::from_packet(buf)?;
diff --git a/src/protocol/packet.rs b/src/protocol/packet.rs
index 9723165..20d55c0 100644
--- a/src/protocol/packet.rs
+++ b/src/protocol/packet.rs
@@ -115,6 +115,23 @@ impl<'a> PacketBuf<'a> {
         }
     }
 
+    /// Strip the name of a command from the packet buffer, returning `true` if
+    /// the packet is (or rather: might be) that command.
+    ///
+    /// Multi-letter commands are separated from their arguments by punctuation,
+    /// so a name that merely is the beginning of a longer name doesn't match
+    /// (e.g: `qCRC` is not `qC`). LLDB's `qRegisterInfo` is the one exception.
+    pub fn strip_command_name(&mut self, name: &[u8]) -> bool {
+        if matches!(name, [b'q' | b'Q' | b'v', _, ..]) && name != b"qRegisterInfo" {
+            let next = self.buf.get(self.body_range.start + name.len());
+            if next.map_or(false, |b| b.is_ascii_alphabetic()) {
+                return false;
+            }
+        }
+
+        self.strip_prefix(name)
+    }
+
     /// Return a mutable reference to slice of the packet buffer corresponding
     /// to the current body.
     pub fn into_body(self) -> &'a mut [u8] {
-- 
2.43.0


From ca5fea661f18e87734c80599bf65e0a48e7d4844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 06/29] fix: don't append an error code to a partially written
 response

Tracepoint operations report their data through a callback; if the target
reported some and then failed, the error code was glued to that data (e.g:
`T1E16`), which a client can't tell from data.
---
 src/protocol/response_writer.rs | 5 +++++
 src/stub/core_impl.rs           | 8 ++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/protocol/response_writer.rs b/src/protocol/response_writer.rs
index 1967c98..9d63759 100644
--- a/src/protocol/response_writer.rs
+++ b/src/protocol/response_writer.rs
@@ -49,6 +49,11 @@ impl<'a, C: Connection + 'a> ResponseWriter<'a, C> {
         }
     }
 
+    /// Returns `true` if nothing has been written to the response yet.
+    pub fn is_empty(&self) -> bool {
+        !self.started && self.rle_repeat == 0
+    }
+
     /// Consumes self, writing out the final '#' and checksum
     pub fn flush(mut self) -> Result<(), Error<C::Error>> {
         // don't include the '#' in checksum calculation
diff --git a/src/stub/core_impl.rs b/src/stub/core_impl.rs
index 95e9547..a9f2ef5 100644
--- a/src/stub/core_impl.rs
+++ b/src/stub/core_impl.rs
@@ -170,8 +170,12 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     // HACK: handling this "dummy" error is required as part of the
                     // `TargetResultExt::handle_error()` machinery.
                     Err(InternalError::NonFatalError(code)) => {
-                        res.write_str("E")?;
-                        res.write_num(code)?;
+                        // an error code must not be appended to data which the target reported
+                        // before it failed
+                        if res.is_empty() {
+                            res.write_str("E")?;
+                            res.write_num(code)?;
+                        }
                         None
                     }
                     Err(e) => return Err(e),
-- 
2.43.0


From cb2fd26685d4fb17779db2b34afb7db5cc915b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 07/29] fix: reject agent expressions whose length overflows

The length of an 'X' action was doubled without an overflow check: this
panicked in debug builds, and in release builds a huge length wrapped around
and was accepted.
---
 src/stub/core_impl/tracepoints.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 1637698..e2fa2c9 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -161,10 +161,11 @@ impl<'a, U: BeBytes> ExtendTracepoint<'a, U> {
                     );
                     let len: usize =
                         decode_hex(len_bytes).or(Err(Error::PacketParse(MalformedCommand)))?;
-                    if rem.len() < len * 2 {
-                        return Err(Error::PacketParse(MalformedCommand));
-                    }
-                    let (expr_bytes, next_bytes) = rem.split_at_mut(len * 2);
+                    let hex_len = match len.checked_mul(2) {
+                        Some(hex_len) if hex_len <= rem.len() => hex_len,
+                        _ => return Err(Error::PacketParse(MalformedCommand)),
+                    };
+                    let (expr_bytes, next_bytes) = rem.split_at_mut(hex_len);
                     let expr =
                         decode_hex_buf(expr_bytes).or(Err(Error::PacketParse(MalformedCommand)))?;
                     (f)(&TracepointAction::Expression {
-- 
2.43.0


From 5ce17103748891af570484d6ceac510d28be41c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 08/29] fix: stop extending a tracepoint once an action failed

The remaining actions of the packet were still sent to the target, and a
later error replaced the first one, so that a fatal target error could be
reported to the client as a non-fatal one while the session went on.
---
 src/stub/core_impl/tracepoints.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index e2fa2c9..40a4f13 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -462,6 +462,10 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         let tp = extend_tracepoint.number;
                         let mut err: Option<Error<T::Error, C::Error>> = None;
                         let more = extend_tracepoint.actions(|action| {
+                            if err.is_some() {
+                                // don't pile further actions (or errors) onto a failed one
+                                return;
+                            }
                             if let Err(e) =
                                 ops.tracepoint_create_continue(tp, action).handle_error()
                             {
-- 
2.43.0


From e00746d0afe38cb761b8cc983805d3f990ca8ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 09/29] fix: don't panic on empty LLDB register lists

---
 src/stub/core_impl/lldb_register_info.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/stub/core_impl/lldb_register_info.rs b/src/stub/core_impl/lldb_register_info.rs
index 676991d..7718411 100644
--- a/src/stub/core_impl/lldb_register_info.rs
+++ b/src/stub/core_impl/lldb_register_info.rs
@@ -85,18 +85,18 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                                     Generic::Arg8 => "arg8",
                                 })?;
                             }
-                            if let Some(c_regs) = reg.container_regs {
+                            if let Some([first, rest @ ..]) = reg.container_regs {
                                 res.write_str(";container-regs:")?;
-                                res.write_num(c_regs[0])?;
-                                for reg in c_regs.iter().skip(1) {
+                                res.write_num(*first)?;
+                                for reg in rest {
                                     res.write_str(",")?;
                                     res.write_num(*reg)?;
                                 }
                             }
-                            if let Some(i_regs) = reg.invalidate_regs {
+                            if let Some([first, rest @ ..]) = reg.invalidate_regs {
                                 res.write_str(";invalidate-regs:")?;
-                                res.write_num(i_regs[0])?;
-                                for reg in i_regs.iter().skip(1) {
+                                res.write_num(*first)?;
+                                for reg in rest {
                                     res.write_str(",")?;
                                     res.write_num(*reg)?;
                                 }
-- 
2.43.0


From 2bd6943a1f19ecdf034ea87633666b86ac63cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 10/29] fix: pass empty vRun arguments on to the target

---
 src/protocol/commands/_QCatchSyscalls.rs |  2 +-
 src/protocol/commands/_vRun.rs           |  2 +-
 src/protocol/common/lists.rs             | 17 +++++++++++------
 src/stub/core_impl/catch_syscalls.rs     |  1 +
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/protocol/commands/_QCatchSyscalls.rs b/src/protocol/commands/_QCatchSyscalls.rs
index 0991117..2ba5b89 100644
--- a/src/protocol/commands/_QCatchSyscalls.rs
+++ b/src/protocol/commands/_QCatchSyscalls.rs
@@ -16,7 +16,7 @@ impl<'a> ParseCommand<'a> for QCatchSyscalls<'a> {
         match body {
             [b':', b'0'] => Some(QCatchSyscalls::Disable),
             [b':', b'1', b';', sysno @ ..] => {
-                Some(QCatchSyscalls::Enable(ArgListHex::from_packet(sysno)?))
+                Some(QCatchSyscalls::Enable(ArgListHex::from_packet(Some(sysno))?))
             }
             [b':', b'1'] => Some(QCatchSyscalls::EnableAll),
             _ => None,
diff --git a/src/protocol/commands/_vRun.rs b/src/protocol/commands/_vRun.rs
index a4b619d..e20bc2f 100644
--- a/src/protocol/commands/_vRun.rs
+++ b/src/protocol/commands/_vRun.rs
@@ -19,7 +19,7 @@ impl<'a> ParseCommand<'a> for vRun<'a> {
             [] => None,
             s => Some(s as &[u8]),
         };
-        let args = body.next().unwrap_or(&mut []); // args are optional
+        let args = body.next(); // args are optional
 
         Some(vRun {
             filename,
diff --git a/src/protocol/common/lists.rs b/src/protocol/common/lists.rs
index 1f2bc88..a7ae2c9 100644
--- a/src/protocol/common/lists.rs
+++ b/src/protocol/common/lists.rs
@@ -2,26 +2,31 @@ use crate::protocol::common::hex::decode_hex_buf;
 use crate::protocol::common::hex::is_hex;
 
 /// A wrapper type around a list of hex encoded arguments separated by `;`.
+///
+/// An absent list has no arguments, whereas each of the arguments of a list that
+/// is present may be empty.
 #[derive(Debug)]
-pub struct ArgListHex<'a>(&'a mut [u8]);
+pub struct ArgListHex<'a>(Option<&'a mut [u8]>);
 
 impl<'a> ArgListHex<'a> {
-    pub fn from_packet(args: &'a mut [u8]) -> Option<Self> {
+    pub fn from_packet(args: Option<&'a mut [u8]>) -> Option<Self> {
         // validate that args have valid hex encoding (with ';' delimiters).
         // this removes all the error handling from the lazy `Args` iterator.
-        if args.iter().any(|b| !(is_hex(*b) || *b == b';')) {
-            return None;
+        if let Some(args) = &args {
+            if args.iter().any(|b| !(is_hex(*b) || *b == b';')) {
+                return None;
+            }
         }
         Some(Self(args))
     }
 
     pub fn into_iter(self) -> impl Iterator<Item = &'a [u8]> + 'a {
         self.0
-            .split_mut(|b| *b == b';')
+            .into_iter()
+            .flat_map(|args| args.split_mut(|b| *b == b';'))
             // the `from_packet` method guarantees that the args are valid hex ascii, so this should
             // method should never fail.
             .map(|raw| decode_hex_buf(raw).unwrap_or(&mut []))
             .map(|s| s as &[u8])
-            .filter(|s| !s.is_empty())
     }
 }
diff --git a/src/stub/core_impl/catch_syscalls.rs b/src/stub/core_impl/catch_syscalls.rs
index 7f38222..9434d2d 100644
--- a/src/stub/core_impl/catch_syscalls.rs
+++ b/src/stub/core_impl/catch_syscalls.rs
@@ -26,6 +26,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         let mut error = false;
                         let mut filter = sysno
                             .into_iter()
+                            .filter(|s| !s.is_empty())
                             .map(<T::Arch as Arch>::Usize::from_be_bytes)
                             .take_while(|x| {
                                 error = x.is_none();
-- 
2.43.0


From 214d9a29bcbaf359d7f65d363a11e53697028946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:34 +0000
Subject: [PATCH 11/29] fix: don't accept 'x' as a checksum digit

---
 src/protocol/packet.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/protocol/packet.rs b/src/protocol/packet.rs
index 20d55c0..279e20a 100644
--- a/src/protocol/packet.rs
+++ b/src/protocol/packet.rs
@@ -61,7 +61,10 @@ impl<'a> PacketBuf<'a> {
             .get(..2)
             .ok_or(PacketParseError::MalformedChecksum)?;
 
-        // validate the checksum
+        // validate the checksum (unlike in hex data, there's no "xx" in a checksum)
+        if !checksum.iter().all(u8::is_ascii_hexdigit) {
+            return Err(PacketParseError::MalformedChecksum);
+        }
         let checksum = decode_hex(checksum).map_err(|_| PacketParseError::MalformedChecksum)?;
         let calculated = body.iter().fold(0u8, |a, x| a.wrapping_add(*x));
         if calculated != checksum {
-- 
2.43.0


From c7eb905ab81786a5d5e1dd07974f320603b9614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:10 +0000
Subject: [PATCH 12/29] fix: forward support_libraries_svr4 through &mut dyn
 Target and Box<dyn Target>

---
 src/target/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/target/mod.rs b/src/target/mod.rs
index f7a5b51..b6ae5a9 100644
--- a/src/target/mod.rs
+++ b/src/target/mod.rs
@@ -745,6 +745,8 @@ macro_rules! impl_dyn_target {
             __delegate_support!(exec_file);
             __delegate_support!(auxv);
             __delegate_support!(tracepoints);
+
+            __delegate!(fn support_libraries_svr4(&mut self) -> Option<ext::libraries::LibrariesSvr4Ops<'_, Self>>);
         }
     };
 }
-- 
2.43.0


From 037dc783e2bf565587c8b3e1df85c6908d857aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 13/29] fix: leave streams in blocking mode after peeking

---
 src/conn/impls/tcpstream.rs  | 7 ++++++-
 src/conn/impls/unixstream.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/conn/impls/tcpstream.rs b/src/conn/impls/tcpstream.rs
index 512a15d..b258d78 100644
--- a/src/conn/impls/tcpstream.rs
+++ b/src/conn/impls/tcpstream.rs
@@ -46,7 +46,12 @@ impl ConnectionExt for TcpStream {
         self.set_nonblocking(true)?;
 
         let mut buf = [0u8];
-        match Self::peek(self, &mut buf) {
+        let res = Self::peek(self, &mut buf);
+
+        // don't leave the stream in non-blocking mode: `write` has to block
+        self.set_nonblocking(false)?;
+
+        match res {
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
             Err(e) => Err(e),
diff --git a/src/conn/impls/unixstream.rs b/src/conn/impls/unixstream.rs
index 575cc4e..3b8aebb 100644
--- a/src/conn/impls/unixstream.rs
+++ b/src/conn/impls/unixstream.rs
@@ -93,7 +93,12 @@ impl ConnectionExt for UnixStream {
         self.set_nonblocking(true)?;
 
         let mut buf = [0u8];
-        match PeekExt::peek(self, &mut buf) {
+        let res = PeekExt::peek(self, &mut buf);
+
+        // don't leave the stream in non-blocking mode: `write` has to block
+        self.set_nonblocking(false)?;
+
+        match res {
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
             Err(e) => Err(e),
-- 
2.43.0


From 45cb5cd9343f7f604e042c2e4da9df643c06b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 14/29] fix: report the end of a stream as an error when
 peeking

---
 src/conn/impls/tcpstream.rs  | 1 +
 src/conn/impls/unixstream.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/conn/impls/tcpstream.rs b/src/conn/impls/tcpstream.rs
index b258d78..7ecff4c 100644
--- a/src/conn/impls/tcpstream.rs
+++ b/src/conn/impls/tcpstream.rs
@@ -52,6 +52,7 @@ impl ConnectionExt for TcpStream {
         self.set_nonblocking(false)?;
 
         match res {
+            Ok(0) => Err(std::io::ErrorKind::UnexpectedEof.into()),
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
             Err(e) => Err(e),
diff --git a/src/conn/impls/unixstream.rs b/src/conn/impls/unixstream.rs
index 3b8aebb..42373c4 100644
--- a/src/conn/impls/unixstream.rs
+++ b/src/conn/impls/unixstream.rs
@@ -99,6 +99,7 @@ impl ConnectionExt for UnixStream {
         self.set_nonblocking(false)?;
 
         match res {
+            Ok(0) => Err(std::io::ErrorKind::UnexpectedEof.into()),
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
             Err(e) => Err(e),
-- 
2.43.0


From 0c06cab27c81dd280c221bd9098e38ffe50e8546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 15/29] fix: report connection errors met while describing a
 trace frame

---
 src/stub/core_impl/tracepoints.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 40a4f13..68084d3 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -559,6 +559,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     }
                 })
                 .handle_error()?;
+                err?;
                 if !any_results {
                     res.write_str("F-1")?;
                 }
-- 
2.43.0


From 102ad9937221ec2e1f859208d48cc272411a5233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 16/29] fix: reply to trace buffer requests that yield no data

---
 src/stub/core_impl/tracepoints.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 68084d3..29f1936 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -505,16 +505,15 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
             }
             Tracepoints::qTBuffer(buf) => {
                 let qTBuffer { offset, length } = buf;
-                let mut wrote: Result<bool, Error<T::Error, C::Error>> = Ok(false);
+                let mut err: Result<(), Error<T::Error, C::Error>> = Ok(());
                 ops.trace_buffer_request(offset, length, &mut |data| {
                     if let Err(e) = res.write_hex_buf(data) {
-                        wrote = Err(e.into())
-                    } else {
-                        wrote = Ok(true)
+                        err = Err(e.into())
                     }
                 })
                 .handle_error()?;
-                if !wrote? {
+                err?;
+                if res.is_empty() {
                     res.write_str("l")?;
                 }
             }
-- 
2.43.0


From 976552d577e38c0a0d92a713d1afa40b6ddd9b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:44 +0000
Subject: [PATCH 17/29] fix: report connection errors met while describing an
 Arch's register to LLDB

---
 src/stub/core_impl/lldb_register_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stub/core_impl/lldb_register_info.rs b/src/stub/core_impl/lldb_register_info.rs
index 7718411..879de67 100644
--- a/src/stub/core_impl/lldb_register_info.rs
+++ b/src/stub/core_impl/lldb_register_info.rs
@@ -126,13 +126,13 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         },
                     )
                     .map_err(Error::TargetError)?;
-                    err?;
                 } else if let Some(reg) = T::Arch::lldb_register_info(cmd.reg_id) {
                     match reg {
                         LLDBRegisterInfo::Register(reg) => cb(Some(reg)),
                         LLDBRegisterInfo::Done => cb(None),
                     };
                 }
+                err?;
                 HandlerStatus::Handled
             }
         };
-- 
2.43.0


From 7d7d304f93efbc4eaa48da77f154b1aebec2823a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:33 +0000
Subject: [PATCH 18/29] fix: don't let a non-fatal target error hide a
 connection error

---
 src/stub/core_impl/tracepoints.rs | 125 +++++++++++++++---------------
 1 file changed, 61 insertions(+), 64 deletions(-)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 29f1936..0d27e2c 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -394,11 +394,11 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
             Tracepoints::qTStatus(_) => {
                 let mut err: Option<Error<T::Error, C::Error>> = None;
                 let mut has_status = false;
-                ops.trace_experiment_status(&mut |status: ExperimentStatus<'_>| {
+                let ret = ops.trace_experiment_status(&mut |status: ExperimentStatus<'_>| {
                     // If the target implementation calls us multiple times, then
                     // we would erroneously serialize an invalid response. Guard
                     // against it in the simplest way.
-                    if has_status {
+                    if has_status || err.is_some() {
                         return;
                     }
                     if let Err(e) = status.write(res) {
@@ -406,25 +406,28 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     } else {
                         has_status = true;
                     }
-                })
-                .handle_error()?;
-                if has_status {
-                    // Only bother trying to get info if we also have a status
-                    ops.trace_experiment_info(&mut |explanation: ExperimentExplanation<'_>| {
-                        if let Err(e) = res
-                            .write_str(";")
-                            .map_err(|e| e.into())
-                            .and_then(|()| explanation.write::<T, C>(res))
-                        {
-                            err = Some(e)
-                        }
-                    })
-                    .handle_error()?;
-                }
-
+                });
                 if let Some(e) = err {
                     return Err(e);
                 }
+                ret.handle_error()?;
+                if has_status {
+                    // Only bother trying to get info if we also have a status
+                    let ret =
+                        ops.trace_experiment_info(&mut |explanation: ExperimentExplanation<'_>| {
+                            if let Err(e) = res
+                                .write_str(";")
+                                .map_err(|e| e.into())
+                                .and_then(|()| explanation.write::<T, C>(res))
+                            {
+                                err = Some(e)
+                            }
+                        });
+                    if let Some(e) = err {
+                        return Err(e);
+                    }
+                    ret.handle_error()?;
+                }
             }
             Tracepoints::qTP(qtp) => {
                 let addr = <T::Arch as Arch>::Usize::from_be_bytes(qtp.addr)
@@ -506,13 +509,13 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
             Tracepoints::qTBuffer(buf) => {
                 let qTBuffer { offset, length } = buf;
                 let mut err: Result<(), Error<T::Error, C::Error>> = Ok(());
-                ops.trace_buffer_request(offset, length, &mut |data| {
+                let ret = ops.trace_buffer_request(offset, length, &mut |data| {
                     if let Err(e) = res.write_hex_buf(data) {
                         err = Err(e.into())
                     }
-                })
-                .handle_error()?;
+                });
                 err?;
+                ret.handle_error()?;
                 if res.is_empty() {
                     res.write_str("l")?;
                 }
@@ -538,7 +541,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 let parsed_req = parsed_qtframe.ok_or(Error::TargetMismatch)?;
                 let mut err: Result<_, Error<T::Error, C::Error>> = Ok(());
                 let mut any_results = false;
-                ops.select_frame(parsed_req, &mut |desc| {
+                let ret = ops.select_frame(parsed_req, &mut |desc| {
                     let e = (|| -> Result<_, _> {
                         match desc {
                             FrameDescription::FrameNumber(n) => {
@@ -556,9 +559,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     if let Err(e) = e {
                         err = Err(e)
                     }
-                })
-                .handle_error()?;
+                });
                 err?;
+                ret.handle_error()?;
                 if !any_results {
                     res.write_str("F-1")?;
                 }
@@ -576,21 +579,20 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
 
                 let mut err: Option<Error<T::Error, C::Error>> = None;
                 let mut started = None;
-                let step = ops
-                    .tracepoint_enumerate_start(None, &mut |ctp| {
-                        // We need to know what tracepoint to begin stepping, since the
-                        // target will just tell us there's TracepointEnumerateStep::More
-                        // otherwise.
-                        started = Some((ctp.number, ctp.addr));
-                        let e = ctp.write::<T, C>(res);
-                        if let Err(e) = e {
-                            err = Some(e)
-                        }
-                    })
-                    .handle_error()?;
+                let step = ops.tracepoint_enumerate_start(None, &mut |ctp| {
+                    // We need to know what tracepoint to begin stepping, since the
+                    // target will just tell us there's TracepointEnumerateStep::More
+                    // otherwise.
+                    started = Some((ctp.number, ctp.addr));
+                    let e = ctp.write::<T, C>(res);
+                    if let Err(e) = e {
+                        err = Some(e)
+                    }
+                });
                 if let Some(e) = err {
                     return Err(e);
                 }
+                let step = step.handle_error()?;
                 if let Some((tp, addr)) = started {
                     ops.tracepoint_enumerate_state().cursor =
                         Some(TracepointEnumerateCursor::New { tp, addr });
@@ -611,40 +613,34 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     Some(TracepointEnumerateCursor::New { tp, .. }) => {
                         // If we don't have any progress, the last packet was
                         // a Next(tp) and we need to start reporting a new tracepoint
-                        Some(
-                            ops.tracepoint_enumerate_start(Some(tp), &mut |ctp| {
-                                let e = ctp.write::<T, C>(res);
-                                if let Err(e) = e {
-                                    err = Some(e)
-                                }
-                            })
-                            .handle_error()?,
-                        )
+                        Some(ops.tracepoint_enumerate_start(Some(tp), &mut |ctp| {
+                            let e = ctp.write::<T, C>(res);
+                            if let Err(e) = e {
+                                err = Some(e)
+                            }
+                        }))
                     }
                     Some(TracepointEnumerateCursor::Action { tp, addr, step }) => {
                         // Otherwise we should be continuing the advance the current tracepoint.
-                        Some(
-                            ops.tracepoint_enumerate_action(tp, step, &mut |action| {
-                                let e = action.write::<T, C>(tp, addr, res);
-                                if let Err(e) = e {
-                                    err = Some(e)
-                                }
-                            })
-                            .handle_error()?,
-                        )
+                        Some(ops.tracepoint_enumerate_action(tp, step, &mut |action| {
+                            let e = action.write::<T, C>(tp, addr, res);
+                            if let Err(e) = e {
+                                err = Some(e)
+                            }
+                        }))
                     }
                     Some(TracepointEnumerateCursor::Source { tp, step, .. }) => {
                         if let Some(supports_sources) = ops.support_tracepoint_source() {
-                            Some(
-                                supports_sources
-                                    .tracepoint_enumerate_source(tp, step, &mut |src| {
-                                        let e = src.write::<T, C>(res);
-                                        if let Err(e) = e {
-                                            err = Some(e)
-                                        }
-                                    })
-                                    .handle_error()?,
-                            )
+                            Some(supports_sources.tracepoint_enumerate_source(
+                                tp,
+                                step,
+                                &mut |src| {
+                                    let e = src.write::<T, C>(res);
+                                    if let Err(e) = e {
+                                        err = Some(e)
+                                    }
+                                },
+                            ))
                         } else {
                             // If the target doesn't support tracepoint sources but told
                             // us to enumerate one anyways, then the target has an error.
@@ -657,6 +653,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     return Err(e);
                 }
                 if let Some(step) = step {
+                    let step = step.handle_error()?;
                     self.handle_tracepoint_state_machine_step(target, step)?;
                 }
             }
-- 
2.43.0


From 1ecc7b6ae468806c921f36481eb04edfbc9c63cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 19/29] fix: AArch64 register file carries FPSR before FPCR, as
 its target description says

---
 gdbstub_arch/src/aarch64/reg/aarch64_core.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gdbstub_arch/src/aarch64/reg/aarch64_core.rs b/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
index e72f596..0220415 100644
--- a/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
+++ b/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
@@ -48,15 +48,15 @@ impl Registers for AArch64CoreRegs {
         for reg in self.v.iter() {
             write_bytes!(reg);
         }
-        write_bytes!(self.fpcr);
         write_bytes!(self.fpsr);
+        write_bytes!(self.fpcr);
     }
 
     fn gdb_deserialize(&mut self, bytes: &[u8]) -> Result<(), ()> {
         const CPSR_OFF: usize = core::mem::size_of::<u64>() * 33;
         const FPSIMD_OFF: usize = CPSR_OFF + core::mem::size_of::<u32>();
-        const FPCR_OFF: usize = FPSIMD_OFF + core::mem::size_of::<u128>() * 32;
-        const END: usize = FPCR_OFF + core::mem::size_of::<u32>() * 2;
+        const FPSR_OFF: usize = FPSIMD_OFF + core::mem::size_of::<u128>() * 32;
+        const END: usize = FPSR_OFF + core::mem::size_of::<u32>() * 2;
 
         if bytes.len() < END {
             return Err(());
@@ -78,7 +78,7 @@ impl Registers for AArch64CoreRegs {
 
         self.cpsr = regs.next().ok_or(())?;
 
-        let mut regs = bytes[FPSIMD_OFF..FPCR_OFF]
+        let mut regs = bytes[FPSIMD_OFF..FPSR_OFF]
             .chunks_exact(core::mem::size_of::<u128>())
             .map(|c| u128::from_le_bytes(c.try_into().unwrap()));
 
@@ -86,12 +86,12 @@ impl Registers for AArch64CoreRegs {
             *reg = regs.next().ok_or(())?
         }
 
-        let mut regs = bytes[FPCR_OFF..]
+        let mut regs = bytes[FPSR_OFF..]
             .chunks_exact(core::mem::size_of::<u32>())
             .map(|c| u32::from_le_bytes(c.try_into().unwrap()));
 
-        self.fpcr = regs.next().ok_or(())?;
         self.fpsr = regs.next().ok_or(())?;
+        self.fpcr = regs.next().ok_or(())?;
 
         Ok(())
     }
-- 
2.43.0


From 0380a5ba987235f0272e5658a2f8c0a8770b87ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 20/29] fix: AArch64 FPSR and FPCR (registers 66 and 67) are 32
 bits wide

---
 gdbstub_arch/src/aarch64/reg/id.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gdbstub_arch/src/aarch64/reg/id.rs b/gdbstub_arch/src/aarch64/reg/id.rs
index c10e6ce..98b8d43 100644
--- a/gdbstub_arch/src/aarch64/reg/id.rs
+++ b/gdbstub_arch/src/aarch64/reg/id.rs
@@ -53,8 +53,10 @@ impl RegId for AArch64RegId {
             32 => Self::Pc,
             33 => Self::Pstate,
             34..=65 => Self::V((id - 34) as u8),
-            66 => Self::FPSR,
-            67 => Self::FPCR,
+            // The target description declares these two as 32-bit registers, unlike the
+            // (64-bit) system registers they alias.
+            66 => return Some((Self::FPSR, NonZeroUsize::new(core::mem::size_of::<u32>()))),
+            67 => return Some((Self::FPCR, NonZeroUsize::new(core::mem::size_of::<u32>()))),
             #[allow(clippy::unusual_byte_groupings)]
             // We configure GDB to use regnums that correspond to the architectural u16 opcode
             // and avoid clashes with core registers thanks to op0==0b00 and op0==0b01 not being
-- 
2.43.0


From 63aab88186b7cba0a1277807903b768670258cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 21/29] fix: ARM FPA registers (16 to 23) are 12 bytes wide

---
 gdbstub_arch/src/arm/reg/id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gdbstub_arch/src/arm/reg/id.rs b/gdbstub_arch/src/arm/reg/id.rs
index 10f7c26..390fbfc 100644
--- a/gdbstub_arch/src/arm/reg/id.rs
+++ b/gdbstub_arch/src/arm/reg/id.rs
@@ -28,7 +28,8 @@ impl RegId for ArmCoreRegId {
             13 => Self::Sp,
             14 => Self::Lr,
             15 => Self::Pc,
-            16..=23 => Self::Fpr((id as u8) - 16),
+            // the legacy FPA registers are 96 bits wide
+            16..=23 => return Some((Self::Fpr((id as u8) - 16), Some(NonZeroUsize::new(12)?))),
             24 => Self::Fps,
             25 => Self::Cpsr,
             _ => return None,
-- 
2.43.0


From 08708980ab37ef7ad8fe1f8d28e9cc31df31ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 22/29] fix: advertise the packet size without the packet's
 framing

GDB's documentation defines PacketSize as the number of bytes in the packet's
payload, and GDB sizes bulk writes (X, vFile:pwrite) accordingly. Advertising
the full length of the packet buffer makes GDB send packets which overflow a
caller-provided buffer, ending the session.
---
 src/stub/core_impl/base.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stub/core_impl/base.rs b/src/stub/core_impl/base.rs
index 2a6540c..b5ed56b 100644
--- a/src/stub/core_impl/base.rs
+++ b/src/stub/core_impl/base.rs
@@ -110,7 +110,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 }
 
                 res.write_str("PacketSize=")?;
-                res.write_num(cmd.packet_buffer_len)?;
+                // `PacketSize` only limits a packet's payload, whereas the packet buffer also
+                // has to hold its framing (i.e: the `$`, the `#`, and the checksum).
+                res.write_num(cmd.packet_buffer_len.saturating_sub(4))?;
 
                 // these are the few features that gdbstub unconditionally supports
                 res.write_str(concat!(";vContSupported+", ";multiprocess+",))?;
-- 
2.43.0


From 96f840c0fd15a1df5b4f06a2f34786ca90d005c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 23/29] fix: QDisableRandomization:1 asks to disable ASLR

The value was handed to ConfigureAslr::cfg_aslr(enabled) uninverted, so GDB's
default 'set disable-randomization on' enabled ASLR in the target.
---
 src/stub/core_impl/extended_mode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stub/core_impl/extended_mode.rs b/src/stub/core_impl/extended_mode.rs
index 703b3f8..83ae290 100644
--- a/src/stub/core_impl/extended_mode.rs
+++ b/src/stub/core_impl/extended_mode.rs
@@ -93,7 +93,8 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
             // --------- ASLR --------- //
             ExtendedMode::QDisableRandomization(cmd) if ops.support_configure_aslr().is_some() => {
                 let ops = ops.support_configure_aslr().unwrap();
-                ops.cfg_aslr(cmd.value).handle_error()?;
+                // `1` requests that randomization gets _disabled_
+                ops.cfg_aslr(!cmd.value).handle_error()?;
                 HandlerStatus::NeedsOk
             }
             // --------- Environment --------- //
-- 
2.43.0


From b91c2f275e867d88560ad04d9774bf252111b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 24/29] fix: the stop report of ?, vAttach and vRun selects the
 thread it names

As with any other stop reply, GDB takes the reported thread to be the stub's
current one and doesn't select it again. After attaching to another process of
a multi-threaded target, qC and the registers were still those of the thread
selected before, which GDB then showed as those of the reported thread.
---
 src/stub/core_impl/base.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stub/core_impl/base.rs b/src/stub/core_impl/base.rs
index b5ed56b..1b615c0 100644
--- a/src/stub/core_impl/base.rs
+++ b/src/stub/core_impl/base.rs
@@ -66,6 +66,10 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
         // Reply with a valid thread-id or GDB issues a warning when more
         // than one thread is active
         if let Some(tid) = self.get_sane_any_tid(target)? {
+            // just like any other stop reply, this selects the reported thread
+            self.current_mem_tid = tid;
+            self.current_resume_tid = SpecificIdKind::WithId(tid);
+
             res.write_str("T05thread:")?;
             res.write_specific_thread_id(SpecificThreadId {
                 pid: self
-- 
2.43.0


From 26de1a3098c55c89bd6a7a467a0f070fc05bdba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:31 +0000
Subject: [PATCH 25/29] fix: qfThreadInfo replies l when there are no threads
 to list

---
 src/stub/core_impl/base.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/stub/core_impl/base.rs b/src/stub/core_impl/base.rs
index 1b615c0..8acf53a 100644
--- a/src/stub/core_impl/base.rs
+++ b/src/stub/core_impl/base.rs
@@ -413,26 +413,26 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 HandlerStatus::NeedsOk
             }
             Base::qfThreadInfo(_) => {
-                res.write_str("m")?;
                 let pid = self.get_current_pid(target)?;
 
                 match target.base_ops() {
-                    BaseOps::SingleThread(_) => res.write_specific_thread_id(SpecificThreadId {
-                        pid: self
-                            .features
-                            .multiprocess()
-                            .then_some(SpecificIdKind::WithId(pid)),
-                        tid: SpecificIdKind::WithId(SINGLE_THREAD_TID),
-                    })?,
+                    BaseOps::SingleThread(_) => {
+                        res.write_str("m")?;
+                        res.write_specific_thread_id(SpecificThreadId {
+                            pid: self
+                                .features
+                                .multiprocess()
+                                .then_some(SpecificIdKind::WithId(pid)),
+                            tid: SpecificIdKind::WithId(SINGLE_THREAD_TID),
+                        })?
+                    }
                     BaseOps::MultiThread(ops) => {
                         let mut err: Result<_, Error<T::Error, C::Error>> = Ok(());
                         let mut first = true;
                         ops.list_active_threads(&mut |tid| {
                             // TODO: replace this with a try block (once stabilized)
                             let e = (|| {
-                                if !first {
-                                    res.write_str(",")?
-                                }
+                                res.write_str(if first { "m" } else { "," })?;
                                 first = false;
                                 res.write_specific_thread_id(SpecificThreadId {
                                     pid: self
@@ -450,6 +450,11 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         })
                         .map_err(Error::TargetError)?;
                         err?;
+
+                        // an `m` must be followed by at least one thread id
+                        if first {
+                            res.write_str("l")?;
+                        }
                     }
                 }
 
-- 
2.43.0


From 5821dc20bf61136b5b07f4ce2a95fcf6d31d3806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 26/29] fix: an idle Ctrl-C without a stop reason keeps the one
 already deferred

---
 src/stub/state_machine.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/stub/state_machine.rs b/src/stub/state_machine.rs
index 4a41aaf..303497a 100644
--- a/src/stub/state_machine.rs
+++ b/src/stub/state_machine.rs
@@ -44,6 +44,7 @@ use crate::protocol::ResponseWriter;
 use crate::stub::error::GdbStubError;
 use crate::stub::error::InternalError;
 use crate::stub::stop_reason::IntoStopReason;
+use crate::stub::stop_reason::MultiThreadStopReason;
 use crate::target::Target;
 use managed::ManagedSlice;
 
@@ -79,7 +80,6 @@ where
 // payloads, which are used when transitioning between states.
 pub mod state {
     use super::*;
-    use crate::stub::stop_reason::MultiThreadStopReason;
 
     // used internally when logging state transitions
     pub(crate) const MODULE_PATH: &str = concat!(module_path!(), "::");
@@ -168,6 +168,8 @@ struct GdbStubStateMachineReallyInner<'a, T: Target, C: Connection> {
     conn: C,
     packet_buffer: ManagedSlice<'a, u8>,
     recv_packet: RecvPacketStateMachine,
+    // the deferred stop reason of the `Idle` state a Ctrl-C interrupted
+    interrupted_stop_reason: Option<MultiThreadStopReason<<T::Arch as Arch>::Usize>>,
     inner: GdbStubImpl<T, C>,
 }
 
@@ -199,6 +201,7 @@ impl<'a, T: Target, C: Connection> GdbStubStateMachineInner<'a, state::Idle<T>,
                 conn: stub.conn,
                 packet_buffer: stub.packet_buffer,
                 recv_packet: RecvPacketStateMachine::new(),
+                interrupted_stop_reason: None,
                 inner: stub.inner,
             },
             state: state::Idle {
@@ -239,9 +242,11 @@ impl<'a, T: Target, C: Connection> GdbStubStateMachineInner<'a, state::Idle<T>,
                     None => self.transition(state::Running {}).into(),
                 }
             }
-            State::CtrlCInterrupt => self
-                .transition(state::CtrlCInterrupt { from_idle: true })
-                .into(),
+            State::CtrlCInterrupt => {
+                self.i.interrupted_stop_reason = self.state.deferred_ctrlc_stop_reason.take();
+                self.transition(state::CtrlCInterrupt { from_idle: true })
+                    .into()
+            }
         })
     }
 }
@@ -326,15 +331,19 @@ impl<'a, T: Target, C: Connection> GdbStubStateMachineInner<'a, state::CtrlCInte
     ///   should send one of the stop reply packets (see Stop Reply Packets) to
     ///   GDB as a result of successfully stopping the program
     pub fn interrupt_handled(
-        self,
+        mut self,
         target: &mut T,
         stop_reason: Option<impl IntoStopReason<T>>,
     ) -> Result<GdbStubStateMachine<'a, T, C>, GdbStubError<T::Error, C::Error>> {
         if self.state.from_idle {
-            // target is stopped - we cannot report the stop reason yet
+            // target is stopped - we cannot report the stop reason yet. Without a new
+            // stop reason, the one of an earlier Ctrl-C (if any) is still due.
+            let interrupted_stop_reason = self.i.interrupted_stop_reason.take();
             Ok(self
                 .transition(state::Idle {
-                    deferred_ctrlc_stop_reason: stop_reason.map(Into::into),
+                    deferred_ctrlc_stop_reason: stop_reason
+                        .map(Into::into)
+                        .or(interrupted_stop_reason),
                 })
                 .into())
         } else {
-- 
2.43.0


From 3478793da6df8b4e535201caa168d759b6e18044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:37 +0000
Subject: [PATCH 27/29] fix: accept a qSupported request without a feature list

---
 src/protocol/commands/_qSupported.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/protocol/commands/_qSupported.rs b/src/protocol/commands/_qSupported.rs
index c436d09..ecfe247 100644
--- a/src/protocol/commands/_qSupported.rs
+++ b/src/protocol/commands/_qSupported.rs
@@ -14,7 +14,12 @@ impl<'a> ParseCommand<'a> for qSupported<'a> {
         match body {
             [b':', body @ ..] => Some(qSupported {
                 packet_buffer_len,
-                features: Features(body),
+                features: Features(Some(body)),
+            }),
+            // the feature list is optional
+            [] => Some(qSupported {
+                packet_buffer_len,
+                features: Features(None),
             }),
             _ => None,
         }
@@ -22,11 +27,12 @@ impl<'a> ParseCommand<'a> for qSupported<'a> {
 }
 
 #[derive(Debug)]
-pub struct Features<'a>(&'a [u8]);
+pub struct Features<'a>(Option<&'a [u8]>);
 
 impl<'a> Features<'a> {
     pub fn into_iter(self) -> impl Iterator<Item = Result<Option<(Feature, bool)>, ()>> + 'a {
-        self.0.split(|b| *b == b';').map(|s| match s.last() {
+        let features = self.0.into_iter().flat_map(|f| f.split(|b| *b == b';'));
+        features.map(|s| match s.last() {
             None => Err(()),
             Some(&c) => match c {
                 b'+' | b'-' => {
-- 
2.43.0


From 098b1c24cd92ee9244f91a4f07f86f63942f7036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:37 +0000
Subject: [PATCH 28/29] fix: the R packet has no reply

---
 src/stub/core_impl.rs               | 6 ++++++
 src/stub/core_impl/extended_mode.rs | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/stub/core_impl.rs b/src/stub/core_impl.rs
index a9f2ef5..14983ac 100644
--- a/src/stub/core_impl.rs
+++ b/src/stub/core_impl.rs
@@ -110,6 +110,7 @@ pub(crate) struct GdbStubImpl<T: Target, C: Connection> {
 pub enum HandlerStatus {
     Handled,
     NeedsOk,
+    NoReply,
     DeferredStopReason,
     Disconnect(DisconnectReason),
 }
@@ -160,6 +161,11 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         res.write_str("OK")?;
                         None
                     }
+                    Ok(HandlerStatus::NoReply) => {
+                        // no response packet, but the client still waits for the ack
+                        res.as_conn().flush().map_err(InternalError::conn_write)?;
+                        return Ok(State::Pump);
+                    }
                     Ok(HandlerStatus::DeferredStopReason) => {
                         // there's no response to flush yet, but the ack must not be left sitting in
                         // the connection's buffer while the target is running
diff --git a/src/stub/core_impl/extended_mode.rs b/src/stub/core_impl/extended_mode.rs
index 83ae290..92b8c34 100644
--- a/src/stub/core_impl/extended_mode.rs
+++ b/src/stub/core_impl/extended_mode.rs
@@ -26,7 +26,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
             }
             ExtendedMode::R(_cmd) => {
                 ops.restart().map_err(Error::TargetError)?;
-                HandlerStatus::Handled
+                HandlerStatus::NoReply
             }
             ExtendedMode::vAttach(cmd) => {
                 if ops.support_current_active_pid().is_none() {
-- 
2.43.0


From 8d22349fab2142b5fec44e05b5a8152130d7be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 29/29] fix: accept the R packet the way GDB sends it

---
 src/protocol/commands/_r_upcase.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/protocol/commands/_r_upcase.rs b/src/protocol/commands/_r_upcase.rs
index 72b9fcc..86ec3b5 100644
--- a/src/protocol/commands/_r_upcase.rs
+++ b/src/protocol/commands/_r_upcase.rs
@@ -14,11 +14,12 @@ impl<'a> ParseCommand<'a> for R {
         //
         // We'll pay some lip-service to this requirement by checking the body's length,
         // but we won't actually parse the number.
+        //
+        // Note that the GDB client actually sends a single digit (`R0`).
         let body = buf.into_body();
-        if body.len() != 2 {
-            None
-        } else {
-            Some(R)
+        match body.len() {
+            1 | 2 => Some(R),
+            _ => None,
         }
     }
 }
-- 
2.43.0

