From c2fed8abbe02cdd323acde380a2fd547c4d97a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 01/17] fix: keep the upper bits of a decoded LZHUF match
 position

The position code was shifted left by six as a u8, so every match distance of 256 or more lost its high bits.
---
 src/lzhuf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index b807f61..ea66686 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -655,14 +655,14 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
     #[tracing::instrument(skip(self))]
     fn decode_position(&mut self) -> Option<u16> {
         let mut i = self.stream.get_byte()? as u16;
-        let c = DECODE_CODE[i as usize] << 6;
+        let c = (DECODE_CODE[i as usize] as u16) << 6;
         let mut j = DECODE_LEN[i as usize];
 
         j -= 2;
         for _ in (1..=j).rev() {
             i = (i << 1) + self.stream.get_bit()? as u16;
         }
-        Some(c as u16 | (i & 0x3f))
+        Some(c | (i & 0x3f))
     }
 }
 
-- 
2.43.0


From e94e2ad7721f71ec416d56b9ae3185ea3548a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 02/17] fix: stop copying an LZHUF match at the end of the
 output buffer

A corrupt stream whose last match is longer than the remaining output panicked.
---
 src/lzhuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index ea66686..a14ec70 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -630,6 +630,9 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
                 let i = (self.state.r.wrapping_sub(self.decode_position().ok_or(UnexpectedEof)?).wrapping_sub(1)) & (N - 1);
                 let j = c - 255 + THRESHOLD;
                 for k in 0..j {
+                    if count == buffer.len() {
+                        break;
+                    }
                     let c = self.state.text_buffer[((i + k) & (N - 1)) as usize];
                     buffer[count] = c;
                     self.state.update_text_buffer(c);
-- 
2.43.0


From a0e03753ce467a10abf4d0c71088cfa7e7d2a3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 03/17] fix: LZHUF-encode an empty input to nothing

len -= 1 underflowed (a panic, or in release builds a flood of output) when the input was empty.
---
 src/lzhuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index a14ec70..e961e73 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -536,6 +536,9 @@ impl<'a> Encoder<'a> {
             }
             len += 1;
         }
+        if len == 0 {
+            return;
+        }
         for i in 1..=F {
             self.insert_node(r - i);
         }
-- 
2.43.0


From 720d901704aaff523a2c9690222340007ad0a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 04/17] fix: do not overflow while reporting a checksum
 mismatch

Negating an i8 of -128 panicked when the computed sum was 0x80.
---
 src/fbb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index 4e58cbb..d56cbdb 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -71,7 +71,7 @@ fn b2_message_block(data: &[u8]) -> IResult<&[u8], CompressedMessage, VerboseErr
                 let checksum_ok = checksum.wrapping_add(check) == 0;
 
                 if !checksum_ok {
-                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", -(check as i8)).as_str(), "checksum mismatch");
+                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", check.wrapping_neg()).as_str(), "checksum mismatch");
                 }
 
                 let mut crc = Crc16::new();
-- 
2.43.0


From ff70e6eea1de45bf7fc711ceecb92caac921e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 05/17] fix: report a malformed message header as an error

The streaming NUL inside the already complete header asked for more data forever.
---
 src/fbb.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index d56cbdb..3a69fa0 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -19,7 +19,8 @@ fn soh(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
 }
 
 fn nul(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
-    tag(&[0x00])(data)
+    // only used inside the length-delimited header, where running out of data is malformed
+    nom::bytes::complete::tag(&[0x00])(data)
 }
 
 fn stx(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
-- 
2.43.0


From 5e3a57f6c9f0b004f1b773f56977e1eb793af3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 06/17] fix: accept six-digit sizes and offsets in proposals
 and selections

The grammar allows up to six digits but values above 65535 were rejected.
---
 src/fbb.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index 3a69fa0..a45d043 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -175,7 +175,7 @@ fn select_tag(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub enum MessageChoice {
-    Accept { offset: u16 },
+    Accept { offset: u32 },
     Defer,
     Reject,
 }
@@ -189,7 +189,7 @@ fn selection_element(data: &[u8]) -> IResult<&[u8], MessageChoice, VerboseError<
         value(MessageChoice::Accept { offset: 0 }, alt((tag("+"), tag("Y"), tag("H")))),
         map(preceded(
             alt((tag("!"), tag("A"))),
-            map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u16::from_str_radix(s, 10)),
+            map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u32::from_str_radix(s, 10)),
         ), |offset| MessageChoice::Accept { offset }),
         value(MessageChoice::Defer, alt((tag("="), tag("L")))),
         value(MessageChoice::Reject, alt((tag("-"), tag("N"), tag("R"), tag("E")))),
@@ -263,8 +263,8 @@ fn message_id(data: &[u8]) -> IResult<&[u8], &MessageIdRef, VerboseError<&[u8]>>
     map(map_res(take_while_m_n(1, 12, |x| !delimiter(x)), std::str::from_utf8), MessageIdRef::from_str)(data)
 }
 
-fn message_size(data: &[u8]) -> IResult<&[u8], u16, VerboseError<&[u8]>> {
-    map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u16::from_str_radix(s, 10))(data)
+fn message_size(data: &[u8]) -> IResult<&[u8], u32, VerboseError<&[u8]>> {
+    map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u32::from_str_radix(s, 10))(data)
 }
 
 fn fbb_proposal(data: &[u8]) -> IResult<&[u8], Proposal, VerboseError<&[u8]>> {
@@ -286,11 +286,11 @@ struct Proposal<'a> {
     sender: &'a SenderRef,
     addressee: Addressee<'a>,
     message_id: &'a MessageIdRef,
-    message_size: u16,
+    message_size: u32,
 }
 
 impl<'a> Proposal<'a> {
-    fn from_parts((message_type, sender, addressee, message_id, message_size): (MessageType, &'a SenderRef, Addressee<'a>, &'a MessageIdRef, u16)) -> Self {
+    fn from_parts((message_type, sender, addressee, message_id, message_size): (MessageType, &'a SenderRef, Addressee<'a>, &'a MessageIdRef, u32)) -> Self {
         Self {
             message_type,
             sender,
@@ -322,13 +322,13 @@ fn winlink_proposal(data: &[u8]) -> IResult<&[u8], WinlinkProposal, VerboseError
 
 struct WinlinkProposal<'a> {
     message_id: &'a MessageIdRef,
-    compressed_message_size: u16,
-    uncompressed_message_size: u16,
+    compressed_message_size: u32,
+    uncompressed_message_size: u32,
     bqp_extension: Option<BqpProposalExtension<'a>>
 }
 
 impl<'a> WinlinkProposal<'a> {
-    fn from_parts((_, message_id, uncompressed_message_size, compressed_message_size, bqp_extension): (&[u8], &'a MessageIdRef, u16, u16, Option<BqpProposalExtension<'a>>)) -> Self {
+    fn from_parts((_, message_id, uncompressed_message_size, compressed_message_size, bqp_extension): (&[u8], &'a MessageIdRef, u32, u32, Option<BqpProposalExtension<'a>>)) -> Self {
         Self {
             message_id,
             uncompressed_message_size,
-- 
2.43.0


From d190ac5677cbef09104bd1ecda23135c9db4a0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 07/17] fix: separate the target from a two-hop path in CONNECT

---
 src/modem/vara.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index bc204d1..b32d553 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -202,7 +202,7 @@ impl fmt::Display for ConnectPath {
         match self {
             ConnectPath::Direct => Ok(()),
             ConnectPath::OneHop { digipeater } => write!(f, " via {}", digipeater),
-            ConnectPath::TwoHops { first, second } => write!(f, "via {} {}", first, second),
+            ConnectPath::TwoHops { first, second } => write!(f, " via {} {}", first, second),
         }
     }
 }
-- 
2.43.0


From c8a202e37aafb11baa9a00eb1b56089d8dedeca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 08/17] fix: match the whole station identity

The unanchored pattern accepted any text containing a callsign, including carriage returns that would smuggle commands to the modem.
---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 1fb387c..407c32e 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -5,7 +5,7 @@ use nom::error::VerboseError;
 use regex::Regex;
 use thiserror::Error;
 
-static STATION: Lazy<Regex> = lazy_regex!(r#"([0-9]?[A-Za-z]+)([0-9]+)([A-Za-z][A-Za-z0-9]*)"#);
+static STATION: Lazy<Regex> = lazy_regex!(r#"^([A-Za-z0-9]+/)?([0-9]?[A-Za-z]+)([0-9]+)([A-Za-z][A-Za-z0-9]*)([-/][A-Za-z0-9]+)*$"#);
 
 #[derive(Debug, Error)]
 #[error("invalid station identity")]
-- 
2.43.0


From f578dc79c167c9ee609ab209024f5c78a7b7f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 09/17] fix: stop the modem task when the control connection
 closes

A read of zero bytes was ignored, so the task spun on a readable, closed socket and callers waited forever; the drain loop also polled the socket without waiting for it.
---
 src/modem/vara.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index b32d553..5792a05 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -456,6 +456,7 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
     }
     tracing::info!(expected_replies = response_queue.len(), "command input closed");
     while !response_queue.is_empty() {
+        stream.readable().await?;
         let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
         for result in results {
             if let Some(reply) = response_queue.pop_front() {
@@ -483,6 +484,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
     match stream.try_read_buf(upd_buffer) {
         Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(to_acknowledge),
         Err(err) => return Err(err.into()),
+        Ok(0) => return Err(Error::from(std::io::ErrorKind::UnexpectedEof).into()),
         Ok(bytes) => {
             tracing::trace!(bytes, "received bytes from command port");
         }
-- 
2.43.0


From c68f7d482f8f48553a2435fdbb906121a36496f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 10/17] fix: stop the rig task when the serial port closes

A read of zero bytes was ignored and the task spun on the closed port.
---
 src/rig/elecraft/kx3.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index c2575d3..247a637 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -64,6 +64,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
             result = stream.read_buf(&mut upd_buffer) => {
                 match result {
                     Err(err) => return Err(err.into()),
+                    Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()),
                     Ok(bytes) => {
                         tracing::trace!(bytes, "received bytes from command port");
                     }
-- 
2.43.0


From 041a1d168acfe06486918cc5cbf7ec5a03353000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 11/17] fix: give up when the remote closes before its prompt

A read of zero bytes was ignored and main spun on the closed stream.
---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e7f0714..300f51a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -108,7 +108,10 @@ async fn main() -> color_eyre::Result<()> {
     }
 
     'out: loop {
-        vara_stream.read_buf(&mut read).await?;
+        let count = vara_stream.read_buf(&mut read).await?;
+        if count == 0 {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         let retain_after = {
             let mut data = &read[..];
             while data.len() > 0 {
-- 
2.43.0


From a08c0a2a329145d2cc2f36e6f7c904965183f2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 12/17] fix: end the remote-disconnect watcher when the modem
 task is gone

changed() fails at once when the sender is dropped, so the watcher spun forever.
---
 src/modem/vara.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 5792a05..b0d90f4 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -775,7 +775,9 @@ impl VaraTnc {
             let (remote_dc, remote_disconnect) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
                 loop {
-                    let _ = subscriber.changed().await;
+                    if subscriber.changed().await.is_err() {
+                        break;
+                    }
                     if subscriber.borrow().is_disconnected() {
                         let _ = remote_dc.send(());
                         break;
-- 
2.43.0


From 6fe4c055927a50bb06552ee68195c06c25718b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 13/17] fix: ignore connection changes that precede the connect
 command

An unseen Disconnected from an earlier connection made the next connect fail at once.
---
 src/modem/vara.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index b0d90f4..2b82a01 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -752,6 +752,9 @@ impl VaraTnc {
 
     #[tracing::instrument(skip(self), err)]
     pub async fn connect<'a>(&'a mut self, from: StationId, to: StationId) -> color_eyre::Result<VaraStream<'a>> {
+        // forget changes from an earlier connection, so that the wait below is for this one
+        self.status.connection.borrow_and_update();
+
         self.send_command(Command::Connect(ConnectCommand {
             origin: from,
             target: to,
-- 
2.43.0


From d34d5f81dacf511f7fcef2e853c4c378132755d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 14/17] fix: allow using a VaraStream again after the remote
 disconnected

Polling the finished oneshot receiver a second time panicked.
---
 src/modem/vara.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 2b82a01..c6467fb 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -791,7 +791,7 @@ impl VaraTnc {
             Ok(VaraStream {
                 tnc: self,
                 force_disconnect: Some(force_dc),
-                remote_disconnect: remote_disconnect,
+                remote_disconnect: RemoteDisconnect(Some(remote_disconnect)),
             })
         } else if self.status.connection.borrow().is_disconnected() {
             Err(color_eyre::eyre::eyre!("failed to connect"))
@@ -805,12 +805,30 @@ impl VaraTnc {
     }
 }
 
+/// Resolves when the remote end has disconnected; unlike the receiver it wraps, it may be polled again
+#[derive(Debug)]
+struct RemoteDisconnect(Option<tokio::sync::oneshot::Receiver<()>>);
+
+impl Future for RemoteDisconnect {
+    type Output = ();
+
+    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
+        if let Some(rx) = &mut self.0 {
+            if Pin::new(rx).poll(cx).is_pending() {
+                return Poll::Pending;
+            }
+        }
+        self.0 = None;
+        Poll::Ready(())
+    }
+}
+
 #[derive(Debug)]
 #[pin_project::pin_project(PinnedDrop)]
 pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
     force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
-    remote_disconnect: tokio::sync::oneshot::Receiver<()>,
+    remote_disconnect: RemoteDisconnect,
 }
 
 impl<'a> VaraStream<'a> {
-- 
2.43.0


From 7f0a6ccb84da4f37090aad073e114ab034db8dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 15/17] fix: do not panic while tracing bytes that are not
 UTF-8

---
 src/main.rs             | 8 ++++----
 src/modem/vara.rs       | 4 ++--
 src/rig/elecraft/kx3.rs | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 300f51a..a51625d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -117,7 +117,7 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = String::from_utf8_lossy(line).as_ref(), remaining = String::from_utf8_lossy(remaining).as_ref(), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                         if line.ends_with(&[b'>']) {
@@ -125,7 +125,7 @@ async fn main() -> color_eyre::Result<()> {
                         }
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = String::from_utf8_lossy(data).as_ref(), "incomplete");
                         break
                     },
                     Err(err) => {
@@ -168,12 +168,12 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = String::from_utf8_lossy(line).as_ref(), remaining = String::from_utf8_lossy(remaining).as_ref(), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = String::from_utf8_lossy(data).as_ref(), "incomplete");
                         break
                     },
                     Err(err) => {
diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index c6467fb..9a5f1bf 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -495,7 +495,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
         while data.len() > 0 {
             match line(&data).try_map_into_str().map_err(stringify_input) {
                 Ok((remaining, line)) => {
-                    tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                    tracing::trace!(line = String::from_utf8_lossy(line).as_ref(), remaining = String::from_utf8_lossy(remaining).as_ref(), "received complete line");
                     data = remaining;
 
                     match nom::combinator::all_consuming(tnc_response)(line).try_map_into_str().map_err(stringify_input).finish() {
@@ -539,7 +539,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                     }
                 },
                 Err(err) if err.is_incomplete() => {
-                    tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                    tracing::trace!(buffer = String::from_utf8_lossy(data).as_ref(), "incomplete");
                     break
                 },
                 Err(err) => {
diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index 247a637..983fd76 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -74,7 +74,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                     while data.len() > 0 {
                         match line(&data) {
                             Ok((remaining, line)) => {
-                                tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                                tracing::trace!(line = String::from_utf8_lossy(line).as_ref(), remaining = String::from_utf8_lossy(remaining).as_ref(), "received complete line");
                                 data = remaining;
                                 //
                                 // match nom::combinator::all_consuming(update)(line).map_err(|e| e.map_input(|i| String::from_utf8(i.into()).unwrap())).finish() {
@@ -103,7 +103,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                                 // }
                             },
                             Err(err) if err.is_incomplete() => {
-                                tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                                tracing::trace!(buffer = String::from_utf8_lossy(data).as_ref(), "incomplete");
                                 break
                             },
                             Err(err) => {
-- 
2.43.0


From 684197f2f657ab8d53663158a8fd95bdb4a8b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 16/17] fix: accept blank lines from the remote station

take_until1 rejects an empty line, which ended the session.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a51625d..d588d84 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -104,7 +104,7 @@ async fn main() -> color_eyre::Result<()> {
     let mut read = bytes::BytesMut::new();
 
     fn line(data: &[u8]) -> nom::IResult<&[u8], &[u8]> {
-        nom::sequence::terminated(nom::bytes::streaming::take_until1("\r"), nom::bytes::streaming::tag("\r"))(data)
+        nom::sequence::terminated(nom::bytes::streaming::take_until("\r"), nom::bytes::streaming::tag("\r"))(data)
     }
 
     'out: loop {
-- 
2.43.0


From 002a2a3e1060a2ac3ac541344c4f9559deabba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 17/17] fix: write LZHUF codes of more than 15 bits

---
 src/lzhuf.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index e961e73..6787860 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -152,7 +152,7 @@ impl LzHufState {
 }
 
 struct Bitbuffer<'a> {
-    bit_buffer: u16,
+    bit_buffer: u32,
     bit_pos: u8,
     output: &'a mut Vec<u8>,
 }
@@ -166,21 +166,14 @@ impl<'a> Bitbuffer<'a> {
         }
     }
 
-    fn put_code(&mut self, l: u8, c: u16) {
+    // codes are left-aligned and have at most 25 bits
+    fn put_code(&mut self, l: u8, c: u32) {
         self.bit_buffer |= c >> self.bit_pos;
         self.bit_pos += l;
-        if self.bit_pos >= 8 {
-            self.output.push((self.bit_buffer >> 8) as u8);
+        while self.bit_pos >= 8 {
+            self.output.push((self.bit_buffer >> 24) as u8);
+            self.bit_buffer = self.bit_buffer << 8;
             self.bit_pos -= 8;
-            if self.bit_pos >= 8 {
-                self.output.push(self.bit_buffer as u8);
-                // self.codesize += 2;
-                self.bit_pos -= 8;
-                self.bit_buffer = c << (l - self.bit_pos) as usize;
-            } else {
-                self.bit_buffer = self.bit_buffer << 8;
-                // self.codesize += 1;
-            }
         }
     }
 
@@ -190,7 +183,7 @@ impl<'a> Bitbuffer<'a> {
 impl<'a> Drop for Bitbuffer<'a> {
     fn drop(&mut self) {
         if self.bit_pos > 0 {
-            self.output.push((self.bit_buffer >> 8) as u8);
+            self.output.push((self.bit_buffer >> 24) as u8);
         }
     }
 }
@@ -497,13 +490,13 @@ impl<'a> Encoder<'a> {
     }
 
     fn encode_char(&mut self, c: u16) {
-        let mut i = 0u16;
+        let mut i = 0u32;
         let mut j = 0u8;
         let mut k = self.state.parents[(c + T) as usize];
         loop {
             i = i >> 1;
             if k & 1 != 0 {
-                i = i.wrapping_add(0x8000);
+                i = i.wrapping_add(0x8000_0000);
             }
             j += 1;
 
@@ -519,8 +512,8 @@ impl<'a> Encoder<'a> {
 
     fn encode_position(&mut self, c: u16) {
         let i = c >> 6;
-        self.output.put_code(p_len[i as usize], (p_code[i as usize] as u16) << 8);
-        self.output.put_code(6, (c & 0x3f) << 10);
+        self.output.put_code(p_len[i as usize], (p_code[i as usize] as u32) << 24);
+        self.output.put_code(6, (c as u32 & 0x3f) << 26);
     }
 
     fn encode<I: IntoIterator<IntoIter=Y, Item = u8>, Y: Iterator<Item = u8>>(&mut self, input: I) {
-- 
2.43.0

