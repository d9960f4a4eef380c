From 00631ab0a2acda5052fc6c0f65457d6608f12875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 01/10] fix: never poll the incoming stream again once it has
 ended

After a body cut short by the end of the connection, interact() went back to
reading command lines and polled the ended stream once more, which a Stream
may answer with a panic or by never being ready. Fuse it.
---
 smtp-server/src/crlflines.rs | 2 --
 smtp-server/src/interact.rs  | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/smtp-server/src/crlflines.rs b/smtp-server/src/crlflines.rs
index 8f65089..a292d57 100644
--- a/smtp-server/src/crlflines.rs
+++ b/smtp-server/src/crlflines.rs
@@ -29,8 +29,6 @@ where
     // Failed to find a crlf before end-of-stream
     // This unwrap is free of risk, as `s.next()` has just been called above
     s.prepend(buf).unwrap();
-    // TODO: (A) here s will already have returned none, need to make sure we're not
-    // polling it again for the next none!!
     None
 }
 
diff --git a/smtp-server/src/interact.rs b/smtp-server/src/interact.rs
index 5e16a05..51cf37b 100644
--- a/smtp-server/src/interact.rs
+++ b/smtp-server/src/interact.rs
@@ -44,7 +44,7 @@ where
     fn randomtest<Writer: Sink<Bytes>, S: Sink<ReplyLine, Error = Writer::Error>>(_: &S) {}
     randomtest::<Writer, _>(&writer);
     let mut writer = unsafe { Pin::new_unchecked(&mut writer) };
-    let mut reader = Prependable::new(incoming);
+    let mut reader = Prependable::new(incoming.fuse());
 
     send_reply(writer.as_mut(), cfg.welcome_banner()).await?;
     // TODO: (C) optimize by trying parsing directly and not buffering until crlf
-- 
2.43.0


From ef0c003ccbc0ddd97e1cf41d4325e51ddaceda1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 02/10] fix: send a reply line even when the reply text is
 empty

An empty text has no chunks, so no line at all was sent and the client was
left waiting for a reply.
---
 smtp-server/src/sendreply.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smtp-server/src/sendreply.rs b/smtp-server/src/sendreply.rs
index 6d8ac5c..a37cdb2 100644
--- a/smtp-server/src/sendreply.rs
+++ b/smtp-server/src/sendreply.rs
@@ -17,6 +17,8 @@ where
 {
     let replies = text
         .byte_chunks(ReplyLine::MAX_LEN)
+        // An empty text still is a reply, of one empty line
+        .pad_using(1, |_| SmtpString::from_static(b""))
         .with_position()
         .map(move |t| {
             use itertools::Position::*;
-- 
2.43.0


From a7a379d66b7d7a32ac0f8c20d3d9b55e836e5123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 03/10] fix: check sub-slice ranges against the length of the
 slice

The bound was compared with the end offset in the underlying buffer, so
slicing a ByteSlice that does not start at 0 could expose bytes after its end.
---
 smtp-message/src/byteslice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-message/src/byteslice.rs b/smtp-message/src/byteslice.rs
index c19971c..894e301 100644
--- a/smtp-message/src/byteslice.rs
+++ b/smtp-message/src/byteslice.rs
@@ -60,7 +60,7 @@ impl<'a> PartialEq for ByteSlice<'a> {
 
 impl<'a> Slice<Range<usize>> for ByteSlice<'a> {
     fn slice(&self, range: Range<usize>) -> Self {
-        assert!(range.start <= range.end && range.end <= self.end);
+        assert!(range.start <= range.end && range.end <= self.len());
         ByteSlice {
             buf: self.buf,
             start: self.start + range.start,
-- 
2.43.0


From 4c8569e7124ca69e38b18bea61975953e212e076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 04/10] fix: require three digits as reply code

u16::from_str also accepts a leading plus sign, so "+12 text" was parsed as a
reply with code 012.
---
 smtp-message/src/reply.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smtp-message/src/reply.rs b/smtp-message/src/reply.rs
index 4e2d71a..bbf0642 100644
--- a/smtp-message/src/reply.rs
+++ b/smtp-message/src/reply.rs
@@ -130,7 +130,10 @@ named!(pub reply(ByteSlice) -> ReplyLine, do_parse!(
     code: map!(
         verify!(
             map_res!(
-                map_res!(take!(3), ByteSlice::into_utf8),
+                map_res!(
+                    verify!(take!(3), |x: ByteSlice| x.iter().all(u8::is_ascii_digit)),
+                    ByteSlice::into_utf8
+                ),
                 |utf8| u16::from_str(utf8)
             ),
             |x: u16| x < 1000
-- 
2.43.0


From 140c28d2e925a45c1e0600fca67b9e644276f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 05/10] fix: export FoundInflightMail

Storage is parameterised by it, so without it no other crate can implement
Storage and use the queue.
---
 smtp-queue/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-queue/src/lib.rs b/smtp-queue/src/lib.rs
index 1641032..c301c1c 100644
--- a/smtp-queue/src/lib.rs
+++ b/smtp-queue/src/lib.rs
@@ -8,7 +8,7 @@ mod send_queued_mail;
 mod storage;
 mod transport;
 
-pub use mail::{InflightMail, Mail, QueuedMail};
+pub use mail::{FoundInflightMail, InflightMail, Mail, QueuedMail};
 pub use run::run;
 pub use storage::Storage;
 pub use transport::Transport;
-- 
2.43.0


From 8e86aff9f64cdef8a61a9698abbbfab352dad457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 06/10] fix: a data stream that has ended stays ended

Polled again after complete(), or after an early end of the connection, it went
back to its source: it yielded the commands following the message as message
content, or polled a stream that had already ended.
---
 smtp-message/src/data/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-message/src/data/stream.rs b/smtp-message/src/data/stream.rs
index c495436..6d06b63 100644
--- a/smtp-message/src/data/stream.rs
+++ b/smtp-message/src/data/stream.rs
@@ -95,7 +95,7 @@ where
         use self::DataStreamState::*;
         use Poll::*;
         // First, handle the case when we're done
-        if self.state == Finished {
+        if let Finished | EarlyFin | Completed = self.state {
             return Ready(None);
         }
         loop {
-- 
2.43.0


From c5cfd9591edd3331ae8b600af9ccf1ef86395c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 07/10] fix: require a space after EHLO and HELO, and none
 before or behind the command

The separator-eating parser accepted 'EHLODATA', leading spaces, and blanks after
the line end.
---
 smtp-message/src/ehlo/mod.rs | 8 ++++----
 smtp-message/src/helo/mod.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/smtp-message/src/ehlo/mod.rs b/smtp-message/src/ehlo/mod.rs
index 1231a6b..9fc2533 100644
--- a/smtp-message/src/ehlo/mod.rs
+++ b/smtp-message/src/ehlo/mod.rs
@@ -30,14 +30,14 @@ impl EhloCommand {
 }
 
 named!(pub command_ehlo_args(ByteSlice) -> EhloCommand,
-    sep!(eat_spaces, do_parse!(
-        tag_no_case!("EHLO") >>
-        domain: hostname >>
+    do_parse!(
+        tag_no_case!("EHLO") >> one_of!(spaces!()) >> eat_spaces >>
+        domain: hostname >> eat_spaces >>
         tag!("\r\n") >>
         (EhloCommand {
             domain: domain.into(),
         })
-    ))
+    )
 );
 
 #[cfg(test)]
diff --git a/smtp-message/src/helo/mod.rs b/smtp-message/src/helo/mod.rs
index 4cc2af5..b738ece 100644
--- a/smtp-message/src/helo/mod.rs
+++ b/smtp-message/src/helo/mod.rs
@@ -30,14 +30,14 @@ impl HeloCommand {
 }
 
 named!(pub command_helo_args(ByteSlice) -> HeloCommand,
-    sep!(eat_spaces, do_parse!(
-        tag_no_case!("HELO") >>
-        domain: hostname >>
+    do_parse!(
+        tag_no_case!("HELO") >> one_of!(spaces!()) >> eat_spaces >>
+        domain: hostname >> eat_spaces >>
         tag!("\r\n") >>
         (HeloCommand {
             domain: domain.into(),
         })
-    ))
+    )
 );
 
 #[cfg(test)]
-- 
2.43.0


From cd3f56900bf5ae8901c89f1a3843874bc42d7bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 08/10] fix: require a space or the line end after HELP and
 NOOP

'HELPfoo' and 'NOOPfoo' were accepted as HELP and NOOP with an argument.
---
 smtp-message/src/help/mod.rs | 4 ++--
 smtp-message/src/noop/mod.rs | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/smtp-message/src/help/mod.rs b/smtp-message/src/help/mod.rs
index ca8f39f..b0d97fe 100644
--- a/smtp-message/src/help/mod.rs
+++ b/smtp-message/src/help/mod.rs
@@ -24,9 +24,9 @@ impl HelpCommand {
     }
 }
 
-// TODO: (B) this opt!(…) allows HELPfoo, which is wrong, like other commands
 named!(pub command_help_args(ByteSlice) -> HelpCommand, do_parse!(
-    tag_no_case!("HELP") >> opt!(one_of!(spaces!())) >>
+    tag_no_case!("HELP") >> peek!(alt!(tag!(" ") | tag!("\t") | tag!("\r\n"))) >>
+    opt!(one_of!(spaces!())) >>
     res: take_until!("\r\n") >>
     tag!("\r\n") >>
     (HelpCommand {
diff --git a/smtp-message/src/noop/mod.rs b/smtp-message/src/noop/mod.rs
index 53dbea9..0e9dfe2 100644
--- a/smtp-message/src/noop/mod.rs
+++ b/smtp-message/src/noop/mod.rs
@@ -25,7 +25,8 @@ impl NoopCommand {
 }
 
 named!(pub command_noop_args(ByteSlice) -> NoopCommand, do_parse!(
-    tag_no_case!("NOOP") >> opt!(one_of!(spaces!())) >>
+    tag_no_case!("NOOP") >> peek!(alt!(tag!(" ") | tag!("\t") | tag!("\r\n"))) >>
+    opt!(one_of!(spaces!())) >>
     res: take_until!("\r\n") >>
     tag!("\r\n") >>
     (NoopCommand {
-- 
2.43.0


From b5c0e7653589cdc512a1b85d91cbcd066a045841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:15 +0000
Subject: [PATCH 09/10] fix: cut protocol strings for any chunk size

The number of chunks was computed with a sum that overflows when the chunk
size is close to usize::MAX: a panic in debug builds, and in release builds
no chunk at all, so the whole string was lost.
---
 smtp-message/src/smtpstring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-message/src/smtpstring.rs b/smtp-message/src/smtpstring.rs
index c70a836..19178e7 100644
--- a/smtp-message/src/smtpstring.rs
+++ b/smtp-message/src/smtpstring.rs
@@ -62,7 +62,7 @@ impl SmtpString {
 
     pub fn byte_chunks(&self, bytes: usize) -> impl Iterator<Item = SmtpString> {
         let copy = self.0.clone();
-        (0..(self.byte_len() + bytes - 1) / bytes)
+        (0..self.byte_len() / bytes + (self.byte_len() % bytes != 0) as usize)
             .map(move |i| SmtpString(copy.slice(i * bytes, min(copy.len(), (i + 1) * bytes))))
     }
 }
-- 
2.43.0


From 9d7dba2738d8f7e824eca46e5936ebc33d0aa7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 10/10] fix: do not join packets with BytesMut::unsplit

In bytes 0.4, unsplit computes a pointer from the fields of its receiver
even if that is a small buffer, whose fields hold the bytes themselves.
A line or message body cut in packets of up to 31 bytes could thus make it
overflow, which aborts the process in builds with debug assertions: a
client sending "VRFY 12345678901234567\xc3" and "\r\n" in separate
packets was enough.
---
 smtp-message/src/data/stream.rs | 4 +++-
 smtp-server/src/crlflines.rs    | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/smtp-message/src/data/stream.rs b/smtp-message/src/data/stream.rs
index 6d06b63..4db9a72 100644
--- a/smtp-message/src/data/stream.rs
+++ b/smtp-message/src/data/stream.rs
@@ -216,7 +216,9 @@ where
                     self.state = DataStreamState::EarlyFin;
                     return Ready(None);
                 }
-                Ready(Some(b)) => self.buf.unsplit(b), // TODO: (B) optimize with `self.buf = b`?
+                // Not `self.buf.unsplit(b)`, which uses the contents of small buffers as pointers
+                Ready(Some(b)) if self.buf.is_empty() => self.buf = b,
+                Ready(Some(b)) => self.buf.extend_from_slice(&b),
             }
         }
     }
diff --git a/smtp-server/src/crlflines.rs b/smtp-server/src/crlflines.rs
index a292d57..1f87028 100644
--- a/smtp-server/src/crlflines.rs
+++ b/smtp-server/src/crlflines.rs
@@ -9,7 +9,12 @@ where
 {
     let mut buf = BytesMut::new();
     while let Some(pkt) = s.next().await {
-        buf.unsplit(pkt);
+        // Not `buf.unsplit(pkt)`, which uses the contents of small buffers as pointers
+        if buf.is_empty() {
+            buf = pkt;
+        } else {
+            buf.extend_from_slice(&pkt);
+        }
 
         // TODO: (B) implement line length limits id:line-length-limit
 
-- 
2.43.0

