From 93f207482d6e53e27987f06ce7e72f37b721b9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 01/33] fix: accept byte 0xFF in the byte class tables instead
 of panicking

---
 src/byte.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/byte.rs b/src/byte.rs
index e604a3d..6d8c83a 100644
--- a/src/byte.rs
+++ b/src/byte.rs
@@ -17,7 +17,7 @@
 //! Byte verification functions.
 
 /// Bytes allowed in non-quoted header fields.
-static HEADER_FIELDS: [bool; 255] = [
+static HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -86,12 +86,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true,  true
 
 ];
 
 /// Bytes allowed in quoted header fields.
-static QUOTED_HEADER_FIELDS: [bool; 255] = [
+static QUOTED_HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -160,12 +160,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true,  true
 
 ];
 
 /// Bytes that are considered tokens.
-static TOKENS: [bool; 255] = [
+static TOKENS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, false,
@@ -234,7 +234,7 @@ false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
-false, false, false, false, false, false, false
+false, false, false, false, false, false, false, false
 
 ];
 
-- 
2.43.0


From 103a33748c1c0fa92fdacd8337f591261fc5484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:25 +0000
Subject: [PATCH 02/33] fix: do not read past an empty slice when a new parser
 is resumed without data

---
 src/http1/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index e95d2da..277f5e2 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -482,6 +482,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             });
         }
 
+        exit_if_eos!(self, context);
+
         unsafe {
             if bs_starts_with1!(context, b"H") {
                 if bs_has_bytes!(context, 9) {
@@ -540,7 +542,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             }
         }
 
-        exit_if_eos!(self, context);
         bs_next!(context);
 
         // make sure we have an upper-cased alphabetical character
-- 
2.43.0


From 9a9676e75308aab3e5ffb4c36d6e4fe766aa2da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:46 +0000
Subject: [PATCH 03/33] fix: keep method bytes consumed by response detection
 on fragmented heads

---
 src/http1/parser.rs | 92 +++++++++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 44 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 277f5e2..9fc5df9 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -559,7 +559,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect2(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect2(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -573,21 +573,22 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is not a response, so the bytes consumed during detection belong to the method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"H",
+            RequestMethod,
+            request_method
+        );
     }
 
     #[inline]
-    fn detect3(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect3(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -601,21 +602,22 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is not a response, so the bytes consumed during detection belong to the method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"HT",
+            RequestMethod,
+            request_method
+        );
     }
 
     #[inline]
-    fn detect4(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect4(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -629,21 +631,22 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is not a response, so the bytes consumed during detection belong to the method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"HTT",
+            RequestMethod,
+            request_method
+        );
     }
 
     #[inline]
-    fn detect5(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect5(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -657,17 +660,18 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is not a response, so the bytes consumed during detection belong to the method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"HTTP",
+            RequestMethod,
+            request_method
+        );
     }
 
     // ---------------------------------------------------------------------------------------------
-- 
2.43.0


From 5cafef6bfd01337cef07aebb82368b45d64ed174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:49 +0000
Subject: [PATCH 04/33] fix: count the last slice of a URL encoded body only
 once

---
 src/http1/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 9fc5df9..1229f44 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -298,6 +298,9 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                         self.state          = ParserState::BodyFinished;
                         self.state_function = Parser::body_finished;
 
+                        // these bytes are counted again when parsing finishes
+                        self.byte_count -= length;
+
                         self.parse(&mut handler, &mut context)
                     } else {
                         self.length -= length;
-- 
2.43.0


From 0837a6a3c4a75f222ac52822e23887a89bac58de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:52 +0000
Subject: [PATCH 05/33] fix: finish chunked parsing when the last chunk has
 extensions

---
 src/http1/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 1229f44..a2faadd 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2172,6 +2172,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         bs_next!(context);
 
         if context.byte == b'\n' {
+            if self.length == 0 {
+                // last chunk, which is followed by the trailers
+                transition!(
+                    self,
+                    context,
+                    HeaderCr2,
+                    header_cr2
+                );
+            }
+
             transition!(
                 self,
                 context,
-- 
2.43.0


From e0e4ffa970059c4e83cd60a7bace8dc4e2ce7245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:09 +0000
Subject: [PATCH 06/33] fix: find a multipart boundary that follows a
 look-alike within the data

---
 src/http1/parser.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index a2faadd..5c1e8bd 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2541,12 +2541,14 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
             // so let's send the data to the callback and get back to parsing
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', context.byte],
+                b"\r\n",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2571,12 +2573,14 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
             // so let's send the data to the callback and get back to parsing
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', b'-', context.byte],
+                b"\r\n-",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2861,12 +2865,15 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
+        // not the boundary, but the next byte may be the beginning of it
+        bs_replay!(context);
+
         callback_transition!(
             self,
             handler,
             context,
             on_multipart_data,
-            &[b'\r', context.byte],
+            b"\r",
             MultipartDataByByte,
             multipart_data_by_byte
         );
-- 
2.43.0


From 14f2a079f425a473d2f4963c5e64147d9f200a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:24 +0000
Subject: [PATCH 07/33] fix: report a URL encoded body that ends within an
 escape sequence

---
 src/http1/parser.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 5c1e8bd..ece3f51 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -295,6 +295,26 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             match self.parse(&mut handler, &mut context) {
                 Ok(Success::Eos(length)) => {
                     if self.length - length == 0 {
+                        // the data must not end within an escape sequence
+                        let error = match self.state {
+                            ParserState::UrlEncodedNameHex1
+                            | ParserState::UrlEncodedNameHex2 => {
+                                Some(ParserError::UrlEncodedName(b'%'))
+                            },
+                            ParserState::UrlEncodedValueHex1
+                            | ParserState::UrlEncodedValueHex2 => {
+                                Some(ParserError::UrlEncodedValue(b'%'))
+                            },
+                            _ => None
+                        };
+
+                        if let Some(error) = error {
+                            self.state          = ParserState::Dead;
+                            self.state_function = Parser::dead;
+
+                            return Err(error);
+                        }
+
                         self.state          = ParserState::BodyFinished;
                         self.state_function = Parser::body_finished;
 
-- 
2.43.0


From f7a1fb519063532c5def13fa2128c7a7d47e0d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:49 +0000
Subject: [PATCH 08/33] fix: keep all bytes of a fragmented HTTP/2 stream id

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 5a926fe..29aaf96 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -411,7 +411,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 16;
+        self.bit_data32b |= (get_u8!(context) as u32) << 16;
 
         transition!(
             self,
@@ -426,7 +426,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 8;
+        self.bit_data32b |= (get_u8!(context) as u32) << 8;
 
         transition!(
             self,
-- 
2.43.0


From 28f79870a4d8cc59d197a563b38ac94a955b38bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 09/33] fix: read a fragmented HTTP/2 go away stream id

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 29aaf96..2d772e4 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -658,8 +658,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            GoAwayStreamId3,
-            go_away_stream_id3
+            GoAwayStreamId4,
+            go_away_stream_id4
         );
     }
 
-- 
2.43.0


From 459348ac90aeed44614ee05cab0431ae27311e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:52 +0000
Subject: [PATCH 10/33] fix: read a fragmented HTTP/2 settings value

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 2d772e4..41515a7 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1388,8 +1388,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            SettingsValue3,
-            settings_value3
+            SettingsValue4,
+            settings_value4
         );
     }
 
-- 
2.43.0


From 4d37b6640fe4b81c39ac7748660894463941c0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:53 +0000
Subject: [PATCH 11/33] fix: ignore the reserved bit of push promise and window
 update frames

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 41515a7..18fa6d3 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1174,7 +1174,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         // decrease payload by stream id (4)
         dec_payload_length!(self, 4);
 
-        if handler.on_push_promise(self.bit_data32b) {
+        if handler.on_push_promise(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
@@ -1508,7 +1508,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn window_update_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        if handler.on_window_update(self.bit_data32b) {
+        if handler.on_window_update(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
-- 
2.43.0


From 887dcf28fd1edac9ecfac1fc3e4b7367a2e7ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 12/33] fix: execute on_headers for headers frames without
 padding and priority

---
 src/http2/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 18fa6d3..e735647 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -481,7 +481,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 } else if has_flag!(self, FL_PRIORITY) {
                     set_state!(self, HeadersStreamId1, headers_stream_id1);
                 } else {
-                    set_state!(self, HeadersFragment, headers_fragment);
+                    set_state!(self, HeadersCallback, headers_callback);
                 }
             },
             FR_PRIORITY => {
-- 
2.43.0


From fad03a521825863de1fcacd990a382ba8e95f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:57 +0000
Subject: [PATCH 13/33] fix: report HTTP/2 frames that are too short for their
 fields or padding

---
 src/http2/parser.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index e735647..917eb62 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -48,8 +48,14 @@ macro_rules! actual_length {
 }
 
 /// Decrease payload length.
+///
+/// Exit the parser with `ParserError::PayloadLength` when the payload is not long enough.
 macro_rules! dec_payload_length {
     ($parser:expr, $length:expr) => ({
+        if payload_length!($parser) < $length {
+            exit_error!(PayloadLength);
+        }
+
         $parser.bit_data32a = ($parser.bit_data32a & 0xFF)
                             | (($parser.bit_data32a >> 8) - $length) << 8;
     });
@@ -88,6 +94,10 @@ macro_rules! payload_length {
 /// Parse payload data.
 macro_rules! parse_payload_data {
     ($parser:expr, $handler:expr, $context:expr, $callback:ident) => ({
+        if payload_length!($parser) < pad_length!($parser) {
+            exit_error!(PayloadLength);
+        }
+
         if bs_available!($context) >= actual_length!($parser) as usize {
             // collect remaining data
             bs_jump!($context, actual_length!($parser) as usize);
@@ -148,7 +158,10 @@ macro_rules! read_u32 {
 #[derive(Clone,Copy,PartialEq)]
 pub enum ParserError {
     /// Parsing has failed.
-    Dead
+    Dead,
+
+    /// Payload length is too small for the fields and padding of a frame.
+    PayloadLength
 }
 
 impl ParserError {
@@ -158,6 +171,9 @@ impl ParserError {
             ParserError::Dead => {
                 write!(formatter, "<ParserError::Dead>")
             },
+            ParserError::PayloadLength => {
+                write!(formatter, "<ParserError::PayloadLength>")
+            }
         }
     }
 }
-- 
2.43.0


From 223898470f5bd1f5cd9a5007fdf3c9bbb8471ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:58 +0000
Subject: [PATCH 14/33] fix: deliver empty HTTP/2 payloads and push promises
 without waiting for the next frame

---
 src/http2/parser.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 917eb62..dbceb8c 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -98,6 +98,11 @@ macro_rules! parse_payload_data {
             exit_error!(PayloadLength);
         }
 
+        // an empty payload does not need additional stream data
+        if actual_length!($parser) > 0 {
+            exit_if_eos!($parser, $context);
+        }
+
         if bs_available!($context) >= actual_length!($parser) as usize {
             // collect remaining data
             bs_jump!($context, actual_length!($parser) as usize);
@@ -607,8 +612,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn data_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -792,8 +795,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn go_away_debug_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -958,8 +959,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn headers_fragment(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -975,8 +974,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn ping_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -1185,8 +1182,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn push_promise_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         // decrease payload by stream id (4)
         dec_payload_length!(self, 4);
 
@@ -1565,8 +1560,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn unsupported_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
-- 
2.43.0


From 0873592fa16a1b270c055be7f91747c7910a9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 15/33] fix: parse HTTP/2 settings frames with any number of
 settings

---
 src/http2/parser.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index dbceb8c..3d8a9ea 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -512,7 +512,11 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 set_state!(self, RstStreamErrorCode1, rst_stream_error_code1);
             },
             FR_SETTINGS => {
-                set_state!(self, SettingsId1, settings_id1);
+                if payload_length!(self) > 0 {
+                    set_state!(self, SettingsId1, settings_id1);
+                } else {
+                    set_state!(self, FrameLength1, frame_length1);
+                }
             },
             FR_PUSH_PROMISE => {
                 if has_flag!(self, FL_PADDED) {
@@ -1422,16 +1426,45 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn settings_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        // decrease payload by identifier (2) and value (4)
+        dec_payload_length!(self, 6);
+
         if handler.on_settings(self.bit_data16a, self.bit_data32b) {
             transition!(
                 self,
                 context,
                 FrameLength1,
-                frame_length1
+                settings_end
             )
         }
 
         exit_callback!(
+            self,
+            context,
+            FrameLength1,
+            settings_end
+        );
+    }
+
+    /// Continue with the next setting of this frame, or with the next frame.
+    #[inline]
+    fn settings_end(&mut self, _handler: &mut T, context: &mut ByteStream)
+    -> Result<ParserValue, ParserError> {
+        exit_if_eos!(self, context);
+
+        if payload_length!(self) > 0 {
+            self.bit_data16a = 0;
+            self.bit_data32b = 0;
+
+            transition!(
+                self,
+                context,
+                SettingsId1,
+                settings_id1
+            );
+        }
+
+        transition!(
             self,
             context,
             FrameLength1,
-- 
2.43.0


From 44dfa6cc10c1d371e9ec6c205d697b72c5347727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:22 +0000
Subject: [PATCH 16/33] fix: skip the payload that exceeds the fields of fixed
 length HTTP/2 frames

---
 src/http2/parser.rs | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 3d8a9ea..4df2e9a 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -567,6 +567,29 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         }
     }
 
+    /// Skip the remaining payload of a frame with fixed length fields.
+    #[inline]
+    fn frame_end(&mut self, _handler: &mut T, context: &mut ByteStream)
+    -> Result<ParserValue, ParserError> {
+        exit_if_eos!(self, context);
+
+        if payload_length!(self) > 0 {
+            transition!(
+                self,
+                context,
+                FramePadding,
+                frame_padding
+            );
+        }
+
+        transition!(
+            self,
+            context,
+            FrameLength1,
+            frame_length1
+        );
+    }
+
     #[inline]
     fn frame_padding(&mut self, _handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
@@ -1068,6 +1091,9 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
+        // decrease payload by stream id (4) and weight (1)
+        dec_payload_length!(self, 5);
+
         if handler.on_priority(
             (self.bit_data32b >> 31) == 1,
             self.bit_data32b & 0x7FFFFFFF,
@@ -1077,7 +1103,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 self,
                 context,
                 FrameLength1,
-                frame_length1
+                frame_end
             );
         }
 
@@ -1085,7 +1111,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             self,
             context,
             FrameLength1,
-            frame_length1
+            frame_end
         );
     }
 
@@ -1286,12 +1312,15 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn rst_stream_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        // decrease payload by error code (4)
+        dec_payload_length!(self, 4);
+
         if handler.on_rst_stream(self.bit_data32b) {
             transition!(
                 self,
                 context,
                 FrameLength1,
-                frame_length1
+                frame_end
             );
         }
 
@@ -1299,7 +1328,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             self,
             context,
             FrameLength1,
-            frame_length1
+            frame_end
         );
     }
 
@@ -1552,12 +1581,15 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn window_update_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        // decrease payload by size increment (4)
+        dec_payload_length!(self, 4);
+
         if handler.on_window_update(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
                 FrameLength1,
-                frame_length1
+                frame_end
             );
         }
 
@@ -1565,7 +1597,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             self,
             context,
             FrameLength1,
-            frame_length1
+            frame_end
         );
     }
 
-- 
2.43.0


From a71dab15085ce8bf6f25a0b9355f78cdea791529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:36 +0000
Subject: [PATCH 17/33] fix: allow FrameFormat to be created

---
 src/http2/frame_format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http2/frame_format.rs b/src/http2/frame_format.rs
index 2b407b1..c365311 100644
--- a/src/http2/frame_format.rs
+++ b/src/http2/frame_format.rs
@@ -29,7 +29,7 @@ pub struct FrameFormat {
 
 impl FrameFormat {
     /// Create a new `FrameFormat`.
-    pub fn new(&mut self, payload_length: u32, frame_type: u8, flags: u8, stream_id: u32)
+    pub fn new(payload_length: u32, frame_type: u8, flags: u8, stream_id: u32)
     -> FrameFormat {
         FrameFormat{
             flags:                     flags,
-- 
2.43.0


From 8e8f80f4533e0649e196d4418f601b3d81bf98cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:58 +0000
Subject: [PATCH 18/33] fix: accept escape sequences in query names

---
 src/util/query.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/query.rs b/src/util/query.rs
index b863296..c6f7bc9 100644
--- a/src/util/query.rs
+++ b/src/util/query.rs
@@ -200,11 +200,13 @@ impl<'a> Iterator for QueryIterator<'a> {
                                 self.context,
                                 QueryError::Name
                             ));
-                        } else if bs_has_bytes!(self.context, 1) {
-                            bs_next!(self.context);
-                        }
+                        } else {
+                            if bs_has_bytes!(self.context, 1) {
+                                bs_next!(self.context);
+                            }
 
-                        submit_error!(self, QueryError::Name);
+                            submit_error!(self, QueryError::Name);
+                        }
                     },
                     b'+' => {
                         self.name.push(b' ');
-- 
2.43.0


From 309b844e49064cea97bde43fe6ee0ddfde8fa536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:22 +0000
Subject: [PATCH 19/33] fix: end query iteration after an invalid escape
 sequence

---
 src/collect.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/collect.rs b/src/collect.rs
index 2b93e1c..298c401 100644
--- a/src/collect.rs
+++ b/src/collect.rs
@@ -95,9 +95,7 @@ macro_rules! collect_hex8_iter {
             } else if b'`' < $context.byte && $context.byte < b'g' {
                 ($context.byte - 0x57) << 4
             } else {
-                (*$iter.on_error)($error($context.byte));
-
-                return None;
+                submit_error!($iter, $error);
             } as u8
         )
         +
@@ -112,9 +110,7 @@ macro_rules! collect_hex8_iter {
                 } else if b'`' < $context.byte && $context.byte < b'g' {
                     $context.byte - 0x57
                 } else {
-                    (*$iter.on_error)($error($context.byte));
-
-                    return None;
+                    submit_error!($iter, $error);
                 } as u8
             )
         }
-- 
2.43.0


From 833cdc968c3eb4b4495fd6e1cc3a090b154cc567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:24 +0000
Subject: [PATCH 20/33] fix: return field names that end with an upper-cased
 letter or slash

---
 src/util/field.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 8f26600..dc4ec01 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -169,17 +169,17 @@ impl<'a> Iterator for FieldIterator<'a> {
         self.name.clear();
         self.value.clear();
 
-        loop {
-            // parsing name
-            consume_linear_space!(
-                self.context,
+        consume_linear_space!(
+            self.context,
 
-                // on end-of-stream
-                return None
-            );
+            // on end-of-stream
+            return None
+        );
 
-            bs_replay!(self.context);
+        bs_replay!(self.context);
 
+        loop {
+            // parsing name
             bs_mark!(self.context);
 
             collect_tokens!(
-- 
2.43.0


From eab7fa5c336fc565ac392d9ea1996d84238c3542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:25 +0000
Subject: [PATCH 21/33] fix: accept a delimiter after a quoted field value

---
 src/util/field.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index dc4ec01..2fc071c 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -237,12 +237,6 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     submit_name_value!(self)
                                 );
 
-                                if bs_available!(self.context) == 0 {
-                                    submit_name_value!(self);
-                                }
-
-                                bs_next!(self.context);
-
                                 if self.context.byte == self.delimiter {
                                     submit_name_value!(self);
                                 }
-- 
2.43.0


From 33a2b9b51f5f507dd3ca5a626015f406823173aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:27 +0000
Subject: [PATCH 22/33] fix: report an incomplete escape within a field value
 as a value error

---
 src/util/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 2fc071c..ba3027d 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -246,7 +246,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                             } else if self.context.byte == b'\\' {
                                 // found backslash
                                 if bs_is_eos!(self.context) {
-                                    submit_error!(self, FieldError::Name);
+                                    submit_error!(self, FieldError::Value);
                                 }
 
                                 self.value.extend_from_slice(bs_slice_ignore!(self.context));
-- 
2.43.0


From 60641991d4170f929a8b0026af5bcb550df18c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:28 +0000
Subject: [PATCH 23/33] fix: report decoded data that is not UTF-8 instead of
 creating an invalid String

---
 src/util/decode.rs | 20 +++++++++------
 src/util/field.rs  | 18 ++++++++------
 src/util/mod.rs    | 61 ++++++++++++++++++----------------------------
 src/util/query.rs  |  8 +++---
 4 files changed, 50 insertions(+), 57 deletions(-)

diff --git a/src/util/decode.rs b/src/util/decode.rs
index e7b8fc1..11bd08f 100644
--- a/src/util/decode.rs
+++ b/src/util/decode.rs
@@ -96,13 +96,13 @@ impl fmt::Display for DecodeError {
 /// ```
 pub fn decode(encoded: &[u8]) -> Result<String, DecodeError> {
     macro_rules! submit {
-        ($string:expr, $slice:expr) => (unsafe {
-            $string.as_mut_vec().extend_from_slice($slice);
+        ($bytes:expr, $slice:expr) => ({
+            $bytes.extend_from_slice($slice);
         });
     }
 
     let mut context = ByteStream::new(encoded);
-    let mut string  = String::new();
+    let mut bytes   = Vec::new();
 
     loop {
         bs_mark!(context);
@@ -117,22 +117,26 @@ pub fn decode(encoded: &[u8]) -> Result<String, DecodeError> {
             // on end-of-stream
             {
                 if context.mark_index < context.stream_index {
-                    submit!(string, bs_slice!(context));
+                    submit!(bytes, bs_slice!(context));
                 }
 
-                return Ok(string);
+                return String::from_utf8(bytes).map_err(|error| {
+                    let index = error.utf8_error().valid_up_to();
+
+                    DecodeError::Byte(error.into_bytes()[index])
+                });
             }
         );
 
         if bs_slice_length!(context) > 1 {
-            submit!(string, bs_slice_ignore!(context));
+            submit!(bytes, bs_slice_ignore!(context));
         }
 
         if context.byte == b'+' {
-            submit!(string, b" ");
+            submit!(bytes, b" ");
         } else if context.byte == b'%' {
             if bs_has_bytes!(context, 2) {
-                submit!(string, &[
+                submit!(bytes, &[
                     collect_hex8!(context, DecodeError::HexSequence)
                 ]);
             } else {
diff --git a/src/util/field.rs b/src/util/field.rs
index ba3027d..d7ca7d4 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -198,7 +198,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                         self.name.extend_from_slice(bs_slice!(self.context));
                     }
 
-                    submit_name!(self);
+                    submit_name!(self, FieldError);
                 }
             );
 
@@ -210,7 +210,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                         self.context,
 
                         // on end-of-stream
-                        submit_name!(self)
+                        submit_name!(self, FieldError)
                     );
 
                     if self.context.byte == b'"' {
@@ -234,11 +234,11 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     self.context,
 
                                     // on end-of-stream
-                                    submit_name_value!(self)
+                                    submit_name_value!(self, FieldError)
                                 );
 
                                 if self.context.byte == self.delimiter {
-                                    submit_name_value!(self);
+                                    submit_name_value!(self, FieldError);
                                 }
 
                                 // expected a semicolon to end the value
@@ -279,17 +279,19 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     self.value.extend_from_slice(bs_slice!(self.context));
                                 }
 
-                                submit_name_value!(self);
+                                submit_name_value!(self, FieldError);
                             }
                         );
 
                         if bs_slice_length!(self.context) == 0 {
                             // name without a value
-                            submit_name!(self);
+                            submit_name!(self, FieldError);
                         }
 
                         if self.context.byte == self.delimiter {
-                            submit_name_value!(self.name, bs_slice_ignore!(self.context));
+                            self.value.extend_from_slice(bs_slice_ignore!(self.context));
+
+                            submit_name_value!(self, FieldError);
                         } else {
                             bs_jump!(self.context, bs_available!(self.context));
 
@@ -305,7 +307,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                 },
                 byte if byte == self.delimiter => {
                     // name without a value
-                    submit_name!(self);
+                    submit_name!(self, FieldError);
                 },
                 byte if byte > 0x40 && byte < 0x5B => {
                     // upper-cased byte, let's lower-case it
diff --git a/src/util/mod.rs b/src/util/mod.rs
index ca22235..4956d89 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -26,51 +26,38 @@ macro_rules! submit_error {
     });
 }
 
-macro_rules! submit_name {
-    ($iter:expr) => ({
-        return Some((
-            unsafe {
-                let mut s = String::with_capacity($iter.name.len());
+/// Convert decoded bytes into a `String`. Submit `$error` upon locating a byte that is not UTF-8.
+macro_rules! collect_string {
+    ($iter:expr, $bytes:expr, $error:expr) => (
+        match String::from_utf8($bytes.to_vec()) {
+            Ok(string) => string,
+            Err(error) => {
+                let byte = $bytes[error.utf8_error().valid_up_to()];
 
-                s.as_mut_vec().extend_from_slice(&$iter.name);
-                s
-            },
-            None
-        ));
-    });
-}
-macro_rules! submit_name_value {
-    ($name:expr, $value:expr) => ({
-        return Some((
-            unsafe {
-                let mut s = String::with_capacity($name.len());
+                bs_jump!($iter.context, bs_available!($iter.context));
 
-                s.as_mut_vec().extend_from_slice(&$name);
-                s
-            },
-            unsafe {
-                let mut s = String::with_capacity($value.len());
+                (*$iter.on_error)($error(byte));
 
-                s.as_mut_vec().extend_from_slice(&$value);
-                Some(s)
+                return None;
             }
+        }
+    );
+}
+
+macro_rules! submit_name {
+    ($iter:expr, $error:ident) => ({
+        return Some((
+            collect_string!($iter, $iter.name, $error::Name),
+            None
         ));
     });
+}
 
-    ($iter:expr) => ({
+macro_rules! submit_name_value {
+    ($iter:expr, $error:ident) => ({
         return Some((
-            unsafe {
-                let mut s = String::with_capacity($iter.name.len());
-
-                s.as_mut_vec().extend_from_slice(&$iter.name);
-                s
-            },
-            unsafe {
-                let mut s = String::with_capacity($iter.value.len());
-
-                s.as_mut_vec().extend_from_slice(&$iter.value);
-                Some(s)
-            }
+            collect_string!($iter, $iter.name, $error::Name),
+            Some(collect_string!($iter, $iter.value, $error::Value))
         ));
     });
 }
diff --git a/src/util/query.rs b/src/util/query.rs
index c6f7bc9..035bb10 100644
--- a/src/util/query.rs
+++ b/src/util/query.rs
@@ -184,7 +184,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                             self.name.extend_from_slice(bs_slice!(self.context));
                         }
 
-                        submit_name!(self);
+                        submit_name!(self, QueryError);
                     }
                 );
 
@@ -226,7 +226,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                       b'&'
                     | b';' => {
                         // name without a value
-                        submit_name!(self);
+                        submit_name!(self, QueryError);
                     },
                     _ => {
                         bs_jump!(self.context, bs_available!(self.context));
@@ -257,7 +257,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                             self.value.extend_from_slice(bs_slice!(self.context));
                         }
 
-                        submit_name_value!(self);
+                        submit_name_value!(self, QueryError);
                     }
                 );
 
@@ -287,7 +287,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                       b'&'
                     | b';' => {
                         // name with a value
-                        submit_name_value!(self);
+                        submit_name_value!(self, QueryError);
                     },
                     _ => {
                         bs_jump!(self.context, bs_available!(self.context));
-- 
2.43.0


From 9adbcdb2d4fc5f7204bedc4fd3a57bb576e871fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:19 +0000
Subject: [PATCH 24/33] fix: report the first byte that does not match a
 required multipart boundary

---
 src/http1/parser.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index ece3f51..eec1c47 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2670,13 +2670,15 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 );
             }
 
-            // we're parsing the initial boundary, and it's invalid
-            //
-            // there is one caveat to this error:
-            //     it will always report the first byte being invalid, even if
-            //     it's another byte that did not match, because we're using
-            //     bs_starts_with!() vs an individual byte check
-            bs_next!(context);
+            // a boundary is required here, and it's invalid, so consume the bytes that match in
+            // order to report the first byte that does not
+            for byte in &self.boundary.unwrap()[get_upper14!(self) as usize..] {
+                bs_next!(context);
+
+                if context.byte != *byte {
+                    break;
+                }
+            }
 
             exit_error!(MultipartBoundary, context.byte);
         } else if finished {
-- 
2.43.0


From ecb0fa81840ae0ee74030eaa8122fe09517ebd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:31 +0000
Subject: [PATCH 25/33] fix: reject header fields without a name

---
 src/http1/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index eec1c47..02be56a 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -1609,8 +1609,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         exit_if_eos!(self, context);
         bs_next!(context);
 
-        // make sure we have something visible to collect in next state
-        if is_visible_7bit!(context.byte) {
+        // make sure we have a token to collect in next state, because a name cannot be empty
+        if is_token(context.byte) {
             bs_replay!(context);
 
             transition!(
-- 
2.43.0


From 4bb4034db4158c0c1dc64a93c21825368c42a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 26/33] fix: reject chunk extensions without a name

---
 src/http1/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 02be56a..75f9f7e 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2223,8 +2223,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             exit_eos!(self, context)
         );
 
-        // make sure we have something visible to collect in next state
-        if is_visible_7bit!(context.byte) {
+        // make sure we have a token to collect in next state, because a name cannot be empty
+        if is_token(context.byte) {
             bs_replay!(context);
 
             transition!(
-- 
2.43.0


From 8b6e3e0e4be171741b29d070ca617e4ffd6a9d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 27/33] fix: reject chunk extensions with an empty unquoted
 value

---
 src/http1/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 75f9f7e..984840b 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2327,8 +2327,9 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             exit_eos!(self, context)
         );
 
-        // make sure we have something visible to collect in next state
-        if is_visible_7bit!(context.byte) {
+        // make sure we have something visible to collect in next state, a value cannot be empty
+        // unless it is quoted
+        if is_visible_7bit!(context.byte) && context.byte != b';' {
             bs_replay!(context);
 
             transition!(
-- 
2.43.0


From 779afa8aa654fbb1488a4c011ce8d207ac04ac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:15 +0000
Subject: [PATCH 28/33] fix: reject white space in front of the first header
 field

---
 src/http1/parser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 984840b..ef77313 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -37,6 +37,9 @@ const FLAG_MASK: u32 = 0xF;
 /// State flag shift.
 const FLAG_SHIFT: u8 = 0;
 
+/// State flag that indicates that a header field has been parsed within the current head.
+const FLAG_HEADER: u32 = 0x1;
+
 /// Lower 14 bits mask.
 const LOWER14_MASK: u32 = 0x3FFF;
 
@@ -1501,7 +1504,11 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         bs_next!(context);
 
         if context.byte == b' ' || context.byte == b'\t' {
-            // multiline value
+            // multiline value, which must follow a header field
+            if self.bit_data & FLAG_HEADER == 0 {
+                exit_error!(HeaderName, context.byte);
+            }
+
             transition!(
                 self,
                 context,
@@ -1512,6 +1519,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
 
         bs_replay!(context);
 
+        self.bit_data |= FLAG_HEADER;
+
         transition!(
             self,
             context,
@@ -1911,6 +1920,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn header_end(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        self.bit_data &= !FLAG_HEADER;
+
         if let ParserType::Chunked = self.parser_type {
             set_state!(self, BodyFinished, body_finished);
         } else if let ParserType::Multipart = self.parser_type {
-- 
2.43.0


From c99729b71a3d72dd910e63428fffbb798675f1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:36 +0000
Subject: [PATCH 29/33] fix: accept header fields with an empty value

---
 src/http1/parser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index ef77313..7df275e 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -1702,7 +1702,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn strip_header_value(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn strip_header_value(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         consume_linear_space!(
             context,
@@ -1721,6 +1721,17 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 HeaderValue,
                 header_value
             );
+        } else if context.byte == b'\r' {
+            // empty value
+            callback_transition!(
+                self,
+                handler,
+                context,
+                on_header_value,
+                b"",
+                HeaderLf1,
+                header_lf1
+            );
         }
 
         Err(ParserError::HeaderValue(context.byte))
-- 
2.43.0


From 59dfaff805f02e674393e8fe656af2481e5b190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 30/33] fix: accept responses with an empty status

---
 src/http1/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 7df275e..4ddb072 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -1427,6 +1427,14 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 ResponseStatus2,
                 response_status2
             );
+        } else if context.byte == b'\r' {
+            // empty status
+            transition!(
+                self,
+                context,
+                InitialEnd,
+                initial_end
+            );
         }
 
         Err(ParserError::Status(context.byte))
-- 
2.43.0


From a318f764965befa4898aefdbb037ed61d31ec47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:23 +0000
Subject: [PATCH 31/33] fix: accept chunk lengths with leading zeros

---
 src/http1/parser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 4ddb072..20372b0 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -1966,9 +1966,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         exit_if_eos!(self, context);
         bs_next!(context);
 
-        if context.byte == b'0' {
-            set_state!(self, ChunkLengthCr, chunk_length_cr);
-        } else if is_hex!(context.byte) {
+        if is_hex!(context.byte) {
             self.length = hex_to_byte!(context.byte) as usize;
 
             set_state!(self, ChunkLength2, chunk_length2);
-- 
2.43.0


From 9e55cfab4ef9bebf46abbe71bf6b8373e0138ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 32/33] fix: report the last byte of an incomplete escape at
 the end of a URL encoded body

---
 src/http1/parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 20372b0..ba3d143 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -300,14 +300,18 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                     if self.length - length == 0 {
                         // the data must not end within an escape sequence
                         let error = match self.state {
-                            ParserState::UrlEncodedNameHex1
-                            | ParserState::UrlEncodedNameHex2 => {
+                            ParserState::UrlEncodedNameHex1 => {
                                 Some(ParserError::UrlEncodedName(b'%'))
                             },
-                            ParserState::UrlEncodedValueHex1
-                            | ParserState::UrlEncodedValueHex2 => {
+                            ParserState::UrlEncodedNameHex2 => {
+                                Some(ParserError::UrlEncodedName(context.byte))
+                            },
+                            ParserState::UrlEncodedValueHex1 => {
                                 Some(ParserError::UrlEncodedValue(b'%'))
                             },
+                            ParserState::UrlEncodedValueHex2 => {
+                                Some(ParserError::UrlEncodedValue(context.byte))
+                            },
                             _ => None
                         };
 
-- 
2.43.0


From 996a592de61a8cbb50224352e547ecdd99a90a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 33/33] fix: accept obs-text as first byte of a header value

---
 src/http1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index ba3d143..d69d064 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -1724,7 +1724,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         );
 
         // make sure we have something visible to collect in next state
-        if is_visible_7bit!(context.byte) {
+        if is_visible_7bit!(context.byte) || context.byte > 0x7F {
             bs_replay!(context);
 
             transition!(
-- 
2.43.0

