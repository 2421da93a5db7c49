From e441fd328d04f097d3460be8128a1335e657666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 01/22] fix: reject out of range integers instead of wrapping
 them

The integer sinks compared the truncated value after casting it back,
which also holds for values that wrapped (2^64-1 into i8, -1 into u64).
---
 deser/src/de/impls.rs | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 014365c..8eb3242 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -86,30 +86,26 @@ macro_rules! int_sink {
 
             fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
                 match atom {
-                    Atom::U64(value) => {
-                        let truncated = value as $ty;
-                        if truncated as u64 == value {
-                            **self = Some(truncated);
+                    Atom::U64(value) => match <$ty>::try_from(value) {
+                        Ok(value) => {
+                            **self = Some(value);
                             Ok(())
-                        } else {
-                            Err(Error::new(
-                                ErrorKind::OutOfRange,
-                                "value out of range for type",
-                            ))
                         }
-                    }
-                    Atom::I64(value) => {
-                        let truncated = value as $ty;
-                        if truncated as i64 == value {
-                            **self = Some(truncated);
+                        Err(_) => Err(Error::new(
+                            ErrorKind::OutOfRange,
+                            "value out of range for type",
+                        )),
+                    },
+                    Atom::I64(value) => match <$ty>::try_from(value) {
+                        Ok(value) => {
+                            **self = Some(value);
                             Ok(())
-                        } else {
-                            Err(Error::new(
-                                ErrorKind::OutOfRange,
-                                "value out of range for type",
-                            ))
                         }
-                    }
+                        Err(_) => Err(Error::new(
+                            ErrorKind::OutOfRange,
+                            "value out of range for type",
+                        )),
+                    },
                     other => self.unexpected_atom(other, state),
                 }
             }
-- 
2.43.0


From a76ecde88b4ef59983bd8866dccf7c4d32a27355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 02/22] fix: accept maps in the HashMap sink

The sink never overrode map(), so every HashMap failed to deserialize.
---
 deser/src/de/impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 8eb3242..4a541ef 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -384,6 +384,10 @@ where
                 &DESCRIPTOR
             }
 
+            fn map(&mut self, _state: &DeserializerState) -> Result<(), Error> {
+                Ok(())
+            }
+
             fn next_key(&mut self, _state: &DeserializerState) -> Result<SinkHandle, Error> {
                 self.flush();
                 Ok(Deserialize::deserialize_into(&mut self.key))
-- 
2.43.0


From 34fe6261ec37dc1e12aefd8eb91512de715575a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 03/22] fix: forward finish through the Option sink

Option<T> silently became None for every T that stores its value in finish
(vectors, maps, tuples, arrays, boxes and derived structs).
---
 deser/src/de/impls.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 4a541ef..9c7ef1d 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -528,7 +528,10 @@ where
         let sink = Deserialize::deserialize_into(out.as_mut().unwrap());
         match sink {
             SinkHandle::Null(_) => sink,
-            sink => SinkHandle::boxed(NullIgnoringSink { sink }),
+            sink => SinkHandle::boxed(NullIgnoringSink {
+                sink,
+                forwarded: false,
+            }),
         }
     }
 
@@ -539,21 +542,27 @@ where
 
 struct NullIgnoringSink<'a> {
     sink: SinkHandle<'a>,
+    forwarded: bool,
 }
 
 impl<'a> Sink for NullIgnoringSink<'a> {
     fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
         match atom {
             Atom::Null => Ok(()),
-            other => self.sink.atom(other, state),
+            other => {
+                self.forwarded = true;
+                self.sink.atom(other, state)
+            }
         }
     }
 
     fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        self.forwarded = true;
         self.sink.map(state)
     }
 
     fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        self.forwarded = true;
         self.sink.seq(state)
     }
 
@@ -565,6 +574,16 @@ impl<'a> Sink for NullIgnoringSink<'a> {
         self.sink.next_value(state)
     }
 
+    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        // the inner sink must not be finished if it never received a value
+        // as it would otherwise fail or replace the null with an empty value.
+        if self.forwarded {
+            self.sink.finish(state)
+        } else {
+            Ok(())
+        }
+    }
+
     fn descriptor(&self) -> &dyn Descriptor {
         self.sink.descriptor()
     }
-- 
2.43.0


From 41f70607fe691e0857db71bbca1b49a6af753465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 04/22] fix: reject JSON objects that end after a colon

{"a":} was accepted and silently dropped the key.
---
 deser-json/src/de.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index afc9cae..a20b798 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -67,7 +67,10 @@ impl<'a> Deserializer<'a> {
             // try to exit containers first
             match token {
                 Token::MapEnd => {
-                    if !matches!(stack.pop(), Some(ContainerState::Map { .. })) {
+                    if !matches!(
+                        stack.pop(),
+                        Some(ContainerState::Map { key_pos: true, .. })
+                    ) {
                         return Err(Error::new(ErrorKind::Unexpected, "unexpected end of map"));
                     }
                     driver.emit(Event::MapEnd)?;
-- 
2.43.0


From 681c3731fa907b6d2ac6b6e12de998a39cc3a111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 05/22] fix: reject trailing commas in JSON arrays instead of
 panicking

[1,] and [1,} ran into unreachable!().
---
 deser-json/src/de.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index a20b798..66a08a8 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -145,7 +145,12 @@ impl<'a> Deserializer<'a> {
                         Token::Colon => {
                             return Err(Error::new(ErrorKind::Unexpected, "unexpected colon"));
                         }
-                        Token::SeqEnd | Token::MapEnd => unreachable!(),
+                        Token::SeqEnd | Token::MapEnd => {
+                            return Err(Error::new(
+                                ErrorKind::Unexpected,
+                                "unexpected end of container",
+                            ));
+                        }
                     }
                 }
             }
-- 
2.43.0


From 0711501615ff0bf6dc3532d4959f99d63f7b01c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 06/22] fix: avoid arithmetic overflow for extreme JSON
 exponents

1.5e-2147483647 panicked with overflow checks enabled.
---
 deser-json/src/de.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index 66a08a8..955d425 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -428,9 +428,8 @@ impl<'a> Deserializer<'a> {
             match self.peek_or_nul() {
                 b'0'..=b'9' => {
                     self.bump();
-                    // This could overflow... if your integer is gigabytes long.
-                    // Ignore that possibility.
-                    exponent += 1;
+                    // This would overflow if your integer is gigabytes long.
+                    exponent = exponent.saturating_add(1);
                 }
                 b'.' => {
                     return self.parse_decimal(nonnegative, significand, exponent);
@@ -494,7 +493,7 @@ impl<'a> Deserializer<'a> {
             }
 
             significand = significand * 10 + digit;
-            exponent -= 1;
+            exponent = exponent.saturating_sub(1);
         }
 
         if !at_least_one_digit {
@@ -617,7 +616,7 @@ impl<'a> Deserializer<'a> {
 fn f64_from_parts(nonnegative: bool, significand: u64, mut exponent: i32) -> Result<f64, Error> {
     let mut f = significand as f64;
     loop {
-        match POW10.get(exponent.abs() as usize) {
+        match POW10.get(exponent.wrapping_abs() as usize) {
             Some(&pow) => {
                 if exponent >= 0 {
                     f *= pow;
-- 
2.43.0


From bb2cc30b72f7d9218c2a40987488a8a0fd677641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 07/22] fix: reject JSON strings that are not valid UTF-8

Deserializer::new accepts arbitrary bytes but strings were created with
from_utf8_unchecked, which is undefined behavior for invalid UTF-8.
---
 deser-json/src/de.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index 955d425..71bd364 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -207,10 +207,11 @@ impl<'a> Deserializer<'a> {
     }
 
     fn parse_str(&mut self) -> Result<&str, Error> {
-        fn result(bytes: &[u8]) -> &str {
-            // The input is assumed to be valid UTF-8 and the \u-escapes are
-            // checked along the way, so don't need to check here.
-            unsafe { str::from_utf8_unchecked(bytes) }
+        fn result(bytes: &[u8]) -> Result<&str, Error> {
+            // The input can be arbitrary bytes, so it's not necessarily
+            // valid UTF-8.
+            str::from_utf8(bytes)
+                .map_err(|_| Error::new(ErrorKind::Unexpected, "invalid utf-8 in string"))
         }
 
         // Index of the first byte not yet copied into the scratch space.
@@ -234,11 +235,11 @@ impl<'a> Deserializer<'a> {
                         // copying.
                         let borrowed = &self.input[start..self.pos];
                         self.pos += 1;
-                        return Ok(result(borrowed));
+                        return result(borrowed);
                     } else {
                         self.buffer.extend_from_slice(&self.input[start..self.pos]);
                         self.pos += 1;
-                        return Ok(result(&self.buffer));
+                        return result(&self.buffer);
                     }
                 }
                 b'\\' => {
-- 
2.43.0


From 6801f6fb04fa2513ef0d2067a6418ec6885bacad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 08/22] fix: serialize chars to JSON as one character strings

They were written as the decimal code point, which can't be read back.
---
 deser-json/src/ser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/deser-json/src/ser.rs b/deser-json/src/ser.rs
index a5786de..62a1e35 100644
--- a/deser-json/src/ser.rs
+++ b/deser-json/src/ser.rs
@@ -76,9 +76,7 @@ impl Serializer {
                 if is_key {
                     match event {
                         Event::Atom(Atom::Str(val)) => self.write_escaped_str(&val),
-                        Event::Atom(Atom::Char(c)) => {
-                            self.write_escaped_str(&(c as u32).to_string())
-                        }
+                        Event::Atom(Atom::Char(c)) => self.write_escaped_str(&c.to_string()),
                         _ => unsupported!("JSON does not support this value for map keys"),
                     }
                     self.write_char(':');
@@ -93,7 +91,7 @@ impl Serializer {
                     Atom::Bool(false) => self.write_str("false"),
                     Atom::Str(val) => self.write_escaped_str(&val),
                     Atom::Bytes(_val) => unsupported!("JSON doesn't support bytes"),
-                    Atom::Char(c) => self.write_escaped_str(&(c as u32).to_string()),
+                    Atom::Char(c) => self.write_escaped_str(&c.to_string()),
                     Atom::U64(val) => {
                         #[cfg(feature = "speedups")]
                         {
-- 
2.43.0


From 6ac2b644b341a762d067c9a82dcb18c847dd6dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 09/22] fix: forward all of Serialize through options,
 references and boxes

finish() of the inner value was never called and optionality and descriptor
of the inner value were lost.
---
 deser/src/ser/impls.rs | 43 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/deser/src/ser/impls.rs b/deser/src/ser/impls.rs
index 18e6642..5224d3c 100644
--- a/deser/src/ser/impls.rs
+++ b/deser/src/ser/impls.rs
@@ -323,6 +323,13 @@ where
             None => Ok(Chunk::Atom(Atom::Null)),
         }
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        match self {
+            Some(value) => value.finish(state),
+            None => Ok(()),
+        }
+    }
 }
 
 macro_rules! serialize_for_tuple {
@@ -395,16 +402,52 @@ impl<'a, T: Serialize> Serialize for &'a T {
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(*self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        Serialize::finish(&**self, state)
+    }
+
+    fn is_optional(&self) -> bool {
+        Serialize::is_optional(&**self)
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        Serialize::descriptor(&**self)
+    }
 }
 
 impl<'a, T: Serialize> Serialize for &'a mut T {
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(*self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        Serialize::finish(&**self, state)
+    }
+
+    fn is_optional(&self) -> bool {
+        Serialize::is_optional(&**self)
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        Serialize::descriptor(&**self)
+    }
 }
 
 impl<T: Serialize> Serialize for Box<T> {
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(&**self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        Serialize::finish(&**self, state)
+    }
+
+    fn is_optional(&self) -> bool {
+        Serialize::is_optional(&**self)
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        Serialize::descriptor(&**self)
+    }
 }
-- 
2.43.0


From 57732fa90fff6e2ef2d55b56affcfea3f0f8f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 10/22] fix: keep descriptors and optionality when tracking
 serialization paths

---
 deser-path/src/ser.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/deser-path/src/ser.rs b/deser-path/src/ser.rs
index 708ce8b..275dd46 100644
--- a/deser-path/src/ser.rs
+++ b/deser-path/src/ser.rs
@@ -5,7 +5,7 @@ use std::rc::Rc;
 use deser::ser::{
     Chunk, MapEmitter, SeqEmitter, Serialize, SerializeHandle, SerializerState, StructEmitter,
 };
-use deser::{Atom, Error};
+use deser::{Atom, Descriptor, Error};
 
 use crate::{Path, PathSegment};
 
@@ -42,6 +42,14 @@ impl<'a> Serialize for PathSerializable<'a> {
     fn finish(&self, state: &SerializerState) -> Result<(), Error> {
         self.serializable.finish(state)
     }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
 }
 
 struct PathStructEmitter<'a> {
@@ -147,6 +155,14 @@ impl<'a> Serialize for SegmentPushingSerializable<'a> {
         path.segments.pop();
         Ok(())
     }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
 }
 
 struct SegmentCollectingSerializable<'a> {
@@ -172,4 +188,12 @@ impl<'a> Serialize for SegmentCollectingSerializable<'a> {
     fn finish(&self, state: &SerializerState) -> Result<(), Error> {
         self.serializable.finish(state)
     }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
 }
-- 
2.43.0


From a6309c2a6a00ee8ba175844ade010cf9232e2e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 11/22] fix: leave containers when tracking deserialization
 paths

Segments were pushed for every map and sequence but never popped, so paths
were wrong after the first nested container ended.
---
 deser-path/src/de.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index 9023b9b..a29f4e6 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -18,6 +18,7 @@ pub struct PathSink<'a> {
     sink: SinkHandle<'a>,
     container: Container,
     set_segment: Option<PathSegment>,
+    pushed: bool,
 }
 
 impl<'a> PathSink<'a> {
@@ -32,6 +33,7 @@ impl<'a> PathSink<'a> {
             sink,
             container: Container::None,
             set_segment: None,
+            pushed: false,
         }
     }
 
@@ -59,6 +61,7 @@ impl<'a> Sink for PathSink<'a> {
     fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
         self.set_segment(state);
         state.get_mut::<Path>().segments.push(PathSegment::Unknown);
+        self.pushed = true;
         self.container = Container::Map(Rc::default());
         self.sink.map(state)
     }
@@ -66,6 +69,7 @@ impl<'a> Sink for PathSink<'a> {
     fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
         self.set_segment(state);
         state.get_mut::<Path>().segments.push(PathSegment::Unknown);
+        self.pushed = true;
         self.container = Container::Seq(0);
         self.sink.seq(state)
     }
@@ -79,6 +83,7 @@ impl<'a> Sink for PathSink<'a> {
                     _ => unreachable!(),
                 },
                 set_segment: None,
+                pushed: false,
             })
         })
     }
@@ -98,12 +103,17 @@ impl<'a> Sink for PathSink<'a> {
                 sink,
                 container: Container::None,
                 set_segment,
+                pushed: false,
             })
         })
     }
 
     fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
-        self.sink.finish(state)
+        self.sink.finish(state)?;
+        if self.pushed {
+            state.get_mut::<Path>().segments.pop();
+        }
+        Ok(())
     }
 
     fn descriptor(&self) -> &dyn Descriptor {
-- 
2.43.0


From 7e1a41f291e27aae162e752d8f65542882fc673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 12/22] fix: do not reuse stale path segments for unsupported
 keys

Keys that are neither strings nor indexes kept the segment of the previous
entry, and negative keys were reported as huge indexes.
---
 deser-path/src/de.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index a29f4e6..dedb698 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -51,7 +51,7 @@ impl<'a> Sink for PathSink<'a> {
             *capture.borrow_mut() = match atom {
                 Atom::Str(ref value) => Some(PathSegment::Key(value.to_string())),
                 Atom::U64(value) => Some(PathSegment::Index(value as usize)),
-                Atom::I64(value) => Some(PathSegment::Index(value as usize)),
+                Atom::I64(value) => usize::try_from(value).ok().map(PathSegment::Index),
                 _ => None,
             };
         }
@@ -91,7 +91,12 @@ impl<'a> Sink for PathSink<'a> {
     fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
         let set_segment = match self.container {
             Container::None => None,
-            Container::Map(ref captured_key) => captured_key.borrow_mut().take(),
+            Container::Map(ref captured_key) => Some(
+                captured_key
+                    .borrow_mut()
+                    .take()
+                    .unwrap_or(PathSegment::Unknown),
+            ),
             Container::Seq(ref mut index) => {
                 let old_index = *index;
                 *index += 1;
-- 
2.43.0


From 190b1fb498966fdfdd27ac7c73ffd3bc83e0e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 13/22] fix: stop debug output when the writer fails

The dump looped forever if the writer failed inside of a container.
---
 deser-debug/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/deser-debug/src/lib.rs b/deser-debug/src/lib.rs
index 648211d..d5415c6 100644
--- a/deser-debug/src/lib.rs
+++ b/deser-debug/src/lib.rs
@@ -88,7 +88,11 @@ fn dump<'a, 'f>(
                         map.value(&inner);
                     }
                     is_key = !is_key;
-                    rest = &rest[inner.1.load(atomic::Ordering::Relaxed)..];
+                    // no progress means that the writer failed
+                    match inner.1.load(atomic::Ordering::Relaxed) {
+                        0 => return Err(fmt::Error),
+                        consumed => rest = &rest[consumed..],
+                    }
                 }
                 map.finish()?;
             }
@@ -107,7 +111,11 @@ fn dump<'a, 'f>(
                     }
                     let inner = Helper(rest, AtomicUsize::default());
                     list.entry(&inner);
-                    rest = &rest[inner.1.load(atomic::Ordering::Relaxed)..];
+                    // no progress means that the writer failed
+                    match inner.1.load(atomic::Ordering::Relaxed) {
+                        0 => return Err(fmt::Error),
+                        consumed => rest = &rest[consumed..],
+                    }
                 }
                 list.finish()?;
             }
-- 
2.43.0


From b826578c1187a8a28001507d66c57d5f7b5dbabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 14/22] fix: drop the current sink before the sinks it borrows
 from

---
 deser/src/de/driver.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index 10c18cf..87df398 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -139,6 +139,8 @@ impl<'a> DeserializeDriver<'a> {
 
 impl<'a> Drop for DeserializeDriver<'a> {
     fn drop(&mut self) {
+        // the current sink borrows from the sinks on the stack
+        self.current_sink.take();
         unsafe {
             while let Some(_item) = self.sink_stack.pop() {
                 // drop in inverse order
-- 
2.43.0


From 3963ffe83ac5513eb1e6c6058bfb9ed9dbed5c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:00 +0000
Subject: [PATCH 15/22] fix: support raw identifiers in derives

---
 deser-derive/src/attr.rs | 8 +++++---
 deser-derive/src/de.rs   | 9 +++++----
 deser-derive/src/ser.rs  | 7 ++++---
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index eeb20f0..f314bc6 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -1,5 +1,7 @@
 use std::borrow::Cow;
 
+use syn::ext::IdentExt;
+
 #[derive(Copy, Clone)]
 #[allow(clippy::enum_variant_names)]
 pub enum RenameAll {
@@ -165,12 +167,12 @@ impl<'a> ContainerAttrs<'a> {
     pub fn container_name(&self) -> String {
         match self.rename {
             Some(ref name) => name.clone(),
-            None => self.ident.to_string(),
+            None => self.ident.unraw().to_string(),
         }
     }
 
     pub fn get_field_name(&self, field: &syn::Field) -> String {
-        let name = field.ident.as_ref().unwrap().to_string();
+        let name = field.ident.as_ref().unwrap().unraw().to_string();
         if let Some(rename_all) = self.rename_all {
             match rename_all {
                 RenameAll::LowerCase | RenameAll::SnakeCase => name,
@@ -222,7 +224,7 @@ impl<'a> ContainerAttrs<'a> {
     }
 
     pub fn get_variant_name(&self, variant: &syn::Variant) -> String {
-        let name = variant.ident.to_string();
+        let name = variant.ident.unraw().to_string();
         if let Some(rename_all) = self.rename_all {
             match rename_all {
                 RenameAll::PascalCase => name,
diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 13784ad..aa4ea3e 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -2,6 +2,7 @@ use std::collections::HashSet;
 
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::attr::{
     ensure_no_field_attrs, ContainerAttrs, EnumVariantAttrs, FieldAttrs, TypeDefault,
@@ -27,7 +28,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -43,7 +44,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
         .iter()
         .map(|x| {
             syn::Ident::new(
-                &format!("field_{}", x.field().ident.as_ref().unwrap()),
+                &format!("field_{}", x.field().ident.as_ref().unwrap().unraw()),
                 Span::call_site(),
             )
         })
@@ -337,7 +338,7 @@ pub fn derive_enum(
 
     let ident = &input.ident;
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -447,7 +448,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
diff --git a/deser-derive/src/ser.rs b/deser-derive/src/ser.rs
index 79206d8..455eeb0 100644
--- a/deser-derive/src/ser.rs
+++ b/deser-derive/src/ser.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::attr::{ensure_no_field_attrs, ContainerAttrs, EnumVariantAttrs, FieldAttrs};
 use crate::bound::{where_clause_with_bound, with_lifetime_bound};
@@ -23,7 +24,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -210,7 +211,7 @@ fn derive_enum(input: &syn::DeriveInput, enumeration: &syn::DataEnum) -> syn::Re
 
     let ident = &input.ident;
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -261,7 +262,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
     let ident = &input.ident;
     let (impl_generics, ty_generics, _) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
-- 
2.43.0


From 4850a6fdbb166aad926c3985d9a0d4aa31ad8c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:00 +0000
Subject: [PATCH 16/22] fix: do not panic in camelCase renames of non ASCII
 variants

---
 deser-derive/src/attr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index f314bc6..d079077 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -230,7 +230,10 @@ impl<'a> ContainerAttrs<'a> {
                 RenameAll::PascalCase => name,
                 RenameAll::LowerCase => name.to_ascii_lowercase(),
                 RenameAll::UpperCase => name.to_ascii_uppercase(),
-                RenameAll::CamelCase => name[..1].to_ascii_lowercase() + &name[1..],
+                RenameAll::CamelCase => name
+                    .char_indices()
+                    .map(|(i, ch)| if i == 0 { ch.to_ascii_lowercase() } else { ch })
+                    .collect(),
                 RenameAll::SnakeCase
                 | RenameAll::ScreamingSnakeCase
                 | RenameAll::KebabCase
-- 
2.43.0


From a71da4fc7c07193a6ca69b2b663ee9647a480e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:44 +0000
Subject: [PATCH 17/22] fix: derive Deserialize for generic types

---
 deser-derive/src/de.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index aa4ea3e..270cce8 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -123,7 +123,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
 
     let wrapper_generics = with_lifetime_bound(&input.generics, "'__a");
     let (wrapper_impl_generics, wrapper_ty_generics, _) = wrapper_generics.split_for_impl();
-    let bound = syn::parse_quote!(::deser::Serialize);
+    let bound = syn::parse_quote!(::deser::Deserialize);
     let bounded_where_clause = where_clause_with_bound(&input.generics, bound);
 
     let field_stage1_default = attrs
@@ -463,7 +463,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
 
     let wrapper_generics = with_lifetime_bound(&input.generics, "'__a");
     let (wrapper_impl_generics, wrapper_ty_generics, _) = wrapper_generics.split_for_impl();
-    let bound = syn::parse_quote!(::deser::Serialize);
+    let bound = syn::parse_quote!(::deser::Deserialize);
     let bounded_where_clause = where_clause_with_bound(&input.generics, bound);
 
     Ok(quote! {
@@ -471,7 +471,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
         const #dummy: () = {
             struct __Sink #wrapper_impl_generics #where_clause {
                 slot: &'__a mut ::deser::__derive::Option<#ident #ty_generics>,
-                sink: ::deser::de::OwnedSink<#field_type #ty_generics>,
+                sink: ::deser::de::OwnedSink<#field_type>,
             }
 
             #[automatically_derived]
-- 
2.43.0


From 78b309ae1adc4c7ecc06621f2c58a782e111168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 18/22] fix: forward flattened keys through optional targets

---
 deser/src/de/impls.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 9c7ef1d..65276f8 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -574,6 +574,18 @@ impl<'a> Sink for NullIgnoringSink<'a> {
         self.sink.next_value(state)
     }
 
+    fn value_for_key(
+        &mut self,
+        key: &str,
+        state: &DeserializerState,
+    ) -> Result<Option<SinkHandle>, Error> {
+        let rv = self.sink.value_for_key(key, state)?;
+        if rv.is_some() {
+            self.forwarded = true;
+        }
+        Ok(rv)
+    }
+
     fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
         // the inner sink must not be finished if it never received a value
         // as it would otherwise fail or replace the null with an empty value.
-- 
2.43.0


From 8af35ca8ba766d552fe3472a3c068b62dc1f726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 19/22] fix: derive(Deserialize) with a container default
 compiles for generic structs

The generated call of Default::default named the struct without its generic
arguments.
---
 deser-derive/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 270cce8..01ecd1d 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -201,7 +201,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 need_container_default.into_iter().unzip();
             let type_default = match container_attrs.default().unwrap() {
                 TypeDefault::Implicit => quote! {
-                    <#ident as ::deser::__derive::Default>::default()
+                    <#ident #ty_generics as ::deser::__derive::Default>::default()
                 },
                 TypeDefault::Explicit(path) => quote! { #path() },
             };
-- 
2.43.0


From 760b1c5d28a9d95ae4e74852e7da8fd051c86ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 20/22] fix: do not let a deserialization driver outlive the
 sink it was made from

---
 deser/src/de/driver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index 87df398..cefc964 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -32,7 +32,7 @@ impl<'a> DeserializeDriver<'a> {
     }
 
     /// Creates a new deserializer driver from a sink.
-    pub fn from_sink(sink: SinkHandle) -> DeserializeDriver<'a> {
+    pub fn from_sink(sink: SinkHandle<'a>) -> DeserializeDriver<'a> {
         DeserializeDriver {
             state: DeserializerState {
                 extensions: Extensions::default(),
-- 
2.43.0


From de640fe8dc9edf2e5a70e47a978795ec51d3ca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 21/22] fix: drop sinks before the sinks they borrow from are
 used again

---
 deser/src/de/driver.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index cefc964..77ae9e0 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -61,6 +61,8 @@ impl<'a> DeserializeDriver<'a> {
     fn update_current_sink(&mut self) -> Result<(), Error> {
         match self.sink_stack.last_mut() {
             Some((map_sink, Layer::Map(ref mut is_key))) => {
+                // the last sink borrows from the one that is asked for the next
+                self.current_sink.take();
                 let next_sink = if *is_key {
                     map_sink.next_key(&self.state)?
                 } else {
@@ -70,6 +72,7 @@ impl<'a> DeserializeDriver<'a> {
                 self.current_sink = Some(unsafe { extend_lifetime!(next_sink, SinkHandle<'_>) });
             }
             Some((seq_sink, Layer::Seq)) => {
+                self.current_sink.take();
                 self.current_sink = Some(unsafe {
                     extend_lifetime!(seq_sink.next_value(&self.state)?, SinkHandle<'_>)
                 });
@@ -104,11 +107,16 @@ impl<'a> DeserializeDriver<'a> {
                     .push((self.current_sink.take().unwrap(), Layer::Map(true)));
                 return Ok(());
             }
-            Event::MapEnd => match self.sink_stack.pop() {
-                Some((mut map_sink, Layer::Map(_))) => {
+            Event::MapEnd => match self.sink_stack.last_mut() {
+                Some((map_sink, Layer::Map(_))) => {
+                    // the last sink borrows from the one that finishes, which stays
+                    // on the stack with its descriptor if it fails.
+                    self.current_sink.take();
                     map_sink.finish(&self.state)?;
                     self.state.descriptor_stack.pop();
-                    self.current_sink = Some(map_sink);
+                    if let Some((map_sink, _)) = self.sink_stack.pop() {
+                        self.current_sink = Some(map_sink);
+                    }
                 }
                 _ => panic!("not inside a MapSink"),
             },
@@ -123,11 +131,16 @@ impl<'a> DeserializeDriver<'a> {
                     .push((self.current_sink.take().unwrap(), Layer::Seq));
                 return Ok(());
             }
-            Event::SeqEnd => match self.sink_stack.pop() {
-                Some((mut seq_sink, Layer::Seq)) => {
+            Event::SeqEnd => match self.sink_stack.last_mut() {
+                Some((seq_sink, Layer::Seq)) => {
+                    // the last sink borrows from the one that finishes, which stays
+                    // on the stack with its descriptor if it fails.
+                    self.current_sink.take();
                     seq_sink.finish(&self.state)?;
                     self.state.descriptor_stack.pop();
-                    self.current_sink = Some(seq_sink);
+                    if let Some((seq_sink, _)) = self.sink_stack.pop() {
+                        self.current_sink = Some(seq_sink);
+                    }
                 }
                 _ => panic!("not inside a SeqSink"),
             },
-- 
2.43.0


From f6b0b4f9235e51fd5ebc64aed9de5f37cbb8894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 22/22] fix: drop values and emitters in the inverse order of
 their making

---
 deser/src/ser/driver.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/deser/src/ser/driver.rs b/deser/src/ser/driver.rs
index c420421..d68a5a8 100644
--- a/deser/src/ser/driver.rs
+++ b/deser/src/ser/driver.rs
@@ -59,11 +59,16 @@ enum Emitter {
 impl<'a> Drop for SerializeDriver<'a> {
     fn drop(&mut self) {
         self.next_event.take();
-        while let Some(_emitter) = self.emitter_stack.pop() {
-            // drop in inverse order
-        }
-        while let Some(_emitter) = self.serializable_stack.pop() {
-            // drop in inverse order
+        // drop in inverse order: a value can borrow from the emitter it came
+        // from, and that emitter borrows from the value below.
+        while let Some(state) = self.state_stack.pop() {
+            match state {
+                DriverState::Serialize | DriverState::FinishSerialize => {}
+                _ => {
+                    self.emitter_stack.pop();
+                }
+            }
+            self.serializable_stack.pop();
         }
         unsafe {
             ManuallyDrop::drop(&mut self.serializable_stack);
-- 
2.43.0

