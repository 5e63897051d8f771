From 0db819430d074c4e5d701c5772cef9ff0c8fb575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:54 +0000
Subject: [PATCH 01/23] fix: reject '-' in MetricName::try_from_str

The documented name grammar is [a-zA-Z_:][a-zA-Z0-9_:]*; from_str already
rejects '-', the fallible constructor accepted it.
---
 core/src/metric/name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/metric/name.rs b/core/src/metric/name.rs
index 8a4aa4c..92d10c3 100644
--- a/core/src/metric/name.rs
+++ b/core/src/metric/name.rs
@@ -83,7 +83,7 @@ fn try_assert_metric_name(value: &str) -> Result<(), InvalidMetricName> {
     }
 
     value.bytes().try_fold((), |(), b| match b {
-        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'-' | b'_' | b':' => Ok(()),
+        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => Ok(()),
         _ => Err(InvalidMetricName::InvalidChars),
     })?;
 
-- 
2.43.0


From 3c0c2baf34203cbe23cf1df361e6e4094e9b4993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 02/23] fix: escape backslashes and line feeds in text HELP
 lines

A help string with a line feed injected arbitrary lines into the exposition,
and backslashes were read back wrongly.
---
 core/src/text.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/core/src/text.rs b/core/src/text.rs
index 8d4aa75..70549f3 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -6,7 +6,7 @@ use std::{
 };
 
 use bytes::{BufMut, Bytes, BytesMut};
-use memchr::memchr3_iter;
+use memchr::{memchr2_iter, memchr3_iter};
 
 use crate::{
     label::{LabelGroup, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor},
@@ -65,7 +65,7 @@ impl<W: Write> Encoding for TextEncoder<W> {
         self.writer.write_all(b"# HELP ")?;
         name.encode_utf8(&mut self.writer)?;
         self.writer.write_all(b" ")?;
-        self.writer.write_all(help.as_bytes())?;
+        write_help_str_value(help, &mut self.writer)?;
         self.writer.write_all(b"\n")?;
         Ok(())
     }
@@ -416,6 +416,21 @@ pub(crate) fn write_label_str_value(s: &str, b: &mut impl Write) -> io::Result<(
     b.write_all(&s.as_bytes()[i..])
 }
 
+/// Help text only escapes backslashes and line feeds. Double quotes are not escaped.
+fn write_help_str_value(s: &str, b: &mut impl Write) -> io::Result<()> {
+    let mut i = 0;
+    for j in memchr2_iter(b'\\', b'\n', s.as_bytes()) {
+        b.write_all(&s.as_bytes()[i..j])?;
+        match s.as_bytes()[j] {
+            b'\\' => b.write_all(b"\\\\")?,
+            b'\n' => b.write_all(b"\\n")?,
+            _ => unreachable!(),
+        }
+        i = j + 1;
+    }
+    b.write_all(&s.as_bytes()[i..])
+}
+
 struct BytesWriter {
     buf: BytesMut,
 }
-- 
2.43.0


From 4bc132ab35409e38a17e525e72fd3554e0f479e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:32 +0000
Subject: [PATCH 03/23] fix: export counters above i64::MAX as the unsigned
 values they are

Counters and histogram counts are u64 but were cast to i64 in the text
encoder, so values above i64::MAX were exported as negative numbers.
---
 core/src/metric/group.rs |  1 +
 core/src/text.rs         | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/metric/group.rs b/core/src/metric/group.rs
index 7d8a26c..9782327 100644
--- a/core/src/metric/group.rs
+++ b/core/src/metric/group.rs
@@ -13,6 +13,7 @@ use super::{
 #[derive(Clone, Copy, Debug)]
 pub enum MetricValue {
     Int(i64),
+    UInt(u64),
     Float(f64),
 }
 
diff --git a/core/src/text.rs b/core/src/text.rs
index 70549f3..d6d89fd 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -189,6 +189,9 @@ impl<W: Write> TextEncoder<W> {
         }
         self.writer.write_all(b" ")?;
         match value {
+            MetricValue::UInt(x) => self
+                .writer
+                .write_all(itoa::Buffer::new().format(x).as_bytes())?,
             MetricValue::Int(x) => self
                 .writer
                 .write_all(itoa::Buffer::new().format(x).as_bytes())?,
@@ -243,7 +246,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
             enc.write_metric_value(
                 name.by_ref().with_suffix(Bucket),
                 labels.by_ref().compose_with(HistogramLabelLe { le }),
-                MetricValue::Int(val as i64),
+                MetricValue::UInt(val),
             )?;
         }
         let count = val + inf;
@@ -252,7 +255,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
             labels
                 .by_ref()
                 .compose_with(HistogramLabelLe { le: f64::INFINITY }),
-            MetricValue::Int(count as i64),
+            MetricValue::UInt(count),
         )?;
         enc.write_metric_value(
             name.by_ref().with_suffix(Sum),
@@ -262,7 +265,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
         enc.write_metric_value(
             name.by_ref().with_suffix(Count),
             labels,
-            MetricValue::Int(count as i64),
+            MetricValue::UInt(count),
         )?;
         Ok(())
     }
@@ -285,7 +288,7 @@ impl<W: Write> MetricEncoding<TextEncoder<W>> for CounterState {
         enc.write_metric_value(
             &name,
             labels,
-            MetricValue::Int(self.count.load(core::sync::atomic::Ordering::Relaxed) as i64),
+            MetricValue::UInt(self.count.load(core::sync::atomic::Ordering::Relaxed)),
         )
     }
 }
-- 
2.43.0


From bf05ac857eb25c9420a63e92a95cca6f3df765cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 04/23] fix: report writer errors hit while writing labels in
 the text encoder

LabelGroup::visit_values discards the visitor's output, so an error from the
writer inside a label was dropped and the export went on, returning Ok with a
corrupted line.
---
 core/src/text.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/src/text.rs b/core/src/text.rs
index d6d89fd..6fd2928 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -155,10 +155,12 @@ impl<W: Write> TextEncoder<W> {
         struct GroupVisitor<'a, W> {
             first: bool,
             writer: &'a mut W,
+            // label groups do not return the output of `write_value`,
+            // so the first error is kept here, and nothing is written after it.
+            result: Result<(), std::io::Error>,
         }
-        impl<W: Write> LabelGroupVisitor for GroupVisitor<'_, W> {
-            type Output = Result<(), std::io::Error>;
-            fn write_value(
+        impl<W: Write> GroupVisitor<'_, W> {
+            fn try_write_value(
                 &mut self,
                 name: &LabelName,
                 x: &impl LabelValue,
@@ -175,6 +177,14 @@ impl<W: Write> TextEncoder<W> {
                 })
             }
         }
+        impl<W: Write> LabelGroupVisitor for GroupVisitor<'_, W> {
+            type Output = ();
+            fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
+                if self.result.is_ok() {
+                    self.result = self.try_write_value(name, x);
+                }
+            }
+        }
 
         self.state = State::Metrics;
         name.encode_utf8(&mut self.writer)?;
@@ -182,9 +192,12 @@ impl<W: Write> TextEncoder<W> {
         let mut visitor = GroupVisitor {
             first: true,
             writer: &mut self.writer,
+            result: Ok(()),
         };
         labels.visit_values(&mut visitor);
-        if !visitor.first {
+        let GroupVisitor { first, result, .. } = visitor;
+        result?;
+        if !first {
             self.writer.write_all(b"}")?;
         }
         self.writer.write_all(b" ")?;
-- 
2.43.0


From a115c3a222da8fd3481369ac6efd58cc428d85c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 05/23] fix: count NaN observations only in the +Inf histogram
 bucket

NaN > le is false for every bound, so NaN observations were counted as less
than or equal to the lowest bound.
---
 core/src/metric/histogram.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/src/metric/histogram.rs b/core/src/metric/histogram.rs
index 8937b77..57fb223 100644
--- a/core/src/metric/histogram.rs
+++ b/core/src/metric/histogram.rs
@@ -146,6 +146,15 @@ impl<const N: usize> Thresholds<N> {
         Thresholds { le: buckets }
     }
 
+    /// The index of the first bucket with `x <= le`, or `N` if there is none.
+    /// `NaN` is not less than or equal to any bound, so it belongs to no bucket.
+    fn bucket_of(&self, x: f64) -> usize {
+        if x.is_nan() {
+            return N;
+        }
+        self.le.partition_point(|le| x > *le)
+    }
+
     /// View the bucket upper bounds
     pub fn get(&self) -> &[f64; N] {
         &self.le
@@ -155,7 +164,7 @@ impl<const N: usize> Thresholds<N> {
 impl<const N: usize> HistogramLockGuard<'_, N> {
     /// Add a single observation to the [`Histogram`].
     pub fn observe(self, x: f64) {
-        let bucket = self.metadata().le.partition_point(|le| x > *le);
+        let bucket = self.metadata().bucket_of(x);
         self.inner.read().observe(bucket, x);
     }
 
@@ -175,7 +184,7 @@ impl<const N: usize> HistogramLockGuard<'_, N> {
 impl<const N: usize> HistogramMut<'_, N> {
     /// Add a single observation to the [`Histogram`].
     pub fn observe(mut self, x: f64) {
-        let bucket = self.metadata().le.partition_point(|le| x > *le);
+        let bucket = self.metadata().bucket_of(x);
         self.inner.get_mut().observe(bucket, x);
     }
 
-- 
2.43.0


From 84bd3d6b1ea65909453a72933dde486078256fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:03 +0000
Subject: [PATCH 06/23] fix: accept an empty bound list in
 Thresholds::with_buckets

0..N - 1 underflowed for N = 0; the other constructors support a histogram
with only the +Inf bucket.
---
 core/src/metric/histogram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/metric/histogram.rs b/core/src/metric/histogram.rs
index 57fb223..0c14c81 100644
--- a/core/src/metric/histogram.rs
+++ b/core/src/metric/histogram.rs
@@ -137,9 +137,9 @@ impl<const N: usize> Thresholds<N> {
     /// # Panics
     /// Will panic if the buckets are not strictly monotonically increasing
     pub fn with_buckets(buckets: [f64; N]) -> Self {
-        for i in 0..N - 1 {
+        for i in 1..N {
             assert!(
-                buckets[i] < buckets[i + 1],
+                buckets[i - 1] < buckets[i],
                 "consecutive histogram buckets must not decrease or be equal",
             );
         }
-- 
2.43.0


From ae8d2c4aee7f13d5ebab1fef7753588930830d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:03 +0000
Subject: [PATCH 07/23] fix: do not export the +Inf bucket twice when a bound
 is infinite

A histogram whose last bound is +Inf exported two series with le="+Inf",
which makes the whole exposition invalid.
---
 core/src/text.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/text.rs b/core/src/text.rs
index 6fd2928..cde43db 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -256,6 +256,10 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
         for i in 0..N {
             let le = metadata.get()[i];
             val += buckets[i];
+            if le == f64::INFINITY {
+                // the +Inf bucket is always written below
+                continue;
+            }
             enc.write_metric_value(
                 name.by_ref().with_suffix(Bucket),
                 labels.by_ref().compose_with(HistogramLabelLe { le }),
-- 
2.43.0


From 82d96cfe0f7e681c53773336c2d56f2caaa06e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 08/23] fix: report the start time of the requested process,
 not of the caller

ProcessCollector::new(pid) read the start time of the calling process.
---
 process/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process/src/lib.rs b/process/src/lib.rs
index c3707c8..f81fe58 100644
--- a/process/src/lib.rs
+++ b/process/src/lib.rs
@@ -58,7 +58,7 @@ impl ProcessCollector {
         let mut start_time = None;
         #[cfg(target_os = "linux")]
         if let Ok(boot_time) = procfs::boot_time_secs() {
-            if let Ok(stat) = procfs::process::Process::myself().and_then(|p| p.stat()) {
+            if let Ok(stat) = procfs::process::Process::new(pid).and_then(|p| p.stat()) {
                 start_time = Some(stat.starttime as i64 / clk_tck() + boot_time as i64);
             }
         }
-- 
2.43.0


From 2e76f86f8f42d5b84e6a3feed38391fbf0e9804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 09/23] fix: drop the pending protobuf message when the writer
 fails

The failed message stayed in the buffer while the encoder went back to its
initial state, so the next family was appended to it and both were exported
as one message under the second name.
---
 prometheus-proto/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index 6aa7b06..cd23b92 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -48,9 +48,11 @@ impl<W: Write> ProtoEncoder<W> {
             let varint_len = encoded_len_varint(len as u64);
             let offset = 10 - varint_len;
             encode_varint(len as u64, &mut &mut self.buf[offset..]);
-            self.writer.write_all(&self.buf[offset..])?;
+            let result = self.writer.write_all(&self.buf[offset..]);
 
+            // even if the writer failed, this message must not leak into the next one.
             self.buf.resize(10, 0);
+            result?;
         } else if self.buf.is_empty() {
             self.buf.resize(10, 0);
         }
-- 
2.43.0


From 7b44fd3b59bd5e2e09d00db29438e696ea8f2be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:30 +0000
Subject: [PATCH 10/23] fix: do not export protobuf families under the header
 of an empty one

A family with help text but without metrics left its header pending, and the
next family without help text was then exported under its name and help.
---
 prometheus-proto/src/lib.rs | 60 ++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index cd23b92..c40e0e9 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -59,6 +59,32 @@ impl<W: Write> ProtoEncoder<W> {
         debug_assert!(self.buf.len() >= 10);
         Ok(())
     }
+
+    fn write_name(&mut self, name: impl MetricNameEncoder) -> Result<(), std::io::Error> {
+        // optional string     name   = 1;
+        encode_key(1, LengthDelimited, &mut self.buf);
+        encode_varint(name.encode_len() as u64, &mut self.buf);
+        name.encode_utf8(&mut self.buf)
+    }
+
+    /// Make sure that the pending message starts with the header for this family.
+    fn start_family(&mut self, name: impl MetricNameEncoder) -> Result<(), std::io::Error> {
+        self.flush_buf()?;
+
+        let pending = self.buf.len();
+        self.write_name(name)?;
+
+        let (header, name) = self.buf[10..].split_at(pending - 10);
+        if self.state == State::Help && header.starts_with(name) {
+            // the name was already written together with the help text.
+            self.buf.truncate(pending);
+        } else {
+            // any other pending header belongs to a family without metrics.
+            self.buf.drain(10..pending);
+            self.state = State::Init;
+        }
+        Ok(())
+    }
 }
 
 #[derive(Clone, Copy, Debug, PartialEq)]
@@ -94,10 +120,9 @@ impl<W: Write> Encoding for ProtoEncoder<W> {
     ) -> Result<(), std::io::Error> {
         self.flush_buf()?;
 
-        // optional string     name   = 1;
-        encode_key(1, LengthDelimited, &mut self.buf);
-        encode_varint(name.encode_len() as u64, &mut self.buf);
-        name.encode_utf8(&mut self.buf)?;
+        // any header that is still pending belongs to a family without metrics.
+        self.buf.truncate(10);
+        self.write_name(name)?;
 
         // optional string     help   = 2;
         encoding::string::encode(2, help, &mut self.buf);
@@ -223,14 +248,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for CounterState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
+        enc.start_family(name)?;
 
         // optional MetricType type   = 3;
         // COUNTER = 0;
@@ -278,14 +296,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for GaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
+        enc.start_family(name)?;
 
         // optional MetricType type   = 3;
         // GAUGE = 1;
@@ -333,14 +344,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for FloatGaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
+        enc.start_family(name)?;
 
         // optional MetricType type   = 3;
         // GAUGE = 1;
-- 
2.43.0


From de7314e753c459d290fa77f76b63425250a0e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:56 +0000
Subject: [PATCH 11/23] fix: never map two label groups to the same index when
 it overflows

The index arithmetic of derived label sets was unchecked, so for sets with
more combinations than fit into a usize distinct groups shared one metric in
release builds (and recording panicked with overflow checks).
---
 derive/src/label_group/to_tokens.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 827ef0d..9c53acd 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -278,12 +278,17 @@ impl ToTokens for SetEncode<'_> {
 
         tokens.extend(quote! {
             fn encode(&self, value: Self::Group<'_>) -> Option<Self::Unique> {
-                let mut mul = 1;
-                let mut index = 0;
+                // `mul` is `None` once it no longer fits into a usize.
+                let mut mul = Some(1usize);
+                let mut index = 0usize;
 
                 #(
-                    index += #fixed_encodes * mul;
-                    mul *= #cardinalities;
+                    let value_index = #fixed_encodes;
+                    if value_index != 0 {
+                        // without this, different label groups would share an index.
+                        index = index.checked_add(value_index.checked_mul(mul?)?)?;
+                    }
+                    mul = mul.and_then(|mul| mul.checked_mul(#cardinalities));
                 )*
 
                 Some((
-- 
2.43.0


From e8dd7826956433967b5cc4f067461da0d7578c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:35 +0000
Subject: [PATCH 12/23] fix: derive names from raw identifiers without their r#
 prefix

A variant named r#type was exported as "r_type", and raw identifiers as
field names failed the name validation of the generated code.
---
 derive/src/label_group/to_tokens.rs  | 3 ++-
 derive/src/metric_group/to_tokens.rs | 4 ++--
 derive/src/value/to_tokens.rs        | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 9c53acd..15f5fce 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -1,6 +1,7 @@
 use heck::ToShoutySnakeCase;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned, ToTokens};
+use syn::ext::IdentExt;
 
 use super::attr::{LabelGroupFieldAttrsKind, LabelGroupFieldAttrsSortKey};
 use super::{LabelGroup, LabelGroupField};
@@ -19,7 +20,7 @@ impl ToTokens for LabelGroup {
 
         let visits = fields.iter().map(|x| {
             let LabelGroupField { name, attrs, .. } = x;
-            let name_string = attrs.rename.as_ref().map_or_else(|| name.to_string(), |r| r.value());
+            let name_string = attrs.rename.as_ref().map_or_else(|| name.unraw().to_string(), |r| r.value());
             let ident = format_ident!("{}", name_string.to_shouty_snake_case(), span = x.span);
             quote_spanned! { x.span =>
                 const #ident: &#krate::label::LabelName = #krate::label::LabelName::from_str(#name_string);
diff --git a/derive/src/metric_group/to_tokens.rs b/derive/src/metric_group/to_tokens.rs
index e2a4f0c..5a732d0 100644
--- a/derive/src/metric_group/to_tokens.rs
+++ b/derive/src/metric_group/to_tokens.rs
@@ -1,7 +1,7 @@
 use heck::ToShoutySnakeCase;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned, ToTokens};
-use syn::{parse_quote, parse_quote_spanned};
+use syn::{ext::IdentExt, parse_quote, parse_quote_spanned};
 
 use super::{
     attr::{MetricGroupFieldAttrsInit, MetricGroupFieldAttrsKind},
@@ -52,7 +52,7 @@ impl ToTokens for MetricGroup {
             let MetricGroupField { name,ty, attrs, .. } = x;
             match &attrs.kind {
                 MetricGroupFieldAttrsKind::Metric { rename } => {
-                    let name_string = rename.as_ref().map_or_else(|| name.to_string(), |l| l.value());
+                    let name_string = rename.as_ref().map_or_else(|| name.unraw().to_string(), |l| l.value());
                     let ident = format_ident!("{}", name_string.to_shouty_snake_case(), span = x.span);
 
                     let help = attrs.docs.as_deref().map(|doc|{
diff --git a/derive/src/value/to_tokens.rs b/derive/src/value/to_tokens.rs
index 53a29fa..3e2e894 100644
--- a/derive/src/value/to_tokens.rs
+++ b/derive/src/value/to_tokens.rs
@@ -1,5 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
+use syn::ext::IdentExt;
 
 use super::FixedCardinalityLabel;
 
@@ -25,7 +26,7 @@ impl ToTokens for FixedCardinalityLabel {
                 quote_spanned!(int.span() => v.write_int(#int))
             } else {
                 let name = var.attrs.rename.as_ref().map_or_else(
-                    || rename_all.apply(&var.ident.to_string()),
+                    || rename_all.apply(&var.ident.unraw().to_string()),
                     syn::LitStr::value,
                 );
                 quote_spanned!(var.span => v.write_str(#name))
-- 
2.43.0


From c1042b9fb0d3ae4c952892aaf23941da9174ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:21 +0000
Subject: [PATCH 13/23] fix: allow label fields to have any name in derived
 label groups

Fields called index, index1, card or dynamic_indexN collided with the locals
of the generated decode function, which then did not compile.
---
 derive/src/label_group/to_tokens.rs | 35 ++++++++++++++++-------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 15f5fce..ba60682 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -1,5 +1,5 @@
 use heck::ToShoutySnakeCase;
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use syn::ext::IdentExt;
 
@@ -317,6 +317,17 @@ impl ToTokens for SetDecode<'_> {
             cardinalities,
         } = *self;
 
+        // these must not collide with the fields, which are bound in the same scope.
+        let hygienic = Span::mixed_site();
+        let card = Ident::new("card", hygienic);
+        let index = Ident::new("index", hygienic);
+        let index1 = Ident::new("index1", hygienic);
+        let dynamic_indices = dynamics
+            .iter()
+            .enumerate()
+            .map(|(i, _)| format_ident!("dynamic_index{i}", span = hygienic))
+            .collect::<Vec<_>>();
+
         let fixed_decodes: Vec<TokenStream> = fixed
             .iter()
             .map(|x| {
@@ -325,19 +336,13 @@ impl ToTokens for SetDecode<'_> {
                 } = x;
 
                 match &attrs.kind {
-                    LabelGroupFieldAttrsKind::Fixed => quote_spanned!(x.span => let #name = <#krate::label::StaticLabelSet<#ty> as #krate::label::LabelSet>::decode(&self.#name, index1);),
-                    LabelGroupFieldAttrsKind::FixedWith(ty) => quote_spanned!(x.span => let #name = <#ty as #krate::label::LabelSet>::decode(&self.#name, index1);),
+                    LabelGroupFieldAttrsKind::Fixed => quote_spanned!(x.span => let #name = <#krate::label::StaticLabelSet<#ty> as #krate::label::LabelSet>::decode(&self.#name, #index1);),
+                    LabelGroupFieldAttrsKind::FixedWith(ty) => quote_spanned!(x.span => let #name = <#ty as #krate::label::LabelSet>::decode(&self.#name, #index1);),
                     LabelGroupFieldAttrsKind::DynamicWith(_) =>unreachable!(),
                 }
             })
             .collect();
 
-        let dynamic_indices = dynamics
-            .iter()
-            .enumerate()
-            .map(|(i, _)| format_ident!("dynamic_index{i}"))
-            .collect::<Vec<_>>();
-
         let dynamic_decodes: Vec<TokenStream> = dynamics
             .iter()
             .enumerate()
@@ -346,9 +351,9 @@ impl ToTokens for SetDecode<'_> {
                     name, attrs, ..
                 } = x;
 
-                let index = &dynamic_indices[i];
+                let dynamic_index = &dynamic_indices[i];
                 match &attrs.kind {
-                    LabelGroupFieldAttrsKind::DynamicWith(ty) => quote_spanned!(x.span => let #name = <#ty as #krate::label::LabelSet>::decode(&self.#name, #index);),
+                    LabelGroupFieldAttrsKind::DynamicWith(ty) => quote_spanned!(x.span => let #name = <#ty as #krate::label::LabelSet>::decode(&self.#name, #dynamic_index);),
                     _ => unreachable!(),
                 }
             })
@@ -358,15 +363,15 @@ impl ToTokens for SetDecode<'_> {
 
         tokens.extend(quote! {
             fn decode(&self, value: &Self::Unique) -> Self::Group<'_> {
-                let (index #(, #dynamic_indices)*) = *value;
+                let (#index #(, #dynamic_indices)*) = *value;
 
                 #(
-                    let card = #cardinalities;
-                    let (index, index1) = (index / card, index % card);
+                    let #card = #cardinalities;
+                    let (#index, #index1) = (#index / #card, #index % #card);
                     #fixed_decodes;
                 )*
 
-                debug_assert_eq!(index, 0);
+                debug_assert_eq!(#index, 0);
 
                 #(
                     #dynamic_decodes;
-- 
2.43.0


From 7b18ac40996f04e027abaf4c299ef8b78d1a6089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:34 +0000
Subject: [PATCH 14/23] fix: allow any valid metric or label name in the
 derives

The generated constants were named after the shouty snake case of the name,
so the derives panicked for names such as "_9" or ":", clashed for names
such as "a_b" and "aB", and shadowed constants used in the field types.
---
 derive/src/label_group/to_tokens.rs  | 10 ++++------
 derive/src/metric_group/to_tokens.rs | 12 +++++-------
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index ba60682..03433d4 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -1,4 +1,3 @@
-use heck::ToShoutySnakeCase;
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use syn::ext::IdentExt;
@@ -21,11 +20,10 @@ impl ToTokens for LabelGroup {
         let visits = fields.iter().map(|x| {
             let LabelGroupField { name, attrs, .. } = x;
             let name_string = attrs.rename.as_ref().map_or_else(|| name.unraw().to_string(), |r| r.value());
-            let ident = format_ident!("{}", name_string.to_shouty_snake_case(), span = x.span);
-            quote_spanned! { x.span =>
-                const #ident: &#krate::label::LabelName = #krate::label::LabelName::from_str(#name_string);
-                #krate::label::LabelGroupVisitor::write_value(v, #ident, &self.#name);
-            }
+            quote_spanned! { x.span => {
+                const __LABEL_NAME: &#krate::label::LabelName = #krate::label::LabelName::from_str(#name_string);
+                #krate::label::LabelGroupVisitor::write_value(v, __LABEL_NAME, &self.#name);
+            }}
         });
 
         let label_group_set = Set(self);
diff --git a/derive/src/metric_group/to_tokens.rs b/derive/src/metric_group/to_tokens.rs
index 5a732d0..513fe9b 100644
--- a/derive/src/metric_group/to_tokens.rs
+++ b/derive/src/metric_group/to_tokens.rs
@@ -1,4 +1,3 @@
-use heck::ToShoutySnakeCase;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use syn::{ext::IdentExt, parse_quote, parse_quote_spanned};
@@ -53,20 +52,19 @@ impl ToTokens for MetricGroup {
             match &attrs.kind {
                 MetricGroupFieldAttrsKind::Metric { rename } => {
                     let name_string = rename.as_ref().map_or_else(|| name.unraw().to_string(), |l| l.value());
-                    let ident = format_ident!("{}", name_string.to_shouty_snake_case(), span = x.span);
 
                     let help = attrs.docs.as_deref().map(|doc|{
                         let doc = doc.trim();
                         quote_spanned!(x.span => {
-                            <#enc as #krate::metric::group::Encoding>::write_help(enc, #ident, #doc)?;
+                            <#enc as #krate::metric::group::Encoding>::write_help(enc, __METRIC_NAME, #doc)?;
                         })
                     });
 
-                    quote_spanned! { x.span =>
-                        const #ident: &#krate::metric::name::MetricName = #krate::metric::name::MetricName::from_str(#name_string);
+                    quote_spanned! { x.span => {
+                        const __METRIC_NAME: &#krate::metric::name::MetricName = #krate::metric::name::MetricName::from_str(#name_string);
                         #help
-                        <#ty as #krate::metric::MetricFamilyEncoding<#enc>>::collect_family_into(&self.#name, #ident, enc)?;
-                    }
+                        <#ty as #krate::metric::MetricFamilyEncoding<#enc>>::collect_family_into(&self.#name, __METRIC_NAME, enc)?;
+                    }}
                 },
                 MetricGroupFieldAttrsKind::Group { namespace: None } => {
                     quote_spanned! { x.span =>
-- 
2.43.0


From 4c0affba69555ce31bebc6d691d33dbdf1505e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 15/23] fix: do not count '.' and '..' as open file descriptors

---
 process/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/process/src/lib.rs b/process/src/lib.rs
index f81fe58..201c534 100644
--- a/process/src/lib.rs
+++ b/process/src/lib.rs
@@ -86,7 +86,7 @@ where
             };
 
             // file descriptors
-            if let Ok(fd_count) = p.fd_count() {
+            if let Ok(fd_count) = fd_count(self.pid) {
                 let fd = MetricName::from_str("open_fds");
                 enc.write_help(fd, "Number of open file descriptors.")?;
                 write_gauge(enc, fd, NoLabels, fd_count as i64)?;
@@ -139,6 +139,17 @@ where
     }
 }
 
+#[cfg(target_os = "linux")]
+fn fd_count(pid: pid_t) -> std::io::Result<u64> {
+    let fds = format!("/proc/{pid}/fd");
+    match std::fs::metadata(&fds)?.len() {
+        // there are none, or this is before Linux v6.2. `Process::fd_count` counts
+        // the entries "." and ".." in this case.
+        0 => Ok(std::fs::read_dir(fds)?.count() as u64),
+        n => Ok(n),
+    }
+}
+
 fn clk_tck() -> i64 {
     static CLK_TCK: OnceLock<i64> = OnceLock::new();
     *CLK_TCK.get_or_init(|| unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as i64)
-- 
2.43.0


From c02dc4546f50f351cedf94dfcb1a0952b004f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 16/23] fix: export the type of process metrics

---
 process/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/process/src/lib.rs b/process/src/lib.rs
index 201c534..17eb97d 100644
--- a/process/src/lib.rs
+++ b/process/src/lib.rs
@@ -89,12 +89,14 @@ where
             if let Ok(fd_count) = fd_count(self.pid) {
                 let fd = MetricName::from_str("open_fds");
                 enc.write_help(fd, "Number of open file descriptors.")?;
+                GaugeState::write_type(fd, enc)?;
                 write_gauge(enc, fd, NoLabels, fd_count as i64)?;
             }
             if let Ok(limits) = p.limits() {
                 if let procfs::process::LimitValue::Value(max) = limits.max_open_files.soft_limit {
                     let fd = MetricName::from_str("max_fds");
                     enc.write_help(fd, "Maximum number of open file descriptors.")?;
+                    GaugeState::write_type(fd, enc)?;
                     write_gauge(enc, fd, NoLabels, max as i64)?;
                 }
             }
@@ -103,15 +105,18 @@ where
                 // memory
                 let vmm = MetricName::from_str("virtual_memory_bytes");
                 enc.write_help(vmm, "Virtual memory size in bytes.")?;
+                GaugeState::write_type(vmm, enc)?;
                 write_gauge(enc, vmm, NoLabels, stat.vsize as i64)?;
 
                 let rss = MetricName::from_str("resident_memory_bytes");
                 enc.write_help(rss, "Resident memory size in bytes.")?;
+                GaugeState::write_type(rss, enc)?;
                 write_gauge(enc, rss, NoLabels, (stat.rss as i64) * pagesize())?;
 
                 // cpu
                 let cpu = MetricName::from_str("cpu_seconds_total");
                 enc.write_help(cpu, "Total user and system CPU time spent in seconds.")?;
+                GaugeState::write_type(cpu, enc)?;
                 write_gauge(
                     enc,
                     cpu,
@@ -122,6 +127,7 @@ where
                 // threads
                 let threads = MetricName::from_str("threads");
                 enc.write_help(threads, "Number of OS threads in the process.")?;
+                GaugeState::write_type(threads, enc)?;
                 write_gauge(enc, threads, NoLabels, stat.num_threads)?;
             }
 
@@ -131,6 +137,7 @@ where
                     name,
                     "Start time of the process since unix epoch in seconds.",
                 )?;
+                GaugeState::write_type(name, enc)?;
                 write_gauge(enc, name, NoLabels, start_time)?;
             }
         }
-- 
2.43.0


From dada9f0fa77ceebddaee183bb451179a3ef2731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 17/23] fix: export the type of tokio metrics

---
 tokio/src/lib.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/tokio/src/lib.rs b/tokio/src/lib.rs
index b4ddd29..ccb69cf 100644
--- a/tokio/src/lib.rs
+++ b/tokio/src/lib.rs
@@ -149,10 +149,11 @@ where
     FloatGaugeState: MetricEncoding<Enc>,
 {
     macro_rules! metric {
-        ($name:literal, $help:literal, |$rt:ident| $expr:expr) => {{
+        ($name:literal, $help:literal, $($typ:ty,)? |$rt:ident| $expr:expr) => {{
             #![allow(unused_macros)]
             const NAME: &MetricName = MetricName::from_str($name);
             enc.write_help(NAME, $help)?;
+            $(<$typ as MetricEncoding<Enc>>::write_type(NAME, enc)?;)?
             for rt in runtimes {
                 let rt_name = &rt.name;
                 macro_rules! write_counter {
@@ -200,25 +201,32 @@ where
         }};
     }
 
-    metric!("threads", "number of threads used by the runtime", |rt| {
-        write_gauge!(ThreadKind::Worker, rt.num_workers() as i64);
-        let idle = rt.num_idle_blocking_threads();
-        write_gauge!(
-            ThreadKind::Blocking,
-            rt.num_blocking_threads().saturating_sub(idle) as i64
-        );
-        write_gauge!(ThreadKind::Idle, idle as i64);
-    });
+    metric!(
+        "threads",
+        "number of threads used by the runtime",
+        GaugeState,
+        |rt| {
+            write_gauge!(ThreadKind::Worker, rt.num_workers() as i64);
+            let idle = rt.num_idle_blocking_threads();
+            write_gauge!(
+                ThreadKind::Blocking,
+                rt.num_blocking_threads().saturating_sub(idle) as i64
+            );
+            write_gauge!(ThreadKind::Idle, idle as i64);
+        }
+    );
 
     metric!(
         "active_tasks",
         "number of active tasks spawned in the runtime",
+        GaugeState,
         |rt| write_gauge!(NoLabels, rt.active_tasks_count() as i64)
     );
 
     metric!(
         "queued_tasks",
         "number of tasks currently in a queue",
+        GaugeState,
         |rt| {
             write_gauge!(QueueKind::Blocking, rt.blocking_queue_depth() as i64);
             write_gauge!(QueueKind::Injection, rt.injection_queue_depth() as i64);
@@ -232,6 +240,7 @@ where
     metric!(
         "scheduled_tasks_total",
         "total number of tasks scheduled into the runtime",
+        CounterState,
         |rt| {
             for worker in 0..rt.num_workers() {
                 write_counter!(
@@ -253,12 +262,14 @@ where
     metric!(
         "budget_forced_yield_count",
         "number of tasks forced to yield after exhausting their budget",
+        CounterState,
         |rt| write_counter!(NoLabels, rt.budget_forced_yield_count())
     );
 
     metric!(
         "worker_mean_poll_time_seconds",
         "estimated weighted moving average of the poll time for this worker",
+        FloatGaugeState,
         |rt| for worker in 0..rt.num_workers() {
             let poll_time = rt.worker_mean_poll_time(worker);
             write_float_gauge!(Worker(worker), poll_time.as_secs_f64());
@@ -268,6 +279,7 @@ where
     metric!(
         "worker_noop_count",
         "number of times the given worker thread woke up with no work",
+        CounterState,
         |rt| for worker in 0..rt.num_workers() {
             let noops = rt.worker_noop_count(worker);
             write_counter!(Worker(worker), noops);
@@ -277,6 +289,7 @@ where
     metric!(
         "worker_park_count",
         "number of times the given worker thread has parked",
+        CounterState,
         |rt| for worker in 0..rt.num_workers() {
             let count = rt.worker_park_count(worker);
             write_counter!(Worker(worker), count);
@@ -286,6 +299,7 @@ where
     metric!(
         "worker_steal_count",
         "number of tasks the given worker thread has stolen",
+        CounterState,
         |rt| for worker in 0..rt.num_workers() {
             let count = rt.worker_steal_count(worker);
             write_counter!(Worker(worker), count);
@@ -295,6 +309,7 @@ where
     metric!(
         "worker_steal_operations_count",
         "number of times the given worker thread has attempted to steal tasks",
+        CounterState,
         |rt| for worker in 0..rt.num_workers() {
             let count = rt.worker_steal_operations(worker);
             write_counter!(Worker(worker), count);
@@ -327,16 +342,19 @@ where
         metric!(
             "registered_fds_total",
             "total number of file descriptors that have been registered in the runtime",
+            CounterState,
             |rt| write_counter!(NoLabels, rt.io_driver_fd_registered_count())
         );
         metric!(
             "deregistered_fds_total",
             "total number of file descriptors that have been deregistered from the runtime",
+            CounterState,
             |rt| write_counter!(NoLabels, rt.io_driver_fd_deregistered_count())
         );
         metric!(
             "io_ready_events_total",
             "total number of ready events the runtime's IO driver has processed",
+            CounterState,
             |rt| write_counter!(NoLabels, rt.io_driver_ready_count())
         );
     }
-- 
2.43.0


From 1ccf1b4c74e6d30a27dbd53fd82dc19ffe099a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 18/23] fix: do not ignore the rename of a label variant that
 has a discriminant

C13: a variant such as #[label(rename = "ok")] Ok = 200 was exported as
"200", its rename attribute was accepted and then ignored.
---
 derive/src/value/to_tokens.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/derive/src/value/to_tokens.rs b/derive/src/value/to_tokens.rs
index 3e2e894..d8477f3 100644
--- a/derive/src/value/to_tokens.rs
+++ b/derive/src/value/to_tokens.rs
@@ -22,14 +22,15 @@ impl ToTokens for FixedCardinalityLabel {
 
         let visits = variants.iter().map(|var| {
             let var_ident = &var.ident;
-            let write = if let Some(int) = &var.value {
-                quote_spanned!(int.span() => v.write_int(#int))
-            } else {
-                let name = var.attrs.rename.as_ref().map_or_else(
-                    || rename_all.apply(&var.ident.unraw().to_string()),
-                    syn::LitStr::value,
-                );
-                quote_spanned!(var.span => v.write_str(#name))
+            let write = match (&var.attrs.rename, &var.value) {
+                (None, Some(int)) => quote_spanned!(int.span() => v.write_int(#int)),
+                (rename, _) => {
+                    let name = rename.as_ref().map_or_else(
+                        || rename_all.apply(&var.ident.unraw().to_string()),
+                        syn::LitStr::value,
+                    );
+                    quote_spanned!(var.span => v.write_str(#name))
+                }
             };
             quote_spanned!(var.span => #ident :: #var_ident => #write,)
         });
-- 
2.43.0


From ac2ba9ef008740cc0bd600899b974c67531abf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 19/23] fix: accept label discriminants with a type suffix

C13: #[repr(u8)] enum with a variant A = 1u8 did not compile, as the suffixed
literal was passed on to write_int.
---
 derive/src/value/to_tokens.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/value/to_tokens.rs b/derive/src/value/to_tokens.rs
index d8477f3..5537141 100644
--- a/derive/src/value/to_tokens.rs
+++ b/derive/src/value/to_tokens.rs
@@ -23,7 +23,11 @@ impl ToTokens for FixedCardinalityLabel {
         let visits = variants.iter().map(|var| {
             let var_ident = &var.ident;
             let write = match (&var.attrs.rename, &var.value) {
-                (None, Some(int)) => quote_spanned!(int.span() => v.write_int(#int)),
+                (None, Some(int)) => {
+                    // the literal may have the suffix of the enum's representation
+                    let int = syn::LitInt::new(int.base10_digits(), int.span());
+                    quote_spanned!(int.span() => v.write_int(#int))
+                }
                 (rename, _) => {
                     let name = rename.as_ref().map_or_else(
                         || rename_all.apply(&var.ident.unraw().to_string()),
-- 
2.43.0


From 34315273b340d3d4d05d848f1d38133f9e814d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 20/23] fix: derive labels for enums without variants

C13: a match on a reference to an empty enum is never exhaustive, so the
derived code did not compile.
---
 derive/src/value/to_tokens.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/value/to_tokens.rs b/derive/src/value/to_tokens.rs
index 5537141..8f5121a 100644
--- a/derive/src/value/to_tokens.rs
+++ b/derive/src/value/to_tokens.rs
@@ -58,7 +58,7 @@ impl ToTokens for FixedCardinalityLabel {
                 }
 
                 fn encode(&self) -> usize {
-                    match self {
+                    match *self {
                         #(#ident :: #var_idents1 => #count1,)*
                     }
                 }
@@ -74,7 +74,7 @@ impl ToTokens for FixedCardinalityLabel {
             #[automatically_derived]
             impl #krate::label::LabelValue for #ident {
                 fn visit<V: #krate::label::LabelVisitor>(&self, v: V) -> V::Output {
-                    match self {
+                    match *self {
                         #(#visits)*
                     }
                 }
-- 
2.43.0


From 4acb2613f347eeb49e9ee5b34ed05ec170ec2d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 21/23] fix: allow label groups with any lifetime parameters

C14: the group type of the derived set only named the lifetime 'a, so groups
with a lifetime of another name, or more than one, did not compile.
---
 derive/src/label_group/to_tokens.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 03433d4..a3e6f81 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
-use syn::ext::IdentExt;
+use syn::{ext::IdentExt, Lifetime};
 
 use super::attr::{LabelGroupFieldAttrsKind, LabelGroupFieldAttrsSortKey};
 use super::{LabelGroup, LabelGroupField};
@@ -57,7 +57,12 @@ impl ToTokens for Set<'_> {
         let mut sorted_fields = fields.clone();
         sorted_fields.sort_by_key(|x| x.attrs.get_sort_key());
 
-        let (_, ty_generics, _) = generics.split_for_impl();
+        // the group is borrowed from the set, whatever its own lifetimes are called
+        let mut group_generics = generics.clone();
+        for lifetime in group_generics.lifetimes_mut() {
+            lifetime.lifetime = Lifetime::new("'a", Span::call_site());
+        }
+        let (_, ty_generics, _) = group_generics.split_for_impl();
 
         let set_fields = sorted_fields.iter().map(|x| {
             let LabelGroupField {
-- 
2.43.0


From b25098ab394e5859e3334ee24d5204d4c6769240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:30 +0000
Subject: [PATCH 22/23] fix: do not poison the named runtimes when adding one
 panics

---
 tokio/src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/tokio/src/lib.rs b/tokio/src/lib.rs
index ccb69cf..e3fd5f8 100644
--- a/tokio/src/lib.rs
+++ b/tokio/src/lib.rs
@@ -56,10 +56,9 @@ impl NamedRuntimesCollector {
 
     /// Inserts a `RuntimeCollector` with the given runtime.
     pub fn add(&self, rt: RuntimeMetrics, name: impl Into<Cow<'static, str>>) {
-        self.runtimes
-            .write()
-            .unwrap()
-            .push(RuntimeCollector::new(rt).with_name(name))
+        // might panic, must not poison the lock
+        let rt = RuntimeCollector::new(rt).with_name(name);
+        self.runtimes.write().unwrap().push(rt)
     }
 
     /// Inserts a `RuntimeCollector` for the current runtime.
@@ -71,10 +70,9 @@ impl NamedRuntimesCollector {
     /// `EnterGuard`. Calling this from within a thread created by `std::thread::spawn` (for example)
     /// will cause a panic unless that thread has an active `EnterGuard`.
     pub fn add_current(&self, name: impl Into<Cow<'static, str>>) {
-        self.runtimes
-            .write()
-            .unwrap()
-            .push(RuntimeCollector::current().with_name(name))
+        // might panic, must not poison the lock
+        let rt = RuntimeCollector::current().with_name(name);
+        self.runtimes.write().unwrap().push(rt)
     }
 }
 
-- 
2.43.0


From 2807fd66db5f3d8d61ee4eeec8f8f5c221bf38e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:30 +0000
Subject: [PATCH 23/23] fix: accept a trailing comma in the attributes of label
 enums

---
 derive/src/value/attr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/derive/src/value/attr.rs b/derive/src/value/attr.rs
index 6a891ec..be3ff7e 100644
--- a/derive/src/value/attr.rs
+++ b/derive/src/value/attr.rs
@@ -33,6 +33,10 @@ impl ContainerAttrs {
         while !input.is_empty() {
             if !first {
                 input.parse::<Token![,]>()?;
+                // a trailing comma
+                if input.is_empty() {
+                    break;
+                }
             }
             first = false;
 
-- 
2.43.0

