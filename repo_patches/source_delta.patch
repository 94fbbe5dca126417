From 9dcf174b4e52e390a90ed99e4ad243c63fa21fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:30 +0000
Subject: [PATCH 01/38] fix: flush the writer before a save reports success

---
 src/io/write.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/write.rs b/src/io/write.rs
index d1291d4..0b20185 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -73,6 +73,8 @@ impl OdsWriteOptions {
 
         write_ods_impl(self, w, book)?;
 
+        write.flush()?;
+
         Ok(())
     }
 }
@@ -136,6 +138,8 @@ pub fn write_fods_to<T: Write + Seek>(book: &mut WorkBook, mut write: T) -> Resu
 
     write_fods_impl(write, book)?;
 
+    write.flush()?;
+
     Ok(())
 }
 
@@ -146,6 +150,8 @@ pub fn write_fods<P: AsRef<Path>>(book: &mut WorkBook, fods_path: P) -> Result<(
 
     write_fods_impl(write, book)?;
 
+    write.flush()?;
+
     Ok(())
 }
 
-- 
2.43.0


From 077b5feca6f6868442f270e8cf944a52830cdacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:03 +0000
Subject: [PATCH 02/38] fix: a document that ends early is an error, not an
 endless loop or a partial workbook

---
 src/io/read.rs | 61 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 6 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 3007f60..e431038 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -261,6 +261,7 @@ fn read_fods_impl(read: &mut dyn BufRead, options: &OdsOptions) -> Result<WorkBo
     let mut ctx = OdsContext::new(options);
     let mut xml = quick_xml::Reader::from_reader(read);
 
+    let mut complete = false;
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -276,7 +277,9 @@ fn read_fods_impl(read: &mut dyn BufRead, options: &OdsOptions) -> Result<WorkBo
                     ctx.book.set_version(version);
                 }
             }
-            Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:document" => {}
+            Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:document" => {
+                complete = true;
+            }
 
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"office:meta" => {
                 read_office_meta(&mut ctx, &mut xml)?;
@@ -305,6 +308,9 @@ fn read_fods_impl(read: &mut dyn BufRead, options: &OdsOptions) -> Result<WorkBo
 
             Event::Decl(_) => {}
             Event::Eof => {
+                if !complete {
+                    return Err(unexpected_eof("fods"));
+                }
                 break;
             }
             _ => {
@@ -329,6 +335,7 @@ fn read_fods_impl_content_only(
     let mut ctx = OdsContext::new(options);
     let mut xml: quick_xml::Reader<&mut dyn BufRead> = quick_xml::Reader::from_reader(read);
 
+    let mut complete = false;
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -340,7 +347,13 @@ fn read_fods_impl_content_only(
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"office:body" => {
                 read_office_body(&mut ctx, &mut xml)?;
             }
+            Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:document" => {
+                complete = true;
+            }
             Event::Eof => {
+                if !complete {
+                    return Err(unexpected_eof("fods"));
+                }
                 break;
             }
             _ => {
@@ -449,6 +462,7 @@ fn read_ods_extras<R: Read + Seek>(
 }
 
 fn read_ods_manifest(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(), OdsError> {
+    let mut complete = false;
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -456,7 +470,9 @@ fn read_ods_manifest(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result
             Event::Decl(_) => {}
 
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"manifest:manifest" => {}
-            Event::End(xml_tag) if xml_tag.name().as_ref() == b"manifest:manifest" => {}
+            Event::End(xml_tag) if xml_tag.name().as_ref() == b"manifest:manifest" => {
+                complete = true;
+            }
 
             Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"manifest:file-entry" => {
                 let mut manifest = Manifest::default();
@@ -483,6 +499,9 @@ fn read_ods_manifest(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result
                 }
             }
             Event::Eof => {
+                if !complete {
+                    return Err(unexpected_eof("META-INF/manifest.xml"));
+                }
                 break;
             }
             _ => {
@@ -734,6 +753,7 @@ fn calc_derived(book: &mut WorkBook) -> Result<(), OdsError> {
 
 // Reads the content.xml
 fn read_ods_content(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(), OdsError> {
+    let mut complete = false;
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -750,7 +770,9 @@ fn read_ods_content(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
                 }
                 ctx.book.xmlns.insert("content.xml".to_string(), xmlns);
             }
-            Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:document-content" => {}
+            Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:document-content" => {
+                complete = true;
+            }
 
             Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"office:scripts" => {}
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"office:scripts" => {
@@ -773,6 +795,9 @@ fn read_ods_content(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
             }
 
             Event::Eof => {
+                if !complete {
+                    return Err(unexpected_eof("content.xml"));
+                }
                 break;
             }
             _ => {
@@ -1077,6 +1102,9 @@ fn read_table(
                 col_data |= have_data;
             }
 
+            Event::Eof => {
+                return Err(unexpected_eof("table:table"));
+            }
             _ => {
                 unused_event("read_table", &evt)?;
             }
@@ -3629,6 +3657,7 @@ fn copy_attr2(
 }
 
 fn read_ods_styles(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(), OdsError> {
+    let mut complete = false;
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -3642,7 +3671,7 @@ fn read_ods_styles(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(
                 ctx.book.xmlns.insert("styles.xml".to_string(), xmlns);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:document-styles" => {
-                // noop
+                complete = true;
             }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"office:font-face-decls" => {
                 read_office_font_face_decls(ctx, xml, StyleOrigin::Styles)?
@@ -3657,6 +3686,9 @@ fn read_ods_styles(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(
                 read_office_master_styles(ctx, xml, StyleOrigin::Styles)?
             }
             Event::Eof => {
+                if !complete {
+                    return Err(unexpected_eof("styles.xml"));
+                }
                 break;
             }
             _ => {
@@ -3763,6 +3795,7 @@ pub(crate) fn default_settings() -> Detach<Config> {
 }
 
 fn read_ods_metadata(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(), OdsError> {
+    let mut complete = false;
     let mut buf = ctx.pop_buf();
 
     loop {
@@ -3776,7 +3809,9 @@ fn read_ods_metadata(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result
                 let (_, xmlns) = read_namespaces_and_version(ctx, xml_tag)?;
                 ctx.book.xmlns.insert("meta.xml".to_string(), xmlns);
             }
-            Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:document-meta" => {}
+            Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:document-meta" => {
+                complete = true;
+            }
 
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"office:meta" => {
                 read_office_meta(ctx, xml)?;
@@ -3784,6 +3819,9 @@ fn read_ods_metadata(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result
 
             Event::Decl(_) => {}
             Event::Eof => {
+                if !complete {
+                    return Err(unexpected_eof("meta.xml"));
+                }
                 break;
             }
             _ => {
@@ -4228,6 +4266,7 @@ fn read_metadata_value<T>(
 }
 
 fn read_ods_settings(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(), OdsError> {
+    let mut complete = false;
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -4242,13 +4281,18 @@ fn read_ods_settings(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result
                 let (_, xmlns) = read_namespaces_and_version(ctx, xml_tag)?;
                 ctx.book.xmlns.insert("settings.xml".to_string(), xmlns);
             }
-            Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:document-settings" => {}
+            Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:document-settings" => {
+                complete = true;
+            }
 
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"office:settings" => {
                 read_office_settings(ctx, xml)?;
             }
 
             Event::Eof => {
+                if !complete {
+                    return Err(unexpected_eof("settings.xml"));
+                }
                 break;
             }
             _ => {
@@ -5026,6 +5070,11 @@ fn entity(xml_ref: &BytesRef) -> Result<Cow<'static, str>, quick_xml::Error> {
     }
 }
 
+// The xml ended before all elements were closed.
+fn unexpected_eof(what: &str) -> OdsError {
+    OdsError::Ods(format!("unexpected end of document in {}", what))
+}
+
 #[inline(always)]
 fn unused_attr(func: &str, tag: &[u8], attr: &Attribute<'_>) -> Result<(), OdsError> {
     if cfg!(feature = "dump_unused") {
-- 
2.43.0


From 69d4fe80a1c88a9f14af7633cdcf1118989b7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:10 +0000
Subject: [PATCH 03/38] fix: an unreadable part of the package is an error, not
 a missing part

---
 src/io/read.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index e431038..d511f1c 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -11,6 +11,7 @@ use chrono::{Duration, NaiveDateTime};
 use quick_xml::events::attributes::Attribute;
 use quick_xml::events::{BytesRef, BytesStart, Event};
 use quick_xml::{Decoder, Reader};
+use zip::result::ZipError;
 use zip::ZipArchive;
 
 use crate::attrmap2::AttrMap2;
@@ -375,7 +376,7 @@ fn read_ods_impl<R: Read + Seek>(
 ) -> Result<WorkBook, OdsError> {
     let mut ctx = OdsContext::new(options);
 
-    if let Ok(z) = zip.by_name("META-INF/manifest.xml") {
+    if let Some(z) = optional_entry(zip.by_name("META-INF/manifest.xml"))? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
@@ -385,7 +386,7 @@ fn read_ods_impl<R: Read + Seek>(
 
     read_ods_extras(&mut ctx, &mut zip)?;
 
-    if let Ok(z) = zip.by_name("meta.xml") {
+    if let Some(z) = optional_entry(zip.by_name("meta.xml"))? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
@@ -393,14 +394,14 @@ fn read_ods_impl<R: Read + Seek>(
         read_ods_metadata(&mut ctx, &mut xml)?;
     }
 
-    if let Ok(z) = zip.by_name("settings.xml") {
+    if let Some(z) = optional_entry(zip.by_name("settings.xml"))? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
         read_ods_settings(&mut ctx, &mut xml)?;
     }
 
-    if let Ok(z) = zip.by_name("styles.xml") {
+    if let Some(z) = optional_entry(zip.by_name("styles.xml"))? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
@@ -441,6 +442,15 @@ fn read_ods_impl_content_only<R: Read + Seek>(
     Ok(ctx.book)
 }
 
+// A missing entry is fine, any other problem is not.
+fn optional_entry<T>(entry: Result<T, ZipError>) -> Result<Option<T>, OdsError> {
+    match entry {
+        Ok(v) => Ok(Some(v)),
+        Err(ZipError::FileNotFound) => Ok(None),
+        Err(e) => Err(e.into()),
+    }
+}
+
 fn read_ods_extras<R: Read + Seek>(
     ctx: &mut OdsContext,
     zip: &mut ZipArchive<R>,
-- 
2.43.0


From 8d54013bdadc08e114f8e11884a6094005a714c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:10 +0000
Subject: [PATCH 04/38] fix: durations keep their milliseconds, smaller
 fractions and sign

---
 src/io/format.rs | 24 ++++++++++++++++++------
 src/io/parse.rs  |  6 +++++-
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/io/format.rs b/src/io/format.rs
index b3ee44f..47910b4 100644
--- a/src/io/format.rs
+++ b/src/io/format.rs
@@ -7,14 +7,26 @@ pub(crate) fn format_duration2(v: Duration) -> impl Display {
 
     impl Display for Tmp {
         fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+            let (sign, v) = if self.0 < Duration::zero() {
+                ("-", -self.0)
+            } else {
+                ("", self.0)
+            };
+            let nanos = v.subsec_nanos();
+
             write!(
                 f,
-                "PT{}H{}M{}.{}S",
-                self.0.num_hours(),
-                self.0.num_minutes() % 60,
-                self.0.num_seconds() % 60,
-                self.0.num_milliseconds() % 1000
-            )
+                "{}PT{}H{}M{}.",
+                sign,
+                v.num_hours(),
+                v.num_minutes() % 60,
+                v.num_seconds() % 60,
+            )?;
+            if nanos % 1_000_000 == 0 {
+                write!(f, "{:03}S", nanos / 1_000_000)
+            } else {
+                write!(f, "{:09}S", nanos)
+            }
         }
     }
 
diff --git a/src/io/parse.rs b/src/io/parse.rs
index 3446c06..f63f749 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -342,7 +342,8 @@ fn token_datetime(input: KSpan<'_>) -> KTokenResult<'_, NaiveDateTime> {
 
 #[inline(always)]
 fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
-    let (_, (_, day, time)) = all_consuming(tuple((
+    let (_, (minus, _, day, time)) = all_consuming(tuple((
+        opt(byte(b'-')),
         byte(b'P'),
         // these do not occur?
         //opt(terminated(token_datepart, byte(b'Y'))),
@@ -390,6 +391,9 @@ fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
             }
         }
     }
+    if minus.is_some() {
+        result = -result;
+    }
 
     Ok(result)
 }
-- 
2.43.0


From 0704c6542bc69b04b714914e9443895e4c2ee695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:14 +0000
Subject: [PATCH 05/38] fix: template, auto-reload, hyperlink-behaviour and
 document-statistic metadata survive a save

---
 src/io/read.rs  | 18 +++++++++++++-----
 src/io/write.rs |  4 ++--
 src/xlink.rs    |  4 ++--
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index d511f1c..a52d8a7 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -3977,23 +3977,31 @@ fn read_office_meta(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
                     read_metadata_value(ctx, xml, xml_tag, parse_duration, Duration::default)?;
             }
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:template" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:template" =>
+            {
                 ctx.book.metadata.template = read_metadata_template(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:template" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:auto-reload" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:auto-reload" =>
+            {
                 ctx.book.metadata.auto_reload = read_metadata_auto_reload(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:auto-reload" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" =>
+            {
                 ctx.book.metadata.hyperlink_behaviour =
                     read_metadata_hyperlink_behaviour(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:document-statistic" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:document-statistic" =>
+            {
                 ctx.book.metadata.document_statistics =
                     read_metadata_document_statistics(ctx, xml_tag)?;
             }
@@ -4107,7 +4115,7 @@ fn read_metadata_hyperlink_behaviour(
 
     for attr in tag.attributes().with_checks(false) {
         match attr? {
-            attr if attr.key.as_ref() == b"office:targetframe-name" => {
+            attr if attr.key.as_ref() == b"office:target-frame-name" => {
                 hyperlink_behaviour.target_frame_name =
                     Some(attr.decode_and_unescape_value(ctx.decoder)?.to_string());
             }
diff --git a/src/io/write.rs b/src/io/write.rs
index 0b20185..b8b471a 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -813,7 +813,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
     if book.metadata.editing_cycles > 0 {
         xml_out.elem_text("meta:editing-cycles", &book.metadata.editing_cycles)?;
     }
-    if book.metadata.editing_duration.num_seconds() > 0 {
+    if !book.metadata.editing_duration.is_zero() {
         xml_out.elem_text(
             "meta:editing-duration",
             &format_duration2(book.metadata.editing_duration),
@@ -840,7 +840,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
     }
 
     if !book.metadata.auto_reload.is_empty() {
-        xml_out.empty("meta:auto_reload")?;
+        xml_out.empty("meta:auto-reload")?;
         if let Some(v) = book.metadata.auto_reload.delay {
             xml_out.attr("meta:delay", &format_duration2(v))?;
         }
diff --git a/src/xlink.rs b/src/xlink.rs
index 8bb20fb..ea2fb84 100644
--- a/src/xlink.rs
+++ b/src/xlink.rs
@@ -15,8 +15,8 @@ pub enum XLinkActuate {
 impl Display for XLinkActuate {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
-            XLinkActuate::OnLoad => write!(f, "OnLoad"),
-            XLinkActuate::OnRequest => write!(f, "OnRequest"),
+            XLinkActuate::OnLoad => write!(f, "onLoad"),
+            XLinkActuate::OnRequest => write!(f, "onRequest"),
         }
     }
 }
-- 
2.43.0


From 2af8d53ec529a45eadf2c758495e81f0ffcbdb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:19 +0000
Subject: [PATCH 06/38] fix: special characters in user-defined metadata
 survive a save

---
 src/io/read.rs  | 22 +++++++++++++++-------
 src/io/write.rs |  2 +-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index a52d8a7..6fc5f81 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -4203,6 +4203,7 @@ fn read_metadata_user_defined(
         }
     }
 
+    let mut text = String::new();
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -4214,14 +4215,11 @@ fn read_metadata_user_defined(
             Event::End(xml_tag) if xml_tag.name() == tag.name() => {
                 break;
             }
+            Event::GeneralRef(xml_ref) => {
+                text.push_str(entity(xml_ref)?.as_ref());
+            }
             Event::Text(xml_text) => {
-                user_defined.value = match value_type {
-                    Some("boolean") => MetaValue::Boolean(parse_bool(xml_text)?),
-                    Some("date") => MetaValue::Datetime(parse_datetime(xml_text)?),
-                    Some("float") => MetaValue::Float(parse_f64(xml_text)?),
-                    Some("time") => MetaValue::TimeDuration(parse_duration(xml_text)?),
-                    _ => MetaValue::String(xml_text.decode()?.to_string()),
-                };
+                text.push_str(xml_text.decode()?.as_ref());
             }
             Event::Eof => {
                 break;
@@ -4235,6 +4233,16 @@ fn read_metadata_user_defined(
     }
     ctx.push_buf(buf);
 
+    if !text.is_empty() {
+        user_defined.value = match value_type {
+            Some("boolean") => MetaValue::Boolean(parse_bool(text.as_bytes())?),
+            Some("date") => MetaValue::Datetime(parse_datetime(text.as_bytes())?),
+            Some("float") => MetaValue::Float(parse_f64(text.as_bytes())?),
+            Some("time") => MetaValue::TimeDuration(parse_duration(text.as_bytes())?),
+            _ => MetaValue::String(text),
+        };
+    }
+
     Ok(user_defined)
 }
 
diff --git a/src/io/write.rs b/src/io/write.rs
index b8b471a..b6a3a26 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -888,7 +888,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
 
     for userdef in &book.metadata.user_defined {
         xml_out.elem("meta:user-defined")?;
-        xml_out.attr("meta:name", &userdef.name)?;
+        xml_out.attr_esc("meta:name", &userdef.name)?;
         if !matches!(userdef.value, MetaValue::String(_)) {
             xml_out.attr_str(
                 "meta:value-type",
-- 
2.43.0


From 83c875ca2359869b9239d4960232428ca58c4b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:34 +0000
Subject: [PATCH 07/38] fix: scripts and event listeners are written as
 well-formed xml and read back

---
 src/io/read.rs  |  6 ++++--
 src/io/write.rs | 13 ++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 6fc5f81..ff8d4a4 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1877,7 +1877,8 @@ fn read_scripts(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(),
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"office:script" =>
             {
-                let script = read_script(ctx, xml, xml_tag)?;
+                let empty_tag = matches!(evt, Event::Empty(_));
+                let script = read_script(ctx, xml, xml_tag, empty_tag)?;
                 ctx.book.add_script(script);
             }
 
@@ -1911,8 +1912,9 @@ fn read_script(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<Script, OdsError> {
-    let v = read_xml(ctx, xml, super_tag, false)?;
+    let v = read_xml(ctx, xml, super_tag, empty_tag)?;
     let script: Script = Script {
         script_lang: v
             .get_attr("script:language")
diff --git a/src/io/write.rs b/src/io/write.rs
index b6a3a26..d055366 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1410,10 +1410,11 @@ fn write_office_body(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
 }
 
 fn write_office_scripts(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    xml_out.elem_if(!book.scripts.is_empty(), "office:scripts")?;
+    let has_content = !book.scripts.is_empty() || !book.event_listener.is_empty();
+    xml_out.elem_if(has_content, "office:scripts")?;
     write_scripts(&book.scripts, xml_out)?;
     write_event_listeners(&book.event_listener, xml_out)?;
-    xml_out.end_elem_if(!book.scripts.is_empty(), "office:scripts")?;
+    xml_out.end_elem_if(has_content, "office:scripts")?;
     Ok(())
 }
 
@@ -2358,7 +2359,7 @@ fn write_scripts(scripts: &Vec<Script>, xml_out: &mut OdsXmlWriter<'_>) -> Resul
             write_xmlcontent(content, xml_out)?;
         }
 
-        xml_out.end_elem("/office:script")?;
+        xml_out.end_elem("office:script")?;
     }
 
     Ok(())
@@ -2368,6 +2369,11 @@ fn write_event_listeners(
     events: &HashMap<String, EventListener>,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
+    if events.is_empty() {
+        return Ok(());
+    }
+
+    xml_out.elem("office:event-listeners")?;
     for event in events.values() {
         xml_out.empty("script:event-listener")?;
         xml_out.attr_esc("script:event-name", &event.event_name)?;
@@ -2377,6 +2383,7 @@ fn write_event_listeners(
         xml_out.attr_esc("xlink:href", &event.href)?;
         xml_out.attr_esc("xlink:type", &event.link_type)?;
     }
+    xml_out.end_elem("office:event-listeners")?;
 
     Ok(())
 }
-- 
2.43.0


From d9e5ba806a3b141926b0b338da829bdb2322cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:19 +0000
Subject: [PATCH 08/38] fix: flat documents don't add line-breaks to mixed
 content

---
 src/io/write.rs     | 14 ++++++--------
 src/io/xmlwriter.rs |  8 ++++++++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index d055366..197effa 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -3144,7 +3144,10 @@ fn write_xmlcontent(x: &XmlContent, xml_out: &mut OdsXmlWriter<'_>) -> Result<()
     Ok(())
 }
 
+// This can be mixed content, an added line-break would change it.
 fn write_xmltag(x: &XmlTag, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
+    let line_break = xml_out.set_line_break(false)?;
+
     xml_out.elem_if(!x.is_empty(), x.name())?;
 
     for (k, v) in x.attrmap().iter() {
@@ -3152,18 +3155,13 @@ fn write_xmltag(x: &XmlTag, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsErr
     }
 
     for c in x.content() {
-        match c {
-            XmlContent::Text(t) => {
-                xml_out.text_esc(t)?;
-            }
-            XmlContent::Tag(t) => {
-                write_xmltag(t, xml_out)?;
-            }
-        }
+        write_xmlcontent(c, xml_out)?;
     }
 
     xml_out.end_elem_if(!x.is_empty(), x.name())?;
 
+    xml_out.set_line_break(line_break)?;
+
     Ok(())
 }
 
diff --git a/src/io/xmlwriter.rs b/src/io/xmlwriter.rs
index 451e228..7df628c 100644
--- a/src/io/xmlwriter.rs
+++ b/src/io/xmlwriter.rs
@@ -3,6 +3,7 @@ use std::fmt::{Display, Formatter, Write as FmtWrite};
 use std::io::{self, Write};
 #[cfg(not(feature = "check_xml"))]
 use std::marker::PhantomData;
+use std::mem;
 use std::str::from_utf8_unchecked;
 
 #[derive(PartialEq)]
@@ -109,6 +110,13 @@ impl<W: Write> XmlWriter<W> {
         self
     }
 
+    /// Switch the line-breaks on or off. Finishes an open tag with the old setting.
+    /// Returns the old setting.
+    pub(crate) fn set_line_break(&mut self, line_break: bool) -> io::Result<bool> {
+        self.close_elem()?;
+        Ok(mem::replace(&mut self.line_break, line_break))
+    }
+
     /// Write the DTD. You have to take care of the encoding
     /// on the underlying Write yourself.
     pub(crate) fn dtd(&mut self, encoding: &str) -> io::Result<()> {
-- 
2.43.0


From 52e593e7c155c958b6e41bfe4caf45611e97caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:31 +0000
Subject: [PATCH 09/38] fix: read the page-view zoom of a sheet

---
 src/io/read.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index ff8d4a4..2244c41 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -750,6 +750,9 @@ fn calc_derived(book: &mut WorkBook) -> Result<(), OdsError> {
             if let Some(ConfigValue::Int(n)) = cc.get_value_rec(&["ZoomValue"]) {
                 sheet.config_mut().zoom_value = *n;
             }
+            if let Some(ConfigValue::Int(n)) = cc.get_value_rec(&["PageViewZoomValue"]) {
+                sheet.config_mut().page_view_zoom_value = *n;
+            }
             if let Some(ConfigValue::Boolean(n)) = cc.get_value_rec(&["ShowGrid"]) {
                 sheet.config_mut().show_grid = *n;
             }
-- 
2.43.0


From ae4ec764d69da984cb6cd72ab8af2c1ec86df4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:00 +0000
Subject: [PATCH 10/38] fix: row groups, print-header rows and row headers on
 empty rows are written completely

Groups were closed before their last empty row, the header-rows element was
closed twice (or the counter underflowed), and row attributes of rows beyond
or between the cells were dropped or smeared over the whole gap.
---
 src/io/write.rs | 246 ++++++++++++++++++++++++++++--------------------
 1 file changed, 143 insertions(+), 103 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 197effa..088170f 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1646,12 +1646,12 @@ fn write_sheet(
         // calculations.
 
         // For the repeat-counter we need to look forward.
-        let (next_row, next_col, is_last_cell) = //_
+        let (next_row, next_col) = //_
             if let Some((next_row, next_col)) = it.peek_cell()
         {
-            (next_row, next_col, false)
+            (next_row, next_col)
         } else {
-            (max_cell.0, max_cell.1, true)
+            (max_cell.0, max_cell.1)
         };
 
         // Looking forward row-wise.
@@ -1792,18 +1792,39 @@ fn write_sheet(
             }
         }
 
-        // The last cell we will write? We can close the last row here,
-        // where we have all the data.
-        if is_last_cell {
-            write_end_last_row(&mut row_group_count, &mut row_header, xml_out)?;
-        }
-
         first_cell = false;
         prev_row = cur_row;
         prev_row_repeat = cur_row_repeat;
         prev_col = cur_col;
     }
 
+    // Close the last row.
+    let mut next_row = 0;
+    if !first_cell {
+        write_end_prev_row(
+            sheet,
+            prev_row,
+            prev_row_repeat,
+            &mut row_group_count,
+            &mut row_header,
+            xml_out,
+        )?;
+        next_row = prev_row + prev_row_repeat;
+    }
+    // There may be row-headers, groups or a print-header beyond the last cell.
+    let end_row = used_rows(sheet);
+    if next_row < end_row {
+        write_empty_rows_before(
+            sheet,
+            next_row,
+            end_row - next_row,
+            max_cell,
+            &mut row_group_count,
+            &mut row_header,
+            xml_out,
+        )?;
+    }
+
     xml_out.end_elem("table:table")?;
 
     for tag in &sheet.extra {
@@ -1815,6 +1836,21 @@ fn write_sheet(
     Ok(())
 }
 
+/// Number of rows with a row-header, group or print-header.
+fn used_rows(sheet: &Sheet) -> u32 {
+    let mut rows = 0;
+    if let Some((row, row_header)) = sheet.row_header.last_key_value() {
+        rows = max(rows, row + max(row_header.span, row_header.repeat));
+    }
+    for row_group in &sheet.group_rows {
+        rows = max(rows, row_group.to() + 1);
+    }
+    if let Some(header_rows) = &sheet.header_rows {
+        rows = max(rows, header_rows.to + 1);
+    }
+    rows
+}
+
 fn write_empty_cells(
     hidden: bool,
     repeat: u32,
@@ -1832,32 +1868,28 @@ fn write_empty_cells(
     Ok(())
 }
 
-fn write_start_current_row(
+fn write_start_row_groups(
     sheet: &Sheet,
     cur_row: u32,
     cur_row_repeat: u32,
-    backward_delta_col: u32,
     row_group_count: &mut u32,
     row_header: &mut bool,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
-    // groups
-    for row_group in &sheet.group_rows {
-        if row_group.from() == cur_row {
-            *row_group_count += 1;
-            xml_out.elem("table:table-row-group")?;
-            if !row_group.display() {
-                xml_out.attr_str("table:display", "false")?;
-            }
-        }
-        // extra: if the group would start within our repeat range, it's started
-        //        at the current row instead.
-        if row_group.from() > cur_row && row_group.from() < cur_row + cur_row_repeat {
-            *row_group_count += 1;
-            xml_out.elem("table:table-row-group")?;
-            if !row_group.display() {
-                xml_out.attr_str("table:display", "false")?;
-            }
+    // groups, the outermost first.
+    // if the group would start within our repeat range, it's started
+    // at the current row instead.
+    let mut row_groups: Vec<_> = sheet
+        .group_rows
+        .iter()
+        .filter(|v| v.from() >= cur_row && v.from() < cur_row + cur_row_repeat)
+        .collect();
+    row_groups.sort_by_key(|v| (v.from(), u32::MAX - v.to()));
+    for row_group in row_groups {
+        *row_group_count += 1;
+        xml_out.elem("table:table-row-group")?;
+        if !row_group.display() {
+            xml_out.attr_str("table:display", "false")?;
         }
     }
 
@@ -1871,12 +1903,33 @@ fn write_start_current_row(
         xml_out.elem("table:table-header-rows")?;
     }
 
+    Ok(())
+}
+
+fn write_start_current_row(
+    sheet: &Sheet,
+    cur_row: u32,
+    cur_row_repeat: u32,
+    backward_delta_col: u32,
+    row_group_count: &mut u32,
+    row_header: &mut bool,
+    xml_out: &mut OdsXmlWriter<'_>,
+) -> Result<(), OdsError> {
+    write_start_row_groups(
+        sheet,
+        cur_row,
+        cur_row_repeat,
+        row_group_count,
+        row_header,
+        xml_out,
+    )?;
+
     // row
     xml_out.elem("table:table-row")?;
+    if cur_row_repeat > 1 {
+        xml_out.attr_esc("table:number-rows-repeated", &cur_row_repeat)?;
+    }
     if let Some(row_header) = sheet.valid_row_header(cur_row) {
-        if row_header.repeat > 1 {
-            xml_out.attr_esc("table:number-rows-repeated", &row_header.repeat)?;
-        }
         if let Some(rowstyle) = row_header.style.as_ref() {
             xml_out.attr_esc("table:style-name", rowstyle.as_str())?;
         }
@@ -1909,6 +1962,25 @@ fn write_end_prev_row(
 ) -> Result<(), OdsError> {
     // row
     xml_out.end_elem("table:table-row")?;
+
+    write_end_row_groups(
+        sheet,
+        last_r,
+        last_r_repeat,
+        row_group_count,
+        row_header,
+        xml_out,
+    )
+}
+
+fn write_end_row_groups(
+    sheet: &Sheet,
+    last_r: u32,
+    last_r_repeat: u32,
+    row_group_count: &mut u32,
+    row_header: &mut bool,
+    xml_out: &mut OdsXmlWriter<'_>,
+) -> Result<(), OdsError> {
     if *row_header {
         xml_out.end_elem("table:table-header-rows")?;
     }
@@ -1920,41 +1992,12 @@ fn write_end_prev_row(
         }
     }
 
-    // groups
+    // groups. the group end may be somewhere inside the repeated range.
     for row_group in &sheet.group_rows {
-        if row_group.to() == last_r {
+        if row_group.to() >= last_r && row_group.to() < last_r + last_r_repeat {
             *row_group_count -= 1;
             xml_out.end_elem("table:table-row-group")?;
         }
-        // the group end is somewhere inside the repeated range.
-        if row_group.to() > last_r && row_group.to() < last_r + last_r_repeat {
-            *row_group_count -= 1;
-            xml_out.end_elem("table:table-row-group")?;
-        }
-    }
-
-    Ok(())
-}
-
-fn write_end_last_row(
-    row_group_count: &mut u32,
-    row_header: &mut bool,
-    xml_out: &mut OdsXmlWriter<'_>,
-) -> Result<(), OdsError> {
-    // row
-    xml_out.end_elem("table:table-row")?;
-
-    // end of the print-header.
-    // todo: might loose some empty rows?
-    if *row_header {
-        *row_header = false;
-        xml_out.end_elem("table:table-header-rows")?;
-    }
-
-    // close all groups
-    while *row_group_count > 0 {
-        *row_group_count -= 1;
-        xml_out.end_elem("table:table-row-group")?;
     }
 
     Ok(())
@@ -1969,48 +2012,39 @@ fn write_empty_rows_before(
     row_header: &mut bool,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
-    // Are there any row groups? Then we don't use repeat but write everything out.
-    if !sheet.group_rows.is_empty() || sheet.header_rows.is_some() {
-        for r in last_row..last_row + last_row_repeat {
-            if *row_header {
-                xml_out.end_elem("table:table-header-rows")?;
-            }
-            // end of the print-header
-            if let Some(header_rows) = &sheet.header_rows {
-                if header_rows.to == r {
-                    *row_header = false;
-                }
-            }
-            // groups
-            for row_group in &sheet.group_rows {
-                if row_group.to() == r {
-                    *row_group_count -= 1;
-                    xml_out.end_elem("table:table-row-group")?;
-                }
-            }
-            for row_group in &sheet.group_rows {
-                if row_group.from() == r {
-                    *row_group_count += 1;
-                    xml_out.elem("table:table-row-group")?;
-                    if !row_group.display() {
-                        xml_out.attr_str("table:display", "false")?;
-                    }
-                }
-            }
-            // start of print-header
-            if let Some(header_rows) = &sheet.header_rows {
-                if header_rows.from == r {
-                    *row_header = true;
-                }
-            }
-            if *row_header {
-                xml_out.elem("table:table-header-rows")?;
+    let end_row = last_row + last_row_repeat;
+
+    let mut r = last_row;
+    while r < end_row {
+        // All the empty rows up to the next change of a row-header, a group
+        // or the print-header can be written with one repeat.
+        let mut next = end_row;
+        let mut limit = |v: u32| {
+            if v > r && v < next {
+                next = v;
             }
-            // row
-            write_empty_row(sheet, r, 1, max_cell, xml_out)?;
+        };
+        if let Some((base_row, row_header)) = sheet.row_header.range(..=r).last() {
+            limit(base_row + max(row_header.span, row_header.repeat));
         }
-    } else {
-        write_empty_row(sheet, last_row, last_row_repeat, max_cell, xml_out)?;
+        if let Some((base_row, _)) = sheet.row_header.range(r + 1..).next() {
+            limit(*base_row);
+        }
+        for row_group in &sheet.group_rows {
+            limit(row_group.from());
+            limit(row_group.to() + 1);
+        }
+        if let Some(header_rows) = &sheet.header_rows {
+            limit(header_rows.from);
+            limit(header_rows.to + 1);
+        }
+        let repeat = next - r;
+
+        write_start_row_groups(sheet, r, repeat, row_group_count, row_header, xml_out)?;
+        write_empty_row(sheet, r, repeat, max_cell, xml_out)?;
+        write_end_row_groups(sheet, r, repeat, row_group_count, row_header, xml_out)?;
+
+        r = next;
     }
 
     Ok(())
@@ -2025,7 +2059,13 @@ fn write_empty_row(
 ) -> Result<(), OdsError> {
     xml_out.elem("table:table-row")?;
     xml_out.attr("table:number-rows-repeated", &row_repeat)?;
-    if let Some(row_header) = sheet.valid_row_header(cur_row) {
+    let row_header = sheet
+        .row_header
+        .range(..=cur_row)
+        .last()
+        .filter(|(base_row, v)| cur_row - *base_row < max(v.span, v.repeat))
+        .map(|(_, v)| v);
+    if let Some(row_header) = row_header {
         if let Some(rowstyle) = row_header.style.as_ref() {
             xml_out.attr_esc("table:style-name", rowstyle.as_str())?;
         }
-- 
2.43.0


From aa59c393774c04800390685ee5944a0aa908afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:00 +0000
Subject: [PATCH 11/38] fix: sheet-level named expressions and conditional
 formats stay inside their table

---
 src/io/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 088170f..d23a217 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1825,14 +1825,14 @@ fn write_sheet(
         )?;
     }
 
-    xml_out.end_elem("table:table")?;
-
     for tag in &sheet.extra {
         if tag.name() == "table:named-expressions" || tag.name() == "calcext:conditional-formats" {
             write_xmltag(tag, xml_out)?;
         }
     }
 
+    xml_out.end_elem("table:table")?;
+
     Ok(())
 }
 
-- 
2.43.0


From 0ccc8f59c6e966f3e2133dad2accfe7804468ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:16 +0000
Subject: [PATCH 12/38] fix: column groups are closed and column/row headers
 keep their extent

Splitting a header span overwrote the neighbouring header, merging ignored
gaps, and a group ending inside a column span was never closed.
---
 src/io/write.rs | 18 +++++++++++-------
 src/sheet_.rs   | 10 ++++++----
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index d23a217..b4e2b0d 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -2093,6 +2093,9 @@ fn write_table_columns(
 ) -> Result<(), OdsError> {
     // determine column count
     let mut max_col = max_cell.1;
+    if let Some((col, col_header)) = sheet.col_header.last_key_value() {
+        max_col = max(max_col, col + col_header.span);
+    }
     for grp in &sheet.group_cols {
         max_col = max(max_col, grp.to + 1);
     }
@@ -2107,12 +2110,13 @@ fn write_table_columns(
             break;
         }
 
-        for grp in &sheet.group_cols {
-            if c == grp.from() {
-                xml_out.elem("table:table-column-group")?;
-                if !grp.display() {
-                    xml_out.attr_str("table:display", "false")?;
-                }
+        // the outermost group first.
+        let mut groups: Vec<_> = sheet.group_cols.iter().filter(|v| v.from() == c).collect();
+        groups.sort_by_key(|v| u32::MAX - v.to());
+        for grp in groups {
+            xml_out.elem("table:table-column-group")?;
+            if !grp.display() {
+                xml_out.attr_str("table:display", "false")?;
             }
         }
 
@@ -2150,7 +2154,7 @@ fn write_table_columns(
         }
 
         for col_group in &sheet.group_cols {
-            if c == col_group.to() {
+            if col_group.to() >= c && col_group.to() < c + span {
                 xml_out.end_elem("table:table-column-group")?;
             }
         }
diff --git a/src/sheet_.rs b/src/sheet_.rs
index 89eb7d0..169cd26 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -686,7 +686,9 @@ impl Sheet {
                         left_hdr = Some((*base_col, tmp));
                     }
 
-                    split_hdr = Some((col, col_header.clone()));
+                    let mut tmp = col_header.clone();
+                    tmp.span = 1;
+                    split_hdr = Some((col, tmp));
 
                     let right_span = (*base_col + col_header.span) - (col + 1);
                     if right_span > 0 {
@@ -846,11 +848,11 @@ impl Sheet {
                 }
 
                 // back
-                if *base_row + base_span > row {
+                if *base_row + base_span > row + 1 {
                     let mut clone = row_header.clone();
                     clone.span = *base_row + base_span - (row + 1);
                     cloned.push((row + 1, clone));
-                } else if *base_row + base_span == row {
+                } else if *base_row + base_span == row + 1 {
                     // noop
                 } else {
                     unreachable!();
@@ -1719,7 +1721,7 @@ pub(crate) fn dedup_colheader(sheet: &mut Sheet) -> Result<(), OdsError> {
                 new = Some((col, header));
             }
             Some((new_col, new_header)) => {
-                if limited_eq(new_header, &header) {
+                if *new_col + new_header.span == col && limited_eq(new_header, &header) {
                     new_header.span += header.span;
                 } else {
                     new_col_header
-- 
2.43.0


From 838b38dd52e3f37dee1d15a4991719039726a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:48 +0000
Subject: [PATCH 13/38] fix: quote sheet names in references whenever the
 parser needs the quotes

---
 src/refs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/refs.rs b/src/refs.rs
index 63d2e35..4ca91e7 100644
--- a/src/refs.rs
+++ b/src/refs.rs
@@ -1125,7 +1125,8 @@ mod format_refs {
         abs: bool,
     ) -> fmt::Result {
         fmt_abs(f, abs)?;
-        if table_name.contains(['\'', ' ', '.']) {
+        // quote everything the parser doesn't accept as unquoted name.
+        if table_name.contains(|c: char| c.is_ascii() && !c.is_ascii_alphanumeric() && c != '_') {
             write!(f, "'")?;
             write!(f, "{}", &table_name.replace('\'', "''"))?;
             write!(f, "'")?;
-- 
2.43.0


From aef9468dac25a455ff3c54c8da6dceedfe847603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:22 +0000
Subject: [PATCH 14/38] fix: content validations are read back with their
 messages and display mode

Error- and help-messages were attached to an additional, unnamed validation
and nested one level deeper with every save, display-list 'none' was written
as 'no' and couldn't be read back, and a short condition panicked.
---
 src/io/read.rs  | 36 ++++++++----------------------------
 src/io/write.rs |  2 +-
 2 files changed, 9 insertions(+), 29 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 2244c41..af77620 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2115,12 +2115,14 @@ fn read_validations(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
             println!(" read_validations {:?}", evt);
         }
         match &evt {
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
+                valid.set_err(None);
                 read_validation(ctx, &mut valid, xml_tag)?;
                 ctx.book.add_validation(valid);
                 valid = Validation::new();
             }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
+                valid.set_err(None);
                 read_validation(ctx, &mut valid, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
@@ -2180,19 +2182,8 @@ fn read_validation_help(
             }
         }
     }
-    let txt = read_text_or_tag(ctx, xml, super_tag, empty_tag)?;
-    match txt {
-        TextContent::Empty => {}
-        TextContent::Xml(txt) => {
-            vh.set_text(Some(txt));
-        }
-        _ => {
-            return Err(OdsError::Ods(format!(
-                "table:help-message invalid {:?}",
-                txt
-            )));
-        }
-    }
+    let msg = read_xml(ctx, xml, super_tag, empty_tag)?;
+    vh.set_text(msg.into_vec()?.into_iter().next());
 
     valid.set_help(Some(vh));
     Ok(())
@@ -2236,19 +2227,8 @@ fn read_validation_error(
             }
         }
     }
-    let txt = read_text_or_tag(ctx, xml, super_tag, empty_tag)?;
-    match txt {
-        TextContent::Empty => {}
-        TextContent::Xml(txt) => {
-            ve.set_text(Some(txt));
-        }
-        _ => {
-            return Err(OdsError::Ods(format!(
-                "table:error-message invalid {:?}",
-                txt
-            )));
-        }
-    }
+    let msg = read_xml(ctx, xml, super_tag, empty_tag)?;
+    ve.set_text(msg.into_vec()?.into_iter().next());
 
     valid.set_err(Some(ve));
 
@@ -2268,7 +2248,7 @@ fn read_validation(
             attr if attr.key.as_ref() == b"table:condition" => {
                 // split off 'of:' prefix
                 let v = attr.decode_and_unescape_value(ctx.decoder)?;
-                valid.set_condition(Condition::new(v.split_at(3).1));
+                valid.set_condition(Condition::new(v.strip_prefix("of:").unwrap_or(&v)));
             }
             attr if attr.key.as_ref() == b"table:allow-empty-cell" => {
                 valid.set_allow_empty(parse_bool(&attr.value)?);
diff --git a/src/io/write.rs b/src/io/write.rs
index b4e2b0d..9233830 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1436,7 +1436,7 @@ fn write_content_validations(
             xml_out.attr_str(
                 "table:display-list",
                 match valid.display() {
-                    ValidationDisplay::NoDisplay => "no",
+                    ValidationDisplay::NoDisplay => "none",
                     ValidationDisplay::Unsorted => "unsorted",
                     ValidationDisplay::SortAscending => "sort-ascending",
                 },
-- 
2.43.0


From d26fc885c4613b8dab2f1f4199f3538736068c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:28 +0000
Subject: [PATCH 15/38] fix: paragraphs in page headers and footers keep their
 attributes and emptiness

---
 src/io/read.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index af77620..e6ba599 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2391,7 +2391,7 @@ fn read_headerfooter(
     super_tag: &BytesStart<'_>,
 ) -> Result<HeaderFooter, OdsError> {
     let mut hf = HeaderFooter::new();
-    let mut content = TextContent::Empty;
+    let mut content = Vec::new();
 
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
@@ -2432,27 +2432,15 @@ fn read_headerfooter(
             }
 
             Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"text:p" =>
+                if xml_tag.name().as_ref() == b"text:p" || xml_tag.name().as_ref() == b"text:h" =>
             {
-                let new_txt = read_text_or_tag(ctx, xml, xml_tag, empty_tag)?;
-                content = append_text(new_txt, content);
-            }
-            Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"text:h" =>
-            {
-                let new_txt = read_text_or_tag(ctx, xml, xml_tag, empty_tag)?;
-                content = append_text(new_txt, content);
+                content.push(read_xml(ctx, xml, xml_tag, empty_tag)?);
             }
             // no other tags supported for now. they have never been seen in the wild.
             Event::Text(_) => (),
             Event::End(xml_tag) => {
                 if xml_tag.name() == super_tag.name() {
-                    hf.set_content(match content {
-                        TextContent::Empty => Vec::new(),
-                        TextContent::Text(v) => vec![TextP::new().text(v).into()],
-                        TextContent::Xml(v) => vec![v],
-                        TextContent::XmlVec(v) => v,
-                    });
+                    hf.set_content(content);
                     break;
                 }
             }
-- 
2.43.0


From c0ea675ba32a0915cf319c90cf49319f037c0187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:34 +0000
Subject: [PATCH 16/38] fix: xml content may contain a tag of the same name as
 the outer tag

---
 src/io/read.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index e6ba599..64fdf24 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -4769,8 +4769,8 @@ fn read_xml(
                     copy_attr2(ctx, tag.attrmap_mut(), xml_tag)?;
                     stack.push(tag);
                 }
-                Event::End(xml_tag) => {
-                    if xml_tag.name() == super_tag.name() {
+                Event::End(_) => {
+                    if stack.len() == 1 {
                         break;
                     } else {
                         let tag = stack.pop().expect("valid stack");
@@ -4946,14 +4946,7 @@ fn read_text_or_tag(
                         }
                     };
                 }
-                Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
-                    if !stack.is_empty() {
-                        return Err(OdsError::Ods(format!(
-                            "XML corrupted. Endtag {} occured before all elements are closed: {:?}",
-                            from_utf8(super_tag.name().as_ref())?,
-                            stack
-                        )));
-                    }
+                Event::End(xml_tag) if xml_tag.name() == super_tag.name() && stack.is_empty() => {
                     break;
                 }
                 Event::End(xml_tag) => {
-- 
2.43.0


From 05bf753c14e0ec21dc726bfe2f789e12cdf78f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:28 +0000
Subject: [PATCH 17/38] fix: empty paragraphs in a cell and special characters
 in a currency survive a save

---
 src/io/parse.rs |  6 ------
 src/io/read.rs  | 10 +++++++---
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/io/parse.rs b/src/io/parse.rs
index f63f749..180446b 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -128,12 +128,6 @@ pub(crate) fn parse_string(input: KSpan<'_>) -> Result<String, OdsError> {
     Ok(String::from_utf8_lossy(input).to_string())
 }
 
-/// Parse a attribute value as a currency.
-#[inline]
-pub(crate) fn parse_currency(input: KSpan<'_>) -> Result<String, OdsError> {
-    Ok(String::from_utf8_lossy(input).to_string())
-}
-
 /// Parse a bool.
 #[inline]
 pub(crate) fn parse_bool(input: KSpan<'_>) -> Result<bool, OdsError> {
diff --git a/src/io/read.rs b/src/io/read.rs
index 64fdf24..c781528 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -23,7 +23,7 @@ use crate::ds::detach::Detach;
 use crate::error::OdsError;
 use crate::format::{FormatPart, FormatPartType, ValueFormatTrait, ValueStyleMap};
 use crate::io::parse::{
-    parse_bool, parse_currency, parse_datetime, parse_duration, parse_f64, parse_i16, parse_i32,
+    parse_bool, parse_datetime, parse_duration, parse_f64, parse_i16, parse_i32,
     parse_i64, parse_string, parse_u32, parse_visibility, parse_xlink_actuate, parse_xlink_show,
     parse_xlink_type,
 };
@@ -1452,7 +1452,7 @@ fn read_table_cell(
             }
             attr if attr.key.as_ref() == b"office:currency" => {
                 cell.get_or_insert_with(CellData::default);
-                tc.val_currency = Some(parse_currency(&attr.value)?);
+                tc.val_currency = Some(attr.decode_and_unescape_value(ctx.decoder)?.to_string());
             }
             attr if attr.key.as_ref() == b"table:formula" => {
                 cell.get_or_insert_with(CellData::default).formula =
@@ -1481,7 +1481,11 @@ fn read_table_cell(
                     tc.content = append_text(TextContent::Text(String::new()), tc.content);
                 }
                 Event::Start(xml_tag) if xml_tag.name().as_ref() == b"text:p" => {
-                    let new_txt = read_text_or_tag(ctx, xml, xml_tag, false)?;
+                    let new_txt = match read_text_or_tag(ctx, xml, xml_tag, false)? {
+                        // an empty paragraph is still a paragraph.
+                        TextContent::Empty => TextContent::Text(String::new()),
+                        new_txt => new_txt,
+                    };
                     tc.content = append_text(new_txt, tc.content);
                 }
 
-- 
2.43.0


From 2418c211dbcbcd83644b44331ab9e8be67ce08cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:25 +0000
Subject: [PATCH 18/38] fix: a cell paragraph keeps its attributes

---
 src/io/read.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index c781528..299c463 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1477,11 +1477,11 @@ fn read_table_cell(
                 println!(" read_table_cell {:?}", evt);
             }
             match &evt {
-                Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"text:p" => {
-                    tc.content = append_text(TextContent::Text(String::new()), tc.content);
-                }
-                Event::Start(xml_tag) if xml_tag.name().as_ref() == b"text:p" => {
-                    let new_txt = match read_text_or_tag(ctx, xml, xml_tag, false)? {
+                Event::Start(xml_tag) | Event::Empty(xml_tag)
+                    if xml_tag.name().as_ref() == b"text:p" =>
+                {
+                    let empty_tag = matches!(evt, Event::Empty(_));
+                    let new_txt = match read_text_or_tag(ctx, xml, xml_tag, empty_tag)? {
                         // an empty paragraph is still a paragraph.
                         TextContent::Empty => TextContent::Text(String::new()),
                         new_txt => new_txt,
@@ -4992,6 +4992,15 @@ fn read_text_or_tag(
 
     ctx.push_xml_buf(stack);
 
+    // Attributes can't be kept for plain text.
+    if super_tag.attributes().with_checks(false).next().is_some() {
+        cellcontent = match cellcontent {
+            TextContent::Empty => TextContent::Xml(create_toplevel(ctx, None)?),
+            TextContent::Text(txt) => TextContent::Xml(create_toplevel(ctx, Some(txt))?),
+            cellcontent => cellcontent,
+        };
+    }
+
     Ok(cellcontent)
 }
 
-- 
2.43.0


From 2012ff388a2056e30426d897094aa580d1113c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:40 +0000
Subject: [PATCH 19/38] fix: changing one row height or column width doesn't
 change others sharing its style

---
 src/io/read.rs  |  4 ++--
 src/io/write.rs | 48 +++++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 299c463..aeb95f5 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -23,8 +23,8 @@ use crate::ds::detach::Detach;
 use crate::error::OdsError;
 use crate::format::{FormatPart, FormatPartType, ValueFormatTrait, ValueStyleMap};
 use crate::io::parse::{
-    parse_bool, parse_datetime, parse_duration, parse_f64, parse_i16, parse_i32,
-    parse_i64, parse_string, parse_u32, parse_visibility, parse_xlink_actuate, parse_xlink_show,
+    parse_bool, parse_datetime, parse_duration, parse_f64, parse_i16, parse_i32, parse_i64,
+    parse_string, parse_u32, parse_visibility, parse_xlink_actuate, parse_xlink_show,
     parse_xlink_type,
 };
 use crate::io::NamespaceMap;
diff --git a/src/io/write.rs b/src/io/write.rs
index 9233830..d368550 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -12,9 +12,9 @@ use crate::refs::{format_cellranges, CellRange};
 use crate::sheet::Visibility;
 use crate::sheet_::{dedup_colheader, CellDataIter};
 use crate::style::{
-    CellStyle, ColStyle, FontFaceDecl, GraphicStyle, HeaderFooter, MasterPage, MasterPageRef,
-    PageStyle, PageStyleRef, ParagraphStyle, RowStyle, RubyStyle, StyleOrigin, StyleUse,
-    TableStyle, TextStyle,
+    CellStyle, ColStyle, ColStyleRef, FontFaceDecl, GraphicStyle, HeaderFooter, MasterPage,
+    MasterPageRef, PageStyle, PageStyleRef, ParagraphStyle, RowStyle, RowStyleRef, RubyStyle,
+    StyleOrigin, StyleUse, TableStyle, TextStyle,
 };
 use crate::validation::ValidationDisplay;
 use crate::workbook::{EventListener, Script};
@@ -488,6 +488,9 @@ fn calc_col_headers(book: &mut WorkBook) -> Result<(), OdsError> {
 
 /// Sync row/column styles with row/col header values.
 fn calc_col_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
+    // Every style can have only one width.
+    let mut synced = HashMap::<ColStyleRef, Vec<(Length, ColStyleRef)>>::new();
+
     for i in 0..book.num_sheets() {
         let mut sheet = book.detach_sheet(i);
 
@@ -499,6 +502,24 @@ fn calc_col_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
                 ch.style = Some(colstyle);
             }
 
+            // A shared style with another width needs a copy.
+            if let Some(style_name) = ch.style.clone() {
+                let styles = synced.entry(style_name.clone()).or_default();
+                if let Some((_, style)) = styles.iter().find(|(v, _)| *v == ch.width) {
+                    ch.style = Some(style.clone());
+                } else {
+                    if !styles.is_empty() {
+                        if let Some(mut style) = book.colstyle(&style_name).cloned() {
+                            style.set_name("");
+                            ch.style = Some(book.add_colstyle(style));
+                        }
+                    }
+                    if let Some(style) = &ch.style {
+                        styles.push((ch.width, style.clone()));
+                    }
+                }
+            }
+
             // Write back to the style.
             if let Some(style_name) = ch.style.as_ref() {
                 if let Some(style) = book.colstyle_mut(style_name) {
@@ -520,6 +541,9 @@ fn calc_col_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
 
 /// Sync row/column styles with row/col header values.
 fn calc_row_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
+    // Every style can have only one height.
+    let mut synced = HashMap::<RowStyleRef, Vec<(Length, RowStyleRef)>>::new();
+
     for i in 0..book.num_sheets() {
         let mut sheet = book.detach_sheet(i);
 
@@ -529,6 +553,24 @@ fn calc_row_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
                 rh.style = Some(rowstyle);
             }
 
+            // A shared style with another height needs a copy.
+            if let Some(style_name) = rh.style.clone() {
+                let styles = synced.entry(style_name.clone()).or_default();
+                if let Some((_, style)) = styles.iter().find(|(v, _)| *v == rh.height) {
+                    rh.style = Some(style.clone());
+                } else {
+                    if !styles.is_empty() {
+                        if let Some(mut style) = book.rowstyle(&style_name).cloned() {
+                            style.set_name("");
+                            rh.style = Some(book.add_rowstyle(style));
+                        }
+                    }
+                    if let Some(style) = &rh.style {
+                        styles.push((rh.height, style.clone()));
+                    }
+                }
+            }
+
             if let Some(style_name) = rh.style.as_ref() {
                 if let Some(style) = book.rowstyle_mut(style_name) {
                     if rh.height == Length::Default {
-- 
2.43.0


From 3d12a1041e217f190c6d5901d0464f3f6cd39017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:14 +0000
Subject: [PATCH 20/38] fix: writing a flat document keeps all styles and fonts
 and doesn't move them in the workbook

---
 src/io/read.rs  |   4 +-
 src/io/write.rs | 104 +++++++++++++-----------------------------------
 2 files changed, 29 insertions(+), 79 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index aeb95f5..0d88386 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -295,7 +295,7 @@ fn read_fods_impl(read: &mut dyn BufRead, options: &OdsOptions) -> Result<WorkBo
                 read_office_font_face_decls(&mut ctx, &mut xml, StyleOrigin::Content)?
             }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"office:styles" => {
-                read_office_styles(&mut ctx, &mut xml, StyleOrigin::Content)?
+                read_office_styles(&mut ctx, &mut xml, StyleOrigin::Styles)?
             }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"office:automatic-styles" => {
                 read_office_automatic_styles(&mut ctx, &mut xml, StyleOrigin::Content)?
@@ -1992,7 +1992,7 @@ fn read_office_font_face_decls(
                 ctx.book.add_font(font);
 
                 font = FontFaceDecl::new_empty();
-                font.set_origin(StyleOrigin::Content);
+                font.set_origin(origin);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:font-face-decls" => {
                 break;
diff --git a/src/io/write.rs b/src/io/write.rs
index d368550..980aeda 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -161,64 +161,14 @@ fn write_fods_impl(writer: &mut dyn Write, book: &mut WorkBook) -> Result<(), Od
     sanity_checks(book)?;
     calculations(book)?;
 
-    convert(book)?;
-
     let mut xml_out = XmlWriter::new(writer).line_break(true);
     write_fods_content(book, &mut xml_out)?;
 
     Ok(())
 }
 
-fn convert(book: &mut WorkBook) -> Result<(), OdsError> {
-    for v in book.tablestyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.rowstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.colstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.cellstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.paragraphstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.textstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.rubystyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.graphicstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-
-    for v in book.formats_boolean.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_number.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_percentage.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_currency.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_text.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_datetime.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_timeduration.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-
-    Ok(())
-}
+/// A flat document has one place for all the styles.
+const ALL_ORIGINS: [StyleOrigin; 2] = [StyleOrigin::Styles, StyleOrigin::Content];
 
 fn write_fods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
     let xmlns = book
@@ -333,9 +283,9 @@ fn write_fods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
     write_office_meta(book, xml_out)?;
     write_office_settings(book, xml_out)?;
     write_office_scripts(book, xml_out)?;
-    write_office_font_face_decls(book, StyleOrigin::Content, xml_out)?;
-    write_office_styles(book, StyleOrigin::Content, xml_out)?;
-    write_office_automatic_styles(book, StyleOrigin::Content, xml_out)?;
+    write_office_font_face_decls(book, &ALL_ORIGINS, xml_out)?;
+    write_office_styles(book, &ALL_ORIGINS, xml_out)?;
+    write_office_automatic_styles(book, &ALL_ORIGINS, xml_out)?;
     write_office_master_styles(book, xml_out)?;
     write_office_body(book, xml_out)?;
 
@@ -1281,9 +1231,9 @@ fn write_ods_styles(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Resu
     write_xmlns(xmlns, xml_out)?;
     xml_out.attr_esc("office:version", book.version())?;
 
-    write_office_font_face_decls(book, StyleOrigin::Styles, xml_out)?;
-    write_office_styles(book, StyleOrigin::Styles, xml_out)?;
-    write_office_automatic_styles(book, StyleOrigin::Styles, xml_out)?;
+    write_office_font_face_decls(book, &[StyleOrigin::Styles], xml_out)?;
+    write_office_styles(book, &[StyleOrigin::Styles], xml_out)?;
+    write_office_automatic_styles(book, &[StyleOrigin::Styles], xml_out)?;
     write_office_master_styles(book, xml_out)?;
 
     xml_out.end_elem("office:document-styles")?;
@@ -1396,8 +1346,8 @@ fn write_ods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Res
     xml_out.attr_esc("office:version", book.version())?;
 
     write_office_scripts(book, xml_out)?;
-    write_office_font_face_decls(book, StyleOrigin::Content, xml_out)?;
-    write_office_automatic_styles(book, StyleOrigin::Content, xml_out)?;
+    write_office_font_face_decls(book, &[StyleOrigin::Content], xml_out)?;
+    write_office_automatic_styles(book, &[StyleOrigin::Content], xml_out)?;
 
     write_office_body(book, xml_out)?;
 
@@ -2476,7 +2426,7 @@ fn write_event_listeners(
 
 fn write_office_font_face_decls(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origin: &[StyleOrigin],
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     xml_out.elem_if(!book.fonts.is_empty(), "office:font-face-decls")?;
@@ -2487,10 +2437,10 @@ fn write_office_font_face_decls(
 
 fn write_style_font_face(
     fonts: &HashMap<String, FontFaceDecl>,
-    origin: StyleOrigin,
+    origin: &[StyleOrigin],
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
-    for font in fonts.values().filter(|s| s.origin() == origin) {
+    for font in fonts.values().filter(|s| origin.contains(&s.origin())) {
         xml_out.empty("style:font-face")?;
         xml_out.attr_esc("style:name", font.name())?;
         for (a, v) in font.attrmap().iter() {
@@ -2502,7 +2452,7 @@ fn write_style_font_face(
 
 fn write_office_styles(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origin: &[StyleOrigin],
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     xml_out.elem("office:styles")?;
@@ -2516,7 +2466,7 @@ fn write_office_styles(
 
 fn write_office_automatic_styles(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origin: &[StyleOrigin],
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     xml_out.elem("office:automatic-styles")?;
@@ -2539,47 +2489,47 @@ fn write_office_master_styles(
 
 fn write_styles(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origin: &[StyleOrigin],
     styleuse: StyleUse,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     for style in book.colstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origin.contains(&style.origin()) && style.styleuse() == styleuse {
             write_colstyle(style, xml_out)?;
         }
     }
     for style in book.rowstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origin.contains(&style.origin()) && style.styleuse() == styleuse {
             write_rowstyle(style, xml_out)?;
         }
     }
     for style in book.tablestyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origin.contains(&style.origin()) && style.styleuse() == styleuse {
             write_tablestyle(style, xml_out)?;
         }
     }
     for style in book.cellstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origin.contains(&style.origin()) && style.styleuse() == styleuse {
             write_cellstyle(style, xml_out)?;
         }
     }
     for style in book.paragraphstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origin.contains(&style.origin()) && style.styleuse() == styleuse {
             write_paragraphstyle(style, xml_out)?;
         }
     }
     for style in book.textstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origin.contains(&style.origin()) && style.styleuse() == styleuse {
             write_textstyle(style, xml_out)?;
         }
     }
     for style in book.rubystyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origin.contains(&style.origin()) && style.styleuse() == styleuse {
             write_rubystyle(style, xml_out)?;
         }
     }
     for style in book.graphicstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origin.contains(&style.origin()) && style.styleuse() == styleuse {
             write_graphicstyle(style, xml_out)?;
         }
     }
@@ -2948,7 +2898,7 @@ fn write_graphicstyle(
 
 fn write_valuestyles(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origin: &[StyleOrigin],
     style_use: StyleUse,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
@@ -2964,13 +2914,13 @@ fn write_valuestyles(
 
 fn write_valuestyle<T: ValueFormatTrait>(
     value_formats: &HashMap<String, T>,
-    origin: StyleOrigin,
+    origin: &[StyleOrigin],
     styleuse: StyleUse,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     for value_format in value_formats
         .values()
-        .filter(|s| s.origin() == origin && s.styleuse() == styleuse)
+        .filter(|s| origin.contains(&s.origin()) && s.styleuse() == styleuse)
     {
         let tag = match value_format.value_type() {
             ValueType::Empty => unreachable!(),
-- 
2.43.0


From 2f025faf0248d83c3850d5150d5b5536ab2da80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:42 +0000
Subject: [PATCH 21/38] fix: a named style doesn't replace the default style
 when loading

---
 src/io/read.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index 0d88386..1b9e2f9 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -3623,6 +3623,12 @@ fn copy_style_attr(
         }
     }
 
+    // A default-style has no name of its own. An autogenerated name might be used
+    // by one of the styles that follow, which would then replace the default-style.
+    if name.is_none() && super_tag.name().as_ref() == b"style:default-style" {
+        name = Some("style:default-style".to_string());
+    }
+
     Ok(name.unwrap_or_default())
 }
 
-- 
2.43.0


From fe3e22eaefc1de3041bb00e18a9adb0a3153b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:42 +0000
Subject: [PATCH 22/38] fix: tab stops of a paragraph style without paragraph
 attributes survive a save

---
 src/io/write.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 980aeda..911f357 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -2715,7 +2715,9 @@ fn write_paragraphstyle(
     style: &ParagraphStyle,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
-    let is_empty = style.paragraphstyle().is_empty() && style.textstyle().is_empty();
+    let is_empty = style.paragraphstyle().is_empty()
+        && style.tabstops().is_none()
+        && style.textstyle().is_empty();
 
     if style.styleuse() == StyleUse::Default {
         xml_out.elem_if(!is_empty, "style:default-style")?;
@@ -2734,7 +2736,7 @@ fn write_paragraphstyle(
         }
     }
 
-    if !style.paragraphstyle().is_empty() {
+    if !style.paragraphstyle().is_empty() || style.tabstops().is_some() {
         if style.tabstops().is_none() {
             xml_out.empty("style:paragraph-properties")?;
             for (a, v) in style.paragraphstyle().iter() {
-- 
2.43.0


From ac687a35ee3f27664f37a6cd8d496da7c4686bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:53 +0000
Subject: [PATCH 23/38] fix: an empty-element tag means the same as a start-tag
 with its end-tag

---
 src/io/read.rs | 235 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 182 insertions(+), 53 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 1b9e2f9..f1cf56f 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -484,7 +484,9 @@ fn read_ods_manifest(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result
                 complete = true;
             }
 
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"manifest:file-entry" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"manifest:file-entry" =>
+            {
                 let mut manifest = Manifest::default();
 
                 for attr in xml_tag.attributes().with_checks(false) {
@@ -1047,7 +1049,9 @@ fn read_table(
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:table-columns" => {}
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-columns" => {}
 
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:table-column" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"table:table-column" =>
+            {
                 let col_repeat = read_table_col_attr(ctx, &mut sheet, xml_tag, col)?;
                 col += col_repeat;
             }
@@ -1088,6 +1092,9 @@ fn read_table(
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-rows" => {
                 // noop
             }
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:table-row" => {
+                row += read_table_row_attr(ctx, &mut sheet, row, xml_tag)?;
+            }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:table-row" => {
                 col = 0;
                 row_repeat = read_table_row_attr(ctx, &mut sheet, row, xml_tag)?;
@@ -1489,14 +1496,20 @@ fn read_table_cell(
                     tc.content = append_text(new_txt, tc.content);
                 }
 
-                Event::Start(xml_tag) if xml_tag.name().as_ref() == b"office:annotation" => {
-                    let annotation = read_annotation(ctx, xml, xml_tag)?;
+                Event::Start(xml_tag) | Event::Empty(xml_tag)
+                    if xml_tag.name().as_ref() == b"office:annotation" =>
+                {
+                    let empty_tag = matches!(evt, Event::Empty(_));
+                    let annotation = read_annotation(ctx, xml, xml_tag, empty_tag)?;
                     cell.get_or_insert_with(CellData::default)
                         .extra_mut()
                         .annotation = Some(annotation);
                 }
-                Event::Start(xml_tag) if xml_tag.name().as_ref() == b"draw:frame" => {
-                    let draw_frame = read_draw_frame(ctx, xml, xml_tag)?;
+                Event::Start(xml_tag) | Event::Empty(xml_tag)
+                    if xml_tag.name().as_ref() == b"draw:frame" =>
+                {
+                    let empty_tag = matches!(evt, Event::Empty(_));
+                    let draw_frame = read_draw_frame(ctx, xml, xml_tag, empty_tag)?;
                     cell.get_or_insert_with(CellData::default)
                         .extra_mut()
                         .draw_frames
@@ -1701,6 +1714,7 @@ fn read_annotation(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<Box<Annotation>, OdsError> {
     let mut annotation = Box::new(Annotation::new_empty());
 
@@ -1720,6 +1734,10 @@ fn read_annotation(
         }
     }
 
+    if empty_tag {
+        return Ok(annotation);
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -1768,11 +1786,16 @@ fn read_draw_frame(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<DrawFrame, OdsError> {
     let mut draw_frame = DrawFrame::new();
 
     copy_attr2(ctx, draw_frame.attrmap_mut(), super_tag)?;
 
+    if empty_tag {
+        return Ok(draw_frame);
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -2017,6 +2040,7 @@ fn read_page_style(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     let mut pl = PageStyle::new_empty();
     for attr in super_tag.attributes().with_checks(false) {
@@ -2038,6 +2062,11 @@ fn read_page_style(
     let mut headerstyle = false;
     let mut footerstyle = false;
 
+    if empty_tag {
+        ctx.book.add_pagestyle(pl);
+        return Ok(());
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -2052,18 +2081,14 @@ fn read_page_style(
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:page-layout-properties" => {}
 
-            Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"style:header-style" =>
-            {
+            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header-style" => {
                 headerstyle = true;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:header-style" => {
                 headerstyle = false;
             }
 
-            Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"style:footer-style" =>
-            {
+            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer-style" => {
                 footerstyle = true;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:footer-style" => {
@@ -2288,7 +2313,8 @@ fn read_office_master_styles(
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"style:master-page" =>
             {
-                read_master_page(ctx, xml, origin, xml_tag)?;
+                let empty_tag = matches!(evt, Event::Empty(_));
+                read_master_page(ctx, xml, origin, xml_tag, empty_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:master-styles" => {
                 break;
@@ -2313,6 +2339,7 @@ fn read_master_page(
     xml: &mut OdsXmlReader<'_>,
     _origin: StyleOrigin,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     let mut masterpage = MasterPage::new_empty();
 
@@ -2339,36 +2366,48 @@ fn read_master_page(
         }
     }
 
+    if empty_tag {
+        ctx.book.add_masterpage(masterpage);
+        return Ok(());
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        let empty_tag = matches!(evt, Event::Empty(_));
         if cfg!(feature = "dump_xml") {
             println!(" read_master_page {:?}", evt);
         }
         match &evt {
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header" => {
-                masterpage.set_header(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:header" =>
+            {
+                masterpage.set_header(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header-first" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header-first" => {
-                masterpage.set_header_first(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:header-first" =>
+            {
+                masterpage.set_header_first(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header-left" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header-left" => {
-                masterpage.set_header_left(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:header-left" =>
+            {
+                masterpage.set_header_left(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer" => {
-                masterpage.set_footer(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:footer" =>
+            {
+                masterpage.set_footer(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer-first" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer-first" => {
-                masterpage.set_footer_first(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:footer-first" =>
+            {
+                masterpage.set_footer_first(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer-left" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer-left" => {
-                masterpage.set_footer_left(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:footer-left" =>
+            {
+                masterpage.set_footer_left(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:master-page" => {
                 break;
@@ -2393,6 +2432,7 @@ fn read_headerfooter(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<HeaderFooter, OdsError> {
     let mut hf = HeaderFooter::new();
     let mut content = Vec::new();
@@ -2408,6 +2448,10 @@ fn read_headerfooter(
         }
     }
 
+    if empty_tag {
+        return Ok(hf);
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -2494,7 +2538,7 @@ fn read_office_styles(
                     || xml_tag.name().as_ref() == b"number:percentage-style"
                     || xml_tag.name().as_ref() == b"number:text-style" =>
             {
-                read_value_format(ctx, xml, origin, StyleUse::Named, xml_tag)?;
+                read_value_format(ctx, xml, origin, StyleUse::Named, xml_tag, empty_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:styles" => {
                 break;
@@ -2541,13 +2585,13 @@ fn read_office_automatic_styles(
                     || xml_tag.name().as_ref() == b"number:percentage-style"
                     || xml_tag.name().as_ref() == b"number:text-style" =>
             {
-                read_value_format(ctx, xml, origin, StyleUse::Automatic, xml_tag)?;
+                read_value_format(ctx, xml, origin, StyleUse::Automatic, xml_tag, empty_tag)?;
             }
 
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"style:page-layout" =>
             {
-                read_page_style(ctx, xml, xml_tag)?;
+                read_page_style(ctx, xml, xml_tag, empty_tag)?;
             }
 
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:automatic-styles" => {
@@ -2574,41 +2618,98 @@ fn read_value_format(
     origin: StyleOrigin,
     styleuse: StyleUse,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     match super_tag.name().as_ref() {
         b"number:boolean-style" => {
             let mut valuestyle = ValueFormatBoolean::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_boolean_format(valuestyle);
         }
         b"number:date-style" => {
             let mut valuestyle = ValueFormatDateTime::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_datetime_format(valuestyle);
         }
         b"number:time-style" => {
             let mut valuestyle = ValueFormatTimeDuration::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_timeduration_format(valuestyle);
         }
         b"number:number-style" => {
             let mut valuestyle = ValueFormatNumber::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_number_format(valuestyle);
         }
         b"number:currency-style" => {
             let mut valuestyle = ValueFormatCurrency::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_currency_format(valuestyle);
         }
         b"number:percentage-style" => {
             let mut valuestyle = ValueFormatPercentage::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_percentage_format(valuestyle);
         }
         b"number:text-style" => {
             let mut valuestyle = ValueFormatText::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_text_format(valuestyle);
         }
         _ => {
@@ -2632,6 +2733,7 @@ fn read_value_format_parts<T: ValueFormatTrait>(
     styleuse: StyleUse,
     valuestyle: &mut T,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     //
     valuestyle.set_origin(origin);
@@ -2639,6 +2741,10 @@ fn read_value_format_parts<T: ValueFormatTrait>(
     let name = copy_style_attr(ctx, valuestyle.attrmap_mut(), super_tag)?;
     valuestyle.set_name(name.as_str());
 
+    if empty_tag {
+        return Ok(());
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -3990,8 +4096,11 @@ fn read_office_meta(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:document-statistic" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:user-defined" => {
-                let userdefined = read_metadata_user_defined(ctx, xml, xml_tag)?;
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:user-defined" =>
+            {
+                let empty_tag = matches!(evt, Event::Empty(_));
+                let userdefined = read_metadata_user_defined(ctx, xml, xml_tag, empty_tag)?;
                 ctx.book.metadata.user_defined.push(userdefined);
             }
 
@@ -4161,6 +4270,7 @@ fn read_metadata_user_defined(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<MetaUserDefined, OdsError> {
     let mut user_defined = MetaUserDefined::default();
     let mut value_type = None;
@@ -4186,6 +4296,10 @@ fn read_metadata_user_defined(
         }
     }
 
+    if empty_tag {
+        return Ok(user_defined);
+    }
+
     let mut text = String::new();
     let mut buf = ctx.pop_buf();
     loop {
@@ -4383,10 +4497,13 @@ fn read_config_item_set(
             println!(" read_office_item_set {:?}", evt);
         }
         match &evt {
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
-                let (name, val) = read_config_item(ctx, xml, xml_tag)?;
-                config_set.insert(name, val);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"config:config-item" =>
+            {
+                let empty_tag = matches!(evt, Event::Empty(_));
+                if let Some((name, val)) = read_config_item(ctx, xml, xml_tag, empty_tag)? {
+                    config_set.insert(name, val);
+                }
             }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item-set" => {
                 let (name, val) = read_config_item_set(ctx, xml, xml_tag)?;
@@ -4579,10 +4696,13 @@ fn read_config_item_map_entry(
             println!(" read_config_item_map_entry {:?}", evt);
         }
         match &evt {
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
-                let (name, val) = read_config_item(ctx, xml, xml_tag)?;
-                config_set.insert(name, ConfigItem::from(val));
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"config:config-item" =>
+            {
+                let empty_tag = matches!(evt, Event::Empty(_));
+                if let Some((name, val)) = read_config_item(ctx, xml, xml_tag, empty_tag)? {
+                    config_set.insert(name, ConfigItem::from(val));
+                }
             }
 
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item-set" => {
@@ -4623,7 +4743,8 @@ fn read_config_item(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
-) -> Result<(String, ConfigValue), OdsError> {
+    empty_tag: bool,
+) -> Result<Option<(String, ConfigValue)>, OdsError> {
     #[derive(PartialEq)]
     enum ConfigValueType {
         None,
@@ -4684,6 +4805,14 @@ fn read_config_item(
         ));
     };
 
+    if empty_tag {
+        return Ok(match val_type {
+            ConfigValueType::Base64Binary => Some((name, ConfigValue::Base64Binary(String::new()))),
+            ConfigValueType::String => Some((name, ConfigValue::String(String::new()))),
+            _ => None,
+        });
+    }
+
     let mut value = ctx.pop_buf();
     let mut buf = ctx.pop_buf();
     loop {
@@ -4750,7 +4879,7 @@ fn read_config_item(
         return Err(OdsError::Ods("config-item without value???".to_string()));
     };
 
-    Ok((name, config_val))
+    Ok(Some((name, config_val)))
 }
 
 // Reads a part of the XML as XmlTag's.
-- 
2.43.0


From b0ac546e13014fe1ff0ea873884c82c5c0a4393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:31 +0000
Subject: [PATCH 24/38] fix: meta.xml declares the namespaces it uses, and
 declarations survive a change between ods and fods

---
 src/io/mod.rs   |  7 +++++++
 src/io/write.rs | 43 +++++++++++++++++++++++--------------------
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index c29bced..716f457 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -31,6 +31,13 @@ impl NamespaceMap {
         self.map.insert(Cow::Borrowed(k), Cow::Borrowed(v));
     }
 
+    /// Adds the namespaces with a prefix that is unknown here.
+    pub(crate) fn insert_missing(&mut self, other: &NamespaceMap) {
+        for (k, v) in &other.map {
+            self.map.entry(k.clone()).or_insert_with(|| v.clone());
+        }
+    }
+
     pub(crate) fn entries(&self) -> impl Iterator<Item = (&Cow<'static, str>, &Cow<'static, str>)> {
         self.map.iter()
     }
diff --git a/src/io/write.rs b/src/io/write.rs
index 911f357..7718342 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -171,10 +171,11 @@ fn write_fods_impl(writer: &mut dyn Write, book: &mut WorkBook) -> Result<(), Od
 const ALL_ORIGINS: [StyleOrigin; 2] = [StyleOrigin::Styles, StyleOrigin::Content];
 
 fn write_fods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    let xmlns = book
-        .xmlns
-        .entry("meta.xml".into())
-        .or_insert_with(NamespaceMap::new);
+    let xmlns = part_xmlns(
+        book,
+        "fods.xml",
+        &["content.xml", "styles.xml", "meta.xml", "settings.xml"],
+    );
 
     xmlns.insert_str(
         "xmlns:office",
@@ -721,6 +722,18 @@ fn write_ods_manifest(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result
     Ok(())
 }
 
+/// Namespaces for one part of the document.
+/// Includes what has been declared when the document had another layout.
+fn part_xmlns<'a>(book: &'a mut WorkBook, part: &str, others: &[&str]) -> &'a mut NamespaceMap {
+    let mut xmlns = book.xmlns.remove(part).unwrap_or_else(NamespaceMap::new);
+    for other in others {
+        if let Some(other) = book.xmlns.get(*other) {
+            xmlns.insert_missing(other);
+        }
+    }
+    book.xmlns.entry(part.to_string()).or_insert(xmlns)
+}
+
 fn write_xmlns(xmlns: &NamespaceMap, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
     for (k, v) in xmlns.entries() {
         match k {
@@ -736,10 +749,7 @@ fn write_xmlns(xmlns: &NamespaceMap, xml_out: &mut OdsXmlWriter<'_>) -> Result<(
 }
 
 fn write_ods_metadata(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    let xmlns = book
-        .xmlns
-        .entry("meta.xml".into())
-        .or_insert_with(NamespaceMap::new);
+    let xmlns = part_xmlns(book, "meta.xml", &["fods.xml"]);
 
     xmlns.insert_str(
         "xmlns:meta",
@@ -749,6 +759,8 @@ fn write_ods_metadata(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
         "xmlns:office",
         "urn:oasis:names:tc:opendocument:xmlns:office:1.0",
     );
+    xmlns.insert_str("xmlns:dc", "http://purl.org/dc/elements/1.1/");
+    xmlns.insert_str("xmlns:xlink", "http://www.w3.org/1999/xlink");
 
     xml_out.dtd("UTF-8")?;
 
@@ -908,10 +920,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
 }
 
 fn write_ods_settings(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    let xmlns = book
-        .xmlns
-        .entry("settings.xml".into())
-        .or_insert_with(NamespaceMap::new);
+    let xmlns = part_xmlns(book, "settings.xml", &["fods.xml"]);
 
     xmlns.insert_str(
         "xmlns:office",
@@ -1137,10 +1146,7 @@ fn write_config_item(
 }
 
 fn write_ods_styles(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    let xmlns = book
-        .xmlns
-        .entry("styles.xml".into())
-        .or_insert_with(NamespaceMap::new);
+    let xmlns = part_xmlns(book, "styles.xml", &["fods.xml"]);
 
     xmlns.insert_str(
         "xmlns:meta",
@@ -1244,10 +1250,7 @@ fn write_ods_styles(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Resu
 }
 
 fn write_ods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    let xmlns = book
-        .xmlns
-        .entry("content.xml".into())
-        .or_insert_with(NamespaceMap::new);
+    let xmlns = part_xmlns(book, "content.xml", &["fods.xml"]);
 
     xmlns.insert_str(
         "xmlns:meta",
-- 
2.43.0


From 653518ec47753d8b19852be88d883f03c0480f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:45 +0000
Subject: [PATCH 25/38] fix: a failed save doesn't leave an archive with a
 truncated part that looks complete

---
 src/io/write.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 7718342..0debeee 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -303,6 +303,23 @@ fn write_ods_impl<W: Write + Seek>(
     cfg: OdsWriteOptions,
     mut zip_writer: ZipWriter<W>,
     book: &mut WorkBook,
+) -> Result<(), OdsError> {
+    if let Err(e) = write_ods_parts(cfg, &mut zip_writer, book) {
+        // Dropping the zip-writer finishes the archive. Without this
+        // an incomplete part would look like a complete one.
+        let _ = zip_writer.abort_file();
+        return Err(e);
+    }
+
+    zip_writer.finish()?;
+
+    Ok(())
+}
+
+fn write_ods_parts<W: Write + Seek>(
+    cfg: OdsWriteOptions,
+    mut zip_writer: &mut ZipWriter<W>,
+    book: &mut WorkBook,
 ) -> Result<(), OdsError> {
     sanity_checks(book)?;
     calculations(book)?;
@@ -313,7 +330,7 @@ fn write_ods_impl<W: Write + Seek>(
         "mimetype",
         FileOptions::<()>::default().compression_method(CompressionMethod::Stored),
     )?;
-    write_ods_mimetype(&mut zip_writer)?;
+    write_ods_mimetype(zip_writer)?;
 
     zip_writer.add_directory("META-INF", FileOptions::<()>::default())?;
     zip_writer.start_file(
@@ -356,9 +373,7 @@ fn write_ods_impl<W: Write + Seek>(
     )?;
     write_ods_content(book, &mut XmlWriter::new(&mut zip_writer))?;
 
-    write_ods_extra(&cfg, &mut zip_writer, book)?;
-
-    zip_writer.finish()?;
+    write_ods_extra(&cfg, zip_writer, book)?;
 
     Ok(())
 }
-- 
2.43.0


From f9377f0e3c49be8132e2bf03bf576398b9bdbb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:44 +0000
Subject: [PATCH 26/38] fix: iter_cols stops at the end of the range when the
 last cell is empty

---
 src/sheet_.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 169cd26..931b502 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -415,11 +415,11 @@ impl<'a> Iterator for IterCols<'a> {
 
     #[allow(clippy::comparison_chain)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.cell.0 == self.end.0 && self.cell.1 == self.end.1 {
-            return None;
-        }
-
         loop {
+            if self.cell.0 >= self.end.0 || self.cell.1 >= self.end.1 {
+                return None;
+            }
+
             let r = self.cell.0;
             let c = self.cell.1;
             let d = self.sheet.cell_ref(self.cell.0, self.cell.1);
-- 
2.43.0


From d8ba398a894fa3f444658bbdc8ae42e1f46692b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:50 +0000
Subject: [PATCH 27/38] fix: a new CellContent has a repeat count of 1

---
 src/cell_.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/cell_.rs b/src/cell_.rs
index d2c9d70..fa324a8 100644
--- a/src/cell_.rs
+++ b/src/cell_.rs
@@ -395,7 +395,7 @@ impl<'a> CellContentRef<'a> {
 }
 
 /// A copy of the relevant data for a spreadsheet cell.
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct CellContent {
     /// Cell value.
     pub value: Value,
@@ -417,6 +417,22 @@ pub struct CellContent {
     pub draw_frames: Vec<DrawFrame>,
 }
 
+impl Default for CellContent {
+    fn default() -> Self {
+        Self {
+            value: Default::default(),
+            style: None,
+            formula: None,
+            repeat: 1,
+            validation_name: None,
+            span: Default::default(),
+            matrix_span: Default::default(),
+            annotation: None,
+            draw_frames: Default::default(),
+        }
+    }
+}
+
 impl CellContent {
     /// Empty.
     #[inline]
-- 
2.43.0


From b2dc4d00ea8eeb21c986e0ea0e4d60e9d7cda4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:54 +0000
Subject: [PATCH 28/38] fix: read the text embedded in a number format

---
 src/io/read.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index f1cf56f..d7f017c 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -3081,6 +3081,7 @@ fn read_part_number(
     copy_attr2(ctx, part.attrmap_mut(), super_tag)?;
 
     if !empty_tag {
+        let mut embedded_text: Option<String> = None;
         let mut buf = ctx.pop_buf();
         loop {
             let evt = xml.read_event_into(&mut buf)?;
@@ -3106,10 +3107,24 @@ fn read_part_number(
                             }
                         }
                     }
+                    if let Event::Start(_) = &evt {
+                        embedded_text = Some(String::new());
+                    }
+                }
+                Event::End(xml_tag) if xml_tag.name().as_ref() == b"number:embedded-text" => {
+                    if let Some(text) = embedded_text.take() {
+                        part.set_content(text);
+                    }
+                }
+                Event::GeneralRef(xml_ref) => {
+                    if let Some(text) = &mut embedded_text {
+                        text.push_str(&entity(xml_ref)?);
+                    }
                 }
-                Event::End(xml_tag) if xml_tag.name().as_ref() == b"number:embedded-text" => {}
                 Event::Text(xml_text) => {
-                    part.set_content(parse_string(xml_text.as_ref())?);
+                    if let Some(text) = &mut embedded_text {
+                        text.push_str(&xml_text.decode()?);
+                    }
                 }
                 Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
                     break;
-- 
2.43.0


From d98e3b980de52490fec120ff53974c2b62795875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:39 +0000
Subject: [PATCH 29/38] fix: don't panic on empty groups and invalid repeat
 counts in a table

---
 src/io/read.rs | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index d7f017c..bf43a9d 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1026,7 +1026,8 @@ fn read_table(
                 col_group.push(v);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-column-group" => {
-                if let Some(mut v) = col_group.pop() {
+                // ignore empty groups
+                if let Some(mut v) = col_group.pop().filter(|v| v.from < col) {
                     v.set_to(col - 1);
                     sheet.group_cols.push(v);
                 }
@@ -1036,7 +1037,9 @@ fn read_table(
                 col_range_from = col;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-header-columns" => {
-                if let Some(header_cols) = &mut sheet.header_cols {
+                if col == col_range_from {
+                    // no columns
+                } else if let Some(header_cols) = &mut sheet.header_cols {
                     header_cols.to = col - 1;
                 } else {
                     sheet.header_cols = Some(Header {
@@ -1053,7 +1056,7 @@ fn read_table(
                 if xml_tag.name().as_ref() == b"table:table-column" =>
             {
                 let col_repeat = read_table_col_attr(ctx, &mut sheet, xml_tag, col)?;
-                col += col_repeat;
+                col = add_repeat(col, col_repeat)?;
             }
 
             //
@@ -1064,11 +1067,10 @@ fn read_table(
                 row_group.push(v);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-row-group" => {
-                if let Some(mut v) = row_group.pop() {
+                // ignore empty groups. there are no unbalanced tags.
+                if let Some(mut v) = row_group.pop().filter(|v| v.from < row) {
                     v.set_to(row - 1);
                     sheet.group_rows.push(v);
-                } else {
-                    // there are no unbalanced tags.
                 }
             }
 
@@ -1076,7 +1078,9 @@ fn read_table(
                 row_range_from = row;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-header-rows" => {
-                if let Some(header_rows) = &mut sheet.header_rows {
+                if row == row_range_from {
+                    // no rows
+                } else if let Some(header_rows) = &mut sheet.header_rows {
                     header_rows.to = row - 1;
                 } else {
                     sheet.header_rows = Some(Header {
@@ -1093,7 +1097,7 @@ fn read_table(
                 // noop
             }
             Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:table-row" => {
-                row += read_table_row_attr(ctx, &mut sheet, row, xml_tag)?;
+                row = add_repeat(row, read_table_row_attr(ctx, &mut sheet, row, xml_tag)?)?;
             }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:table-row" => {
                 col = 0;
@@ -1104,7 +1108,7 @@ fn read_table(
                     // row-repeat is ignored unless there is any cell-data in that row.
                     sheet.set_row_repeat(row, row_repeat);
                 }
-                row += row_repeat;
+                row = add_repeat(row, row_repeat)?;
                 row_repeat = 1;
                 col_data = false;
             }
@@ -1118,7 +1122,7 @@ fn read_table(
             {
                 let (cell_repeat, have_data) =
                     read_table_cell(ctx, xml, &mut sheet, row, col, xml_tag, empty_tag)?;
-                col += cell_repeat;
+                col = add_repeat(col, cell_repeat)?;
                 col_data |= have_data;
             }
 
@@ -1141,6 +1145,20 @@ fn read_table(
     Ok(())
 }
 
+// Parses a repeat-count. It's at least one.
+fn parse_repeat(value: &[u8]) -> Result<u32, OdsError> {
+    match parse_u32(value)? {
+        0 => Err(OdsError::Parse("invalid repeat", Some("0".to_string()))),
+        v => Ok(v),
+    }
+}
+
+// Position after a repeated row/column.
+fn add_repeat(pos: u32, repeat: u32) -> Result<u32, OdsError> {
+    pos.checked_add(repeat)
+        .ok_or_else(|| OdsError::Parse("invalid repeat", Some(repeat.to_string())))
+}
+
 // Reads the table attributes.
 fn read_table_attr(
     ctx: &mut OdsContext,
@@ -1189,7 +1207,7 @@ fn read_table_row_attr(
         match attr? {
             // table:default-cell-style-name 19.615, table:visibility 19.749 and xml:id 19.914.
             attr if attr.key.as_ref() == b"table:number-rows-repeated" => {
-                row_repeat = parse_u32(&attr.value)?;
+                row_repeat = parse_repeat(&attr.value)?;
             }
             attr if attr.key.as_ref() == b"table:style-name" => {
                 let name = attr.decode_and_unescape_value(ctx.decoder)?;
@@ -1287,7 +1305,7 @@ fn read_table_col_attr(
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
             attr if attr.key.as_ref() == b"table:number-columns-repeated" => {
-                col_repeat = parse_u32(&attr.value)?;
+                col_repeat = parse_repeat(&attr.value)?;
             }
             attr if attr.key.as_ref() == b"table:style-name" => {
                 let name = attr.decode_and_unescape_value(ctx.decoder)?;
@@ -1372,7 +1390,7 @@ fn read_table_cell(
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
             attr if attr.key.as_ref() == b"table:number-columns-repeated" => {
-                repeat = parse_u32(&attr.value)?;
+                repeat = parse_repeat(&attr.value)?;
             }
             attr if attr.key.as_ref() == b"table:number-rows-spanned" => {
                 let row_span = parse_u32(&attr.value)?;
-- 
2.43.0


From 473fda207dd84e81584a470af06b42ec442d1b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:39 +0000
Subject: [PATCH 30/38] fix: size hints of the cell iterators, peek_cell before
 the first cell

---
 src/sheet_.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 931b502..45409b4 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -276,6 +276,9 @@ pub struct CellIter<'a> {
 impl CellIter<'_> {
     /// Returns the (row,col) of the next cell.
     pub fn peek_cell(&mut self) -> Option<(u32, u32)> {
+        if self.k_data.is_none() {
+            self.load_next_data();
+        }
         self.k_data.copied()
     }
 
@@ -314,7 +317,8 @@ impl<'a> Iterator for CellIter<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.iter.size_hint()
+        let n = self.iter.len() + usize::from(self.k_data.is_some());
+        (n, Some(n))
     }
 }
 
@@ -342,7 +346,7 @@ impl<'a> IterRows<'a> {
             iter: sheet.data.range(range),
             start,
             end,
-            hint: (end.0 - start.0) as usize * (end.1 * start.1) as usize,
+            hint: end.0.saturating_sub(start.0) as usize * end.1.saturating_sub(start.1) as usize,
         }
     }
 }
@@ -449,7 +453,10 @@ impl<'a> Iterator for IterCols<'a> {
     fn size_hint(&self) -> (usize, Option<usize>) {
         (
             0,
-            Some((self.end.0 - self.start.0) as usize * (self.end.1 - self.start.1) as usize),
+            Some(
+                self.end.0.saturating_sub(self.start.0) as usize
+                    * self.end.1.saturating_sub(self.start.1) as usize,
+            ),
         )
     }
 }
-- 
2.43.0


From 58d5701b3fe75f62dcd7c9fd7a703bda35bf2edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:39 +0000
Subject: [PATCH 31/38] fix: keep line breaks and tabs from being normalised by
 xml readers

---
 src/io/xmlwriter.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/io/xmlwriter.rs b/src/io/xmlwriter.rs
index 7df628c..072b242 100644
--- a/src/io/xmlwriter.rs
+++ b/src/io/xmlwriter.rs
@@ -168,7 +168,7 @@ impl<W: Write> XmlWriter<W> {
         self.buf.push_str(name);
         self.buf.push('>');
 
-        self.escape(text)?;
+        self.escape(text, false)?;
 
         self.buf.push('<');
         self.buf.push('/');
@@ -304,14 +304,17 @@ impl<W: Write> XmlWriter<W> {
         self.escape_name(name)?;
         self.buf.push('=');
         self.buf.push('"');
-        self.escape(value)?;
+        self.escape(value, true)?;
         self.buf.push('"');
         Ok(())
     }
 
     /// Escape text
-    fn escape<T: Display + ?Sized>(&mut self, text: &T) -> io::Result<()> {
-        fn escape_impl(text: &[u8], tmp2: &mut Vec<u8>) {
+    ///
+    /// An xml reader replaces literal line breaks in text with "\n", and any literal
+    /// white space in attribute values with " ". They need a character reference.
+    fn escape<T: Display + ?Sized>(&mut self, text: &T, attr: bool) -> io::Result<()> {
+        fn escape_impl(text: &[u8], tmp2: &mut Vec<u8>, attr: bool) {
             tmp2.clear();
             for c in text {
                 match c {
@@ -330,6 +333,12 @@ impl<W: Write> XmlWriter<W> {
                     b'>' => {
                         let _ = write!(tmp2, "&gt;");
                     }
+                    b'\r' => {
+                        let _ = write!(tmp2, "&#13;");
+                    }
+                    b'\t' | b'\n' if attr => {
+                        let _ = write!(tmp2, "&#{};", c);
+                    }
                     _ => tmp2.push(*c),
                 };
             }
@@ -337,7 +346,7 @@ impl<W: Write> XmlWriter<W> {
 
         self.tmp.clear();
         let _ = write!(self.tmp, "{}", text);
-        escape_impl(&self.tmp, &mut self.tmp2);
+        escape_impl(&self.tmp, &mut self.tmp2, attr);
         // Safety: this is always from a string buffer.
         unsafe {
             self.buf.push_str(from_utf8_unchecked(&self.tmp2));
@@ -403,7 +412,7 @@ impl<W: Write> XmlWriter<W> {
     /// Write a text, escapes the text automatically
     pub(crate) fn text_esc<T: Display + ?Sized>(&mut self, text: &T) -> io::Result<()> {
         self.close_elem()?;
-        self.escape(text)?;
+        self.escape(text, false)?;
         Ok(())
     }
 
-- 
2.43.0


From 62550f5eeb5a8ce1a2ea3628e7dbfc59f458c6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:39 +0000
Subject: [PATCH 32/38] fix: don't write an empty row height

---
 src/macro_attr_style.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/macro_attr_style.rs b/src/macro_attr_style.rs
index b33937a..5d9444c 100644
--- a/src/macro_attr_style.rs
+++ b/src/macro_attr_style.rs
@@ -1617,7 +1617,11 @@ macro_rules! style_row_height {
     ($acc:ident) => {
         /// The style:row-height attribute specifies a fixed row height
         pub fn set_row_height(&mut self, height: Length) {
-            self.$acc.set_attr("style:row-height", height.to_string());
+            if height == Length::Default {
+                self.$acc.clear_attr("style:row-height");
+            } else {
+                self.$acc.set_attr("style:row-height", height.to_string());
+            }
         }
 
         /// Parses the row height
-- 
2.43.0


From 9aff51b499d8d5dadb4af77b41e9f134365eb237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:39 +0000
Subject: [PATCH 33/38] fix: order of validation messages and of title and
 description of a frame

---
 src/io/write.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 0debeee..478dc0b 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1453,28 +1453,28 @@ fn write_content_validations(
             )?;
             xml_out.attr_esc("table:base-cell-address", &valid.base_cell())?;
 
-            if let Some(err) = valid.err() {
-                xml_out.elem_if(err.text().is_some(), "table:error-message")?;
+            if let Some(err) = valid.help() {
+                xml_out.elem_if(err.text().is_some(), "table:help-message")?;
                 xml_out.attr("table:display", &err.display())?;
-                xml_out.attr("table:message-type", &err.msg_type())?;
                 if let Some(title) = err.title() {
                     xml_out.attr_esc("table:title", title)?;
                 }
                 if let Some(text) = err.text() {
                     write_xmltag(text, xml_out)?;
                 }
-                xml_out.end_elem_if(err.text().is_some(), "table:error-message")?;
+                xml_out.end_elem_if(err.text().is_some(), "table:help-message")?;
             }
-            if let Some(err) = valid.help() {
-                xml_out.elem_if(err.text().is_some(), "table:help-message")?;
+            if let Some(err) = valid.err() {
+                xml_out.elem_if(err.text().is_some(), "table:error-message")?;
                 xml_out.attr("table:display", &err.display())?;
+                xml_out.attr("table:message-type", &err.msg_type())?;
                 if let Some(title) = err.title() {
                     xml_out.attr_esc("table:title", title)?;
                 }
                 if let Some(text) = err.text() {
                     write_xmltag(text, xml_out)?;
                 }
-                xml_out.end_elem_if(err.text().is_some(), "table:help-message")?;
+                xml_out.end_elem_if(err.text().is_some(), "table:error-message")?;
             }
 
             xml_out.end_elem("table:content-validation")?;
@@ -2336,16 +2336,16 @@ fn write_draw_frame(
         }
     }
 
-    if let Some(desc) = draw_frame.desc() {
-        xml_out.elem("svg:desc")?;
-        xml_out.text_esc(desc)?;
-        xml_out.end_elem("svg:desc")?;
-    }
     if let Some(title) = draw_frame.title() {
         xml_out.elem("svg:title")?;
         xml_out.text_esc(title)?;
         xml_out.end_elem("svg:title")?;
     }
+    if let Some(desc) = draw_frame.desc() {
+        xml_out.elem("svg:desc")?;
+        xml_out.text_esc(desc)?;
+        xml_out.end_elem("svg:desc")?;
+    }
 
     xml_out.end_elem("draw:frame")?;
 
-- 
2.43.0


From c0b193c3861b6bb77eb606a8697db4594e6d9039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:39 +0000
Subject: [PATCH 34/38] fix: mark all cells below a spanned cell as covered

---
 src/io/write.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 478dc0b..e66a0c1 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1721,6 +1721,7 @@ fn write_sheet(
                     synth_row,
                     synth_row_repeat,
                     max_cell,
+                    &spans,
                     &mut row_group_count,
                     &mut row_header,
                     xml_out,
@@ -1736,6 +1737,7 @@ fn write_sheet(
                 cur_row,
                 cur_row_repeat,
                 backward_delta_col,
+                &spans,
                 &mut row_group_count,
                 &mut row_header,
                 xml_out,
@@ -1829,6 +1831,7 @@ fn write_sheet(
             next_row,
             end_row - next_row,
             max_cell,
+            &spans,
             &mut row_group_count,
             &mut row_header,
             xml_out,
@@ -1921,6 +1924,7 @@ fn write_start_current_row(
     cur_row: u32,
     cur_row_repeat: u32,
     backward_delta_col: u32,
+    spans: &[CellRange],
     row_group_count: &mut u32,
     row_header: &mut bool,
     xml_out: &mut OdsXmlWriter<'_>,
@@ -1953,9 +1957,10 @@ fn write_start_current_row(
 
     // Might not be the first column in this row.
     if backward_delta_col > 0 {
-        xml_out.empty("table:table-cell")?;
-        if backward_delta_col > 1 {
-            xml_out.attr_esc("table:number-columns-repeated", &backward_delta_col)?;
+        let mut split = Vec::new();
+        split_hidden(spans, cur_row, 0, backward_delta_col, &mut split);
+        for s in &split {
+            write_empty_cells(s.hidden, s.repeat(), xml_out)?;
         }
     }
 
@@ -2018,6 +2023,7 @@ fn write_empty_rows_before(
     last_row: u32,
     last_row_repeat: u32,
     max_cell: (u32, u32),
+    spans: &[CellRange],
     row_group_count: &mut u32,
     row_header: &mut bool,
     xml_out: &mut OdsXmlWriter<'_>,
@@ -2048,10 +2054,14 @@ fn write_empty_rows_before(
             limit(header_rows.from);
             limit(header_rows.to + 1);
         }
+        for span in spans {
+            limit(span.row());
+            limit(span.to_row() + 1);
+        }
         let repeat = next - r;
 
         write_start_row_groups(sheet, r, repeat, row_group_count, row_header, xml_out)?;
-        write_empty_row(sheet, r, repeat, max_cell, xml_out)?;
+        write_empty_row(sheet, r, repeat, max_cell, spans, xml_out)?;
         write_end_row_groups(sheet, r, repeat, row_group_count, row_header, xml_out)?;
 
         r = next;
@@ -2065,6 +2075,7 @@ fn write_empty_row(
     cur_row: u32,
     row_repeat: u32,
     max_cell: (u32, u32),
+    spans: &[CellRange],
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     xml_out.elem("table:table-row")?;
@@ -2088,8 +2099,11 @@ fn write_empty_row(
     }
 
     // We fill the empty spaces completely up to max columns.
-    xml_out.empty("table:table-cell")?;
-    xml_out.attr("table:number-columns-repeated", &max_cell.1)?;
+    let mut split = Vec::new();
+    split_hidden(spans, cur_row, 0, max_cell.1, &mut split);
+    for s in &split {
+        write_empty_cells(s.hidden, s.repeat(), xml_out)?;
+    }
 
     xml_out.end_elem("table:table-row")?;
 
-- 
2.43.0


From e00f6deab524fcc1156ccec1b19f0f6e3b8d104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:09 +0000
Subject: [PATCH 35/38] fix: read character data given as CDATA

---
 src/io/read.rs | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index bf43a9d..786b4ab 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -3071,6 +3071,9 @@ fn read_part_text(
                 Event::Text(xml_text) => {
                     part.append_content(xml_text.decode()?);
                 }
+                Event::CData(xml_text) => {
+                    part.append_content(xml_text.decode()?);
+                }
                 Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
                     break;
                 }
@@ -3144,6 +3147,11 @@ fn read_part_number(
                         text.push_str(&xml_text.decode()?);
                     }
                 }
+                Event::CData(xml_text) => {
+                    if let Some(text) = &mut embedded_text {
+                        text.push_str(&xml_text.decode()?);
+                    }
+                }
                 Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
                     break;
                 }
@@ -4351,6 +4359,9 @@ fn read_metadata_user_defined(
             Event::Text(xml_text) => {
                 text.push_str(xml_text.decode()?.as_ref());
             }
+            Event::CData(xml_text) => {
+                text.push_str(xml_text.decode()?.as_ref());
+            }
             Event::Eof => {
                 break;
             }
@@ -4402,6 +4413,9 @@ fn read_metadata_value<T>(
             Event::Text(xml_text) => {
                 text.push_str(xml_text.decode()?.as_ref());
             }
+            Event::CData(xml_text) => {
+                text.push_str(xml_text.decode()?.as_ref());
+            }
             Event::Eof => {
                 break;
             }
@@ -4857,6 +4871,9 @@ fn read_config_item(
             Event::Text(xml_text) => {
                 value.write_all(xml_text.decode()?.as_bytes())?;
             }
+            Event::CData(xml_text) => {
+                value.write_all(xml_text.decode()?.as_bytes())?;
+            }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
                 let value = <Cow<'_, [u8]> as From<&Vec<u8>>>::from(value.as_ref());
                 match val_type {
@@ -4977,6 +4994,13 @@ fn read_xml(
                         unreachable!()
                     }
                 }
+                Event::CData(xml_text) => {
+                    if let Some(parent) = stack.last_mut() {
+                        parent.add_text(xml_text.decode()?.as_ref());
+                    } else {
+                        unreachable!()
+                    }
+                }
                 Event::Eof => {
                     break;
                 }
@@ -5118,6 +5142,29 @@ fn read_text_or_tag(
                         }
                     };
                 }
+                Event::CData(xml_text) => {
+                    let v = xml_text.decode()?;
+
+                    cellcontent = match cellcontent {
+                        TextContent::Empty => {
+                            // Fresh plain text string.
+                            TextContent::Text(v.to_string())
+                        }
+                        TextContent::Text(mut old_txt) => {
+                            // We have a previous plain text string. Append to it.
+                            old_txt.push_str(&v);
+                            TextContent::Text(old_txt)
+                        }
+                        TextContent::Xml(mut xml) => {
+                            // There is already a tag. Append the text to its children.
+                            xml.add_text(v);
+                            TextContent::Xml(xml)
+                        }
+                        TextContent::XmlVec(_) => {
+                            unreachable!()
+                        }
+                    };
+                }
                 Event::End(xml_tag) if xml_tag.name() == super_tag.name() && stack.is_empty() => {
                     break;
                 }
@@ -5201,6 +5248,9 @@ where
                 Event::Text(xml_text) => {
                     result_buf.extend_from_slice(xml_text.as_ref());
                 }
+                Event::CData(xml_text) => {
+                    result_buf.extend_from_slice(xml_text.as_ref());
+                }
                 Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
                     break;
                 }
-- 
2.43.0


From 0863516d7a15a0c1e33246dbbf6122c0bec88023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:09 +0000
Subject: [PATCH 36/38] fix: don't panic in save when a config item has an
 unexpected type

---
 src/config.rs   | 28 ++++++++++++++++++++++++++++
 src/io/write.rs |  6 +++---
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 8f543f2..7ce3005 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -429,6 +429,25 @@ impl ConfigItem {
         }
     }
 
+    /// Same as create_path, but replaces any existing item along the path that is
+    /// not of the given type.
+    pub(crate) fn replace_path<S>(&mut self, names: &[(S, ConfigItemType)]) -> &mut ConfigItem
+    where
+        S: AsRef<str>,
+    {
+        let mut path = self;
+        for (name, itype) in names {
+            path = path
+                .as_map_mut()
+                .expect("path contains maps only")
+                .get_or_create(name, || ConfigItem::new(*itype));
+            if !(path == itype) {
+                *path = ConfigItem::new(*itype);
+            }
+        }
+        path
+    }
+
     /// Recursive get for any ConfigItem.
     pub(crate) fn get_rec<S>(&self, names: &[S]) -> Option<&ConfigItem>
     where
@@ -535,6 +554,15 @@ impl Config {
     {
         self.config.create_path(names)
     }
+
+    /// Same as create_path, but replaces any existing item along the path that is
+    /// not of the given type.
+    pub(crate) fn replace_path<S>(&mut self, names: &[(S, ConfigItemType)]) -> &mut ConfigItem
+    where
+        S: AsRef<str>,
+    {
+        self.config.replace_path(names)
+    }
 }
 
 #[cfg(test)]
diff --git a/src/io/write.rs b/src/io/write.rs
index e66a0c1..8b7b575 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -577,7 +577,7 @@ fn calc_config(book: &mut WorkBook) -> Result<(), OdsError> {
     // Config
     let mut config = book.config.detach(0);
 
-    let bc = config.create_path(&[
+    let bc = config.replace_path(&[
         ("ooo:view-settings", ConfigItemType::Set),
         ("Views", ConfigItemType::Vec),
         ("0", ConfigItemType::Entry),
@@ -593,7 +593,7 @@ fn calc_config(book: &mut WorkBook) -> Result<(), OdsError> {
     for i in 0..book.num_sheets() {
         let sheet = book.detach_sheet(i);
 
-        let bc = config.create_path(&[
+        let bc = config.replace_path(&[
             ("ooo:view-settings", ConfigItemType::Set),
             ("Views", ConfigItemType::Vec),
             ("0", ConfigItemType::Entry),
@@ -617,7 +617,7 @@ fn calc_config(book: &mut WorkBook) -> Result<(), OdsError> {
         bc.insert("PageViewZoomValue", sheet.config().page_view_zoom_value);
         bc.insert("ShowGrid", sheet.config().show_grid);
 
-        let bc = config.create_path(&[
+        let bc = config.replace_path(&[
             ("ooo:configuration-settings", ConfigItemType::Set),
             ("ScriptConfiguration", ConfigItemType::Map),
             (sheet.name().as_str(), ConfigItemType::Entry),
-- 
2.43.0


From 7959079c9ef69c38bcea39ce63cf88bb4651a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:09 +0000
Subject: [PATCH 37/38] fix: write years beyond 9999 as XML Schema dates

---
 src/io/format.rs | 23 ++++++++++++++++++++++-
 src/io/write.rs  | 20 +++++++++-----------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/io/format.rs b/src/io/format.rs
index 47910b4..1082da3 100644
--- a/src/io/format.rs
+++ b/src/io/format.rs
@@ -1,7 +1,28 @@
 use crate::validation::Validation;
-use chrono::Duration;
+use chrono::{Datelike, Duration, NaiveDateTime};
 use std::fmt::{Display, Formatter};
 
+/// XML Schema dateTime. A year beyond 9999 has no leading '+'.
+pub(crate) fn format_datetime2(v: NaiveDateTime) -> impl Display {
+    struct Tmp(NaiveDateTime);
+
+    impl Display for Tmp {
+        fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+            let year = self.0.year();
+            let sign = if year < 0 { "-" } else { "" };
+            write!(
+                f,
+                "{}{:04}{}",
+                sign,
+                year.unsigned_abs(),
+                self.0.format("-%m-%dT%H:%M:%S%.f")
+            )
+        }
+    }
+
+    Tmp(v)
+}
+
 pub(crate) fn format_duration2(v: Duration) -> impl Display {
     struct Tmp(Duration);
 
diff --git a/src/io/write.rs b/src/io/write.rs
index 8b7b575..05ebe7f 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -3,7 +3,7 @@ use crate::config::{ConfigItem, ConfigItemType, ConfigValue};
 use crate::draw::{Annotation, DrawFrame, DrawFrameContent, DrawImage};
 use crate::error::OdsError;
 use crate::format::{FormatPartType, ValueFormatTrait};
-use crate::io::format::{format_duration2, format_validation_condition};
+use crate::io::format::{format_datetime2, format_duration2, format_validation_condition};
 use crate::io::xmlwriter::XmlWriter;
 use crate::io::NamespaceMap;
 use crate::manifest::Manifest;
@@ -36,8 +36,6 @@ mod tests;
 
 type OdsXmlWriter<'a> = XmlWriter<&'a mut dyn Write>;
 
-const DATETIME_FORMAT: &str = "%Y-%m-%dT%H:%M:%S%.f";
-
 #[allow(dead_code)]
 trait SeekWrite: Seek + Write {}
 
@@ -818,13 +816,13 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
         xml_out.elem_text_esc("meta:printed-by", &book.metadata.printed_by)?;
     }
     if let Some(v) = book.metadata.creation_date {
-        xml_out.elem_text("meta:creation-date", &v.format(DATETIME_FORMAT))?;
+        xml_out.elem_text("meta:creation-date", &format_datetime2(v))?;
     }
     if let Some(v) = book.metadata.date {
-        xml_out.elem_text("dc:date", &v.format(DATETIME_FORMAT))?;
+        xml_out.elem_text("dc:date", &format_datetime2(v))?;
     }
     if let Some(v) = book.metadata.print_date {
-        xml_out.elem_text("meta:print-date", &v.format(DATETIME_FORMAT))?;
+        xml_out.elem_text("meta:print-date", &format_datetime2(v))?;
     }
     if !book.metadata.language.is_empty() {
         xml_out.elem_text_esc("dc:language", &book.metadata.language)?;
@@ -842,7 +840,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
     if !book.metadata.template.is_empty() {
         xml_out.empty("meta:template")?;
         if let Some(v) = book.metadata.template.date {
-            xml_out.attr("meta:date", &v.format(DATETIME_FORMAT))?;
+            xml_out.attr("meta:date", &format_datetime2(v))?;
         }
         if let Some(v) = book.metadata.template.actuate {
             xml_out.attr("xlink:actuate", &v)?;
@@ -922,7 +920,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
         }
         match &userdef.value {
             MetaValue::Boolean(v) => xml_out.text_str(if *v { "true" } else { "false" })?,
-            MetaValue::Datetime(v) => xml_out.text(&v.format(DATETIME_FORMAT))?,
+            MetaValue::Datetime(v) => xml_out.text(&format_datetime2(*v))?,
             MetaValue::Float(v) => xml_out.text(&v)?,
             MetaValue::TimeDuration(v) => xml_out.text(&format_duration2(*v))?,
             MetaValue::String(v) => xml_out.text_esc(v)?,
@@ -1131,7 +1129,7 @@ fn write_config_item(
         }
         ConfigValue::DateTime(v) => {
             xml_out.attr_str("config:type", "datetime")?;
-            xml_out.text(&v.format(DATETIME_FORMAT))?;
+            xml_out.text(&format_datetime2(*v))?;
         }
         ConfigValue::Double(v) => {
             xml_out.attr_str("config:type", "double")?;
@@ -2271,7 +2269,7 @@ fn write_cell(
         }
         Value::DateTime(d) => {
             xml_out.attr_str("office:value-type", "date")?;
-            let value = d.format(DATETIME_FORMAT);
+            let value = format_datetime2(*d);
             xml_out.attr("office:date-value", &value)?;
             xml_out.elem("text:p")?;
             xml_out.text(&value)?;
@@ -2408,7 +2406,7 @@ fn write_annotation(
     }
     if let Some(date) = annotation.date() {
         xml_out.elem("dc:date")?;
-        xml_out.text_esc(&date.format(DATETIME_FORMAT))?;
+        xml_out.text_esc(&format_datetime2(*date))?;
         xml_out.end_elem("dc:date")?;
     }
     for v in annotation.text() {
-- 
2.43.0


From e188548da5b8e8599825b80280de5e4f12163b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:09 +0000
Subject: [PATCH 38/38] fix: escape base64 config values and image data

---
 src/io/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 05ebe7f..13ddd4d 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1121,7 +1121,7 @@ fn write_config_item(
     match value {
         ConfigValue::Base64Binary(v) => {
             xml_out.attr_str("config:type", "base64Binary")?;
-            xml_out.text(v)?;
+            xml_out.text_esc(v)?;
         }
         ConfigValue::Boolean(v) => {
             xml_out.attr_str("config:type", "boolean")?;
@@ -2375,7 +2375,7 @@ fn write_draw_image(
 
     if let Some(bin) = draw_image.get_binary_base64() {
         xml_out.elem("office:binary-data")?;
-        xml_out.text(bin)?;
+        xml_out.text_esc(bin)?;
         xml_out.end_elem("office:binary-data")?;
     }
 
-- 
2.43.0

