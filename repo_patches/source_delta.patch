From 921322507fd799f6ac77f81d7ec065f91ab97b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:35 +0000
Subject: [PATCH 01/12] fix: do not poll a failed entry open again

When opening an entry failed, the completed future was kept and polled
again by the next read, which panics for async fn futures (including
FilesystemEntry). Drop it, so that a retry opens the entry anew.
---
 src/reader.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index b1f506e..3bb03d4 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -70,8 +70,14 @@ impl<D: EntryData> ReaderEntry<D> {
         }
 
         if let ReaderPinnedProj::ReaderFuture(ref mut reader_future) = pinned.as_mut().project() {
-            let reader = ready!(reader_future.as_mut().poll(ctx))?;
-            pinned.set(ReaderPinned::FileReader(CrcReader::new(reader)));
+            match ready!(reader_future.as_mut().poll(ctx)) {
+                Ok(reader) => pinned.set(ReaderPinned::FileReader(CrcReader::new(reader))),
+                Err(e) => {
+                    // The future is finished and must not be polled again, next attempt starts with a new one
+                    pinned.set(ReaderPinned::Nothing);
+                    return Poll::Ready(Err(e));
+                }
+            }
         }
 
         match pinned.project() {
-- 
2.43.0


From 10e5c9b0e0ca5f1529b6d81d4a3c2366e0f7c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:35 +0000
Subject: [PATCH 02/12] fix: restart a failed entry seek on retry

A seek which failed was still considered to be in progress, so the next
read only asked for its completion and then hit the assertion on the
resulting position (or read from a wrong offset).
---
 src/crc_reader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/crc_reader.rs b/src/crc_reader.rs
index f3b537b..e004f93 100644
--- a/src/crc_reader.rs
+++ b/src/crc_reader.rs
@@ -77,8 +77,9 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
     fn start_seek(self: Pin<&mut Self>, data: &D, pos: SeekFrom) -> Result<()> {
         let projected = self.project();
         *projected.did_seek = true;
+        projected.inner_reader.start_seek(data, pos)?;
         *projected.seek_in_progress = true;
-        projected.inner_reader.start_seek(data, pos)
+        Ok(())
     }
 
     fn poll_seek_complete(
@@ -87,9 +88,10 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
         cx: &mut Context<'_>,
     ) -> Poll<Result<u64>> {
         let projected = self.project();
-        let pos = ready!(projected.inner_reader.poll_seek_complete(data, cx))?;
+        let result = ready!(projected.inner_reader.poll_seek_complete(data, cx));
+        // The seek is over even if it failed, retrying has to start a new one
         *projected.seek_in_progress = false;
-        Poll::Ready(Ok(pos))
+        Poll::Ready(result)
     }
 }
 
-- 
2.43.0


From 80b7c44759a1fced79996286b6680b57d80a3fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:35 +0000
Subject: [PATCH 03/12] fix: keep position and output when a CRC is not
 available immediately

When an entry CRC had to be computed in the middle of a read that had
already produced some output, a pending entry made the read return
without advancing the position reported by tell() (and used by relative
seeks, clone() and take_pinned()), and a failing entry lost the output.
Interrupt the read before such an entry, as is already done for entry
data.
---
 src/reader.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3bb03d4..19f8880 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -86,6 +86,11 @@ impl<D: EntryData> ReaderEntry<D> {
         }
     }
 
+    /// Returns true if [`ReaderEntry::get_crc()`] succeeds without accessing the entry data.
+    fn crc_known(&self) -> bool {
+        self.crc32.is_some() || self.size == 0
+    }
+
     /// Get the CRC for this entry, possibly recomputing it from the file.
     /// Stores state in `self.crc32` and `pinned`,
     /// Calling this method repeatedly will either return the already computed CRC without changes.
@@ -774,10 +779,7 @@ impl ReadState {
                 match $expression {
                     Poll::Ready(Ok(x)) => x,
                     Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
-                    Poll::Pending if output.remaining() == initial_remaining => {
-                        return Poll::Pending
-                    }
-                    _ => return Poll::Ready(Ok(())),
+                    Poll::Pending => return Poll::Pending,
                 }
             };
         }
@@ -821,6 +823,11 @@ impl ReadState {
                 }
                 Chunk::DataDescriptor { entry_index } => {
                     let entry_index = *entry_index;
+                    if output.remaining() != initial_remaining && !entries[entry_index].crc_known()
+                    {
+                        // Same as for the entry data, getting the CRC might be pending or fail
+                        break;
+                    }
                     zippity_ready!(self.read_data_descriptor(
                         &mut entries[entry_index],
                         pinned.as_mut(),
@@ -830,6 +837,11 @@ impl ReadState {
                 }
                 Chunk::CDFileHeader { entry_index } => {
                     let entry_index = *entry_index;
+                    if output.remaining() != initial_remaining && !entries[entry_index].crc_known()
+                    {
+                        // Same as for the entry data, getting the CRC might be pending or fail
+                        break;
+                    }
                     zippity_ready!(self.read_cd_file_header(
                         &mut entries[entry_index],
                         pinned.as_mut(),
-- 
2.43.0


From 0ef5f13dfa5b4d7d7c8f259690899dbc7d28391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:35 +0000
Subject: [PATCH 04/12] fix: do not forget a size mismatch

After reporting SizeMismatch the entry was reopened by the next read,
its data was output once more and its CRC, computed from the wrong
content, was remembered as valid. Keep failing instead.
---
 src/reader.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 19f8880..f63bc8f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -610,21 +610,24 @@ impl ReadState {
                     }
                     .into()));
                 }
-                entry.crc32 = Some(actual_crc);
             }
 
-            pinned.set(ReaderPinned::Nothing);
-
-            if self.chunk_processed_size == entry.size {
-                Poll::Ready(Ok(true)) // We're done with this state
-            } else {
-                Poll::Ready(Err(ReadError::SizeMismatch {
+            if self.chunk_processed_size != entry.size {
+                // Keeping the finished file reader, so that this error is repeated if reading continues.
+                return Poll::Ready(Err(ReadError::SizeMismatch {
                     entry_name: entry.name.clone(),
                     expected_size: entry.size,
                     actual_size: self.chunk_processed_size,
                 }
-                .into()))
+                .into()));
+            }
+
+            if let Some(actual_crc) = file_reader.get_crc32() {
+                entry.crc32 = Some(actual_crc);
             }
+            pinned.set(ReaderPinned::Nothing);
+
+            Poll::Ready(Ok(true)) // We're done with this state
         } else {
             let written_chunk_size = remaining_before_poll - output.remaining();
             let buf_slice = output.filled();
-- 
2.43.0


From 7b144610f819e552e3ca095d49dbe1a70821bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:35 +0000
Subject: [PATCH 05/12] fix: report entries longer than their declared size
 before outputting the excess

Data past the declared size used to be output until the entry ended and
only then was SizeMismatch reported. Consumers which stop at the
announced size of the archive (such as the HTTP response body) never saw
the error and ended up with a corrupted archive.
---
 src/reader.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index f63bc8f..fe0db54 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -636,6 +636,17 @@ impl ReadState {
 
             self.chunk_processed_size += written_chunk_size as u64;
 
+            if self.chunk_processed_size > entry.size {
+                let filled_before = output.filled().len() - written_chunk_size;
+                output.set_filled(filled_before);
+                return Poll::Ready(Err(ReadError::SizeMismatch {
+                    entry_name: entry.name.clone(),
+                    expected_size: entry.size,
+                    actual_size: self.chunk_processed_size,
+                }
+                .into()));
+            }
+
             Poll::Ready(Ok(false))
         }
     }
-- 
2.43.0


From 91f4eadaa777642f5e2d0081a2734ec757fa52cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:35 +0000
Subject: [PATCH 06/12] fix: detect a wrong CRC given for an empty entry

Data of empty entries is never read, so a wrong CRC value passed to
BuilderEntry::crc32() was silently copied to the output.
---
 src/reader.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index fe0db54..2ecac91 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -88,7 +88,11 @@ impl<D: EntryData> ReaderEntry<D> {
 
     /// Returns true if [`ReaderEntry::get_crc()`] succeeds without accessing the entry data.
     fn crc_known(&self) -> bool {
-        self.crc32.is_some() || self.size == 0
+        if self.size == 0 {
+            self.crc32.is_none_or(|crc| crc == crc32fast::hash(&[]))
+        } else {
+            self.crc32.is_some()
+        }
     }
 
     /// Get the CRC for this entry, possibly recomputing it from the file.
@@ -101,16 +105,26 @@ impl<D: EntryData> ReaderEntry<D> {
         ctx: &mut Context<'_>,
         read_buffer: &mut Vec<u8>,
     ) -> Poll<Result<u32>> {
-        if let Some(crc) = self.crc32 {
-            return Poll::Ready(Ok(crc));
-        }
-
         if self.size == 0 {
             let crc = crc32fast::hash(&[]);
+            if let Some(expected_crc) = self.crc32
+                && expected_crc != crc
+            {
+                return Poll::Ready(Err(ReadError::Crc32Mismatch {
+                    entry_name: self.name.clone(),
+                    expected_crc,
+                    actual_crc: crc,
+                }
+                .into()));
+            }
             self.crc32 = Some(crc);
             return Poll::Ready(Ok(crc));
         }
 
+        if let Some(crc) = self.crc32 {
+            return Poll::Ready(Ok(crc));
+        }
+
         let mut file_reader = ready!(self.get_reader(pinned.as_mut(), ctx))?;
 
         let mut read_buffer = get_read_buf(read_buffer);
-- 
2.43.0


From c32c7a6a901934c3bfb0fd8ea7f970e80e2aba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 07/12] fix: allow polling a cloned BytesStream

Cloning a BytesMut does not keep its capacity, so every poll of a cloned
stream failed the assertion that the buffer has some.
---
 src/bytes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index ea2bd7c..08593b0 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -31,7 +31,8 @@ impl<D: EntryData> Stream for BytesStream<D> {
         let projected = self.project();
 
         assert!(projected.buffer.is_empty());
-        assert!(projected.buffer.capacity() > 0);
+        // The buffer of a cloned stream has no capacity
+        projected.buffer.reserve(READ_SIZE);
 
         let n = std::task::ready!(poll_read_buf(projected.reader, cx, projected.buffer))? as u64;
 
-- 
2.43.0


From 1ad8006021397878a97c7d0b4e6b3817726216df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 08/12] fix: set the default datetime when falling back to it

datetime_system_or_default() and datetime_or_default() are documented to
set the default value if the given one is not representable, but they
left the previously set value in place.
---
 src/builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index e83c57a..7ecf64f 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -155,7 +155,9 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`SystemTime`].
     pub fn datetime_system_or_default(&mut self, datetime: SystemTime) -> &mut Self {
-        self.datetime_system(datetime);
+        if self.datetime_system(datetime).is_none() {
+            self.datetime = None;
+        }
         self
     }
 
@@ -188,15 +190,14 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`NaiveDateTime`].
     pub fn datetime_or_default(&mut self, datetime: NaiveDateTime) -> &mut Self {
-        self.datetime_fields(
+        self.datetime_fields_or_default(
             datetime.year(),
             datetime.month(),
             datetime.day(),
             datetime.hour(),
             datetime.minute(),
             datetime.second(),
-        );
-        self
+        )
     }
 
     /// Sets the entry to be a file.
-- 
2.43.0


From b7afd29bb22545274c98e48e6a6ec9104344541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 09/12] fix: use 1980-01-01 as the default datetime

The default was all zeros, which is not 1980-01-01T00:00:00 as
documented, but the invalid date 1980-00-00: days and months are
counted from one.
---
 src/structs.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/structs.rs b/src/structs.rs
index 5cd147b..f8dd9d7 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -174,13 +174,23 @@ pub enum Compression {
     Store = 0,
 }
 
-#[derive(Copy, Clone, Debug, Default, PackedStruct, PartialEq, Eq)]
+#[derive(Copy, Clone, Debug, PackedStruct, PartialEq, Eq)]
 #[packed_struct(endian = "lsb", size_bytes = "4")]
 pub struct DosDatetime {
     time: u16,
     date: u16,
 }
 
+impl Default for DosDatetime {
+    /// 1980-01-01T00:00:00
+    fn default() -> Self {
+        DosDatetime {
+            time: 0,
+            date: 1 | (1 << 5),
+        }
+    }
+}
+
 impl DosDatetime {
     /// Constructs a new `DosDateTime`.
     /// Returns `None` if any value is out of range.
-- 
2.43.0


From 94baf02c47804463195bf72a2b1532f70b9b910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:16 +0000
Subject: [PATCH 10/12] fix: do not panic when converting extreme system times

Chrono panics when converting a SystemTime outside of its range, for
example the modification time of a file with a damaged timestamp. Such
times are not representable in ZIP anyway.
---
 src/builder.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 7ecf64f..80beaea 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -524,7 +524,16 @@ where
 {
     use chrono::{DateTime, Utc};
 
+    // 2242-03-16, safely after the last time representable in any timezone
+    const MAX_SECONDS: u64 = 1 << 33;
+
     move |system_time| {
+        // Chrono panics when converting times that are outside of its range.
+        match system_time.duration_since(SystemTime::UNIX_EPOCH) {
+            Ok(since_epoch) if since_epoch.as_secs() < MAX_SECONDS => {}
+            _ => return (0, 0, 0, 0, 0, 0), // Not representable in ZIP
+        }
+
         let naive = DateTime::<Utc>::from(system_time)
             .with_timezone(&tz)
             .naive_local();
-- 
2.43.0


From 2ca1c6765aab8b08629e679ea93ead9520047aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:30 +0000
Subject: [PATCH 11/12] verification hook: dump the reader state with --cfg
 zippity_verif

---
 src/crc_reader.rs | 19 +++++++++++++++++++
 src/lib.rs        |  2 ++
 src/reader.rs     | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 56 insertions(+)

diff --git a/src/crc_reader.rs b/src/crc_reader.rs
index e004f93..cfe8905 100644
--- a/src/crc_reader.rs
+++ b/src/crc_reader.rs
@@ -95,6 +95,25 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
     }
 }
 
+/// Verification hook, compiled only with `--cfg zippity_verif`.
+#[cfg(zippity_verif)]
+impl<T: std::fmt::Debug> CrcReader<T> {
+    pub(crate) fn verif_state(&self, out: &mut dyn std::fmt::Write) -> std::fmt::Result {
+        // No `..` here, so that a new field can't be forgotten.
+        let CrcReader {
+            inner_reader,
+            hasher,
+            did_seek,
+            seek_in_progress,
+        } = self;
+        let crc = hasher.clone().finalize();
+        write!(
+            out,
+            "R{inner_reader:?},{crc:08x},{did_seek},{seek_in_progress}"
+        )
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index 5a38bef..e2f088f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,6 @@
 #![doc = include_str!("../README.md")]
+// `cfg(zippity_verif)` only adds the verification hooks
+#![allow(unexpected_cfgs)]
 
 mod builder;
 mod crc_reader;
diff --git a/src/reader.rs b/src/reader.rs
index 2ecac91..f686e70 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1039,6 +1039,41 @@ impl<D: EntryData + Clone> Clone for Reader<D> {
     }
 }
 
+/// Verification hook: complete dump of the reader's internal state, compiled only with `--cfg zippity_verif`.
+#[cfg(zippity_verif)]
+mod verif_hook {
+    use super::{Reader, ReaderPinned};
+    use crate::entry_data::EntryData;
+    use std::fmt::{Debug, Result, Write};
+
+    impl<D> Reader<D>
+    where
+        D: EntryData + Debug,
+        D::Reader: Debug,
+        D::Future: Debug,
+    {
+        /// Writes everything that future behavior of this reader may depend on.
+        ///
+        /// # Errors
+        /// Forwards errors of `out`.
+        pub fn verif_state(&self, out: &mut dyn Write) -> Result {
+            // No `..` here, so that a new field can't be forgotten.
+            let Reader {
+                sizes,
+                entries,
+                read_state,
+                pinned,
+            } = self;
+            write!(out, "{sizes:?}|{entries:?}|{read_state:?}|")?;
+            match pinned {
+                ReaderPinned::Nothing => write!(out, "-"),
+                ReaderPinned::ReaderFuture(future) => write!(out, "F{future:?}"),
+                ReaderPinned::FileReader(reader) => reader.verif_state(out),
+            }
+        }
+    }
+}
+
 fn get_read_buf(vec: &mut Vec<u8>) -> ReadBuf<'_> {
     vec.reserve(READ_SIZE);
     ReadBuf::uninit(&mut vec.spare_capacity_mut()[..READ_SIZE])
-- 
2.43.0


From d598abe3cf764365f57047feaaf13a1ce290873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 12/12] fix: keep Builder::size() correct after modifying its
 entries

Removing or adding entries using get_entries_mut() did not change the
size reported by Builder::size(), which then differed from the size of
the built Reader. Recalculate the size after such access.
---
 src/builder.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 80beaea..f406ba5 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -318,7 +318,8 @@ pub struct Builder<D: EntryData> {
     entries: IndexMap<String, BuilderEntry<D>>,
     time_converter: Option<TimeConverter>,
     /// Total size of the zip.
-    total_size: u64,
+    /// None if entries might have been modified from the outside, and the size has to be recalculated.
+    total_size: Option<u64>,
 }
 
 /// An error that can be encountered while adding entries to a [`Builder`].
@@ -373,7 +374,7 @@ impl<D: EntryData> Builder<D> {
         Builder {
             entries: IndexMap::new(),
             time_converter: None,
-            total_size: eocd_size(),
+            total_size: Some(eocd_size()),
         }
     }
 
@@ -395,6 +396,7 @@ impl<D: EntryData> Builder<D> {
             return Err(AddEntryError::TooLongEntryName { entry_name: name });
         }
         let headers_size = local_header_size(&name) + cd_header_size(&name);
+        let size_before = self.size();
 
         let map_vacant_entry = match self.entries.entry(name) {
             Entry::Vacant(e) => e,
@@ -408,9 +410,9 @@ impl<D: EntryData> Builder<D> {
         let data = data.into();
         self.total_size = match headers_size
             .checked_add(data.size())
-            .and_then(|s| s.checked_add(self.total_size))
+            .and_then(|s| s.checked_add(size_before))
         {
-            Some(size) => size,
+            Some(size) => Some(size),
             None => {
                 return Err(AddEntryError::TooLongZipFile {
                     entry_name: map_vacant_entry.into_key(),
@@ -427,7 +429,14 @@ impl<D: EntryData> Builder<D> {
     ///
     /// Returns the same value as `self.build().size()`.
     pub fn size(&self) -> u64 {
-        self.total_size
+        self.total_size.unwrap_or_else(|| {
+            self.entries
+                .iter()
+                .fold(eocd_size(), |size, (name, entry)| {
+                    size.saturating_add(local_header_size(name) + cd_header_size(name))
+                        .saturating_add(entry.data.size())
+                })
+        })
     }
 
     /// Finishes the build phase of the ZIP file and converts the builder into a [`Reader`].
@@ -506,6 +515,7 @@ impl<D: EntryData> Builder<D> {
 
     /// Returns a mutable reference to all entries currently in the builder.
     pub fn get_entries_mut(&mut self) -> &mut IndexMap<String, BuilderEntry<D>> {
+        self.total_size = None;
         &mut self.entries
     }
 }
-- 
2.43.0

