From 7066b6a0954116b9e2b1ad9ee3a59c93797b75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 01/45] fix: order of binary bounds when one is a prefix of the
 other in chunk statistics

---
 src/write/statistics.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index aaad15d..24600de 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -122,7 +122,12 @@ fn ord_binary(a: Vec<u8>, b: Vec<u8>, max: bool) -> Vec<u8> {
             _ => {}
         }
     }
-    a
+    // a value is smaller than any value it is a prefix of
+    if (a.len() > b.len()) == max {
+        a
+    } else {
+        b
+    }
 }
 
 fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
-- 
2.43.0


From 11da2579a26693f717ef517446f2aa16fff588d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 02/45] fix: merge chunk statistics in the order of the
 column's type, for every physical type

---
 src/write/statistics.rs | 68 +++++++++++++++++++++++++++++++++++------
 1 file changed, 59 insertions(+), 9 deletions(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index 24600de..f0fd156 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -1,7 +1,8 @@
 use std::sync::Arc;
 
 use crate::error::{Error, Result};
-use crate::schema::types::PhysicalType;
+use crate::metadata::{get_sort_order, SortOrder};
+use crate::schema::types::{PhysicalType, PrimitiveType};
 use crate::statistics::*;
 use crate::types::NativeType;
 
@@ -15,9 +16,35 @@ fn reduce_single<T, F: Fn(T, T) -> T>(lhs: Option<T>, rhs: Option<T>, op: F) ->
     }
 }
 
+/// The order in which the bounds of columns of this type compare
+fn sort_order(type_: &PrimitiveType) -> SortOrder {
+    get_sort_order(
+        &type_.logical_type,
+        &type_.converted_type,
+        &type_.physical_type,
+    )
+}
+
+#[inline]
+fn is_greater<T: NativeType + PartialOrd>(x: &T, y: &T, order: SortOrder) -> bool {
+    match order {
+        SortOrder::Unsigned => {
+            let (x, y) = (x.to_le_bytes(), y.to_le_bytes());
+            x.as_ref().iter().rev().gt(y.as_ref().iter().rev())
+        }
+        _ => x > y,
+    }
+}
+
 #[inline]
-fn reduce_vec8(lhs: Option<Vec<u8>>, rhs: &Option<Vec<u8>>, max: bool) -> Option<Vec<u8>> {
+fn reduce_vec8(
+    lhs: Option<Vec<u8>>,
+    rhs: &Option<Vec<u8>>,
+    max: bool,
+    order: SortOrder,
+) -> Option<Vec<u8>> {
     match (lhs, rhs) {
+        (Some(x), Some(y)) if order == SortOrder::Signed => Some(ord_signed(x, y.clone(), max)),
         (None, None) => None,
         (Some(x), None) => Some(x),
         (None, Some(x)) => Some(x.clone()),
@@ -74,15 +101,19 @@ pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn S
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
             Some(Arc::new(reduce_fix_len_binary(stats)))
         }
-        _ => todo!(),
+        PhysicalType::Int96 => {
+            let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
+            Some(Arc::new(reduce_primitive::<[u32; 3], _>(stats)))
+        }
     })
 }
 
 fn reduce_binary<'a, I: Iterator<Item = &'a BinaryStatistics>>(mut stats: I) -> BinaryStatistics {
     let initial = stats.next().unwrap().clone();
+    let order = sort_order(&initial.primitive_type);
     stats.fold(initial, |mut acc, new| {
-        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
-        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
+        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false, order);
+        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true, order);
         acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
         acc.distinct_count = None;
         acc
@@ -93,9 +124,10 @@ fn reduce_fix_len_binary<'a, I: Iterator<Item = &'a FixedLenStatistics>>(
     mut stats: I,
 ) -> FixedLenStatistics {
     let initial = stats.next().unwrap().clone();
+    let order = sort_order(&initial.primitive_type);
     stats.fold(initial, |mut acc, new| {
-        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
-        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
+        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false, order);
+        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true, order);
         acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
         acc.distinct_count = None;
         acc
@@ -130,6 +162,23 @@ fn ord_binary(a: Vec<u8>, b: Vec<u8>, max: bool) -> Vec<u8> {
     }
 }
 
+/// Same as [`ord_binary`], for big-endian two's complement numbers
+fn ord_signed(a: Vec<u8>, b: Vec<u8>, max: bool) -> Vec<u8> {
+    let len = a.len().max(b.len()).max(1);
+    let sortable = |x: &[u8]| {
+        let is_negative = x.first().map(|x| x & 0x80 != 0).unwrap_or(false);
+        let mut bytes = vec![if is_negative { 0xff } else { 0 }; len - x.len()];
+        bytes.extend_from_slice(x);
+        bytes[0] ^= 0x80;
+        bytes
+    };
+    if (sortable(&a) > sortable(&b)) == max {
+        a
+    } else {
+        b
+    }
+}
+
 fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
     mut stats: I,
 ) -> BooleanStatistics {
@@ -159,16 +208,17 @@ fn reduce_primitive<
     mut stats: I,
 ) -> PrimitiveStatistics<T> {
     let initial = stats.next().unwrap().clone();
+    let order = sort_order(&initial.primitive_type);
     stats.fold(initial, |mut acc, new| {
         acc.min_value = reduce_single(
             acc.min_value,
             new.min_value,
-            |x, y| if x > y { y } else { x },
+            |x, y| if is_greater(&x, &y, order) { y } else { x },
         );
         acc.max_value = reduce_single(
             acc.max_value,
             new.max_value,
-            |x, y| if x > y { x } else { y },
+            |x, y| if is_greater(&x, &y, order) { x } else { y },
         );
         acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
         acc.distinct_count = None;
-- 
2.43.0


From f9facab8afbffc7e89b60bd31d19f3b1baabc5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:35 +0000
Subject: [PATCH 03/45] fix: chunk statistics declare only what every data page
 declares

---
 src/write/column_chunk.rs | 51 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 130455e..3507b9b 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -9,20 +9,20 @@ use futures::AsyncWrite;
 #[cfg(feature = "async")]
 use parquet_format_safe::thrift::protocol::TCompactOutputStreamProtocol;
 
-use crate::statistics::serialize_statistics;
+use crate::statistics::{serialize_statistics, ParquetStatistics};
 use crate::FallibleStreamingIterator;
 use crate::{
     compression::Compression,
     encoding::Encoding,
     error::{Error, Result},
-    metadata::ColumnDescriptor,
+    metadata::{get_sort_order, ColumnDescriptor, SortOrder},
     page::{CompressedPage, PageType},
 };
 
 #[cfg(feature = "async")]
 use super::page::write_page_async;
 
-use super::page::{write_page, PageWriteSpec};
+use super::page::{is_data_page, write_page, PageWriteSpec};
 use super::statistics::reduce;
 use super::DynStreamingIterator;
 
@@ -99,6 +99,44 @@ where
     Ok((column_chunk, specs, bytes_written))
 }
 
+/// Retains from the merged `statistics` what holds for the whole column chunk: the bounds and
+/// counts that every data page declares, in a type whose order is defined.
+fn retain_declared(
+    mut statistics: ParquetStatistics,
+    specs: &[PageWriteSpec],
+    descriptor: &ColumnDescriptor,
+) -> Option<ParquetStatistics> {
+    let type_ = &descriptor.descriptor.primitive_type;
+    let order = get_sort_order(
+        &type_.logical_type,
+        &type_.converted_type,
+        &type_.physical_type,
+    );
+    let mut has_min = order != SortOrder::Undefined;
+    let mut has_max = order != SortOrder::Undefined;
+    let mut has_null_count = true;
+
+    for spec in specs.iter().filter(|x| is_data_page(x)) {
+        let page = serialize_statistics(spec.statistics.as_ref()?.as_ref());
+        // pages without values have no bounds
+        let is_null = page.null_count == Some(spec.num_values as i64);
+        has_min &= is_null || page.min_value.is_some();
+        has_max &= is_null || page.max_value.is_some();
+        has_null_count &= page.null_count.is_some();
+    }
+
+    if !has_min {
+        statistics.min_value = None;
+    }
+    if !has_max {
+        statistics.max_value = None;
+    }
+    if !has_null_count {
+        statistics.null_count = None;
+    }
+    Some(statistics)
+}
+
 fn build_column_chunk(
     specs: &[PageWriteSpec],
     descriptor: &ColumnDescriptor,
@@ -176,9 +214,14 @@ fn build_column_chunk(
     // Sort the encodings to have deterministic metadata
     encodings.sort();
 
-    let statistics = specs.iter().map(|x| &x.statistics).collect::<Vec<_>>();
+    let statistics = specs
+        .iter()
+        .filter(|x| is_data_page(x))
+        .map(|x| &x.statistics)
+        .collect::<Vec<_>>();
     let statistics = reduce(&statistics)?;
     let statistics = statistics.map(|x| serialize_statistics(x.as_ref()));
+    let statistics = statistics.and_then(|x| retain_declared(x, specs, descriptor));
 
     let (type_, _): (Type, Option<i32>) = descriptor.descriptor.primitive_type.physical_type.into();
 
-- 
2.43.0


From f06a848a1080d1e1bc936ef5faf8884afd98986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 04/45] fix: writers refuse to continue after an operation that
 did not complete and after end

---
 src/write/file.rs   |  9 +++++++++
 src/write/mod.rs    | 18 ++++++++++++++++++
 src/write/stream.rs | 10 ++++++++++
 3 files changed, 37 insertions(+)

diff --git a/src/write/file.rs b/src/write/file.rs
index 1b28541..0df7873 100644
--- a/src/write/file.rs
+++ b/src/write/file.rs
@@ -124,6 +124,7 @@ impl<W: Write> FileWriter<W> {
     /// Returns an error if data has been written to the file.
     fn start(&mut self) -> Result<()> {
         if self.offset == 0 {
+            self.state = State::Incomplete;
             self.offset = start_file(&mut self.writer)?;
             self.state = State::Started;
             Ok(())
@@ -142,9 +143,12 @@ impl<W: Write> FileWriter<W> {
         Error: From<E>,
         E: std::error::Error,
     {
+        self.state.check_writable()?;
         if self.offset == 0 {
             self.start()?;
         }
+        // until everything is written
+        self.state = State::Incomplete;
         let ordinal = self.row_groups.len();
         let (group, specs, size) = write_row_group(
             &mut self.writer,
@@ -156,12 +160,14 @@ impl<W: Write> FileWriter<W> {
         self.offset += size;
         self.row_groups.push(group);
         self.page_specs.push(specs);
+        self.state = State::Started;
         Ok(())
     }
 
     /// Writes the footer of the parquet file. Returns the total size of the file and the
     /// underlying writer.
     pub fn end(&mut self, key_value_metadata: Option<Vec<KeyValue>>) -> Result<u64> {
+        self.state.check_writable()?;
         if self.offset == 0 {
             self.start()?;
         }
@@ -171,6 +177,9 @@ impl<W: Write> FileWriter<W> {
                 "End cannot be called twice".to_string(),
             ));
         }
+        // until everything is written
+        self.state = State::Incomplete;
+
         // compute file stats
         let num_rows = self.row_groups.iter().map(|group| group.num_rows).sum();
 
diff --git a/src/write/mod.rs b/src/write/mod.rs
index 16ba7ca..f116491 100644
--- a/src/write/mod.rs
+++ b/src/write/mod.rs
@@ -21,6 +21,7 @@ pub use file::{write_metadata_sidecar, FileWriter};
 
 pub use row_group::ColumnOffsetsMetadata;
 
+use crate::error::{Error, Result};
 use crate::page::CompressedPage;
 
 pub type RowGroupIter<'a, E> =
@@ -48,6 +49,23 @@ enum State {
     Initialised,
     Started,
     Finished,
+    /// An operation failed, or was abandoned, part way: what was written is unknown
+    Incomplete,
+}
+
+impl State {
+    /// Errors if nothing can be written any more.
+    fn check_writable(&self) -> Result<()> {
+        match self {
+            State::Initialised | State::Started => Ok(()),
+            State::Finished => Err(Error::InvalidParameter(
+                "The file has already been ended".to_string(),
+            )),
+            State::Incomplete => Err(Error::InvalidParameter(
+                "A previous operation on this file did not complete".to_string(),
+            )),
+        }
+    }
 }
 
 impl From<Version> for i32 {
diff --git a/src/write/stream.rs b/src/write/stream.rs
index b750d9b..6f917f5 100644
--- a/src/write/stream.rs
+++ b/src/write/stream.rs
@@ -98,6 +98,7 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
     /// Returns an error if data has been written to the file.
     async fn start(&mut self) -> Result<()> {
         if self.offset == 0 {
+            self.state = State::Incomplete;
             self.offset = start_file(&mut self.writer).await? as u64;
             self.state = State::Started;
             Ok(())
@@ -114,9 +115,12 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         Error: From<E>,
         E: std::error::Error,
     {
+        self.state.check_writable()?;
         if self.offset == 0 {
             self.start().await?;
         }
+        // until everything is written
+        self.state = State::Incomplete;
 
         let ordinal = self.row_groups.len();
         let (group, specs, size) = write_row_group_async(
@@ -130,12 +134,14 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         self.offset += size;
         self.row_groups.push(group);
         self.page_specs.push(specs);
+        self.state = State::Started;
         Ok(())
     }
 
     /// Writes the footer of the parquet file. Returns the total size of the file and the
     /// underlying writer.
     pub async fn end(&mut self, key_value_metadata: Option<Vec<KeyValue>>) -> Result<u64> {
+        self.state.check_writable()?;
         if self.offset == 0 {
             self.start().await?;
         }
@@ -145,6 +151,9 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
                 "End cannot be called twice".to_string(),
             ));
         }
+        // until everything is written
+        self.state = State::Incomplete;
+
         // compute file stats
         let num_rows = self.row_groups.iter().map(|group| group.num_rows).sum();
 
@@ -184,6 +193,7 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         );
 
         let len = end_file(&mut self.writer, metadata).await?;
+        self.state = State::Finished;
         Ok(self.offset + len)
     }
 
-- 
2.43.0


From 3f97879f17e26d1f5586730ae9d108917b8f83c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 05/45] fix: refuse row groups that do not have the columns of
 the schema

---
 src/write/row_group.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/write/row_group.rs b/src/write/row_group.rs
index 2c07cb5..2c14a2a 100644
--- a/src/write/row_group.rs
+++ b/src/write/row_group.rs
@@ -75,6 +75,21 @@ fn compute_num_rows(columns: &[(ColumnChunk, Vec<PageWriteSpec>)]) -> Result<i64
         .unwrap_or(Ok(0))
 }
 
+/// Errors if a row group does not have exactly one column per column of the schema.
+fn check_columns<I: Iterator>(
+    descriptors: &[ColumnDescriptor],
+    written: usize,
+    mut remaining: I,
+) -> Result<()> {
+    if written != descriptors.len() || remaining.next().is_some() {
+        return Err(Error::InvalidParameter(format!(
+            "A row group must have the {} columns of the schema",
+            descriptors.len()
+        )));
+    }
+    Ok(())
+}
+
 pub fn write_row_group<
     'a,
     W,
@@ -83,7 +98,7 @@ pub fn write_row_group<
     writer: &mut W,
     mut offset: u64,
     descriptors: &[ColumnDescriptor],
-    columns: DynIter<'a, std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>>,
+    mut columns: DynIter<'a, std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>>,
     ordinal: usize,
 ) -> Result<(RowGroup, Vec<Vec<PageWriteSpec>>, u64)>
 where
@@ -91,10 +106,10 @@ where
     Error: From<E>,
     E: std::error::Error,
 {
-    let column_iter = descriptors.iter().zip(columns);
+    let column_iter = descriptors.iter().zip(columns.by_ref());
 
     let initial = offset;
-    let columns = column_iter
+    let written = column_iter
         .map(|(descriptor, page_iter)| {
             let (column, page_specs, size) =
                 write_column_chunk(writer, offset, descriptor, page_iter?)?;
@@ -104,6 +119,9 @@ where
         .collect::<Result<Vec<_>>>()?;
     let bytes_written = offset - initial;
 
+    check_columns(descriptors, written.len(), columns)?;
+    let columns = written;
+
     let num_rows = compute_num_rows(&columns)?;
 
     // compute row group stats
@@ -150,7 +168,7 @@ pub async fn write_row_group_async<
     writer: &mut W,
     mut offset: u64,
     descriptors: &[ColumnDescriptor],
-    columns: DynIter<'a, std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>>,
+    mut columns: DynIter<'a, std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>>,
     ordinal: usize,
 ) -> Result<(RowGroup, Vec<Vec<PageWriteSpec>>, u64)>
 where
@@ -158,18 +176,21 @@ where
     Error: From<E>,
     E: std::error::Error,
 {
-    let column_iter = descriptors.iter().zip(columns);
+    let column_iter = descriptors.iter().zip(columns.by_ref());
 
     let initial = offset;
-    let mut columns = vec![];
+    let mut written = vec![];
     for (descriptor, page_iter) in column_iter {
         let (column, page_specs, size) =
             write_column_chunk_async(writer, offset, descriptor, page_iter?).await?;
         offset += size;
-        columns.push((column, page_specs));
+        written.push((column, page_specs));
     }
     let bytes_written = offset - initial;
 
+    check_columns(descriptors, written.len(), columns)?;
+    let columns = written;
+
     let num_rows = compute_num_rows(&columns)?;
 
     // compute row group stats
-- 
2.43.0


From 050c9eb254ac401369d855c318370f8135ca1a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:44 +0000
Subject: [PATCH 06/45] fix: Hadoop LZ4 pages of several frames are
 decompressed to the last frame

---
 src/compression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compression.rs b/src/compression.rs
index bd7fd81..6953fb1 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -272,7 +272,7 @@ fn try_decompress_hadoop(input_buf: &[u8], output_buf: &mut [u8]) -> Result<()>
         }
         input_len -= expected_compressed_size as usize;
         output_len -= expected_decompressed_size as usize;
-        if input_len > expected_compressed_size as usize {
+        if input_len > 0 {
             input = &input[expected_compressed_size as usize..];
             output = &mut output[expected_decompressed_size as usize..];
         } else {
-- 
2.43.0


From 162161182da68e7000b155d724e1de100c72a480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 07/45] fix: compressing a page into a used buffer prefixed the
 page with the buffer's contents

---
 src/write/compression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index d8ead08..b32ace4 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -84,9 +84,11 @@ fn compress_dict(
 /// Errors if the compressor fails
 pub fn compress(
     page: Page,
-    compressed_buffer: Vec<u8>,
+    mut compressed_buffer: Vec<u8>,
     compression: CompressionOptions,
 ) -> Result<CompressedPage> {
+    // the compressors append to the buffer: whatever it holds does not belong to the page
+    compressed_buffer.clear();
     match page {
         Page::Data(page) => {
             compress_data(page, compressed_buffer, compression).map(CompressedPage::Data)
-- 
2.43.0


From 6741545db8101fdb2b76b4bb26ae2679a60f5ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 08/45] fix: decompression that does not fill the page is an
 error, not stale bytes

---
 src/compression.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index 6953fb1..70bc1fa 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -162,7 +162,7 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
             use snap::raw::{decompress_len, Decoder};
 
             let len = decompress_len(input_buf)?;
-            if len > output_buf.len() {
+            if len != output_buf.len() {
                 return Err(Error::OutOfSpec(String::from("snappy header out of spec")));
             }
             Decoder::new()
@@ -177,13 +177,13 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
         )),
         #[cfg(all(feature = "lz4_flex", not(feature = "lz4")))]
         Compression::Lz4Raw => lz4_flex::block::decompress_into(input_buf, output_buf)
-            .map(|_| {})
-            .map_err(|e| e.into()),
+            .map_err(|e| e.into())
+            .and_then(|size| check_decompressed_size(size, output_buf.len())),
         #[cfg(feature = "lz4")]
         Compression::Lz4Raw => {
             lz4::block::decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)
-                .map(|_| {})
                 .map_err(|e| e.into())
+                .and_then(|size| check_decompressed_size(size, output_buf.len()))
         }
         #[cfg(all(not(feature = "lz4"), not(feature = "lz4_flex")))]
         Compression::Lz4Raw => Err(Error::FeatureNotActive(
@@ -194,7 +194,7 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
         #[cfg(any(feature = "lz4_flex", feature = "lz4"))]
         Compression::Lz4 => try_decompress_hadoop(input_buf, output_buf).or_else(|_| {
             lz4_decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)
-                .map(|_| {})
+                .and_then(|size| check_decompressed_size(size, output_buf.len()))
         }),
 
         #[cfg(all(not(feature = "lz4_flex"), not(feature = "lz4")))]
@@ -224,6 +224,18 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
     }
 }
 
+/// Errors if a decompressor did not fill the whole output: the remaining bytes
+/// would be whatever the buffer held before.
+#[cfg(any(feature = "lz4", feature = "lz4_flex"))]
+fn check_decompressed_size(size: usize, expected: usize) -> Result<()> {
+    if size != expected {
+        return Err(Error::oos(
+            "The decompressed size differs from the size of the page",
+        ));
+    }
+    Ok(())
+}
+
 /// Try to decompress the buffer as if it was compressed with the Hadoop Lz4Codec.
 /// Translated from the apache arrow c++ function [TryDecompressHadoop](https://github.com/apache/arrow/blob/bf18e6e4b5bb6180706b1ba0d597a65a4ce5ca48/cpp/src/arrow/util/compression_lz4.cc#L474).
 /// Returns error if decompression failed.
@@ -280,7 +292,8 @@ fn try_decompress_hadoop(input_buf: &[u8], output_buf: &mut [u8]) -> Result<()>
         }
     }
     if input_len == 0 {
-        Ok(())
+        // every byte of the output must come from a frame
+        check_decompressed_size(0, output_len)
     } else {
         Err(Error::oos("Not all input are consumed"))
     }
-- 
2.43.0


From fa2c9c695ffa74f3034df98c88eff6c5229046ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 09/45] fix: a decompressor does not present the previous page
 after an error

---
 src/read/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/compression.rs b/src/read/compression.rs
index 4ebf27f..fb69860 100644
--- a/src/read/compression.rs
+++ b/src/read/compression.rs
@@ -193,7 +193,8 @@ impl<P: PageIterator> FallibleStreamingIterator for Decompressor<P> {
     type Error = Error;
 
     fn advance(&mut self) -> Result<()> {
-        if let Some(page) = self.current.as_mut() {
+        // the buffer of the page is given away: the page is not available from here on
+        if let Some(mut page) = self.current.take() {
             if self.was_decompressed {
                 self.buffer = std::mem::take(page.buffer());
             } else {
-- 
2.43.0


From 3a818a3e020812b6d93c25484c913de86607f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 10/45] fix: page readers overflowed the stack when very many
 pages are filtered out in a row

---
 src/read/page/indexed_reader.rs | 28 ++++++++++++----------------
 src/read/page/reader.rs         | 29 ++++++++++++++++-------------
 2 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 167d923..63069e1 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -184,24 +184,20 @@ impl<R: Read + Seek> Iterator for IndexedPageReader<R> {
     type Item = Result<CompressedPage, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.state {
-            State::MaybeDict => {
-                self.state = State::Data;
-                if let Some(dict) = self.read_dict() {
-                    Some(dict)
-                } else {
-                    self.next()
+        // a loop and not recursion, because any number of pages can be skipped in a row
+        loop {
+            match self.state {
+                State::MaybeDict => {
+                    self.state = State::Data;
+                    if let Some(dict) = self.read_dict() {
+                        return Some(dict);
+                    }
                 }
-            }
-            State::Data => {
-                if let Some(page) = self.pages.pop_front() {
-                    if page.selected_rows.is_empty() {
-                        self.next()
-                    } else {
-                        Some(self.read_page(page.start, page.length, page.selected_rows))
+                State::Data => {
+                    let page = self.pages.pop_front()?;
+                    if !page.selected_rows.is_empty() {
+                        return Some(self.read_page(page.start, page.length, page.selected_rows));
                     }
-                } else {
-                    None
                 }
             }
         }
diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index a28ef69..2874a3c 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -141,22 +141,25 @@ impl<R: Read> Iterator for PageReader<R> {
     type Item = Result<CompressedPage>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let mut buffer = std::mem::take(&mut self.scratch);
-        let maybe_maybe_page = next_page(self, &mut buffer).transpose();
-        if let Some(ref maybe_page) = maybe_maybe_page {
-            if let Ok(CompressedPage::Data(page)) = maybe_page {
-                // check if we should filter it (only valid for data pages)
-                let to_consume = (self.pages_filter)(&self.descriptor, page.header());
-                if !to_consume {
-                    self.scratch = std::mem::take(&mut buffer);
-                    return self.next();
+        // a loop and not recursion, because any number of pages can be filtered out in a row
+        loop {
+            let mut buffer = std::mem::take(&mut self.scratch);
+            let maybe_maybe_page = next_page(self, &mut buffer).transpose();
+            if let Some(ref maybe_page) = maybe_maybe_page {
+                if let Ok(CompressedPage::Data(page)) = maybe_page {
+                    // check if we should filter it (only valid for data pages)
+                    let to_consume = (self.pages_filter)(&self.descriptor, page.header());
+                    if !to_consume {
+                        self.scratch = std::mem::take(&mut buffer);
+                        continue;
+                    }
                 }
+            } else {
+                // no page => we take back the buffer
+                self.scratch = std::mem::take(&mut buffer);
             }
-        } else {
-            // no page => we take back the buffer
-            self.scratch = std::mem::take(&mut buffer);
+            return maybe_maybe_page;
         }
-        maybe_maybe_page
     }
 }
 
-- 
2.43.0


From 1f2d2e1334a27fc82fcf0e6ff9716b02618fb030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:53 +0000
Subject: [PATCH 11/45] fix: page streams validate the pages they filter out
 like the page reader does

---
 src/read/page/stream.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/read/page/stream.rs b/src/read/page/stream.rs
index 2b114f4..635744d 100644
--- a/src/read/page/stream.rs
+++ b/src/read/page/stream.rs
@@ -92,18 +92,25 @@ fn _get_page_stream<R: AsyncRead + Unpin + Send>(
 
             let read_size: usize = page_header.compressed_page_size.try_into()?;
 
+            // like the sync reader: a page has to be valid also when it is filtered out
+            if read_size > max_page_size {
+                Err(Error::WouldOverAllocate)?
+            }
+            let _: usize = page_header.uncompressed_page_size.try_into()?;
+
             if let Some(data_header) = data_header {
                 if !pages_filter(&descriptor, &data_header) {
                     // page to be skipped, we sill need to seek
-                    copy(reader.take(read_size as u64), &mut sink()).await?;
+                    let skipped = copy(reader.take(read_size as u64), &mut sink()).await?;
+                    if skipped != read_size as u64 {
+                        Err(Error::oos(
+                            "The page header reported the wrong page size".to_string(),
+                        ))?
+                    }
                     continue
                 }
             }
 
-            if read_size > max_page_size {
-                Err(Error::WouldOverAllocate)?
-            }
-
             // followed by the buffer
             scratch.clear();
             scratch.try_reserve(read_size)?;
-- 
2.43.0


From e23a4249da483db03abade92e137288cc1a91d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 12/45] fix: page locations of columns without an offset index
 are empty, as documented

---
 src/read/indexes/read.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index 546dd79..7eb4b45 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -120,6 +120,11 @@ pub fn read_pages_locations<R: Read + Seek>(
 ) -> Result<Vec<Vec<PageLocation>>, Error> {
     let (offset, lengths) = prepare_offset_index_read(chunks)?;
 
+    // the indexes are not available
+    if lengths.is_empty() {
+        return Ok(vec![]);
+    }
+
     let length = lengths.iter().sum::<usize>();
 
     reader.seek(SeekFrom::Start(offset))?;
-- 
2.43.0


From c2549cce87a771ea196f2f20d3fb629ed5e2e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 13/45] fix: selecting pages selected pages without a selected
 row

---
 src/indexes/intervals.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/indexes/intervals.rs b/src/indexes/intervals.rs
index b3e3e00..9e86c3f 100644
--- a/src/indexes/intervals.rs
+++ b/src/indexes/intervals.rs
@@ -101,10 +101,11 @@ fn is_in(probe: Interval, intervals: &[Interval]) -> Vec<Interval> {
         .filter_map(|interval| {
             let interval_end = interval.start + interval.length;
             let probe_end = probe.start + probe.length;
-            let overlaps = (probe.start < interval_end) && (probe_end > interval.start);
+            let start = interval.start.max(probe.start);
+            let end = interval_end.min(probe_end);
+            // an empty interval or page has no row in common with anything
+            let overlaps = start < end;
             if overlaps {
-                let start = interval.start.max(probe.start);
-                let end = interval_end.min(probe_end);
                 Some(Interval::new(start - probe.start, end - start))
             } else {
                 None
-- 
2.43.0


From 3d55c8593cbb181956227528f3df16eb99698cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:27 +0000
Subject: [PATCH 14/45] fix: a truncated bloom filter is an error, not a
 shorter filter

---
 src/bloom_filter/read.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index 21f05d9..34b7b62 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -45,5 +45,11 @@ pub fn read<R: Read + Seek>(
     bitset.try_reserve(length)?;
     reader.by_ref().take(length as u64).read_to_end(bitset)?;
 
+    if bitset.len() != length {
+        return Err(Error::oos(
+            "The file ends before the end of the bloom filter",
+        ));
+    }
+
     Ok(())
 }
-- 
2.43.0


From ec7897b21627c0c6dfbdb0cf47138ba5aa303b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:27 +0000
Subject: [PATCH 15/45] fix: serializing column chunk metadata with serde
 failed for lack of space

---
 src/metadata/column_chunk_metadata.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/metadata/column_chunk_metadata.rs b/src/metadata/column_chunk_metadata.rs
index e92c90b..7101097 100644
--- a/src/metadata/column_chunk_metadata.rs
+++ b/src/metadata/column_chunk_metadata.rs
@@ -48,8 +48,7 @@ where
     S: Serializer,
 {
     let mut buf = vec![];
-    let cursor = Cursor::new(&mut buf[..]);
-    let mut protocol = TCompactOutputProtocol::new(cursor);
+    let mut protocol = TCompactOutputProtocol::new(&mut buf);
     column_chunk
         .write_to_out_protocol(&mut protocol)
         .map_err(S::Error::custom)?;
-- 
2.43.0


From 48d4995187f71329b0b271eef7b41313f28f74d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:27 +0000
Subject: [PATCH 16/45] fix: column orders were lost when file metadata was
 written again

---
 src/metadata/file_metadata.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/metadata/file_metadata.rs b/src/metadata/file_metadata.rs
index 4d46882..27b4ec8 100644
--- a/src/metadata/file_metadata.rs
+++ b/src/metadata/file_metadata.rs
@@ -1,7 +1,7 @@
 use crate::{error::Error, metadata::get_sort_order};
 
 use super::{column_order::ColumnOrder, schema_descriptor::SchemaDescriptor, RowGroupMetaData};
-use parquet_format_safe::ColumnOrder as TColumnOrder;
+use parquet_format_safe::{ColumnOrder as TColumnOrder, TypeDefinedOrder};
 
 pub use crate::thrift_format::KeyValue;
 
@@ -97,13 +97,23 @@ impl FileMetaData {
                 .collect(),
             key_value_metadata: self.key_value_metadata,
             created_by: self.created_by,
-            column_orders: None, // todo
+            column_orders: self
+                .column_orders
+                .and_then(|orders| orders.iter().map(column_order_to_thrift).collect()),
             encryption_algorithm: None,
             footer_signing_key_metadata: None,
         }
     }
 }
 
+/// Thrift only has type defined orders
+fn column_order_to_thrift(order: &ColumnOrder) -> Option<TColumnOrder> {
+    match order {
+        ColumnOrder::TypeDefinedOrder(_) => Some(TColumnOrder::TYPEORDER(TypeDefinedOrder {})),
+        ColumnOrder::Undefined => None,
+    }
+}
+
 /// Parses [`ColumnOrder`] from Thrift definition.
 fn parse_column_orders(
     orders: &[TColumnOrder],
-- 
2.43.0


From 48ad46f2e777e49275f09ae4baa2fe032106a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 17/45] fix: decoding of definition levels stopped at the end
 of the first run

---
 src/deserialize/hybrid_rle.rs | 48 ++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/deserialize/hybrid_rle.rs b/src/deserialize/hybrid_rle.rs
index 4f457f3..ba90930 100644
--- a/src/deserialize/hybrid_rle.rs
+++ b/src/deserialize/hybrid_rle.rs
@@ -162,19 +162,29 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(run) = &mut self.current_run {
-            match run {
-                HybridBooleanState::Bitmap(bitmap) => bitmap.next().map(Ok),
-                HybridBooleanState::Repeated(value, remaining) => if *remaining == 0 {
-                    None
-                } else {
-                    *remaining -= 1;
-                    Some(*value)
+        loop {
+            if let Some(run) = &mut self.current_run {
+                let item = match run {
+                    HybridBooleanState::Bitmap(bitmap) => bitmap.next(),
+                    HybridBooleanState::Repeated(value, remaining) => {
+                        if *remaining == 0 {
+                            None
+                        } else {
+                            *remaining -= 1;
+                            Some(*value)
+                        }
+                    }
+                };
+                if let Some(item) = item {
+                    return Some(Ok(item));
                 }
-                .map(Ok),
             }
-        } else if let Some(run) = self.iter.next() {
-            let run = run.map(|run| match run {
+            // the current run is exhausted => move to the next one
+            let run = match self.iter.next()? {
+                Ok(run) => run,
+                Err(e) => return Some(Err(e)),
+            };
+            self.current_run = Some(match run {
                 HybridEncoded::Bitmap(bitmap, length) => {
                     HybridBooleanState::Bitmap(BitmapIter::new(bitmap, 0, length))
                 }
@@ -182,21 +192,17 @@ where
                     HybridBooleanState::Repeated(value, length)
                 }
             });
-            match run {
-                Ok(run) => {
-                    self.current_run = Some(run);
-                    self.next()
-                }
-                Err(e) => Some(Err(e)),
-            }
-        } else {
-            None
         }
     }
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let exact = self.iter.number_of_elements();
+        let current = match &self.current_run {
+            Some(HybridBooleanState::Bitmap(bitmap)) => bitmap.size_hint().0,
+            Some(HybridBooleanState::Repeated(_, remaining)) => *remaining,
+            None => 0,
+        };
+        let exact = current + self.iter.number_of_elements();
         (exact, Some(exact))
     }
 }
-- 
2.43.0


From 12c3aa4d68e41df9ec6930477d1b21a481b9f7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 18/45] fix: encoding a proper prefix of the previous string as
 DELTA_BYTE_ARRAY panicked

---
 src/encoding/delta_byte_array/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoding/delta_byte_array/encoder.rs b/src/encoding/delta_byte_array/encoder.rs
index 10f6511..9f51ff0 100644
--- a/src/encoding/delta_byte_array/encoder.rs
+++ b/src/encoding/delta_byte_array/encoder.rs
@@ -16,7 +16,7 @@ pub fn encode<'a, I: Iterator<Item = &'a [u8]> + Clone>(iterator: I, buffer: &mu
                 .enumerate()
                 // find first difference
                 .find_map(|(length, (lhs, rhs))| (lhs != rhs).then_some(length))
-                .unwrap_or(previous.len());
+                .unwrap_or_else(|| item.len().min(previous.len()));
             previous = item;
 
             sum_lengths += item.len() - prefix_length;
-- 
2.43.0


From 39a848046d4e0d46cca5dec414db88732fbdb1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 19/45] fix: delta binary packing of integers further apart
 than i64::MAX overflowed

---
 src/encoding/delta_bitpacked/decoder.rs | 11 ++++++-----
 src/encoding/delta_bitpacked/encoder.rs |  6 +++---
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/encoding/delta_bitpacked/decoder.rs b/src/encoding/delta_bitpacked/decoder.rs
index 86ce6c7..89691d0 100644
--- a/src/encoding/delta_bitpacked/decoder.rs
+++ b/src/encoding/delta_bitpacked/decoder.rs
@@ -99,12 +99,13 @@ impl<'a> Iterator for Block<'a> {
         if self.remaining == 0 {
             return None;
         }
-        let result = self.min_delta
-            + self
-                .current_miniblock
+        // deltas wrap around, e.g. between the minimum and the maximum of the type
+        let result = self.min_delta.wrapping_add(
+            self.current_miniblock
                 .as_mut()
                 .map(|x| x.next().unwrap_or_default())
-                .unwrap_or(0) as i64;
+                .unwrap_or(0) as i64,
+        );
         self.current_index += 1;
         self.remaining -= 1;
 
@@ -234,7 +235,7 @@ impl<'a> Iterator for Decoder<'a> {
             Err(e) => return Some(Err(e)),
         };
 
-        self.next_value += delta;
+        self.next_value = self.next_value.wrapping_add(delta);
         result
     }
 
diff --git a/src/encoding/delta_bitpacked/encoder.rs b/src/encoding/delta_bitpacked/encoder.rs
index 7fa3b4a..fde07f9 100644
--- a/src/encoding/delta_bitpacked/encoder.rs
+++ b/src/encoding/delta_bitpacked/encoder.rs
@@ -37,11 +37,11 @@ pub fn encode<I: Iterator<Item = i64>>(mut iterator: I, buffer: &mut Vec<u8>) {
         let mut max_delta = i64::MIN;
         let mut num_bits = 0;
         for (i, integer) in (0..128).zip(&mut iterator) {
-            let delta = integer - prev;
+            let delta = integer.wrapping_sub(prev);
             min_delta = min_delta.min(delta);
             max_delta = max_delta.max(delta);
 
-            num_bits = 64 - (max_delta - min_delta).leading_zeros();
+            num_bits = 64 - max_delta.wrapping_sub(min_delta).leading_zeros();
             values[i] = delta;
             prev = integer;
         }
@@ -50,7 +50,7 @@ pub fn encode<I: Iterator<Item = i64>>(mut iterator: I, buffer: &mut Vec<u8>) {
         let values = &values[..consumed];
 
         values.iter().zip(deltas.iter_mut()).for_each(|(v, delta)| {
-            *delta = (v - min_delta) as u64;
+            *delta = v.wrapping_sub(min_delta) as u64;
         });
 
         // <min delta> <list of bitwidths of miniblocks> <miniblocks>
-- 
2.43.0


From 63d54882465d855d45553443818297cbdd7f9ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:48 +0000
Subject: [PATCH 20/45] fix: reading a column chunk that the file does not hold
 completely is an error

---
 src/read/column/mod.rs    | 5 +++++
 src/read/column/stream.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/read/column/mod.rs b/src/read/column/mod.rs
index b5bc44c..cb3f7ba 100644
--- a/src/read/column/mod.rs
+++ b/src/read/column/mod.rs
@@ -197,6 +197,11 @@ where
     let mut chunk = vec![];
     chunk.try_reserve(length as usize)?;
     reader.by_ref().take(length).read_to_end(&mut chunk)?;
+    if chunk.len() as u64 != length {
+        return Err(Error::oos(
+            "The file ends before the end of the column chunk",
+        ));
+    }
     Ok(chunk)
 }
 
diff --git a/src/read/column/stream.rs b/src/read/column/stream.rs
index d8419e7..65ca246 100644
--- a/src/read/column/stream.rs
+++ b/src/read/column/stream.rs
@@ -21,6 +21,11 @@ where
     let mut chunk = vec![];
     chunk.try_reserve(length as usize)?;
     reader.take(length as u64).read_to_end(&mut chunk).await?;
+    if chunk.len() as u64 != length {
+        return Err(Error::oos(
+            "The file ends before the end of the column chunk",
+        ));
+    }
     Result::Ok(chunk)
 }
 
-- 
2.43.0


From e09ed80ebcdc9ad7fd4938ac4f85f8a999833c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:48 +0000
Subject: [PATCH 21/45] fix: reading column indexes that the file does not hold
 completely is an error, not a panic

---
 src/read/indexes/read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index 7eb4b45..a709cee 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -62,7 +62,7 @@ fn deserialize_column_indexes(
 ) -> Result<Vec<Box<dyn Index>>, Error> {
     let mut start = 0;
     let data = lengths.into_iter().map(|length| {
-        let r = &data[start..start + length];
+        let r = data.get(start..start + length);
         start += length;
         r
     });
@@ -71,6 +71,9 @@ fn deserialize_column_indexes(
         .iter()
         .zip(data)
         .map(|(chunk, data)| {
+            let data = data.ok_or_else(|| {
+                Error::oos("The file ends before the end of the column indexes")
+            })?;
             let primitive_type = chunk.descriptor().descriptor.primitive_type.clone();
             deserialize(data, primitive_type)
         })
-- 
2.43.0


From 00ae8d28a0ab0a3489083f31a32fc8482ab2b2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:48 +0000
Subject: [PATCH 22/45] fix: a page reader that failed ends, instead of reading
 pages from an unknown position

---
 src/read/page/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index 2874a3c..6f6e527 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -158,6 +158,10 @@ impl<R: Read> Iterator for PageReader<R> {
                 // no page => we take back the buffer
                 self.scratch = std::mem::take(&mut buffer);
             }
+            if let Some(Err(_)) = maybe_maybe_page {
+                // the reader is no longer known to be at the start of a page
+                self.seen_num_values = self.total_num_values;
+            }
             return maybe_maybe_page;
         }
     }
-- 
2.43.0


From fea21aaaa971c00924942c0f0f1efa22ad08e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:50 +0000
Subject: [PATCH 23/45] fix: reading metadata of a file that ends before its
 size is an error, not a panic

---
 src/read/metadata.rs | 7 +++++++
 src/read/stream.rs   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/read/metadata.rs b/src/read/metadata.rs
index 2381d0e..d64bbc4 100644
--- a/src/read/metadata.rs
+++ b/src/read/metadata.rs
@@ -59,6 +59,10 @@ pub fn read_metadata_with_size<R: Read + Seek>(
         .take(default_end_len as u64)
         .read_to_end(&mut buffer)?;
 
+    if buffer.len() != default_end_len {
+        return Err(Error::oos("The file is smaller than its size"));
+    }
+
     // check this is indeed a parquet file
     if buffer[default_end_len - 4..] != PARQUET_MAGIC {
         return Err(Error::oos("The file must end with PAR1"));
@@ -86,6 +90,9 @@ pub fn read_metadata_with_size<R: Read + Seek>(
         buffer.clear();
         buffer.try_reserve(footer_len as usize)?;
         reader.take(footer_len).read_to_end(&mut buffer)?;
+        if buffer.len() as u64 != footer_len {
+            return Err(Error::oos("The file is smaller than its size"));
+        }
 
         &buffer
     };
diff --git a/src/read/stream.rs b/src/read/stream.rs
index 3f59b74..c32f3a8 100644
--- a/src/read/stream.rs
+++ b/src/read/stream.rs
@@ -47,6 +47,10 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
         .read_to_end(&mut buffer)
         .await?;
 
+    if buffer.len() != default_end_len {
+        return Err(Error::oos("The file is smaller than its size"));
+    }
+
     // check this is indeed a parquet file
     if buffer[default_end_len - 4..] != PARQUET_MAGIC {
         return Err(Error::oos("Invalid Parquet file. Corrupt footer"));
@@ -76,6 +80,9 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
             .take(footer_len as u64)
             .read_to_end(&mut buffer)
             .await?;
+        if buffer.len() as u64 != footer_len {
+            return Err(Error::oos("The file is smaller than its size"));
+        }
 
         &buffer
     };
-- 
2.43.0


From 205e3e02d455a2b5b332bf1e0f5b6102c7e41f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:36 +0000
Subject: [PATCH 24/45] fix: an indexed page that cannot be read completely is
 an error, not a shorter page

---
 src/read/page/indexed_reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 63069e1..72e314a 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -65,8 +65,13 @@ fn read_page<R: Read + Seek>(
     let buffer = reader.into_inner();
 
     // copy [data]
+    let data_size: usize = page_header.compressed_page_size.try_into()?;
+    let page_data = buffer
+        .get(header_size..)
+        .and_then(|x| x.get(..data_size))
+        .ok_or_else(|| Error::oos("The page header reported the wrong page size"))?;
     data.clear();
-    data.extend_from_slice(&buffer[header_size..]);
+    data.extend_from_slice(page_data);
     Ok(page_header)
 }
 
-- 
2.43.0


From 0c24b6e9875ce91eda1045e7d4245243c8b21511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:00 +0000
Subject: [PATCH 25/45] fix: valid metadata and column indexes of many columns
 or pages are not refused as too long

---
 src/read/indexes/deserialize.rs | 2 +-
 src/read/indexes/read.rs        | 2 +-
 src/read/metadata.rs            | 5 +++--
 src/read/stream.rs              | 5 +++--
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/read/indexes/deserialize.rs b/src/read/indexes/deserialize.rs
index 10addf3..4442d43 100644
--- a/src/read/indexes/deserialize.rs
+++ b/src/read/indexes/deserialize.rs
@@ -6,7 +6,7 @@ use crate::schema::types::{PhysicalType, PrimitiveType};
 use crate::indexes::{BooleanIndex, ByteIndex, FixedLenByteIndex, Index, NativeIndex};
 
 pub fn deserialize(data: &[u8], primitive_type: PrimitiveType) -> Result<Box<dyn Index>, Error> {
-    let mut prot = TCompactInputProtocol::new(data, data.len() * 2 + 1024);
+    let mut prot = TCompactInputProtocol::new(data, data.len() * 10 + 1024);
 
     let index = ColumnIndex::read_from_in_protocol(&mut prot)?;
 
diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index a709cee..db9d27e 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -103,7 +103,7 @@ fn deserialize_page_locations(
     data: &[u8],
     column_number: usize,
 ) -> Result<Vec<Vec<PageLocation>>, Error> {
-    let len = data.len() * 2 + 1024;
+    let len = data.len() * 10 + 1024;
     let mut reader = Cursor::new(data);
 
     (0..column_number)
diff --git a/src/read/metadata.rs b/src/read/metadata.rs
index d64bbc4..90408c5 100644
--- a/src/read/metadata.rs
+++ b/src/read/metadata.rs
@@ -97,8 +97,9 @@ pub fn read_metadata_with_size<R: Read + Seek>(
         &buffer
     };
 
-    // a highly nested but sparse struct could result in many allocations
-    let max_size = reader.len() * 2 + 1024;
+    // a highly nested but sparse struct could result in many allocations: a byte announces at
+    // most an element of a list (8) that is a struct (2)
+    let max_size = reader.len() * 10 + 1024;
 
     deserialize_metadata(reader, max_size)
 }
diff --git a/src/read/stream.rs b/src/read/stream.rs
index c32f3a8..2537894 100644
--- a/src/read/stream.rs
+++ b/src/read/stream.rs
@@ -87,8 +87,9 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
         &buffer
     };
 
-    // a highly nested but sparse struct could result in many allocations
-    let max_size = reader.len() * 2 + 1024;
+    // a highly nested but sparse struct could result in many allocations: a byte announces at
+    // most an element of a list (8) that is a struct (2)
+    let max_size = reader.len() * 10 + 1024;
 
     deserialize_metadata(reader, max_size)
 }
-- 
2.43.0


From 38dad79c4656685990f7cdde788543caf6c987b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:25 +0000
Subject: [PATCH 26/45] fix: errors instead of panics for values that are not
 validly encoded

---
 src/encoding/bitpacked/decode.rs              | 14 +++++---
 src/encoding/delta_bitpacked/decoder.rs       | 27 +++++++++++---
 .../delta_length_byte_array/decoder.rs        | 14 ++++++--
 src/encoding/hybrid_rle/decoder.rs            |  7 +++-
 src/encoding/hybrid_rle/mod.rs                | 35 +++++++++----------
 src/encoding/uleb128.rs                       |  2 +-
 6 files changed, 68 insertions(+), 31 deletions(-)

diff --git a/src/encoding/bitpacked/decode.rs b/src/encoding/bitpacked/decode.rs
index fa3f6a9..9b38cd2 100644
--- a/src/encoding/bitpacked/decode.rs
+++ b/src/encoding/bitpacked/decode.rs
@@ -28,16 +28,22 @@ fn decode_pack<T: Unpackable>(packed: &[u8], num_bits: usize, unpacked: &mut T::
 impl<'a, T: Unpackable> Decoder<'a, T> {
     /// Returns a [`Decoder`] with `T` encoded in `packed` with `num_bits`.
     pub fn try_new(packed: &'a [u8], num_bits: usize, mut length: usize) -> Result<Self, Error> {
-        let block_size = std::mem::size_of::<T>() * num_bits;
-
         if num_bits == 0 {
             return Err(Error::oos("Bitpacking requires num_bits > 0"));
         }
 
-        if packed.len() * 8 < length * num_bits {
+        if num_bits > std::mem::size_of::<T>() * 8 {
+            return Err(Error::oos(
+                "Bitpacking requires num_bits to fit in the type",
+            ));
+        }
+
+        let block_size = std::mem::size_of::<T>() * num_bits;
+
+        if packed.len() * 8 < length.saturating_mul(num_bits) {
             return Err(Error::oos(format!(
                 "Unpacking {length} items with a number of bits {num_bits} requires at least {} bytes.",
-                length * num_bits / 8
+                length.saturating_mul(num_bits) / 8
             )));
         }
 
diff --git a/src/encoding/delta_bitpacked/decoder.rs b/src/encoding/delta_bitpacked/decoder.rs
index 89691d0..7f91e56 100644
--- a/src/encoding/delta_bitpacked/decoder.rs
+++ b/src/encoding/delta_bitpacked/decoder.rs
@@ -67,11 +67,14 @@ impl<'a> Block<'a> {
     fn advance_miniblock(&mut self) -> Result<(), Error> {
         // unwrap is ok: we sliced it by num_mini_blocks in try_new
         let num_bits = self.bitwidths.next().copied().unwrap() as usize;
+        if num_bits > 64 {
+            return Err(Error::oos("The bit width of a mini block must be <= 64"));
+        }
 
         self.current_miniblock = if num_bits > 0 {
             let length = std::cmp::min(self.remaining, self.values_per_mini_block);
 
-            let miniblock_length = ceil8(self.values_per_mini_block * num_bits);
+            let miniblock_length = ceil8(self.values_per_mini_block.saturating_mul(num_bits));
             if miniblock_length > self.values.len() {
                 return Err(Error::oos(
                     "block must contain at least miniblock_length bytes (the mini block)",
@@ -82,7 +85,7 @@ impl<'a> Block<'a> {
             self.values = remainder;
             self.consumed_bytes += miniblock_length;
 
-            Some(bitpacked::Decoder::try_new(miniblock, num_bits, length).unwrap())
+            Some(bitpacked::Decoder::try_new(miniblock, num_bits, length)?)
         } else {
             None
         };
@@ -139,7 +142,9 @@ impl<'a> Decoder<'a> {
         let mut consumed_bytes = 0;
         let (block_size, consumed) = uleb128::decode(values)?;
         consumed_bytes += consumed;
-        assert_eq!(block_size % 128, 0);
+        if block_size % 128 != 0 {
+            return Err(Error::oos("The block size must be a multiple of 128"));
+        }
         values = &values[consumed..];
         let (num_mini_blocks, consumed) = uleb128::decode(values)?;
         let num_mini_blocks = num_mini_blocks as usize;
@@ -153,8 +158,15 @@ impl<'a> Decoder<'a> {
         consumed_bytes += consumed;
         values = &values[consumed..];
 
+        if num_mini_blocks == 0 {
+            return Err(Error::oos("A block must have at least one mini block"));
+        }
         let values_per_mini_block = block_size as usize / num_mini_blocks;
-        assert_eq!(values_per_mini_block % 8, 0);
+        if values_per_mini_block % 8 != 0 {
+            return Err(Error::oos(
+                "The number of values of a mini block must be a multiple of 8",
+            ));
+        }
 
         // If we only have one value (first_value), there are no blocks.
         let current_block = if total_count > 1 {
@@ -232,7 +244,12 @@ impl<'a> Iterator for Decoder<'a> {
 
         let delta = match self.load_delta() {
             Ok(delta) => delta,
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                // the position of the following blocks is unknown
+                self.values_remaining = 0;
+                self.current_block = None;
+                return Some(Err(e));
+            }
         };
 
         self.next_value = self.next_value.wrapping_add(delta);
diff --git a/src/encoding/delta_length_byte_array/decoder.rs b/src/encoding/delta_length_byte_array/decoder.rs
index cdedd09..b832dc0 100644
--- a/src/encoding/delta_length_byte_array/decoder.rs
+++ b/src/encoding/delta_length_byte_array/decoder.rs
@@ -71,8 +71,18 @@ impl<'a> Iterator for Decoder<'a> {
         let result = self.lengths.next();
         match result {
             Some(Ok(v)) => {
-                self.total_length += v as u32;
-                Some(Ok(v as i32))
+                let length = match i32::try_from(v) {
+                    Ok(length) if length >= 0 => length,
+                    _ => return Some(Err(Error::oos("The length of a value is out of range"))),
+                };
+                self.total_length = self.total_length.saturating_add(length as u32);
+                let available = self.values.len() - self.lengths.consumed_bytes();
+                if self.lengths.size_hint().0 == 0 && self.total_length as usize > available {
+                    return Some(Err(Error::oos(
+                        "The lengths declare more bytes than the ones available",
+                    )));
+                }
+                Some(Ok(length))
             }
             Some(Err(error)) => Some(Err(error)),
             None => None,
diff --git a/src/encoding/hybrid_rle/decoder.rs b/src/encoding/hybrid_rle/decoder.rs
index 2dae52b..f165a4f 100644
--- a/src/encoding/hybrid_rle/decoder.rs
+++ b/src/encoding/hybrid_rle/decoder.rs
@@ -47,7 +47,7 @@ impl<'a> Iterator for Decoder<'a> {
 
         if indicator & 1 == 1 {
             // is bitpacking
-            let bytes = (indicator as usize >> 1) * self.num_bits;
+            let bytes = (indicator as usize >> 1).saturating_mul(self.num_bits);
             let bytes = std::cmp::min(bytes, self.values.len());
             let (result, remaining) = self.values.split_at(bytes);
             self.values = remaining;
@@ -57,6 +57,11 @@ impl<'a> Iterator for Decoder<'a> {
             let run_length = indicator as usize >> 1;
             // repeated-value := value that is repeated, using a fixed-width of round-up-to-next-byte(bit-width)
             let rle_bytes = ceil8(self.num_bits);
+            if rle_bytes > self.values.len() {
+                return Some(Err(Error::oos(
+                    "An RLE run must contain the bytes of its value",
+                )));
+            }
             let (result, remaining) = self.values.split_at(rle_bytes);
             self.values = remaining;
             Some(Ok(HybridEncoded::Rle(result, run_length)))
diff --git a/src/encoding/hybrid_rle/mod.rs b/src/encoding/hybrid_rle/mod.rs
index 5886f46..c34ea05 100644
--- a/src/encoding/hybrid_rle/mod.rs
+++ b/src/encoding/hybrid_rle/mod.rs
@@ -84,26 +84,25 @@ impl<'a> Iterator for HybridRleDecoder<'a> {
         if self.remaining == 0 {
             return None;
         };
-        let result = match &mut self.state {
-            State::Single(opt_val) => {
-                // make sure to take so that next calls will return 'None'
-                // indicating that the iterator is finished.
-                opt_val.take()
+        // runs may be empty
+        loop {
+            let result = match &mut self.state {
+                State::Single(opt_val) => {
+                    // make sure to take so that next calls will return 'None'
+                    // indicating that the iterator is finished.
+                    opt_val.take()
+                }
+                State::Bitpacked(decoder) => decoder.next(),
+                State::Rle(iter) => iter.next(),
+                State::None => Some(0),
+            };
+            if let Some(result) = result {
+                self.remaining -= 1;
+                return Some(Ok(result));
             }
-            State::Bitpacked(decoder) => decoder.next(),
-            State::Rle(iter) => iter.next(),
-            State::None => Some(0),
-        };
-        if let Some(result) = result {
-            self.remaining -= 1;
-            Some(Ok(result))
-        } else {
             match read_next(&mut self.decoder, self.remaining) {
-                Ok(state) => {
-                    self.state = state;
-                    self.next()
-                }
-                Err(e) => Some(Err(e)),
+                Ok(state) => self.state = state,
+                Err(e) => return Some(Err(e)),
             }
         }
     }
diff --git a/src/encoding/uleb128.rs b/src/encoding/uleb128.rs
index 5ca261e..8be9e25 100644
--- a/src/encoding/uleb128.rs
+++ b/src/encoding/uleb128.rs
@@ -8,7 +8,7 @@ pub fn decode(values: &[u8]) -> Result<(u64, usize), Error> {
     for byte in values {
         consumed += 1;
         if shift == 63 && *byte > 1 {
-            panic!()
+            return Err(Error::oos("A ULEB128 integer must fit in 64 bits"));
         };
 
         result |= u64::from(byte & 0b01111111) << shift;
-- 
2.43.0


From 21907e5e326b2dd67781e966774de0e96bd7ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:26 +0000
Subject: [PATCH 27/45] fix: errors instead of panics for pages whose parts do
 not fit in their buffer

---
 src/deserialize/fixed_len.rs | 8 +++++++-
 src/deserialize/utils.rs     | 4 +++-
 src/page/mod.rs              | 7 +++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/deserialize/fixed_len.rs b/src/deserialize/fixed_len.rs
index 7aecda8..32b9d63 100644
--- a/src/deserialize/fixed_len.rs
+++ b/src/deserialize/fixed_len.rs
@@ -15,7 +15,9 @@ pub struct FixexBinaryIter<'a> {
 
 impl<'a> FixexBinaryIter<'a> {
     pub fn new(values: &'a [u8], size: usize) -> Self {
-        let values = values.chunks_exact(size);
+        // items without bytes can't be counted
+        let values = if size == 0 { &[] } else { values };
+        let values = values.chunks_exact(size.max(1));
         Self { values }
     }
 }
@@ -77,6 +79,10 @@ impl<'a, P> FixedLenBinaryPageState<'a, P> {
             ));
         };
 
+        if size == 0 {
+            return Err(Error::oos("The size of a FixedLenByteArray must be > 0"));
+        }
+
         match (page.encoding(), dict, is_optional) {
             (Encoding::PlainDictionary | Encoding::RleDictionary, Some(dict), false) => {
                 Dictionary::try_new(page, dict).map(Self::RequiredDictionary)
diff --git a/src/deserialize/utils.rs b/src/deserialize/utils.rs
index 0d0135e..61f8210 100644
--- a/src/deserialize/utils.rs
+++ b/src/deserialize/utils.rs
@@ -15,7 +15,9 @@ pub(super) fn dict_indices_decoder(page: &DataPage) -> Result<hybrid_rle::Hybrid
 
     // SPEC: Data page format: the bit width used to encode the entry ids stored as 1 byte (max bit width = 32),
     // SPEC: followed by the values encoded using RLE/Bit packed described above (with the given bit width).
-    let bit_width = indices_buffer[0];
+    let bit_width = *indices_buffer
+        .first()
+        .ok_or_else(|| Error::oos("A page of dictionary indices must contain their bit width"))?;
     if bit_width > 32 {
         return Err(Error::oos(
             "Bit width of dictionary pages cannot be larger than 32",
diff --git a/src/page/mod.rs b/src/page/mod.rs
index 03b5425..67b30cc 100644
--- a/src/page/mod.rs
+++ b/src/page/mod.rs
@@ -403,6 +403,13 @@ pub fn split_buffer_v2(
     rep_level_buffer_length: usize,
     def_level_buffer_length: usize,
 ) -> Result<(&[u8], &[u8], &[u8])> {
+    if rep_level_buffer_length > buffer.len()
+        || def_level_buffer_length > buffer.len() - rep_level_buffer_length
+    {
+        return Err(Error::oos(
+            "The number of bytes declared in v2 levels is higher than the page size",
+        ));
+    }
     Ok((
         &buffer[..rep_level_buffer_length],
         &buffer[rep_level_buffer_length..rep_level_buffer_length + def_level_buffer_length],
-- 
2.43.0


From f464d7cd69daf46db058934c9936f3db00ba1197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:26 +0000
Subject: [PATCH 28/45] fix: errors instead of panics or aborts for invalid
 page headers

---
 src/read/compression.rs         | 10 ++++++----
 src/read/page/indexed_reader.rs | 12 ++++++++++--
 src/read/page/reader.rs         |  2 ++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/read/compression.rs b/src/read/compression.rs
index fb69860..0365f0e 100644
--- a/src/read/compression.rs
+++ b/src/read/compression.rs
@@ -24,8 +24,9 @@ fn decompress_v2(
     //
     // We always use 0 offset for other pages other than v2, `true` flag means
     // that compression will be applied if decompressor is defined
-    let offset = (page_header.definition_levels_byte_length
-        + page_header.repetition_levels_byte_length) as usize;
+    let def_length: usize = page_header.definition_levels_byte_length.try_into()?;
+    let rep_length: usize = page_header.repetition_levels_byte_length.try_into()?;
+    let offset = def_length.saturating_add(rep_length);
     // When is_compressed flag is missing the page is considered compressed
     let can_decompress = page_header.is_compressed.unwrap_or(true);
 
@@ -63,8 +64,9 @@ pub fn decompress_buffer(
 
         if read_size > buffer.capacity() {
             // dealloc and ignore region, replacing it by a new region.
-            // This won't reallocate - it frees and calls `alloc_zeroed`
-            *buffer = vec![0; read_size];
+            *buffer = vec![];
+            buffer.try_reserve(read_size)?;
+            buffer.resize(read_size, 0);
         } else if read_size > buffer.len() {
             // fill what we need with zeros so that we can use them in `Read`.
             // This won't reallocate
diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 72e314a..87596a4 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -11,7 +11,7 @@ use crate::{
     parquet_bridge::Compression,
 };
 
-use super::reader::{finish_page, read_page_header, PageMetaData};
+use super::reader::{finish_page, get_page_header, read_page_header, PageMetaData};
 
 #[derive(Debug, Clone, Copy)]
 enum State {
@@ -61,6 +61,7 @@ fn read_page<R: Read + Seek>(
     // deserialize [header]
     let mut reader = Cursor::new(buffer);
     let page_header = read_page_header(&mut reader, 1024 * 1024)?;
+    get_page_header(&page_header)?;
     let header_size = reader.seek(SeekFrom::Current(0)).unwrap() as usize;
     let buffer = reader.into_inner();
 
@@ -159,7 +160,14 @@ impl<R: Read + Seek> IndexedPageReader<R> {
         // the column
         let (start, length) = match self.pages.get(0) {
             Some(page) => {
-                let length = (page.start - self.column_start) as usize;
+                let length = match page.start.checked_sub(self.column_start) {
+                    Some(length) => length as usize,
+                    None => {
+                        return Some(Err(Error::oos(
+                            "The first data page starts before the start of the column",
+                        )))
+                    }
+                };
                 if length > 0 {
                     (self.column_start, length)
                 } else {
diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index 6f6e527..cba0682 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -296,6 +296,7 @@ pub(super) fn get_page_header(header: &ParquetPageHeader) -> Result<Option<DataP
             let header = header.data_page_header.clone().ok_or_else(|| {
                 Error::oos("The page header type is a v1 data page but the v1 header is empty")
             })?;
+            let _: usize = header.num_values.try_into()?;
             let _: Encoding = header.encoding.try_into()?;
             let _: Encoding = header.repetition_level_encoding.try_into()?;
             let _: Encoding = header.definition_level_encoding.try_into()?;
@@ -306,6 +307,7 @@ pub(super) fn get_page_header(header: &ParquetPageHeader) -> Result<Option<DataP
             let header = header.data_page_header_v2.clone().ok_or_else(|| {
                 Error::oos("The page header type is a v1 data page but the v1 header is empty")
             })?;
+            let _: usize = header.num_values.try_into()?;
             let _: Encoding = header.encoding.try_into()?;
             Some(DataPageHeader::V2(header))
         }
-- 
2.43.0


From 1c9d94d1a02676f37e53519edd2009dd707e4771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:26 +0000
Subject: [PATCH 29/45] fix: invalid bloom filters are an error instead of a
 panic

---
 src/bloom_filter/read.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index 34b7b62..71c247b 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -19,7 +19,7 @@ pub fn read<R: Read + Seek>(
     let offset = column_metadata.metadata().bloom_filter_offset;
 
     let offset = if let Some(offset) = offset {
-        offset as u64
+        offset.try_into()?
     } else {
         bitset.clear();
         return Ok(());
@@ -41,6 +41,12 @@ pub fn read<R: Read + Seek>(
 
     let length: usize = header.num_bytes.try_into()?;
 
+    if length % 32 != 0 {
+        return Err(Error::oos(
+            "The bitset of a bloom filter must be a multiple of 32 bytes",
+        ));
+    }
+
     bitset.clear();
     bitset.try_reserve(length)?;
     reader.by_ref().take(length as u64).read_to_end(bitset)?;
-- 
2.43.0


From b7b14c36ef56c9b047bd2217a326544199e989c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:26 +0000
Subject: [PATCH 30/45] fix: too deep schemas are an error instead of a stack
 overflow

---
 src/schema/io_thrift/from_thrift.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/schema/io_thrift/from_thrift.rs b/src/schema/io_thrift/from_thrift.rs
index 68add24..b97a494 100644
--- a/src/schema/io_thrift/from_thrift.rs
+++ b/src/schema/io_thrift/from_thrift.rs
@@ -7,13 +7,17 @@ use crate::{
 
 use super::super::types::ParquetType;
 
+/// The maximum number of groups that a node can be nested in. Types are traversed recursively,
+/// and deeper ones could thus exhaust the stack.
+const MAX_DEPTH: usize = 256;
+
 impl ParquetType {
     /// Method to convert from Thrift.
     pub fn try_from_thrift(elements: &[SchemaElement]) -> Result<ParquetType> {
         let mut index = 0;
         let mut schema_nodes = Vec::new();
         while index < elements.len() {
-            let t = from_thrift_helper(elements, index)?;
+            let t = from_thrift_helper(elements, index, 0)?;
             index = t.0;
             schema_nodes.push(t.1);
         }
@@ -32,7 +36,14 @@ impl ParquetType {
 /// The first result is the starting index for the next Type after this one. If it is
 /// equal to `elements.len()`, then this Type is the last one.
 /// The second result is the result Type.
-fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize, ParquetType)> {
+fn from_thrift_helper(
+    elements: &[SchemaElement],
+    index: usize,
+    depth: usize,
+) -> Result<(usize, ParquetType)> {
+    if depth > MAX_DEPTH {
+        return Err(Error::oos("The schema is nested too deep"));
+    }
     // Whether or not the current node is root (message type).
     // There is only one message type node in the schema tree.
     let is_root_node = index == 0;
@@ -96,7 +107,7 @@ fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize
             let mut fields = vec![];
             let mut next_index = index + 1;
             for _ in 0..n {
-                let child_result = from_thrift_helper(elements, next_index)?;
+                let child_result = from_thrift_helper(elements, next_index, depth + 1)?;
                 next_index = child_result.0;
                 fields.push(child_result.1);
             }
-- 
2.43.0


From ee5080b787ae559758ee496287f6d0bf6b8a2ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:26 +0000
Subject: [PATCH 31/45] fix: the column order of a column without one does not
 panic

---
 src/metadata/file_metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/file_metadata.rs b/src/metadata/file_metadata.rs
index 27b4ec8..d433ac9 100644
--- a/src/metadata/file_metadata.rs
+++ b/src/metadata/file_metadata.rs
@@ -55,7 +55,7 @@ impl FileMetaData {
     pub fn column_order(&self, i: usize) -> ColumnOrder {
         self.column_orders
             .as_ref()
-            .map(|data| data[i])
+            .and_then(|data| data.get(i).copied())
             .unwrap_or(ColumnOrder::Undefined)
     }
 
-- 
2.43.0


From f4d625e3ea70df6056e970f2820883cf7a9e07c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:26 +0000
Subject: [PATCH 32/45] fix: an empty minimum of a boolean column index is an
 error instead of a panic

---
 src/indexes/index.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/indexes/index.rs b/src/indexes/index.rs
index 8242ac2..4aa0ec7 100644
--- a/src/indexes/index.rs
+++ b/src/indexes/index.rs
@@ -291,6 +291,11 @@ impl BooleanIndex {
                 let (min, max) = if is_null {
                     (None, None)
                 } else {
+                    if min.is_empty() || max.is_empty() {
+                        return Err(Error::oos(
+                            "The min and max of a boolean page must not be empty",
+                        ));
+                    }
                     let min = min[0] == 1;
                     let max = max[0] == 1;
                     (Some(min), Some(max))
-- 
2.43.0


From c5518c012ccebdeaa9102b7ef3b86889eab8104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:06 +0000
Subject: [PATCH 33/45] fix: an unsupported logical type in the text of a
 schema is an error instead of a panic

---
 src/schema/io_message/from_message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 3434932..3d7bef5 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -612,7 +612,7 @@ impl<'a> Parser<'a> {
             "UUID" => PrimitiveLogicalType::Uuid,
             "UNKNOWN" => PrimitiveLogicalType::Unknown,
             "INTERVAL" => return Err(Error::oos("Interval logical type not yet supported")),
-            _ => unreachable!(),
+            other => return Err(Error::oos(format!("Invalid logical type {}", other))),
         })
     }
 }
-- 
2.43.0


From 05fdb74cb1d700707f0a51e5c53fcfed56841b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:24 +0000
Subject: [PATCH 34/45] fix: runs that cannot be decoded end after the error,
 instead of reporting it forever

---
 src/encoding/hybrid_rle/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encoding/hybrid_rle/decoder.rs b/src/encoding/hybrid_rle/decoder.rs
index f165a4f..b7278a3 100644
--- a/src/encoding/hybrid_rle/decoder.rs
+++ b/src/encoding/hybrid_rle/decoder.rs
@@ -38,7 +38,11 @@ impl<'a> Iterator for Decoder<'a> {
 
         let (indicator, consumed) = match uleb128::decode(self.values) {
             Ok((indicator, consumed)) => (indicator, consumed),
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                // the position of the following runs is unknown
+                self.values = &[];
+                return Some(Err(e));
+            }
         };
         self.values = &self.values[consumed..];
         if self.values.is_empty() {
-- 
2.43.0


From 8d339ddd1e36aae4b41746064540af3f4048ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:11 +0000
Subject: [PATCH 35/45] fix: pages with selected rows are written with all
 their rows in row counts and offset indexes

---
 src/page/mod.rs   |  7 -------
 src/write/page.rs | 24 ++++++++++++++++++++----
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/page/mod.rs b/src/page/mod.rs
index 67b30cc..aae6244 100644
--- a/src/page/mod.rs
+++ b/src/page/mod.rs
@@ -281,13 +281,6 @@ impl CompressedPage {
         }
     }
 
-    pub(crate) fn selected_rows(&self) -> Option<&[Interval]> {
-        match self {
-            CompressedPage::Data(page) => page.selected_rows(),
-            CompressedPage::Dict(_) => None,
-        }
-    }
-
     pub(crate) fn uncompressed_size(&self) -> usize {
         match self {
             CompressedPage::Data(page) => page.uncompressed_page_size,
diff --git a/src/write/page.rs b/src/write/page.rs
index 0ba7fa4..2125f2b 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -39,6 +39,24 @@ fn maybe_bytes(uncompressed: usize, compressed: usize) -> Result<(i32, i32)> {
     Ok((uncompressed_page_size, compressed_page_size))
 }
 
+/// The number of rows of the page, if it declares them. All its rows are written, also
+/// when only some of them are selected.
+fn num_rows(page: &CompressedPage) -> Option<usize> {
+    let page = match page {
+        CompressedPage::Data(page) => page,
+        CompressedPage::Dict(_) => return None,
+    };
+    let selected_rows = page.selected_rows()?;
+    match page.header() {
+        DataPageHeader::V2(header) => header.num_rows.try_into().ok(),
+        DataPageHeader::V1(_) if page.descriptor.max_rep_level == 0 => Some(page.num_values()),
+        DataPageHeader::V1(_) => match selected_rows {
+            [rows] if rows.start == 0 => Some(rows.length),
+            _ => None,
+        },
+    }
+}
+
 /// Contains page write metrics.
 pub struct PageWriteSpec {
     pub header: ParquetPageHeader,
@@ -57,7 +75,6 @@ pub fn write_page<W: Write>(
     compressed_page: &CompressedPage,
 ) -> Result<PageWriteSpec> {
     let num_values = compressed_page.num_values();
-    let selected_rows = compressed_page.selected_rows();
 
     let header = match &compressed_page {
         CompressedPage::Data(compressed_page) => assemble_data_page_header(compressed_page),
@@ -90,7 +107,7 @@ pub fn write_page<W: Write>(
         bytes_written,
         compression: compressed_page.compression(),
         statistics,
-        num_rows: selected_rows.map(|x| x.last().unwrap().length),
+        num_rows: num_rows(compressed_page),
         num_values,
     })
 }
@@ -103,7 +120,6 @@ pub async fn write_page_async<W: AsyncWrite + Unpin + Send>(
     compressed_page: &CompressedPage,
 ) -> Result<PageWriteSpec> {
     let num_values = compressed_page.num_values();
-    let selected_rows = compressed_page.selected_rows();
 
     let header = match &compressed_page {
         CompressedPage::Data(compressed_page) => assemble_data_page_header(compressed_page),
@@ -136,7 +152,7 @@ pub async fn write_page_async<W: AsyncWrite + Unpin + Send>(
         bytes_written,
         compression: compressed_page.compression(),
         statistics,
-        num_rows: selected_rows.map(|x| x.last().unwrap().length),
+        num_rows: num_rows(compressed_page),
         num_values,
     })
 }
-- 
2.43.0


From b60d23418a7544515593ea817bb567805f5b8a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:52 +0000
Subject: [PATCH 36/45] fix: the indexes of columns are read from where each of
 them is stored

---
 src/read/indexes/read.rs | 165 ++++++++++++++++++---------------------
 1 file changed, 77 insertions(+), 88 deletions(-)

diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index db9d27e..b79a794 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -1,5 +1,5 @@
 use std::convert::TryInto;
-use std::io::{Cursor, Read, Seek, SeekFrom};
+use std::io::{Read, Seek, SeekFrom};
 
 use parquet_format_safe::ColumnChunk;
 use parquet_format_safe::{thrift::protocol::TCompactInputProtocol, OffsetIndex, PageLocation};
@@ -10,74 +10,87 @@ use crate::metadata::ColumnChunkMetaData;
 
 use super::deserialize::deserialize;
 
+/// Returns the offset and length of the index of every chunk, or an empty vector if the
+/// indexes are not available.
 fn prepare_read<F: Fn(&ColumnChunk) -> Option<i64>, G: Fn(&ColumnChunk) -> Option<i32>>(
     chunks: &[ColumnChunkMetaData],
     get_offset: F,
     get_length: G,
-) -> Result<(u64, Vec<usize>), Error> {
-    // c1: [start, length]
-    // ...
-    // cN: [start, length]
-
-    let first_chunk = if let Some(chunk) = chunks.first() {
-        chunk
-    } else {
-        return Ok((0, vec![]));
-    };
-    let metadata = first_chunk.column_chunk();
-
-    let offset: u64 = if let Some(offset) = get_offset(metadata) {
-        offset.try_into()?
-    } else {
-        return Ok((0, vec![]));
-    };
-
-    let lengths = chunks
+) -> Result<Vec<(u64, usize)>, Error> {
+    match chunks.first() {
+        Some(chunk) if get_offset(chunk.column_chunk()).is_some() => {}
+        _ => return Ok(vec![]),
+    }
+
+    chunks
         .iter()
-        .map(|x| get_length(x.column_chunk()))
-        .map(|maybe_length| {
-            let index_length = maybe_length.ok_or_else(|| {
+        .map(|x| {
+            let metadata = x.column_chunk();
+            let offset = get_offset(metadata)
+                .ok_or_else(|| Error::oos("Either all or no column must have an index"))?;
+            let length = get_length(metadata).ok_or_else(|| {
                 Error::oos("The column length must exist if column offset exists")
             })?;
 
-            Ok(index_length.try_into()?)
+            Ok((offset.try_into()?, length.try_into()?))
         })
-        .collect::<Result<Vec<_>, Error>>()?;
-
-    Ok((offset, lengths))
+        .collect()
 }
 
-fn prepare_column_index_read(chunks: &[ColumnChunkMetaData]) -> Result<(u64, Vec<usize>), Error> {
+fn prepare_column_index_read(chunks: &[ColumnChunkMetaData]) -> Result<Vec<(u64, usize)>, Error> {
     prepare_read(chunks, |x| x.column_index_offset, |x| x.column_index_length)
 }
 
-fn prepare_offset_index_read(chunks: &[ColumnChunkMetaData]) -> Result<(u64, Vec<usize>), Error> {
+fn prepare_offset_index_read(chunks: &[ColumnChunkMetaData]) -> Result<Vec<(u64, usize)>, Error> {
     prepare_read(chunks, |x| x.offset_index_offset, |x| x.offset_index_length)
 }
 
-fn deserialize_column_indexes(
-    chunks: &[ColumnChunkMetaData],
-    data: &[u8],
-    lengths: Vec<usize>,
-) -> Result<Vec<Box<dyn Index>>, Error> {
-    let mut start = 0;
-    let data = lengths.into_iter().map(|length| {
-        let r = data.get(start..start + length);
-        start += length;
-        r
-    });
-
-    chunks
+/// Reads the bytes of `ranges`, one after the other. The indexes of columns are usually
+/// neighbours, but they do not have to be.
+fn read_ranges<R: Read + Seek>(reader: &mut R, ranges: &[(u64, usize)]) -> Result<Vec<u8>, Error> {
+    let total = ranges
         .iter()
-        .zip(data)
-        .map(|(chunk, data)| {
-            let data = data.ok_or_else(|| {
-                Error::oos("The file ends before the end of the column indexes")
-            })?;
-            let primitive_type = chunk.descriptor().descriptor.primitive_type.clone();
-            deserialize(data, primitive_type)
-        })
-        .collect()
+        .try_fold(0usize, |total, (_, length)| total.checked_add(*length))
+        .ok_or(Error::WouldOverAllocate)?;
+
+    let mut data = vec![];
+    data.try_reserve(total)?;
+
+    let mut remaining = ranges.iter().copied().peekable();
+    while let Some((start, length)) = remaining.next() {
+        let mut length = length as u64;
+        while let Some((_, next)) =
+            remaining.next_if(|(offset, _)| start.checked_add(length) == Some(*offset))
+        {
+            length += next as u64;
+        }
+
+        reader.seek(SeekFrom::Start(start))?;
+        let read = reader.by_ref().take(length).read_to_end(&mut data)?;
+        if read as u64 != length {
+            return Err(Error::oos("The file ends before the end of the indexes"));
+        }
+    }
+    Ok(data)
+}
+
+/// Splits `data` into the parts read from each of `ranges`.
+fn split_ranges<'a>(
+    mut data: &'a [u8],
+    ranges: &'a [(u64, usize)],
+) -> impl Iterator<Item = &'a [u8]> {
+    ranges.iter().map(move |(_, length)| {
+        let (part, rest) = data.split_at(*length);
+        data = rest;
+        part
+    })
+}
+
+fn deserialize_page_locations(data: &[u8]) -> Result<Vec<PageLocation>, Error> {
+    let len = data.len() * 10 + 1024;
+    let mut prot = TCompactInputProtocol::new(data, len);
+    let offset = OffsetIndex::read_from_in_protocol(&mut prot)?;
+    Ok(offset.page_locations)
 }
 
 /// Reads the column indexes of all [`ColumnChunkMetaData`] and deserializes them into [`Index`].
@@ -86,31 +99,16 @@ pub fn read_columns_indexes<R: Read + Seek>(
     reader: &mut R,
     chunks: &[ColumnChunkMetaData],
 ) -> Result<Vec<Box<dyn Index>>, Error> {
-    let (offset, lengths) = prepare_column_index_read(chunks)?;
-
-    let length = lengths.iter().sum::<usize>();
+    let ranges = prepare_column_index_read(chunks)?;
 
-    reader.seek(SeekFrom::Start(offset))?;
+    let data = read_ranges(reader, &ranges)?;
 
-    let mut data = vec![];
-    data.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(&mut data)?;
-
-    deserialize_column_indexes(chunks, &data, lengths)
-}
-
-fn deserialize_page_locations(
-    data: &[u8],
-    column_number: usize,
-) -> Result<Vec<Vec<PageLocation>>, Error> {
-    let len = data.len() * 10 + 1024;
-    let mut reader = Cursor::new(data);
-
-    (0..column_number)
-        .map(|_| {
-            let mut prot = TCompactInputProtocol::new(&mut reader, len);
-            let offset = OffsetIndex::read_from_in_protocol(&mut prot)?;
-            Ok(offset.page_locations)
+    chunks
+        .iter()
+        .zip(split_ranges(&data, &ranges))
+        .map(|(chunk, data)| {
+            let primitive_type = chunk.descriptor().descriptor.primitive_type.clone();
+            deserialize(data, primitive_type)
         })
         .collect()
 }
@@ -121,20 +119,11 @@ pub fn read_pages_locations<R: Read + Seek>(
     reader: &mut R,
     chunks: &[ColumnChunkMetaData],
 ) -> Result<Vec<Vec<PageLocation>>, Error> {
-    let (offset, lengths) = prepare_offset_index_read(chunks)?;
-
-    // the indexes are not available
-    if lengths.is_empty() {
-        return Ok(vec![]);
-    }
-
-    let length = lengths.iter().sum::<usize>();
+    let ranges = prepare_offset_index_read(chunks)?;
 
-    reader.seek(SeekFrom::Start(offset))?;
+    let data = read_ranges(reader, &ranges)?;
 
-    let mut data = vec![];
-    data.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(&mut data)?;
-
-    deserialize_page_locations(&data, chunks.len())
+    split_ranges(&data, &ranges)
+        .map(deserialize_page_locations)
+        .collect()
 }
-- 
2.43.0


From c9e3589686c47daedc33b16d2ef56172f89b76c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:52 +0000
Subject: [PATCH 37/45] fix: pre-read columns are visited in their order
 instead of backwards

---
 src/read/column/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/column/mod.rs b/src/read/column/mod.rs
index cb3f7ba..27b51ed 100644
--- a/src/read/column/mod.rs
+++ b/src/read/column/mod.rs
@@ -135,8 +135,9 @@ impl ReadColumnIterator {
     /// Returns a new [`ReadColumnIterator`]
     pub fn new(
         field: ParquetType,
-        chunks: Vec<(Vec<Result<CompressedPage, Error>>, ColumnChunkMetaData)>,
+        mut chunks: Vec<(Vec<Result<CompressedPage, Error>>, ColumnChunkMetaData)>,
     ) -> Self {
+        chunks.reverse();
         Self {
             field,
             chunks,
-- 
2.43.0


From f1a2282e8b1de94ba2f2a37d6ba6aecae2932e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:19 +0000
Subject: [PATCH 38/45] fix: a compressor does not present an emptied page
 after an error

---
 src/write/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index b32ace4..41bd5f8 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -141,7 +141,8 @@ impl<I: Iterator<Item = Result<Page>>> FallibleStreamingIterator for Compressor<
     type Error = Error;
 
     fn advance(&mut self) -> std::result::Result<(), Self::Error> {
-        let mut compressed_buffer = if let Some(page) = self.current.as_mut() {
+        // the buffer of the page is given away: the page is not available from here on
+        let mut compressed_buffer = if let Some(mut page) = self.current.take() {
             std::mem::take(page.buffer())
         } else {
             std::mem::take(&mut self.buffer)
-- 
2.43.0


From 749e5776750832d8bbfd517c8e37dc829e397fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:58 +0000
Subject: [PATCH 39/45] fix: the writer keeps whether a dictionary page is
 sorted

---
 src/write/page.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/page.rs b/src/write/page.rs
index 2125f2b..09c43ab 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -207,7 +207,7 @@ fn assemble_dict_page_header(page: &CompressedDictPage) -> Result<ParquetPageHea
         dictionary_page_header: Some(DictionaryPageHeader {
             num_values,
             encoding: Encoding::PLAIN,
-            is_sorted: None,
+            is_sorted: if page.is_sorted { Some(true) } else { None },
         }),
         data_page_header_v2: None,
     })
-- 
2.43.0


From 0dc4d12ec65300ef4454758d565adbed35495bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:43 +0000
Subject: [PATCH 40/45] fix: lz4 blocks larger than the page are an error
 instead of a panic with lz4_flex

---
 src/compression.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index 70bc1fa..c8d2b8f 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -176,8 +176,7 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
             "decompress with snappy".to_string(),
         )),
         #[cfg(all(feature = "lz4_flex", not(feature = "lz4")))]
-        Compression::Lz4Raw => lz4_flex::block::decompress_into(input_buf, output_buf)
-            .map_err(|e| e.into())
+        Compression::Lz4Raw => lz4_decompress_to_buffer(input_buf, None, output_buf)
             .and_then(|size| check_decompressed_size(size, output_buf.len())),
         #[cfg(feature = "lz4")]
         Compression::Lz4Raw => {
@@ -317,10 +316,55 @@ fn lz4_decompress_to_buffer(
     _uncompressed_size: Option<i32>,
     buffer: &mut [u8],
 ) -> Result<usize> {
+    check_lz4_block(src, buffer.len())?;
     let size = lz4_flex::block::decompress_into(src, buffer)?;
     Ok(size)
 }
 
+/// Errors if the lz4 block holds more than `capacity` bytes: `lz4_flex` panics when it
+/// decompresses such a block (unless its feature `checked-decode` is active).
+#[cfg(all(feature = "lz4_flex", not(feature = "lz4")))]
+fn check_lz4_block(mut src: &[u8], capacity: usize) -> Result<()> {
+    let error = || Error::oos("The lz4 block is malformed or does not fit the size of the page");
+
+    let mut available = capacity;
+    loop {
+        let (token, rest) = src.split_first().ok_or_else(error)?;
+        let (literals, rest) = lz4_length(token >> 4, rest).ok_or_else(error)?;
+        available = available.checked_sub(literals).ok_or_else(error)?;
+        src = rest.get(literals..).ok_or_else(error)?;
+        if src.is_empty() {
+            // the last sequence only has literals
+            return Ok(());
+        }
+        // the offset of the match
+        src = src.get(2..).ok_or_else(error)?;
+        let (length, rest) = lz4_length(token & 0x0F, src).ok_or_else(error)?;
+        available = length
+            .checked_add(4)
+            .and_then(|length| available.checked_sub(length))
+            .ok_or_else(error)?;
+        src = rest;
+    }
+}
+
+/// The length of which `token` holds the first 4 bits, and what follows it in the block.
+#[cfg(all(feature = "lz4_flex", not(feature = "lz4")))]
+fn lz4_length(token: u8, mut src: &[u8]) -> Option<(usize, &[u8])> {
+    let mut length = token as usize;
+    if length == 15 {
+        loop {
+            let (byte, rest) = src.split_first()?;
+            length = length.checked_add(*byte as usize)?;
+            src = rest;
+            if *byte != 255 {
+                break;
+            }
+        }
+    }
+    Some((length, src))
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 9b6043bb06e3a0c3aa8415c0323838e8fccb1f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:08 +0000
Subject: [PATCH 41/45] fix: the order of binary values when one is a prefix of
 the other

---
 src/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 3e73688..b234e29 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -128,7 +128,8 @@ pub fn ord_binary<'a>(a: &'a [u8], b: &'a [u8]) -> std::cmp::Ordering {
             other => return other,
         }
     }
-    Equal
+    // a prefix is smaller
+    a.len().cmp(&b.len())
 }
 
 #[inline]
-- 
2.43.0


From b93696819c014564d0865aa22439b5b8b449c577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:02 +0000
Subject: [PATCH 42/45] fix: list the encodings of bit-packed levels in the
 metadata of a column chunk

---
 src/write/column_chunk.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 3507b9b..affc9d2 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -188,10 +188,17 @@ fn build_column_chunk(
         .flat_map(|spec| {
             let type_ = spec.header.type_.try_into().unwrap();
             match type_ {
-                PageType::DataPage => vec![
-                    spec.header.data_page_header.as_ref().unwrap().encoding,
-                    Encoding::Rle.into(),
-                ],
+                PageType::DataPage => {
+                    let header = spec.header.data_page_header.as_ref().unwrap();
+                    let mut encodings = vec![header.encoding, Encoding::Rle.into()];
+                    if descriptor.descriptor.max_def_level > 0 {
+                        encodings.push(header.definition_level_encoding);
+                    }
+                    if descriptor.descriptor.max_rep_level > 0 {
+                        encodings.push(header.repetition_level_encoding);
+                    }
+                    encodings
+                }
                 PageType::DataPageV2 => {
                     vec![
                         spec.header.data_page_header_v2.as_ref().unwrap().encoding,
-- 
2.43.0


From bc25d32d43c2dbddec9fe6fadb3cce47628786b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:16 +0000
Subject: [PATCH 43/45] fix: a bloom filter without blocks excludes nothing

---
 src/bloom_filter/split_block.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bloom_filter/split_block.rs b/src/bloom_filter/split_block.rs
index 576f4d5..048d991 100644
--- a/src/bloom_filter/split_block.rs
+++ b/src/bloom_filter/split_block.rs
@@ -5,6 +5,9 @@ const SALT: [u32; 8] = [
     1203114875, 1150766481, 2284105051, 2729912477, 1884591559, 770785867, 2667333959, 1550580529,
 ];
 
+/// Number of bytes of a block
+const BLOCK_SIZE: usize = 32;
+
 fn hash_to_block_index(hash: u64, len: usize) -> usize {
     let number_of_blocks = len as u64 / 32;
     let low_hash = hash >> 32;
@@ -47,8 +50,13 @@ fn unload_block(block: [u32; 8], bitset: &mut [u8]) {
     }
 }
 
-/// Returns whether the `hash` is in the set
+/// Returns whether the `hash` is in the set.
+/// Every hash may be in the set of a filter without blocks, such as the one that
+/// [`read`](super::read) returns for a column that has no filter.
 pub fn is_in_set(bitset: &[u8], hash: u64) -> bool {
+    if bitset.len() < BLOCK_SIZE {
+        return true;
+    }
     let block_index = hash_to_block_index(hash, bitset.len());
     let key = hash as u32;
 
@@ -66,6 +74,9 @@ pub fn is_in_set(bitset: &[u8], hash: u64) -> bool {
 
 /// Inserts a new hash to the set
 pub fn insert(bitset: &mut [u8], hash: u64) {
+    if bitset.len() < BLOCK_SIZE {
+        return;
+    }
     let block_index = hash_to_block_index(hash, bitset.len());
     let key = hash as u32;
 
-- 
2.43.0


From bdb6be64c6a4e1379a09b9a38241dbcf4a628d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:23 +0000
Subject: [PATCH 44/45] fix: schemas without columns and groups without
 children can be read

The writer writes them with zero children and no physical type; the reader
took every element with zero children for a primitive type and refused the file.
---
 src/schema/io_thrift/from_thrift.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/schema/io_thrift/from_thrift.rs b/src/schema/io_thrift/from_thrift.rs
index b97a494..29f948e 100644
--- a/src/schema/io_thrift/from_thrift.rs
+++ b/src/schema/io_thrift/from_thrift.rs
@@ -55,13 +55,16 @@ fn from_thrift_helper(
     let converted_type = element.converted_type;
 
     let id = element.field_id;
-    match element.num_children {
+    // Sometimes parquet-cpp sets num_children field to 0 for primitive types. Only those have
+    // a physical type: without one, this is a group without children.
+    let num_children = element
+        .num_children
+        .filter(|n| *n != 0 || element.type_.is_none());
+    match num_children {
         // From parquet-format:
         //   The children count is used to construct the nested relationship.
         //   This field is not set when the element is a primitive type
-        // Sometimes parquet-cpp sets num_children field to 0 for primitive types, so we
-        // have to handle this case too.
-        None | Some(0) => {
+        None => {
             // primitive type
             let repetition = element
                 .repetition_type
-- 
2.43.0


From be6a3858e335fe99327f80326416eb67a33fe953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:23 +0000
Subject: [PATCH 45/45] fix: empty intervals select nothing in
 SliceFilteredIter

An interval of length zero made it yield a value and subtract with overflow.
---
 src/deserialize/utils.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/deserialize/utils.rs b/src/deserialize/utils.rs
index 61f8210..976d352 100644
--- a/src/deserialize/utils.rs
+++ b/src/deserialize/utils.rs
@@ -125,7 +125,14 @@ impl<T, I: Iterator<Item = T>> Iterator for SliceFilteredIter<I> {
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
         if self.current_remaining == 0 {
-            if let Some(interval) = self.selected_rows.pop_front() {
+            // empty intervals select nothing
+            let interval = loop {
+                match self.selected_rows.pop_front() {
+                    Some(interval) if interval.length == 0 => {}
+                    interval => break interval,
+                }
+            };
+            if let Some(interval) = interval {
                 // skip the hole between the previous start and this start
                 // (start + length) - start
                 let item = self.iter.nth(interval.start - self.current);
-- 
2.43.0

