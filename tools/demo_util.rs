#![allow(dead_code)]
// Helpers of the demonstrations.
use parquet2::compression::CompressionOptions;
use parquet2::encoding::Encoding;
use parquet2::error::{Error, Result};
use parquet2::metadata::{ColumnDescriptor, SchemaDescriptor};
use parquet2::page::*;
use parquet2::statistics::ParquetStatistics;
use parquet2::write::*;
pub fn schema(s: &str) -> SchemaDescriptor {
    SchemaDescriptor::try_from_message(s).unwrap()
}
/// A data page of a required (or, without nulls in `body`, already encoded) column
pub fn data(d: &ColumnDescriptor, n: usize, rows: usize, body: Vec<u8>, enc: Encoding, st: Option<ParquetStatistics>) -> Page {
    let h = DataPageHeaderV1 {
        num_values: n as i32,
        encoding: enc.into(),
        definition_level_encoding: Encoding::Rle.into(),
        repetition_level_encoding: Encoding::Rle.into(),
        statistics: st,
    };
    Page::Data(DataPage::new(DataPageHeader::V1(h), body, d.descriptor.clone(), Some(rows)))
}
pub fn i32s(d: &ColumnDescriptor, v: &[i32]) -> Page {
    let body = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    data(d, v.len(), v.len(), body, Encoding::Plain, Some(stats(v.iter().min().map(|x| x.to_le_bytes().to_vec()), v.iter().max().map(|x| x.to_le_bytes().to_vec()), Some(0))))
}
pub fn dict(n: usize, body: Vec<u8>) -> Page {
    Page::Dict(DictPage::new(body, n, false))
}
pub fn stats(min: Option<Vec<u8>>, max: Option<Vec<u8>>, nulls: Option<i64>) -> ParquetStatistics {
    ParquetStatistics { max: None, min: None, null_count: nulls, distinct_count: None, max_value: max, min_value: min }
}
pub fn rg<'a>(cols: Vec<Vec<Page>>, c: CompressionOptions) -> RowGroupIter<'a, Error> {
    DynIter::new(cols.into_iter().map(move |pages| {
        let pages = DynIter::new(pages.into_iter().map(Ok));
        Ok(DynStreamingIterator::new(Compressor::new(pages, c, vec![])))
    }))
}
pub fn options(statistics: bool) -> WriteOptions {
    WriteOptions { write_statistics: statistics, version: Version::V2 }
}
pub fn write(s: &SchemaDescriptor, statistics: bool, groups: Vec<Vec<Vec<Page>>>, c: CompressionOptions) -> Result<Vec<u8>> {
    let mut w = FileWriter::new(vec![], s.clone(), options(statistics), None);
    for g in groups {
        w.write(rg(g, c))?;
    }
    let n = w.end(None)?;
    let f = w.into_inner();
    assert_eq!(n as usize, f.len());
    Ok(f)
}
pub fn write_async(s: &SchemaDescriptor, statistics: bool, groups: Vec<Vec<Vec<Page>>>, c: CompressionOptions) -> Result<Vec<u8>> {
    let mut w = FileStreamer::new(futures::io::AllowStdIo::new(vec![]), s.clone(), options(statistics), None);
    futures::executor::block_on(async {
        for g in groups {
            w.write(rg(g, c)).await?;
        }
        w.end(None).await
    })?;
    Ok(w.into_inner().into_inner())
}
