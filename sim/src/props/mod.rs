//! The registry of checked properties.
mod codec;
mod damage;
mod fault;
mod index;
mod read;
mod write;

use crate::world::R;

pub struct Prop {
    pub id: &'static str,
    pub run: fn() -> R,
    /// simulated runs of the quick tier
    pub runs: u64,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
}
const fn p(id: &'static str, run: fn() -> R, runs: u64, rule: &'static str, assumptions: &'static [&'static str]) -> Prop {
    Prop { id, run, runs, rule, level: "exploration", assumptions }
}
pub const ALL: &[Prop] = &[
    p("P01", write::p01, 200_000, "The scenario draws a schema (flat, nested, very deep, very wide), options, a table (many codecs, page versions, sizes, dictionary or not, statistics or not), writes it through the sync or async writer into a sink that takes partial writes, and reads it back by every reader through partial reads; everything is compared with the table that was drawn.", &["tables of up to some hundred pages and a few MB per run", "values a run stores are drawn from small and extreme distributions, not from all of the type's domain"]),
    p("P02", write::p02, 200_000, "The scenario writes one drawn table twice, with the sync writer and with the async writer under a drawn schedule of readiness and partial acceptance, and compares the bytes and the outcome of every call; the hash seeds of hash maps are drawn.", &["calls that fail (wrong column count, missing statistics, failing producers) are compared by outcome and kind, not by message"]),
    p("P03", read::p03, 150_000, "The scenario draws a file (written by the library or by an independent writer with legal layouts the library does not produce), possibly damages it, and reads it with the sync and async readers under a drawn schedule; both sides are compared.", &["when a thrift structure runs into its size limit only that both sides refuse it is compared: the sync and async sides of the thrift dependency count differently"]),
    p("P14", read::p14, 150_000, "The scenario draws a file, a filter (by statistics, by position, by header, stateful), and a reader; the pages and the filter's calls are compared with the unfiltered scan.", &[]),
    p("P15", read::p15, 150_000, "The scenario draws several pages, files and readers, buffers with hostile contents, lengths and capacities, and an interleaving of them (swaps, skipped errors, abandonment, concurrent tasks); each page is compared with the one a fresh reader yields in isolation.", &[]),
    p("P16", read::p16, 150_000, "The scenario draws a file with several columns per field and reads the columns concurrently; a drawn schedule orders opens, readiness and completion; some readers fail or are abandoned.", &[]),
    p("P19", read::p19, 150_000, "The scenario draws a file with nested fields and a caller that consumes a drawn number of pages of each column before advancing; the visited columns and pages are compared with the file.", &[]),
    p("P22", read::p22, 150_000, "The scenario logs every read, seek and write a reader or writer issues and compares the byte ranges touched, and the order of producer pulls and writes, with the regions the operation may touch.", &["seeks by themselves touch nothing"]),
    p("P04", write::p04, 200_000, "The scenario draws a table, a sequence of writer calls (continued after errors), and a fault: error, EINTR, full disk, a write accepting nothing, failing flush or producer, at a drawn operation, transient or permanent; acknowledged outcomes are compared with the bytes the sink holds.", &["EINTR is never permanent", "a sink whose writes accept nothing keeps doing so: the thrift dependency drops a single byte of which nothing was accepted, which only the end of the file can notice"]),
    p("P05", write::p05, 200_000, "The scenario drops the futures of write and end at drawn suspension points and goes on using the writer; acknowledged outcomes are compared with the bytes the sink holds.", &[]),
    p("P06", write::p06, 60_000, "The scenario writes a table, keeps a drawn (or every) prefix of its bytes, alone or followed by zeros, and opens the rest with every metadata reader; the file is then written again.", &[]),
    p("P10", write::p10, 200_000, "The scenario writes a drawn table and compares the footer, indexes and pages, as parsed by an independent reader, with the pages that were handed to the writer.", &["thrift structures are parsed with the generated code of parquet-format-safe, which the library also uses"]),
    p("P11", index::p11, 150_000, "The scenario draws a file with an offset index, row intervals and a reader (buffers, partial reads, pages out of order); pages and decoded values are compared with a full scan sliced by the intervals.", &["intervals are sorted, disjoint and not empty", "row-restricted decoding is compared for flat columns, the only ones it is defined for"]),
    p("P12", index::p12, 150_000, "The scenario draws a table with statistics on every data page, writes it, and reads its column indexes and page statistics through partial reads.", &[]),
    p("P13", index::p13, 150_000, "The scenario writes pages with drawn statistics (present, partly present, absent) of every physical and logical type and compares the chunk's statistics with the bounds of its pages in an independently written order.", &["values whose order the format leaves undefined (INT96, intervals, NaN) only count as absent or equal"]),
    p("P18", index::p18, 60_000, "The scenario draws filters and values, stores filters in files next to columns, reads them through partial and failing reads, and compares answers with an independent implementation of the format's algorithm.", &[]),
    p("P23", index::p23, 150_000, "The scenario takes the metadata of a writer, of a drawn file (also with fields the library never writes), or of several files, writes it as a sidecar through partial or failing writes, or through serde, and compares what is read back.", &["recursion limits of the serde format are not the library's"]),
    p("P21", codec::p21, 150_000, "The scenario draws values, levels, encodings and a compression, encodes them with the library or with an independent encoder using freer layouts, carries them through a written file with partial transfers, and decodes them with the library; runs, deltas and bit widths are also decoded directly, and encoders write into sinks that accept little or fail.", &[]),
    p("P07", fault::p07, 150_000, "The scenario draws a file, an entry point, and a fault of the source (error, EINTR, early end, shrinking, would-block, timeout) at a drawn operation; what is returned is compared with a fault-free read of the same bytes.", &["a source that ended does not grow again: a transient end of file in the middle of a thrift string cannot be told from the end"]),
    p("P08", damage::p08, 150_000, "The scenario draws a file, damages its stored bytes (flips, overwrites, lost and repeated blocks, rewritten counts and lengths, edited and repacked structures, hostile page bodies) and exercises every reader, splitter and decoder on what is left; panics, overflows, aborts and runs past the step bound are violations.", &["schema texts are nested at most 400 deep", "row intervals given by the caller are valid"]),
    p("P09", damage::p09, 150_000, "The scenario rewrites the sizes and counts of headers, indexes and footers, and measures the bytes allocated while reading against the page size limit and the bytes read.", &["decompression output, whole-column reads and bloom filters are sized by the file and not bounded by the page size limit", "lengths the footer announces for an index are trusted", "each leaf descriptor copies its field's type: the bound counts those copies"]),
    p("P20", fault::p20, 150_000, "The scenario runs an operation over sources and sinks that delay, wake spuriously, split transfers and then work or fail for good, and counts I/O calls and polls until it ends.", &[]),
    p("P17", write::p17, 200_000, "The scenario draws sequences of writer calls around the end of a file, with wrong column counts and failing calls, and compares emitted bytes, outcomes and metadata after each call.", &[]),
];
pub fn get(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}
