#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=False):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: anchors["observe_at"] = [observe]
    if hook: anchors["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})

p("P01", "A finished file reads back exactly what was written",
  "Once ending the file writer has succeeded, reading the written bytes yields the same schema, key-value metadata, created-by, version and row counts, and for every column of every row group the same dictionary and data pages in the same order: header, encodings, statistics, row/value counts and decompressed bytes. "
  "This holds for every schema shape (nested up to 256 groups), page version, page size and compression codec, and however the sink and the source split the transfer into partial writes and partial reads. Pages after the last value of a chunk are not read back.",
  ["inputs", "configurations", "schedules"],
  "all schemas (required/optional/repeated/nested), row groups x columns x pages (V1, V2, dictionary, empty), codecs and levels, statistics on/off, and all short-write/short-read patterns of the sink and the source",
  "The suite writes one or two fixed pages per test to an in-memory cursor that always transfers everything in one call; it samples neither short transfers, nor multi-row-group/multi-page layouts, nor V2 pages crossed with each codec.",
  ["src/write/file.rs", "src/write/row_group.rs", "src/write/column_chunk.rs", "src/write/page.rs", "src/write/compression.rs", "src/read/metadata.rs", "src/read/page/reader.rs", "src/read/compression.rs", "src/compression.rs", "src/metadata/file_metadata.rs", "src/schema/io_thrift"],
  [("file writer", "src/write/file.rs FileWriter::{write,end}"), ("page writer", "src/write/page.rs write_page"), ("codecs", "src/compression.rs"), ("metadata reader", "src/read/metadata.rs"), ("page reader", "src/read/page/reader.rs PageReader"), ("decompression", "src/read/compression.rs")],
  [("offset", "bytes the writer believes it has emitted; every offset in the footer derives from it")],
  "bytes accepted by the sink; metadata, pages and decompressed buffers returned to the reader")

p("P02", "The async writer produces the same file as the sync writer",
  "Given the same row groups, options and key-value metadata, the asynchronous file writer emits byte for byte the file the synchronous writer emits, and each of its calls returns the same outcome and the same length. "
  "This does not depend on when the sink is ready, on how many bytes it takes per call, or on hash-map iteration order.",
  ["schedules", "inputs"],
  "all poll schedules (pending/ready, partial writes, delayed wake-ups) of the asynchronous sink, all inputs of P01, all hash seeds",
  "The single async write test compares read-back values, not bytes, on a sink that is always ready; the duplicated sync/async code paths can drift apart in any field of the footer.",
  ["src/write/stream.rs", "src/write/row_group.rs", "src/write/column_chunk.rs", "src/write/page.rs", "src/write/indexes/write.rs"],
  [("async writer", "src/write/stream.rs FileStreamer"), ("async row group/column/page writers", "src/write/{row_group,column_chunk,page}.rs *_async"), ("encodings set", "src/write/column_chunk.rs build_column_chunk (HashSet then sort)")],
  [("state", "whether the file was started / finished")],
  "bytes accepted by the sink and return values")

p("P03", "Async readers return exactly what the sync readers return",
  "For any file, the asynchronous metadata reader, page stream (seeking, or starting at the column start) and column reader return the same metadata, the same pages in the same order and the same bytes as their synchronous counterparts, including with a page filter. "
  "The result does not depend on when the source is ready or on how it splits the bytes it returns, and on a file whose bytes are damaged both sides agree on success or failure.",
  ["schedules", "inputs", "fault_sequences"],
  "all poll schedules and partial reads of the source, files written by this library or by another writer, intact or with damaged bytes, all page filters",
  "Async reads are tested on one file through an always-ready cursor; equality with the synchronous reader is never asserted, nor are pending polls or damaged input exercised.",
  ["src/read/stream.rs", "src/read/page/stream.rs", "src/read/column/stream.rs", "src/read/metadata.rs", "src/read/page/reader.rs"],
  [("async metadata", "src/read/stream.rs read_metadata"), ("async page stream", "src/read/page/stream.rs"), ("async columns", "src/read/column/stream.rs")],
  None, "values yielded by streams/futures vs. iterators/functions")

p("P04", "A failed write is never later acknowledged as a good file",
  "If an I/O operation of the sink fails or a page producer returns an error, the writer call in progress returns an error, and no later call on that writer reports success for a file that does not read back as exactly the acknowledged row groups. "
  "A successful end means that every byte of the reported length was accepted by the sink and that its flush succeeded. This holds for the sync and the async writer.",
  ["fault_sequences", "histories"],
  "all positions and kinds of sink failure (error, full device, zero-length write, interrupted call, failing flush), of page-producer failure and of column-count mismatch, and all continuations of the caller afterwards (retry the row group, write another, end, end again)",
  "No test makes a sink or a page iterator fail, and none continues using a writer after an error.",
  ["src/write/file.rs", "src/write/stream.rs", "src/write/row_group.rs", "src/write/column_chunk.rs", "src/write/page.rs"],
  [("sync writer", "src/write/file.rs FileWriter::{start,write,end}"), ("async writer", "src/write/stream.rs FileStreamer::{start,write,end}")],
  [("offset/row_groups/page_specs/state", "bookkeeping which must not diverge from the sink after a failure")],
  "results of write/end and bytes held by the sink")

p("P05", "Cancelling an async write never yields a bad acknowledged file",
  "If the future of an asynchronous write or end call is dropped at any suspension point and the writer is used again, a later successful end implies that the bytes held by the sink read back as exactly the row groups whose writes were acknowledged. "
  "Otherwise the writer reports an error.",
  ["schedules", "crash_points", "histories"],
  "all suspension points at which write/end may be dropped, under all partial-write schedules, and all continuations (write, end)",
  "No test drops a write future before completion, so cancellation points are never reached.",
  ["src/write/stream.rs", "src/write/row_group.rs", "src/write/page.rs"],
  [("async writer", "src/write/stream.rs FileStreamer::{write,end}")],
  [("offset vs. sink position", "diverge when a future is dropped after some bytes were accepted")],
  "results of later calls and bytes held by the sink")

p("P06", "A crash while writing never leaves a file that reads as a table",
  "If the process stops after any prefix of the bytes of a file has become durable (alone, or followed by zeros), opening what is left either fails with an error or, only when every byte is durable, yields the complete table; it never yields a different table and never panics. "
  "Writing the file again from scratch after the restart yields a good file.",
  ["crash_points", "histories"],
  "all byte positions at which the durable prefix may end (sync and async writer, with any partial writes), for page contents that do not themselves contain the file magic, and all readers used afterwards",
  "Tests never truncate a file; the interesting cuts (inside the footer length, inside the magic, exactly 12 bytes, empty) are not sampled.",
  ["src/write/file.rs", "src/write/stream.rs", "src/read/metadata.rs", "src/read/stream.rs"],
  [("footer last", "src/write/file.rs end_file"), ("footer validation", "src/read/metadata.rs read_metadata_with_size")],
  None, "result of read_metadata(_async) on every durable prefix")

p("P07", "Failed or short reads surface as errors, never as wrong data",
  "When the source fails, is shorter than announced, or ends early at any point, every read entry point (metadata, pages, indexed pages, whole columns, column and offset indexes, bloom filters; sync and async) returns an error or exactly the data a fault-free read returns. "
  "It never panics, never returns truncated or shifted data as success, and an iterator or stream that has reported an error yields nothing afterwards that is not a genuine page of the column.",
  ["fault_sequences", "inputs"],
  "all positions and kinds of source failure (error, interrupted call, early end of file, file shrinking between calls, failing seek), for every read entry point, codec and page layout",
  "Tests read intact files from always-succeeding cursors; no read error or premature end of file is injected anywhere.",
  ["src/read/metadata.rs", "src/read/stream.rs", "src/read/page/reader.rs", "src/read/page/indexed_reader.rs", "src/read/page/stream.rs", "src/read/column/mod.rs", "src/read/column/stream.rs", "src/read/indexes/read.rs", "src/bloom_filter/read.rs"],
  [("footer read", "src/read/metadata.rs"), ("page read", "src/read/page/reader.rs build_page"), ("indexed page read", "src/read/page/indexed_reader.rs read_page"), ("column read", "src/read/column/mod.rs read_column"), ("index read", "src/read/indexes/read.rs"), ("bloom read", "src/bloom_filter/read.rs")],
  None, "results of each read call vs. the fault-free run")

p("P08", "Damaged bytes never make the read path panic or hang",
  "Reading a file whose stored bytes were altered in any way (flipped bits, overwritten or zeroed regions, lost or duplicated blocks, altered lengths and counts) ends in an error or in some value, never in a panic, abort, arithmetic overflow or endless loop. "
  "This covers metadata, page headers and pages, decompression, page statistics, column and offset indexes, bloom filters, splitting pages into levels and values, and decoding those with the page decoders; an iterator asked for more after it reported an error comes to an end.",
  ["inputs", "fault_sequences"],
  "all alterations of the stored bytes of files produced by this or another writer, and all read entry points",
  "Tests cover a handful of hand-made invalid buffers; the space of damaged files is not sampled at all end to end.",
  ["src/read", "src/metadata", "src/schema/io_thrift", "src/compression.rs", "src/page/mod.rs", "src/statistics", "src/indexes", "src/deserialize", "src/encoding", "src/bloom_filter"],
  [("thrift to metadata", "src/metadata, src/schema/io_thrift/from_thrift.rs"), ("page headers", "src/read/page/reader.rs"), ("decompression", "src/read/compression.rs, src/compression.rs"), ("decoders", "src/encoding, src/deserialize")],
  None, "panics / aborts / step budget of each read call")

p("P09", "Lying headers cannot make the readers over-allocate",
  "With a page size limit set, no page reader or stream returns a page whose stored size exceeds the limit, and a page that is within the limit is returned normally; memory allocated while reading a page is bounded by a small multiple of the limit plus a constant, whatever sizes and counts the page header announces. "
  "Memory allocated while reading file metadata, or while decoding page indexes and reading pages through them, is bounded by a small multiple of the bytes read (and of the lengths the footer announces for an index), whatever list and string lengths the metadata or the indexes announce.",
  ["inputs", "fault_sequences"],
  "all page headers and footers, including ones announcing huge or negative sizes, list lengths and string lengths, and all values of the limit including the exact size of a page",
  "No test sets a page size limit below the size of a page and none measures allocations.",
  ["src/read/page/reader.rs", "src/read/page/stream.rs", "src/read/metadata.rs", "src/read/stream.rs"],
  [("limit check", "src/read/page/reader.rs build_page, src/read/page/stream.rs"), ("metadata limit", "src/read/metadata.rs read_metadata_with_size")],
  None, "peak bytes requested from the allocator during each read call; size of returned pages")

p("P10", "The footer describes exactly the bytes that were written",
  "In a file whose end succeeded, as seen by an independent parser of the format: every column chunk's start and compressed size cover exactly its pages, page headers announce the true sizes, uncompressed size, value count, encodings, codec, row-group byte size, row-group offset, ordinal and row counts are the sums and facts of those pages; chunks, indexes and footer do not overlap and all lie inside the file; and the length returned by end is the number of bytes in the file. "
  "The offset index lists exactly the data pages with their true positions, sizes and first rows, also when the pages handed to the writer have only some of their rows selected; all of this holds beyond 2 and 4 GiB, and a page size the format cannot express is refused, not truncated.",
  ["inputs", "configurations", "schedules"],
  "all tables and writer options, sync and async writers, all partial-write schedules",
  "Tests check a few metadata fields of single-page files against constants; multi-page, multi-column and multi-row-group offset accounting is not covered.",
  ["src/write/file.rs", "src/write/stream.rs", "src/write/row_group.rs", "src/write/column_chunk.rs", "src/write/page.rs", "src/write/indexes/serialize.rs"],
  [("offset accounting", "src/write/file.rs, src/write/row_group.rs, src/write/column_chunk.rs"), ("offset index", "src/write/indexes/serialize.rs serialize_offset_index")],
  [("offset", "running position used for every recorded offset")],
  "bytes of the file parsed without this library's readers")

p("P11", "Page-index pushdown returns exactly the selected rows",
  "For any set of selected row intervals, selecting pages with the offset index and reading them through the indexed page reader returns the column's dictionary page if it has one, then exactly the data pages that contain a selected row, in order, each identical to the page a full scan returns and carrying the selected rows relative to the page. "
  "Decoding the pages restricted to those rows gives the same values and nulls as slicing the fully decoded column. The page locations of any selection of columns are those of each column, wherever in the file their indexes are stored; the arithmetic holds for row groups of any length, and page locations whose rows go backwards or beyond the row group are refused.",
  ["inputs", "schedules"],
  "all row-interval selections (also derived from page-level predicates), page layouts (1..n pages, with and without dictionary), partial reads, and for flat columns all value types",
  "The pushdown tests use one three-page file and a couple of intervals; the composition of index, selection, indexed reads and filtered decoding is not compared with a full scan.",
  ["src/indexes/intervals.rs", "src/read/page/indexed_reader.rs", "src/read/indexes/read.rs", "src/write/indexes/serialize.rs", "src/deserialize"],
  [("selection", "src/indexes/intervals.rs select_pages, compute_rows"), ("indexed reads", "src/read/page/indexed_reader.rs"), ("filtered decoding", "src/deserialize/{filtered_rle,utils,hybrid_rle}.rs")],
  None, "pages and selected rows yielded vs. full scan; decoded rows")

p("P12", "Column indexes report each page's own statistics",
  "When statistics writing is on and every data page carries statistics, reading the column indexes of a row group (or of any selection of its columns) yields, for every column in order and wherever its index is stored, one entry per data page with that page's minimum, maximum and null count (no bounds for an all-null page), and in the file pages with values and bounds are not marked as null pages; when it is off no column index is written, and an order is claimed only if the pages have it. "
  "Statistics attached to a page are returned unchanged, as typed values, by page readers.",
  ["inputs", "configurations", "schedules"],
  "all physical types, numbers of row groups, columns and pages, null patterns, any selection of columns, any layout of the indexes, and partial reads/writes",
  "One test checks the index of a single one-page column.",
  ["src/write/indexes/serialize.rs", "src/read/indexes/read.rs", "src/read/indexes/deserialize.rs", "src/indexes/index.rs", "src/statistics"],
  [("column index writer", "src/write/indexes/serialize.rs serialize_column_index"), ("column index reader", "src/read/indexes"), ("statistics codecs", "src/statistics")],
  None, "indexes and statistics returned by the readers")

p("P13", "Column chunk statistics are valid bounds for all of its pages",
  "Whenever the metadata of a column chunk carries statistics, its minimum is not greater than, and its maximum not less than, any minimum or maximum of its data pages in the order of the column's type, its null count is the exact total of the pages, and bounds and counts are absent rather than wrong when some data page does not declare statistics. "
  "Writing succeeds for statistics of every physical type, and the comparisons of values the library offers (native types, byte strings) are the orders of those types.",
  ["inputs", "histories"],
  "all physical types and sort orders, page sequences with and without statistics, equal prefixes, extreme values, all-null pages",
  "The unit tests merge one or two hand-picked statistics per type; byte strings sharing a prefix, missing statistics, unsigned types and 96-bit integers are not covered.",
  ["src/write/statistics.rs", "src/write/column_chunk.rs", "src/statistics", "src/types.rs"],
  [("merge", "src/write/statistics.rs reduce"), ("use", "src/write/column_chunk.rs build_column_chunk")],
  None, "statistics() of the chunk metadata read back vs. statistics of the pages written")

p("P14", "Page filters drop exactly the rejected data pages",
  "With a page filter, page iterators, page streams and column iterators yield every dictionary page and exactly the data pages the filter accepts, unchanged and in file order; the filter sees each data page's own header, in order and once. "
  "Rejecting pages never affects the contents of the pages that are yielded.",
  ["inputs", "schedules", "fault_sequences"],
  "all accept/reject decision sequences over all page layouts and codecs, sync and async, under partial reads, pending polls and read faults",
  "Only accept-all filters are exercised by the suite.",
  ["src/read/page/reader.rs", "src/read/page/stream.rs", "src/read/column/mod.rs"],
  [("sync filter", "src/read/page/reader.rs PageReader::next"), ("async filter", "src/read/page/stream.rs")],
  None, "pages yielded and filter invocations")

p("P15", "Reused buffers never leak data between pages or tasks",
  "Whatever buffers (contents, length, capacity) callers hand to page readers, indexed readers, compressors and decompressors, and however pages, columns, readers and concurrent tasks are interleaved, buffers swapped back, errors skipped or iterators abandoned and their buffers reused, every page yielded is identical to the one produced with fresh buffers in isolation.",
  ["schedules", "histories", "inputs"],
  "all interleavings of several readers/writers/decompressors sharing recycled buffers, all initial buffer states, codecs and page-size sequences (growing, shrinking, empty)",
  "Two tests check final buffer lengths on one file; contents after reuse, interleavings, and shrink/grow sequences are not covered.",
  ["src/read/compression.rs", "src/write/compression.rs", "src/read/page/reader.rs", "src/read/page/indexed_reader.rs", "src/compression.rs"],
  [("decompression buffer", "src/read/compression.rs decompress_buffer, Decompressor"), ("compression buffer", "src/write/compression.rs Compressor"), ("reader scratch", "src/read/page/reader.rs swap_buffer")],
  [("scratch/buffer/current", "recycled between pages")],
  "pages yielded vs. fresh-buffer run")

p("P16", "Concurrent column reads map every column to its own bytes",
  "Reading all columns of a field, concurrently or sequentially, returns one entry per column of that field, in column order, each paired with exactly the bytes of its own chunk, whatever order the individual readers open, become ready and complete in. "
  "If any of them fails the whole operation fails; abandoning it at any point harms no other reader.",
  ["schedules", "fault_sequences"],
  "all completion orders of the per-column readers, all open/seek/read faults, all cancellation points, all nested schemas and field names",
  "One test reads a single column through one always-ready factory.",
  ["src/read/column/stream.rs", "src/read/column/mod.rs", "src/read/mod.rs"],
  [("fan-out", "src/read/column/stream.rs read_columns_async"), ("field selection", "src/read/mod.rs get_field_columns")],
  None, "pairs (column metadata, bytes) returned")

p("P17", "A file is ended once and never grows afterwards",
  "On both writers, after end succeeded every further write or end returns an error and does not emit a byte; before that, the metadata of the written file is not available. After it (sync writer) the metadata equals what reading the file yields. "
  "A row group whose number of columns differs from the schema is refused, one whose pages do not belong together (another codec, no number of rows) is refused or reads back as what was given, and the writer emits nothing before its first write or end.",
  ["histories", "schedules"],
  "all sequences of write/end/accessor calls on both writers, including empty files, zero-page columns, and repeated ends",
  "One test calls end twice on nothing; sequences of calls on the async writer are untested.",
  ["src/write/file.rs", "src/write/stream.rs", "src/write/row_group.rs", "src/write/mod.rs"],
  [("state machine", "src/write/file.rs and src/write/stream.rs State")],
  [("state", "Initialised, Started, Finished")],
  "results of calls, bytes accepted by the sink, metadata()")

p("P18", "Bloom filters have no false negatives",
  "Every value inserted into a split-block filter bitset is reported as possibly present, and a filter stored in a file is returned bit for bit with the same answers, through any partial reads; a filter that is absent yields an empty bitset, which excludes no value, and one that cannot be read completely yields an error. "
  "The answer for a value only depends on the set of values inserted, and agrees with the format's reference algorithm.",
  ["inputs", "fault_sequences", "schedules"],
  "all sets of values and types, all bitset sizes that are multiples of 32 bytes, all insert orders, all read faults",
  "Two fixed bitsets are checked; reading through faults and partial reads is not.",
  ["src/bloom_filter/mod.rs", "src/bloom_filter/split_block.rs", "src/bloom_filter/hash.rs", "src/bloom_filter/read.rs"],
  [("filter", "src/bloom_filter/split_block.rs"), ("reader", "src/bloom_filter/read.rs")],
  None, "is_in_set answers, bitset returned")

p("P19", "Column iteration visits each column of a field once, in order",
  "Iterating over the columns of a field yields each of its column chunks exactly once, in schema order, each with the pages of that chunk, regardless of how much of each column's pages the caller consumed before advancing; it then reports completion. Columns that were read beforehand are visited in the order they were given. "
  "Selecting a field never returns columns of another field, and filtering row groups keeps exactly the accepted ones in order.",
  ["histories", "schedules", "inputs"],
  "all nested schemas and field names, all partial-consumption patterns, scratch buffers and partial reads",
  "Tests iterate one flat field and always drain it.",
  ["src/read/column/mod.rs", "src/read/mod.rs"],
  [("column iterator", "src/read/column/mod.rs ColumnIterator::advance"), ("row group filter", "src/read/mod.rs filter_row_groups")],
  None, "columns and pages yielded")

p("P20", "Every operation finishes in bounded steps once faults stop",
  "Every read or write operation completes, with a result or an error, within a number of I/O calls and polls bounded by the size of the data, as long as the source and sink eventually make progress: no lost wake-ups, busy polling, repeated retries or endless loops, and a permanently failing source or sink makes it return an error within that bound. "
  "Iterators and streams that reached their end stay ended, and those over a failing source end after a bounded number of items.",
  ["schedules", "fault_sequences"],
  "all poll schedules and fault sequences after which the device behaves, for every read and write operation",
  "Tests use always-ready I/O and cannot observe polls or call counts.",
  ["src/read", "src/write"],
  [("async readers", "src/read/stream.rs, src/read/page/stream.rs, src/read/column/stream.rs"), ("async writer", "src/write/stream.rs"), ("sync loops", "src/read/page/reader.rs, src/write/file.rs")],
  None, "count of I/O calls, polls and wake-ups per operation in simulated time")

p("P21", "Values encoded into pages decode to the same values end to end",
  "Values and definition levels encoded with the library's encoders (plain, dictionary indices, RLE/bit-packed hybrid, delta binary packed, delta length and delta byte arrays), put into pages, compressed, written, read back and decoded with the library's decoders are the original values and nulls, for every physical type, value distribution and length. "
  "Decoders report the exact number of remaining items, and values encoded or compressed by other writers (any run structure, block size of deltas, legacy LZ4 framing) decode likewise. Encoders that take a sink give it the same bytes however few it accepts at a time, and report its failure.",
  ["inputs", "configurations", "schedules"],
  "all value sequences, bit widths, run structures, null patterns, page splits, codecs and partial transfers",
  "Encoder tests use a dozen fixed vectors; run boundaries, widths up to 32/64 bits, extreme deltas and page splits are not sampled.",
  ["src/encoding", "src/deserialize", "src/page/mod.rs", "src/types.rs"],
  [("encoders/decoders", "src/encoding/*"), ("page decoders", "src/deserialize/*"), ("level splitting", "src/page/mod.rs split_buffer")],
  None, "decoded values vs. values of the workload")

p("P22", "Readers touch only the bytes they were asked for",
  "Reading a column's pages or a whole column performs no read outside that chunk's byte range, page-index reads touch only the dictionary and the selected pages, index and bloom reads only their own regions, and metadata reads only the tail of the file; pages are fetched lazily, never further than the page being returned. "
  "Writers only append: they pull page producers one page at a time, in column order, and hand each page to the sink before pulling the next.",
  ["inputs", "schedules", "histories"],
  "all files, selections and consumption patterns, sync and async, under partial transfers",
  "Tests cannot see which bytes were touched nor when producers are pulled.",
  ["src/read/page/reader.rs", "src/read/page/indexed_reader.rs", "src/read/page/stream.rs", "src/read/column/mod.rs", "src/read/indexes/read.rs", "src/read/metadata.rs", "src/write/column_chunk.rs"],
  [("page reads", "src/read/page"), ("write pull order", "src/write/column_chunk.rs, src/write/row_group.rs")],
  None, "read offsets/lengths at the source; order of producer pulls and sink writes")

p("P23", "File metadata survives being carried to another file",
  "Metadata read from a file and written out again, or written as a sidecar by itself, reads back as the same metadata: row groups, columns with every recorded field (offsets, sizes, statistics, index and bloom positions, key-value pairs), schema, key-value metadata, created-by, version and column orders. "
  "A sidecar is a valid metadata-only file whose reported length is exact, through any partial writes; metadata serialized with serde deserializes to the same metadata.",
  ["inputs", "schedules", "fault_sequences"],
  "all metadata produced by this or another writer, all sidecar compositions (several files' row groups), all partial-write schedules and sink faults",
  "One test writes one sidecar of fixed metadata to a cursor.",
  ["src/metadata/file_metadata.rs", "src/metadata/row_metadata.rs", "src/metadata/column_chunk_metadata.rs", "src/metadata/column_order.rs", "src/write/file.rs"],
  [("conversion", "src/metadata/*"), ("sidecar", "src/write/file.rs write_metadata_sidecar")],
  None, "metadata re-read vs. original thrift content")

# properties this family does not decide here
p("P24", "Textual schema messages round trip",
  "Parsing the textual form of a message type and converting it into a schema descriptor yields the type it denotes, for every valid message, and invalid text is rejected with an error.",
  ["inputs"],
  "all strings in and outside of the message grammar",
  "The tests parse a fixed list of messages.",
  ["src/schema/io_message/from_message.rs"],
  [("parser", "src/schema/io_message/from_message.rs")],
  None, "from_message result")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
