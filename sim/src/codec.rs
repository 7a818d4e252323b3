//! Compression codecs, called directly (not through the crate under test).
use parquet2::compression::{BrotliLevel, Compression, CompressionOptions, GzipLevel, ZstdLevel};
use std::io::{Read, Write};

pub fn compress(c: Compression, data: &[u8]) -> Vec<u8> {
    match c {
        Compression::Uncompressed => data.to_vec(),
        Compression::Snappy => snap::raw::Encoder::new().compress_vec(data).unwrap(),
        Compression::Gzip => {
            let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        Compression::Brotli => {
            let mut out = vec![];
            {
                let mut w = brotli::CompressorWriter::new(&mut out, 512, 1, 16);
                w.write_all(data).unwrap();
            }
            out
        }
        Compression::Zstd => zstd::bulk::compress(data, 1).unwrap(),
        Compression::Lz4Raw => lz4::block::compress(data, None, false).unwrap(),
        // legacy hadoop framing: [be u32 raw length][be u32 block length][block], one or more frames
        Compression::Lz4 => {
            let mut out = vec![];
            let cut = if data.len() > 40 { vec![&data[..data.len() / 2], &data[data.len() / 2..]] } else { vec![data] };
            for part in cut {
                let b = lz4::block::compress(part, None, false).unwrap();
                out.extend((part.len() as u32).to_be_bytes());
                out.extend((b.len() as u32).to_be_bytes());
                out.extend(b);
            }
            out
        }
        c => panic!("codec {:?}", c),
    }
}

pub fn decompress(c: Compression, data: &[u8], size: usize) -> Result<Vec<u8>, String> {
    let e = |m: &dyn std::fmt::Debug| format!("codec {:?}: {:?}", c, m);
    let mut out = vec![];
    match c {
        Compression::Uncompressed => out = data.to_vec(),
        Compression::Snappy => out = snap::raw::Decoder::new().decompress_vec(data).map_err(|x| e(&x))?,
        Compression::Gzip => {
            flate2::read::GzDecoder::new(data).read_to_end(&mut out).map_err(|x| e(&x))?;
        }
        Compression::Brotli => {
            // the library flushes the stream without closing it: read what is there
            let mut d = brotli::Decompressor::new(data, 4096);
            out.resize(size, 0);
            d.read_exact(&mut out).map_err(|x| e(&x))?;
        }
        Compression::Zstd => {
            zstd::Decoder::new(data).and_then(|mut d| d.read_to_end(&mut out)).map_err(|x| e(&x))?;
        }
        Compression::Lz4Raw => out = lz4::block::decompress(data, Some(size as i32)).map_err(|x| e(&x))?,
        c => return Err(format!("codec {:?}", c)),
    }
    Ok(out)
}

pub fn options(k: usize) -> CompressionOptions {
    match k {
        0 => CompressionOptions::Uncompressed,
        1 => CompressionOptions::Snappy,
        2 => CompressionOptions::Gzip(Some(GzipLevel::try_new(1).unwrap())),
        3 => CompressionOptions::Lz4Raw,
        4 => CompressionOptions::Zstd(Some(ZstdLevel::try_new(1).unwrap())),
        5 => CompressionOptions::Brotli(Some(BrotliLevel::try_new(0).unwrap())),
        6 => CompressionOptions::Gzip(None),
        7 => CompressionOptions::Zstd(None),
        _ => CompressionOptions::Brotli(None),
    }
}

/// the codec of an option, and its number in the format
pub fn of(o: CompressionOptions) -> Compression {
    match o {
        CompressionOptions::Uncompressed => Compression::Uncompressed,
        CompressionOptions::Snappy => Compression::Snappy,
        CompressionOptions::Gzip(_) => Compression::Gzip,
        CompressionOptions::Lzo => Compression::Lzo,
        CompressionOptions::Brotli(_) => Compression::Brotli,
        CompressionOptions::Lz4 => Compression::Lz4,
        CompressionOptions::Zstd(_) => Compression::Zstd,
        CompressionOptions::Lz4Raw => Compression::Lz4Raw,
    }
}
pub fn number(c: Compression) -> parquet_format_safe::CompressionCodec {
    parquet_format_safe::CompressionCodec(match c {
        Compression::Uncompressed => 0,
        Compression::Snappy => 1,
        Compression::Gzip => 2,
        Compression::Lzo => 3,
        Compression::Brotli => 4,
        Compression::Lz4 => 5,
        Compression::Zstd => 6,
        Compression::Lz4Raw => 7,
    })
}
