//! Independent encoding and decoding of codec containers.
use std::io::{Read, Write};

pub fn decode(codec: &str, b: &[u8]) -> std::result::Result<Vec<u8>, String> {
    let mut out = vec![];
    let e = |e: std::io::Error| e.to_string();
    match codec {
        "raw" => out.extend_from_slice(b),
        // single-member decoders, so that anything after the value is noticed
        "gzip" => {
            let mut d = flate2::bufread::GzDecoder::new(b);
            d.read_to_end(&mut out).map_err(e)?;
            if !d.into_inner().is_empty() {
                return Err("trailing bytes".into());
            }
        }
        "bzip2" => {
            let mut d = bzip2::bufread::BzDecoder::new(b);
            d.read_to_end(&mut out).map_err(e)?;
            if !d.into_inner().is_empty() {
                return Err("trailing bytes".into());
            }
        }
        "xz" => {
            let mut d = xz2::bufread::XzDecoder::new(b);
            d.read_to_end(&mut out).map_err(e)?;
            if !d.into_inner().is_empty() {
                return Err("trailing bytes".into());
            }
        }
        "lz4" => {
            let mut c = std::io::Cursor::new(b);
            let mut d = lz4::Decoder::new(&mut c).map_err(e)?;
            d.read_to_end(&mut out).map_err(e)?;
            let (_, r) = d.finish();
            r.map_err(e)?;
            // The frame must span the value: cutting its last byte breaks it.
            if !b.is_empty() {
                let mut cut = vec![];
                let mut d = lz4::Decoder::new(&b[..b.len() - 1]).map_err(e)?;
                let ok = d.read_to_end(&mut cut).is_ok();
                if ok && d.finish().1.is_ok() && cut == out {
                    return Err("trailing bytes".into());
                }
            }
        }
        _ => return Err(format!("codec {}", codec)),
    }
    Ok(out)
}

pub fn encode(codec: &str, level: u32, var: u64, b: &[u8]) -> Vec<u8> {
    match codec {
        "raw" => b.to_vec(),
        "gzip" => {
            let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(level.min(9)));
            e.write_all(b).unwrap();
            e.finish().unwrap()
        }
        "bzip2" => {
            let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::new(level.max(1).min(9)));
            e.write_all(b).unwrap();
            e.finish().unwrap()
        }
        "xz" => {
            let mut e = xz2::write::XzEncoder::new(vec![], level.min(9));
            e.write_all(b).unwrap();
            e.finish().unwrap()
        }
        "lz4" => {
            // the forms of frames other software may choose
            use lz4::{BlockMode, BlockSize, ContentChecksum};
            let mut e = lz4::EncoderBuilder::new()
                .level(level.min(9))
                .block_mode(if var & 1 == 0 { BlockMode::Linked } else { BlockMode::Independent })
                .checksum(if var & 2 == 0 {
                    ContentChecksum::ChecksumEnabled
                } else {
                    ContentChecksum::NoChecksum
                })
                .block_size(match (var >> 2) & 3 {
                    0 => BlockSize::Max64KB,
                    1 => BlockSize::Max256KB,
                    2 => BlockSize::Max1MB,
                    _ => BlockSize::Max4MB,
                })
                .build(vec![])
                .unwrap();
            e.write_all(b).unwrap();
            let (w, r) = e.finish();
            r.unwrap();
            w
        }
        _ => panic!("codec {}", codec),
    }
}
