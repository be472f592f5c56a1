//! C14 and C28: Palworld containers.

use super::basic::full;
use super::*;
use crate::conv::{self, Form};
use crate::enc;
use crate::r#gen::{self as g, Cfg};
use crate::src::Src;
use gvas::error::{DeserializeError as DE, Error};
use std::io::Write;

/// Compressed by another encoder: other levels, and streams cut into blocks by flushing.
fn foreign(s: &mut Src, data: &[u8]) -> Vec<u8> {
    let level = s.below(10) as u32;
    if s.chance(1, 2) {
        return enc::zlib(data, level);
    }
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    let mut at = 0;
    while at < data.len() {
        let n = (s.range(1, 400) as usize).min(data.len() - at);
        e.write_all(&data[at..at + n]).expect("in-memory compression");
        // each flush ends a block
        if s.chance(1, 2) {
            e.flush().expect("in-memory compression");
        }
        at += n;
        if at > 4000 {
            e.write_all(&data[at..]).expect("in-memory compression");
            break;
        }
    }
    e.finish().expect("in-memory compression")
}

fn container(len: u32, first: u32, c: u8, data: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    out.extend_from_slice(&len.to_le_bytes());
    out.extend_from_slice(&first.to_le_bytes());
    out.extend_from_slice(b"PlZ");
    out.push(0x30 + c);
    out.extend_from_slice(data);
    out
}

pub fn c14(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = g::file(s, Cfg { pal: false, ..full() });
    let plain = enc::encode(&c.file).b;
    ctx.describe(|| show(&c));
    if classify(&c.file, ctx) {
        ctx.nontrivial(&plain);
    }
    ctx.max("plain bytes", plain.len() as u64);
    let form = if s.chance(1, 3) { Form::General } else { Form::Compact };
    let mut seen: Option<gvas::GvasFile> = None;
    for comp in 0..3u8 {
        c.file.pal = Some(comp);
        let out = conv::write(&conv::file(&c.file, form)).map_err(|e| format!("writing compression {comp} failed: {e}"))?;
        ctx.eval();
        if out.len() < 12 {
            return Err(format!("compression {comp}: only {} bytes written", out.len()));
        }
        let word = |at: usize| u32::from_le_bytes([out[at], out[at + 1], out[at + 2], out[at + 3]]);
        if word(0) as usize != plain.len() {
            return Err(format!("compression {comp}: decompressed length {} instead of {}", word(0), plain.len()));
        }
        if &out[8..11] != b"PlZ" || out[11] != 0x30 + comp {
            return Err(format!("compression {comp}: container starts {:02x?}", &out[..12]));
        }
        let limit = plain.len() * 2 + 4096;
        let bad = |n| format!("compression {comp}: payload does not decompress ({n})");
        let (first, got) = match comp {
            0 => (plain.len(), out[12..].to_vec()),
            1 => (out.len() - 12, enc::unzlib(&out[12..], limit).ok_or_else(|| bad(1))?),
            _ => {
                let once = enc::unzlib(&out[12..], limit).ok_or_else(|| bad(1))?;
                (once.len(), enc::unzlib(&once, limit).ok_or_else(|| bad(2))?)
            }
        };
        if word(4) as usize != first {
            return Err(format!("compression {comp}: compressed length {} instead of {first}", word(4)));
        }
        if got != plain {
            return Err(format!("compression {comp}: payload is not the plain save; {}", diff(&plain, &got)));
        }
        let back = conv::read(&out, c.file.pal, &c.hints).map_err(|e| format!("reading compression {comp} failed: {e}"))?;
        ctx.eval();
        conv::cmp_file(&c.file, &back)?;
        if let Some(f) = &seen
            && (f.header != back.header || f.properties != back.properties)
        {
            return Err(format!("compression {comp} reads as other contents"));
        }
        seen = Some(back);
    }
    // containers of other encoders
    let comp = s.range(1, 2) as u8;
    c.file.pal = Some(comp);
    let once = foreign(s, &plain);
    let (first, data) = if comp == 1 { (once.len(), once) } else { (once.len(), foreign(s, &once)) };
    let first = if s.chance(3, 4) { first as u32 } else { s.bits() as u32 };
    let disk = container(plain.len() as u32, first, comp, &data);
    ctx.describe(|| format!("foreign container {}", hex(&disk)));
    let back = conv::read(&disk, c.file.pal, &c.hints).map_err(|e| format!("reading a foreign compression {comp} failed: {e}"))?;
    ctx.eval();
    conv::cmp_file(&c.file, &back)
}

pub fn c28(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = g::file(s, Cfg { budget: 12, depth: 3, ..Cfg::default() });
    let comp = s.weighted(&[1, 4, 4]) as u8;
    c.file.pal = Some(comp);
    let plain = enc::encode(&c.file).b;
    let levels = (s.below(10) as u32, s.below(10) as u32);
    let disk = enc::pal_wrap(&plain, comp, levels);
    ctx.describe(|| format!("{}\nlevels {levels:?} bytes {}", show(&c), hex(&disk)));
    ctx.label(format!("compression {comp}"));
    if !c.file.props.is_empty() {
        ctx.nontrivial(&disk);
    }
    let original = conv::read(&disk, c.file.pal, &c.hints).map_err(|e| format!("reading the undamaged file failed: {e}"))?;
    ctx.eval();
    // neither kind of file is the other
    if conv::read(&plain, Some(comp), &c.hints).is_ok() {
        return Err("a plain file was read as a Palworld save".into());
    }
    if conv::read(&disk, None, &c.hints).is_ok() {
        return Err("a Palworld save was read as a plain file".into());
    }
    ctx.eval();
    let n = disk.len();
    for _ in 0..24 {
        let mut b = disk.clone();
        // what the damage has to lead to: always an error, or an error or the original
        let mut always = false;
        let what: String;
        match s.weighted(&[3, 2, 2, 8, 3, 3, 2]) {
            0 => {
                let v = match s.below(5) {
                    4 => plain.len() as u32 ^ (1 << s.below(32)),
                    0 => plain.len() as u32 + s.range(1, 9) as u32,
                    1 => (plain.len() as u32).saturating_sub(s.range(1, 9) as u32),
                    2 => s.bits() as u32,
                    _ => *s.pick(&[0, u32::MAX, 0x8000_0000, 1 << 24]),
                };
                if v as usize == plain.len() {
                    continue;
                }
                b[..4].copy_from_slice(&v.to_le_bytes());
                // a shorter uncompressed payload is a prefix followed by unused bytes
                if comp == 0 && (v as usize) < plain.len() {
                    if (v as usize) >= plain.len() - 4 {
                        continue;
                    }
                    what = format!("decompressed length {v} before the end");
                } else {
                    what = format!("decompressed length {v}");
                }
                always = true;
            }
            1 => {
                let at = 8 + s.idx(3);
                b[at] ^= s.range(1, 255) as u8;
                always = true;
                what = format!("magic byte {at}");
            }
            2 => {
                b[11] = s.below(256) as u8;
                if b[11] == disk[11] {
                    continue;
                }
                always = !(0x30..=0x32).contains(&b[11]);
                what = format!("compression byte {:#x}", b[11]);
            }
            3 if comp > 0 => {
                let at = 12 + s.idx(n - 12);
                b[at] ^= if s.chance(1, 2) { 1 << s.below(8) } else { s.range(1, 255) as u8 };
                what = format!("payload byte {at}");
            }
            4 if comp > 0 => {
                let at = s.idx(n);
                let k = (s.range(1, 4) as usize).min(n - at);
                b.drain(at..at + k);
                what = format!("{k} bytes removed at {at}");
            }
            5 => {
                let at = s.idx(n);
                b.truncate(at);
                what = format!("cut at {at}");
                always = at < 12 || (comp == 0 && at < n);
            }
            _ => {
                b[4 + s.idx(4)] ^= s.range(1, 255) as u8;
                let k = s.below(5);
                for _ in 0..k {
                    b.push(s.below(256) as u8);
                }
                what = "compressed length and trailing bytes".into();
            }
        }
        ctx.label(what.split(' ').next().unwrap_or("").to_string());
        ctx.eval();
        match conv::read(&b, c.file.pal, &c.hints) {
            Ok(f) => {
                if always {
                    return Err(format!("{what}: accepted ({})", hex(&b)));
                }
                if f.header != original.header || f.properties != original.properties {
                    return Err(format!("{what}: other contents were read ({})", hex(&b)));
                }
                conv::cmp_header(&c.file.header, &f.header)?;
                conv::cmp_props(&c.file.props, &f.properties).map_err(|m| format!("{what}: {m}"))?;
            }
            Err(e) => {
                if what.starts_with("compressed length") {
                    return Err(format!("{what}: rejected: {e}"));
                }
                if what.starts_with("magic") && !matches!(e, Error::Deserialize(DE::InvalidHeader(_))) {
                    return Err(format!("{what}: gave another error: {e:?}"));
                }
            }
        }
    }
    Ok(())
}
