//! C01 to C04: reading, saving, building and alternative encodings.

use super::*;
use crate::conv::{self, Form};
use crate::enc;
use crate::r#gen::{self as g, Cfg, Gen};
use crate::src::Src;
use gvas::properties::text_property::{FText, FTextHistory};
use gvas::properties::{Property, PropertyOptions, PropertyTrait};
use std::io::{Cursor, Seek};

pub fn full() -> Cfg {
    Cfg { deep: true, pal: true, huge: true, large: true, ..Cfg::default() }
}

pub fn c01(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let c = g::file(s, full());
    ctx.describe(|| show(&c));
    let plain = enc::encode(&c.file);
    let bytes = enc::disk(&c.file, &plain.b);
    ctx.describe(|| format!("bytes {}", hex(&bytes)));
    if classify(&c.file, ctx) {
        ctx.nontrivial(&plain.b);
    }
    let got = conv::read(&bytes, c.file.pal, &c.hints).map_err(|e| format!("reading a well-formed save failed: {e}"))?;
    ctx.eval();
    conv::cmp_file(&c.file, &got)
}

pub fn c02(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let c = g::file(s, full());
    ctx.describe(|| show(&c));
    let plain = enc::encode(&c.file).b;
    let bytes = enc::disk(&c.file, &plain);
    ctx.describe(|| format!("bytes {}", hex(&bytes)));
    if classify(&c.file, ctx) {
        ctx.nontrivial(&plain);
    }
    let got = conv::read(&bytes, c.file.pal, &c.hints).map_err(|e| format!("reading a well-formed save failed: {e}"))?;
    for round in 0..2 {
        let out = conv::write(&got).map_err(|e| format!("saving an unmodified file failed: {e}"))?;
        ctx.eval();
        let out = unwrap_pal(c.file.pal, &out)?;
        if out != plain {
            return Err(format!("save {round} differs from the original; {}", diff(&plain, &out)));
        }
    }
    Ok(())
}

/// Plain contents of written bytes.
pub fn unwrap_pal(pal: Option<u8>, out: &[u8]) -> Result<Vec<u8>, String> {
    let Some(c) = pal else { return Ok(out.to_vec()) };
    if out.len() < 12 {
        return Err(format!("written container has only {} bytes", out.len()));
    }
    let data = &out[12..];
    let limit = 1 << 28;
    let bad = || "written payload does not decompress".to_string();
    match c {
        0 => Ok(data.to_vec()),
        1 => enc::unzlib(data, limit).ok_or_else(bad),
        _ => enc::unzlib(&enc::unzlib(data, limit).ok_or_else(bad)?, limit).ok_or_else(bad),
    }
}

pub fn c03(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let form = if s.chance(1, 3) { Form::General } else { Form::Compact };
    match s.weighted(&[3, 3, 1, 1]) {
        0 => {
            let c = g::file(s, full());
            ctx.describe(|| show(&c));
            ctx.label("file");
            if classify(&c.file, ctx) {
                ctx.nontrivial(format!("{:?}", c.file).as_bytes());
            }
            let built = conv::file(&c.file, form);
            let out = conv::write(&built).map_err(|e| format!("writing a built file failed: {e}"))?;
            let back = conv::read(&out, c.file.pal, &c.hints).map_err(|e| format!("reading a written file failed: {e}"))?;
            ctx.eval();
            conv::cmp_file(&c.file, &back)?;
            ctx.eval();
            // the general form of a container is another value than the compact one
            if form == Form::Compact && (built.properties != back.properties || built.header != back.header) {
                return Err("the file read back does not equal the file written".into());
            }
            Ok(())
        }
        1 => {
            // one property with header, at any place of the path
            let mut gen_ = Gen::new(s, full());
            let versions = gen_.versions();
            gen_.ver = ver_of(&versions);
            let stack: Vec<String> = (0..gen_.s.below(3)).map(|_| gen_.ident()).collect();
            gen_.path = stack.clone();
            let depth = gen_.s.below(5) as usize;
            let v = gen_.value(depth);
            let hints = gen_.hints.clone();
            single(ctx, &v, form, true, &versions, &stack, &hints)
        }
        2 => {
            // one header-less value
            let mut gen_ = Gen::new(s, full());
            let versions = gen_.versions();
            gen_.ver = ver_of(&versions);
            let stack: Vec<String> = (0..gen_.s.below(3)).map(|_| gen_.ident()).collect();
            let mut hints = Hints::new();
            let v = if gen_.s.chance(1, 3) {
                let ty = gen_.struct_type(3);
                let mut p = stack.clone();
                p.push("StructProperty".into());
                hints.insert(p.join("."), ty.clone());
                gen_.path = p;
                gen_.hints = hints;
                let v = MVal::StructVal(gen_.strukt(&ty, 3));
                hints = gen_.hints.clone();
                v
            } else {
                match gen_.s.weighted(&[6, 1, 1]) {
                    0 => {
                        let ty = gen_.scalar_type();
                        gen_.scalar(ty, false)
                    }
                    1 => MVal::ByteNs { name: None, val: gen_.string() },
                    _ => {
                        let ty = gen_.unknown_type();
                        let mut raw = gen_.raw(20);
                        raw.push(1);
                        MVal::Unknown { ty, raw }
                    }
                }
            };
            single(ctx, &v, form, false, &versions, &stack, &hints)
        }
        _ => {
            let mut gen_ = Gen::new(s, full());
            let versions = gen_.versions();
            gen_.ver = ver_of(&versions);
            let t = gen_.text(6);
            ctx.describe(|| format!("text {t:?} versions {versions:02x?}"));
            ctx.label("text");
            ctx.nontrivial(format!("{t:?}").as_bytes());
            let vers = conv::versions(&versions);
            let hints = no_hints();
            let mut stack = vec![];
            let options = PropertyOptions { hints: &hints, properties_stack: &mut stack, custom_versions: &vers };
            let built = conv::text(&t);
            let mut out = Cursor::new(Vec::new());
            built.write(&mut out, &options).map_err(|e| format!("writing a text failed: {e}"))?;
            let out = out.into_inner();
            let mut rd = Cursor::new([&out[..], &[0xAB; 9]].concat());
            let back = FText::read(&mut rd, &options).map_err(|e| format!("reading a written text failed: {e}"))?;
            ctx.eval();
            if rd.position() != out.len() as u64 {
                return Err(format!("reading a text consumed {} of {} bytes", rd.position(), out.len()));
            }
            conv::cmp_text(&t, &back)?;
            if back != built {
                return Err("the text read back does not equal the text written".into());
            }
            // the history on its own
            let mut out = Cursor::new(Vec::new());
            built.history.write(&mut out, &options).map_err(|e| format!("writing a text history failed: {e}"))?;
            let mut rd = Cursor::new(out.into_inner());
            let back = FTextHistory::read(&mut rd, &options).map_err(|e| format!("reading a text history failed: {e}"))?;
            ctx.eval();
            if rd.position() != rd.get_ref().len() as u64 {
                return Err("reading a text history left bytes".into());
            }
            conv::cmp_hist(&t.hist, &back)
        }
    }
}

fn single(ctx: &mut Ctx, v: &MVal, form: Form, header: bool, versions: &[(G16, u32)], stack: &[String], hints: &Hints) -> Result<(), String> {
    ctx.describe(|| format!("{} property {v:?} versions {versions:02x?} path {stack:?} hints {hints:?}", if header { "whole" } else { "header-less" }));
    ctx.label(if header { "property with header" } else { "property without header" });
    if v.is_container() || matches!(v, MVal::Text(_)) {
        ctx.nontrivial(format!("{v:?}").as_bytes());
    }
    let vers = conv::versions(versions);
    let mut path = stack.to_vec();
    let mut options = PropertyOptions { hints, properties_stack: &mut path, custom_versions: &vers };
    let built = conv::value(v, form);
    let mut out = Cursor::new(Vec::new());
    built.write(&mut out, header, &mut options).map_err(|e| format!("writing a property failed: {e}"))?;
    let out = out.into_inner();
    // with header the type name comes first and is read by the caller
    let skip = if header {
        let mut e = enc::Enc::new(ver_of(versions));
        e.s(v.type_name());
        if !out.starts_with(&e.b) {
            return Err("a written property does not start with its type name".into());
        }
        e.b.len()
    } else {
        0
    };
    let len = out.len() - skip;
    let mut rd = Cursor::new([&out[..], &[0xCD; 13]].concat());
    rd.seek(std::io::SeekFrom::Start(skip as u64)).map_err(|e| e.to_string())?;
    let suggested = if header { None } else { Some(len as u32) };
    let back = Property::new(&mut rd, v.type_name(), header, &mut options, suggested).map_err(|e| format!("reading a written property failed: {e}"))?;
    ctx.eval();
    if rd.position() != out.len() as u64 {
        return Err(format!("reading a property consumed {} of {} bytes", rd.position() - skip as u64, len));
    }
    conv::cmp(v, &back)?;
    if form == Form::Compact && back != built {
        return Err("the property read back does not equal the property written".into());
    }
    Ok(())
}

pub fn c04(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let c = g::file(s, Cfg { pal: true, huge: true, ..Cfg::default() });
    let alt = match s.weighted(&[1, 1, 3]) {
        0 => 0,
        1 => 1,
        _ => s.bits() | 2,
    };
    let l = enc::encode_alt(&c.file, alt);
    let mut bytes = l.b[..l.marker_end].to_vec();
    let mut trailing = 0;
    match s.weighted(&[2, 1, 2, 1]) {
        0 => bytes.extend_from_slice(&[0; 4]),
        1 => {}
        2 => {
            trailing = s.range(1, 30);
            for _ in 0..trailing {
                bytes.push(s.below(256) as u8);
            }
        }
        _ => {
            // looks like more of the same file
            trailing = 1;
            let again = l.b[l.header_end..l.marker_end].to_vec();
            bytes.extend_from_slice(&again);
        }
    }
    ctx.describe(|| format!("{}\nplain bytes {}", show(&c), hex(&bytes)));
    if l.alt_used >= 2 || (trailing > 0 && !c.file.props.is_empty()) {
        ctx.nontrivial(&bytes);
    }
    ctx.label(if l.alt_used > 0 { "other string encoding" } else { "own string encoding" });
    ctx.label(if trailing > 0 { "trailing bytes" } else { "no trailing bytes" });
    let disk = enc::disk(&c.file, &bytes);
    let got = conv::read(&disk, c.file.pal, &c.hints).map_err(|e| format!("reading failed: {e}"))?;
    ctx.eval();
    conv::cmp_file(&c.file, &got)?;
    let normal = enc::encode(&c.file).b;
    let out = conv::write(&got).map_err(|e| format!("saving failed: {e}"))?;
    ctx.eval();
    let out_plain = unwrap_pal(c.file.pal, &out)?;
    if out_plain != normal {
        return Err(format!("the saved file is not the normal form; {}", diff(&normal, &out_plain)));
    }
    let again = conv::read(&out, c.file.pal, &c.hints).map_err(|e| format!("reading the saved file failed: {e}"))?;
    ctx.eval();
    if again != got {
        return Err("reading the saved file gives another value".into());
    }
    let out2 = conv::write(&again).map_err(|e| format!("saving again failed: {e}"))?;
    ctx.eval();
    if out2 != out {
        return Err(format!("saving again changes the file; {}", diff(&out, &out2)));
    }
    Ok(())
}

/// Two properties of one name at top level, as the engine stores the elements of a fixed-size array.
fn repeated() -> (MFile, Vec<u8>) {
    let name = |idx, v: &str| ("Slots".to_string(), MVal::Name { idx, val: Some(v.to_string()) });
    let header = MHeader { ue5: None, package: 522, engine: (4, 27, 2, 0), branch: "b".into(), versions: vec![], class_name: "c".into() };
    let f = MFile { pal: None, header, props: vec![name(0, "Sword"), name(1, "Shield")] };
    let b = enc::encode(&f).b;
    (f, b)
}

pub fn repeated_read() -> Option<String> {
    let (_, b) = repeated();
    match conv::read(&b, None, &no_hints()) {
        Ok(f) if f.properties.len() == 1 => Some("of two top-level properties named \"Slots\" (a fixed-size array of names) only the last is returned".into()),
        _ => None,
    }
}

pub fn repeated_save() -> Option<String> {
    let (_, b) = repeated();
    let f = conv::read(&b, None, &no_hints()).ok()?;
    match conv::write(&f) {
        Ok(out) if out != b => Some("saving a file with two top-level properties named \"Slots\" (a fixed-size array of names) drops the first".into()),
        _ => None,
    }
}
