//! C10 to C13 and C26: headers, version tables, values that cannot be stored, hints and errors.

use super::basic::unwrap_pal;
use super::robust::one_property;
use super::*;
use crate::conv::{self, Form};
use crate::dec::{self, DErr};
use crate::enc::{self, Enc, Kind, Span};
use crate::r#gen::{self as g, Cfg, Gen, interesting};
use crate::mutate;
use crate::src::Src;
use gvas::GvasHeader;
use gvas::custom_version::{FEditorObjectVersion, FUE5ReleaseStreamObjectVersion};
use gvas::error::{DeserializeError as DE, Error};
use gvas::properties::{Property, PropertyOptions, PropertyTrait};
use std::io::Cursor;

// ---- C10 ----

struct Raw {
    magic: [u8; 4],
    save: u32,
    package: u32,
    ue5: Option<u32>,
    format: u32,
    m: MHeader,
}

impl Raw {
    fn ok(&self) -> bool {
        &self.magic == b"GVAS"
            && (self.save == 2 || self.save == 3)
            && (0x205..=0x20D).contains(&self.package)
            && self.format == 3
            && (self.save == 2 || self.ue5.is_some_and(|v| (1000..=1009).contains(&v)))
    }
    fn bytes(&self) -> Vec<u8> {
        let mut e = Enc::new(ver_of(&self.m.versions));
        e.b.extend_from_slice(&self.magic);
        e.b.extend_from_slice(&self.save.to_le_bytes());
        e.b.extend_from_slice(&self.package.to_le_bytes());
        if let Some(v) = self.ue5 {
            e.b.extend_from_slice(&v.to_le_bytes());
        }
        e.b.extend_from_slice(&self.m.engine.0.to_le_bytes());
        e.b.extend_from_slice(&self.m.engine.1.to_le_bytes());
        e.b.extend_from_slice(&self.m.engine.2.to_le_bytes());
        e.b.extend_from_slice(&self.m.engine.3.to_le_bytes());
        e.s(&self.m.branch);
        e.b.extend_from_slice(&self.format.to_le_bytes());
        e.b.extend_from_slice(&(self.m.versions.len() as u32).to_le_bytes());
        for (g, v) in &self.m.versions {
            e.b.extend_from_slice(g);
            e.b.extend_from_slice(&v.to_le_bytes());
        }
        e.s(&self.m.class_name);
        e.b
    }
}

pub fn c10(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut gn = Gen::new(s, Cfg { huge: true, ..Cfg::default() });
    let mut m = gn.header();
    if gn.s.chance(1, 400) {
        let n = *gn.s.pick(&[255u32, 256, 1000, 65536, 70000]);
        m.versions = (0..n).map(|i| (guid_words([i, 7, i ^ 0x55, 1]), i.wrapping_mul(77))).collect();
    }
    let mut r = Raw { magic: *b"GVAS", save: if m.ue5.is_some() { 3 } else { 2 }, package: m.package, ue5: m.ue5, format: 3, m };
    // valid headers at the ends of the ranges
    if s.chance(1, 3) {
        r.package = *s.pick(&[0x205, 0x20D, 0x206, 0x20C]);
        if r.ue5.is_some() {
            r.ue5 = Some(*s.pick(&[1000, 1009, 1001, 1008]));
        }
    }
    let damaged = s.weighted(&[6, 5, 1]);
    for _ in 0..damaged {
        match s.below(5) {
            0 => match s.below(3) {
                0 => r.magic[s.idx(4)] ^= 1 << s.below(8),
                1 => r.magic = *s.pick(&[*b"gvas", *b"SAVG", *b"GVA\0", *b"GVBS", *b"\0\0\0\0", *b"GVAs", *b"SGVA"]),
                _ => r.magic = (s.bits() as u32).to_le_bytes(),
            },
            1 => {
                r.save = match s.weighted(&[4, 2, 1]) {
                    0 => s.below(6) as u32,
                    1 => *s.pick(&[0x102, 0x103, 0x0200_0000, 0x0300_0000, 0x8000_0002, u32::MAX, 0x10003, 0x1_0002]),
                    _ => interesting(s, 32) as u32,
                };
                // the layout after an unsupported version is anybody's guess
                r.ue5 = if r.save == 3 { Some(r.ue5.unwrap_or(1004)) } else if r.save == 2 { None } else { r.ue5 };
            }
            2 => {
                r.package = match s.weighted(&[4, 2, 1]) {
                    0 => 0x200 + s.below(20) as u32,
                    1 => *s.pick(&[0x204, 0x20E, 0, 0x105, 0x305, 0x10205, 0x0500_0002, 0x8000_0205, u32::MAX, 522 + 256]),
                    _ => interesting(s, 32) as u32,
                }
            }
            3 if r.ue5.is_some() => {
                r.ue5 = Some(match s.weighted(&[4, 2, 1]) {
                    0 => 995 + s.below(20) as u32,
                    1 => *s.pick(&[999, 1010, 0, 1000 + 0x10000, 1009 + 256, 0x8000_03E8, u32::MAX, 1]),
                    _ => interesting(s, 32) as u32,
                })
            }
            _ => {
                r.format = match s.weighted(&[4, 2, 1]) {
                    0 => s.below(6) as u32,
                    1 => *s.pick(&[0x103, 0x10003, 0x0300_0000, 0x8000_0003, u32::MAX]),
                    _ => interesting(s, 32) as u32,
                }
            }
        }
    }
    r.m.package = r.package;
    r.m.ue5 = if r.save == 3 { r.ue5 } else { None };
    let head = r.bytes();
    let ok = r.ok();
    ctx.describe(|| format!("magic {:02x?} save {} package {:#x} ue5 {:?} format {} accept {ok}\n{:?}\nbytes {}", r.magic, r.save, r.package, r.ue5, r.format, r.m, hex(&head)));
    ctx.label(if ok { "supported" } else { "unsupported" });
    if !ok || !r.m.versions.is_empty() {
        ctx.nontrivial(&head);
    }
    // the header on its own, somewhere in a stream
    let pre = s.below(9) as usize;
    let tail = g::Gen::new(s, Cfg::default()).raw(20);
    let mut data = vec![0x47; pre];
    data.extend_from_slice(&head);
    data.extend_from_slice(&tail);
    data.extend_from_slice(&[0; 64]);
    let mut cur = Cursor::new(&data[..]);
    cur.set_position(pre as u64);
    let got = GvasHeader::read(&mut cur);
    ctx.eval();
    verdict("header", ok, got.as_ref().err())?;
    if let Ok(h) = &got {
        if cur.position() != (pre + head.len()) as u64 {
            return Err(format!("reading a header consumed {} of {} bytes", cur.position() as i64 - pre as i64, head.len()));
        }
        conv::cmp_header(&r.m, h)?;
        let mut out = Cursor::new(Vec::new());
        h.write(&mut out).map_err(|e| format!("writing a header failed: {e}"))?;
        ctx.eval();
        if *out.get_ref() != head {
            return Err(format!("the written header differs; {}", diff(&head, out.get_ref())));
        }
    }
    // the header of a file
    let mut plain = head.clone();
    plain.extend_from_slice(b"\x05\0\0\0None\0\0\0\0\0");
    let pal = if s.chance(1, 2) { None } else { Some(s.below(3) as u8) };
    let disk = match pal {
        None => plain.clone(),
        Some(c) => enc::pal_wrap(&plain, c, (1, 1)),
    };
    let got = conv::read(&disk, pal, &no_hints());
    ctx.eval();
    verdict("file", ok, got.as_ref().err())?;
    if let Ok(f) = got {
        conv::cmp_header(&r.m, &f.header)?;
        let out = conv::write(&f).map_err(|e| format!("writing the file failed: {e}"))?;
        ctx.eval();
        let out = unwrap_pal(pal, &out)?;
        if out != plain {
            return Err(format!("the written file differs; {}", diff(&plain, &out)));
        }
    }
    // a header whose branch or class name is absent: nothing could give it back unchanged but itself
    if ok && s.chance(1, 4) {
        let branch = if r.save == 3 { 26 } else { 22 };
        let behind = branch + string_size(&head, branch);
        let class = behind + 8 + 20 * u32::from_le_bytes(head[behind + 4..behind + 8].try_into().unwrap()) as usize;
        let at = if s.chance(1, 2) { branch } else { class };
        let mut odd = head[..at].to_vec();
        odd.extend_from_slice(&[0; 4]);
        odd.extend_from_slice(&head[at + string_size(&head, at)..]);
        ctx.describe(|| format!("string at {at} absent\nbytes {}", hex(&odd)));
        ctx.label("string absent");
        ctx.eval();
        if let Ok(h) = GvasHeader::read(&mut Cursor::new(&odd[..])) {
            let mut out = Cursor::new(Vec::new());
            h.write(&mut out).map_err(|e| format!("writing a header failed: {e}"))?;
            if *out.get_ref() != odd {
                return Err(format!("a header without the string at {at} is accepted and written differently; {}", diff(&odd, out.get_ref())));
            }
        }
    }
    Ok(())
}

/// The size in bytes of the string stored at a position.
fn string_size(b: &[u8], at: usize) -> usize {
    let n = i32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as i64;
    4 + if n < 0 { -n as usize * 2 } else { n as usize }
}

fn verdict(what: &str, ok: bool, err: Option<&Error>) -> Result<(), String> {
    match (ok, err) {
        (true, Some(e)) => Err(format!("a {what} with a supported header was rejected: {e}")),
        (false, None) => Err(format!("a {what} with an unsupported header was accepted")),
        (false, Some(Error::Deserialize(DE::InvalidHeader(_)))) | (true, None) => Ok(()),
        (false, Some(e)) => Err(format!("an unsupported header gave another error: {e:?}")),
    }
}

// ---- C11 ----

const VECS: [&str; 4] = ["Vector", "Vector2D", "Rotator", "Quat"];

/// A value whose layout depends on the version table. The path ends in its name.
fn versioned(gn: &mut Gen, depth: usize) -> MVal {
    let deeper = if depth > 0 { 2 } else { 0 };
    match gn.s.weighted(&[3, 4, 2, 1, 1, 2, deeper]) {
        0 => {
            let ty = *gn.s.pick(&VECS);
            MVal::Struct { guid: [0; 16], ty: ty.into(), val: gn.strukt(ty, 0) }
        }
        1 => MVal::Text(gn.text(3)),
        2 => {
            let ty = *gn.s.pick(&VECS);
            let n = gn.s.range(1, 3);
            MVal::Array {
                ty: "StructProperty".into(),
                sinfo: Some(("F".into(), ty.into(), [0; 16])),
                items: (0..n).map(|_| MVal::StructVal(gn.strukt(ty, 0))).collect(),
            }
        }
        3 => {
            let ty = *gn.s.pick(&VECS);
            let key = [gn.path.join("."), "SetProperty.StructProperty".into()].join(".");
            gn.hints.insert(key, ty.into());
            let n = gn.s.range(1, 3);
            MVal::Set { ty: "StructProperty".into(), flags: 0, items: (0..n).map(|_| MVal::StructVal(gn.strukt(ty, 0))).collect() }
        }
        4 => {
            let (a, b) = (*gn.s.pick(&VECS), *gn.s.pick(&VECS));
            let p = gn.path.join(".");
            gn.hints.insert(format!("{p}.MapProperty.Key.StructProperty"), a.into());
            gn.hints.insert(format!("{p}.MapProperty.Value.StructProperty"), b.into());
            let items = vec![(MVal::StructVal(gn.strukt(a, 0)), MVal::StructVal(gn.strukt(b, 0)))];
            MVal::Map { kt: "StructProperty".into(), vt: "StructProperty".into(), flags: 0, items }
        }
        5 => {
            let n = gn.s.range(1, 3);
            let items: Vec<MVal> = (0..n).map(|_| MVal::Text(gn.text(2))).collect();
            match gn.s.below(3) {
                0 => MVal::Array { ty: "TextProperty".into(), sinfo: None, items },
                1 => MVal::Set { ty: "TextProperty".into(), flags: 0, items },
                _ => MVal::Map {
                    kt: "IntProperty".into(), vt: "TextProperty".into(), flags: 0,
                    items: items.into_iter().enumerate().map(|(i, v)| (MVal::I32(i as i32), v)).collect(),
                },
            }
        }
        _ => {
            gn.path.push("StructProperty".into());
            let n = gn.s.range(1, 3);
            let mut fields = vec![];
            for i in 0..n {
                let name = format!("f{i}");
                gn.path.push(name.clone());
                let v = versioned(gn, depth - 1);
                gn.path.pop();
                fields.push((name, vec![v]));
            }
            gn.path.pop();
            MVal::Struct { guid: [0; 16], ty: "Custom".into(), val: MStruct::Custom(fields) }
        }
    }
}

fn threshold_table(s: &mut Src) -> Vec<(G16, u32)> {
    let mut v = vec![];
    if s.chance(5, 6) {
        let x = match s.weighted(&[6, 1, 1]) {
            0 => *s.pick(&[10, 11, 12, 13, 26, 27, 28, 29, 31, 32, 33, 100]),
            1 => *s.pick(&[u32::MAX, 0x8000_0000, 0x7fff_ffff, 256, 256 + 11, 65536]),
            _ => s.below(64) as u32,
        };
        v.push((RELEASE_GUID, x));
    }
    if s.chance(5, 6) {
        let x = match s.weighted(&[6, 1, 1]) {
            0 => *s.pick(&[30, 31, 32, 33, 11, 12, 27, 28, 100]),
            1 => *s.pick(&[u32::MAX, 0x8000_0000, 0x7fff_ffff, 256, 256 + 31, 65536]),
            _ => s.below(64) as u32,
        };
        v.push((EDITOR_GUID, x));
    }
    v
}

/// Entries that must not matter: random ones, near misses, well-known other versions.
fn other_entries(s: &mut Src) -> Vec<(G16, u32)> {
    let n = s.range(0, 6);
    let mut out: Vec<(G16, u32)> = vec![];
    for _ in 0..n {
        let mut gd = if s.chance(1, 2) { RELEASE_GUID } else { EDITOR_GUID };
        match s.weighted(&[3, 2, 1, 1, 1]) {
            0 => gd[s.idx(16)] ^= 1 << s.below(8),
            1 => {
                gd = [0; 16];
                gd[..8].copy_from_slice(&s.bits().to_le_bytes());
                gd[8..].copy_from_slice(&s.bits().to_le_bytes());
            }
            2 => gd.reverse(),
            3 => {
                // words swapped to the other byte order
                for w in gd.chunks_mut(4) {
                    w.reverse();
                }
            }
            _ => {
                // other streams of the engine
                gd = guid_words(*s.pick(&[
                    [0x375EC13C, 0x06E448FB, 0xB50084F0, 0x262A717E], [0x601D1886, 0xAC644F84, 0xAA16D3DE, 0x0DEAC7D6],
                    [0x697DD581, 0xE64F41AB, 0xAA4A51EC, 0xBEB7B628], [0x9C54D522, 0xA8264FBE, 0x94210746, 0x61B482D0],
                    [0, 0, 0, 0], [u32::MAX; 4],
                ]));
            }
        }
        if gd != RELEASE_GUID && gd != EDITOR_GUID && !out.iter().any(|e| e.0 == gd) {
            out.push((gd, *s.pick(&[0, 1, 11, 12, 27, 28, 31, 32, 100, u32::MAX])));
        }
    }
    out
}

fn mixed(s: &mut Src, a: &[(G16, u32)], b: Vec<(G16, u32)>) -> Vec<(G16, u32)> {
    let mut v: Vec<_> = a.iter().copied().chain(b).collect();
    for i in (1..v.len()).rev() {
        v.swap(i, s.idx(i + 1));
    }
    v
}

pub fn c11(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let table = threshold_table(s);
    let ver = ver_of(&table);
    let more = other_entries(s);
    let versions = mixed(s, &table, more);
    let mut gn = Gen::new(s, Cfg { budget: 25, ..Cfg::default() });
    let mut header = gn.header();
    header.versions = versions;
    gn.ver = ver;
    let n = gn.s.range(1, 3);
    let mut props = vec![];
    for i in 0..n {
        let name = format!("p{i}");
        gn.path.push(name.clone());
        let v = versioned(&mut gn, 2);
        gn.path.pop();
        props.push((name, v));
    }
    let hints = gn.hints.clone();
    let file = MFile { pal: None, header, props };
    let l = enc::encode(&file);
    ctx.describe(|| format!("{file:?}\nhints {hints:?}\nbytes {}", hex(&l.b)));
    ctx.label(format!("doubles {} long arguments {} culture flag {}", ver.lwc, ver.arg64, ver.culture));
    // the same properties under every other setting
    let others: Vec<Ver> = (0..8)
        .map(|i| Ver { lwc: i & 1 == 1, arg64: i & 2 == 2, culture: i & 4 == 4 })
        .filter(|o| *o != ver)
        .collect();
    let body = l.b[l.header_end..].to_vec();
    let depends = others.iter().any(|o| {
        let mut e = Enc::new(*o);
        file.props.iter().for_each(|(n, v)| e.named(n, v));
        e.s("None");
        e.b.extend_from_slice(&[0; 4]);
        !file.props.iter().all(|(_, v)| fits(v, *o)) || e.b != body
    });
    if depends {
        ctx.nontrivial(&l.b);
    }
    // what the table says is looked up under its own key
    {
        let vers = conv::versions(&file.header.versions);
        let mut stack = vec![];
        let nh = no_hints();
        let o = PropertyOptions { hints: &nh, properties_stack: &mut stack, custom_versions: &vers };
        let (a, b) = (o.get_custom_version::<FUE5ReleaseStreamObjectVersion>(), o.get_custom_version::<FEditorObjectVersion>());
        ctx.eval();
        if (a.key.0, a.version) != (RELEASE_GUID, lookup(&table, &RELEASE_GUID)) || (b.key.0, b.version) != (EDITOR_GUID, lookup(&table, &EDITOR_GUID)) {
            return Err(format!("custom versions looked up as {a:?} and {b:?}"));
        }
        let got = (
            o.supports_version(FUE5ReleaseStreamObjectVersion::LargeWorldCoordinates),
            o.supports_version(FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport),
            o.supports_version(FEditorObjectVersion::CultureInvariantTextSerializationKeyStability),
        );
        if got != (ver.lwc, ver.arg64, ver.culture) {
            return Err(format!("supported versions {got:?}, expected {ver:?}"));
        }
    }
    // reading and writing
    let got = conv::read(&l.b, None, &hints).map_err(|e| format!("reading failed: {e}"))?;
    ctx.eval();
    conv::cmp_file(&file, &got)?;
    let form = if s.chance(1, 2) { Form::Compact } else { Form::General };
    let out = conv::write(&conv::file(&file, form)).map_err(|e| format!("writing failed: {e}"))?;
    ctx.eval();
    if out != l.b {
        return Err(format!("written bytes differ; {}", diff(&l.b, &out)));
    }
    // nothing else in the header matters
    let mut header = Gen::new(s, Cfg::default()).header();
    let more = other_entries(s);
    header.versions = mixed(s, &table, more);
    let mut other = file.clone();
    other.header = header;
    let mut e = Enc::new(ver);
    e.header(&other.header);
    let other_head = e.b;
    let bytes = [&other_head[..], &body].concat();
    let got2 = conv::read(&bytes, None, &hints).map_err(|e| format!("reading failed after changing unrelated header fields {:?}: {e}", other.header))?;
    ctx.eval();
    if got2.properties != got.properties {
        return Err(format!("unrelated header fields change what is read: {:?}", other.header));
    }
    let out = conv::write(&got2).map_err(|e| format!("writing failed after changing unrelated header fields {:?}: {e}", other.header))?;
    ctx.eval();
    if out != bytes {
        return Err(format!("unrelated header fields {:?} change what is written; {}", other.header, diff(&bytes, &out)));
    }
    // the layout of another setting is read by the thresholds of this one
    let o = others[s.idx(others.len())];
    let mut gn = Gen::new(s, Cfg { budget: 25, ..Cfg::default() });
    gn.ver = o;
    gn.path.push("q".into());
    let v = versioned(&mut gn, 1);
    let hints = gn.hints.clone();
    let mut e = Enc::new(ver);
    e.header(&file.header);
    e.ver = o;
    e.named("q", &v);
    e.s("None");
    let same = fits(&v, ver) && {
        let mut a = Enc::new(ver);
        a.named("q", &v);
        let mut b = Enc::new(o);
        b.named("q", &v);
        a.b == b.b
    };
    ctx.describe(|| format!("under {o:?}: {v:?} hints {hints:?}"));
    let got = conv::read(&e.b, None, &hints);
    match dec::decode(&e.b, &hints) {
        Ok(want) if !want.dup => {
            ctx.eval();
            let got = got.map_err(|e| format!("a file valid under the table was rejected: {e}"))?;
            conv::cmp_file(&want.file, &got)?;
        }
        Err(DErr::Bad(why)) => {
            ctx.eval();
            if got.is_ok() {
                return Err(format!("the layout of {o:?} was accepted under {ver:?} ({why})"));
            }
        }
        _ => {}
    }
    // and written only if the table permits it
    let f2 = MFile { pal: None, header: file.header.clone(), props: vec![("q".into(), v.clone())] };
    let out = conv::write(&conv::file(&f2, form));
    ctx.eval();
    match (fits(&v, ver), out) {
        (true, Ok(b)) => {
            let want = enc::encode(&f2).b;
            if b != want {
                return Err(format!("written bytes differ; {}", diff(&want, &b)));
            }
        }
        (false, Err(_)) => {}
        (true, Err(e)) => return Err(format!("a value permitted by the table was refused: {e}")),
        (false, Ok(_)) => return Err(format!("a value of {o:?} was written under {ver:?}")),
    }
    ctx.label(if same { "second value common to both" } else { "second value differs" });
    // the same for a property on its own
    let vers = conv::versions(&file.header.versions);
    let nh = no_hints();
    let mut stack = vec![];
    let mut options = PropertyOptions { hints: &nh, properties_stack: &mut stack, custom_versions: &vers };
    let mut out = Vec::new();
    let r = conv::value(&v, form).write(&mut out, true, &mut options);
    ctx.eval();
    if r.is_ok() != fits(&v, ver) {
        return Err(format!("writing a property of {o:?} under {ver:?} gave {r:?}"));
    }
    Ok(())
}

// ---- C12 ----

/// A property that cannot be stored and its storable counterpart, each with its name.
struct Pair {
    bad: (String, MVal),
    good: (String, MVal),
    what: &'static str,
}

fn long(s: &mut Src) -> (String, String) {
    let rep = |c: char, n: usize| std::iter::repeat_n(c, n).collect::<String>();
    let more = *s.pick(&[0usize, 0, 1, 5000]);
    match s.below(4) {
        0 | 1 => (rep('L', 131072 + more), rep('L', 131071)),
        2 => (rep('Ж', 131072 + more), rep('Ж', 131071)),
        _ => (rep('😀', 65536 + more), rep('😀', 65535)),
    }
}

fn wrong_ver(v: Ver) -> Ver {
    Ver { lwc: !v.lwc, ..v }
}

/// A text around a text.
fn text_around(gn: &mut Gen, inner: MText, depth: usize) -> MText {
    let mut t = inner;
    for _ in 0..depth {
        let flags = interesting(gn.s, 32) as u32;
        let hist = match gn.s.below(10) {
            0 => MHist::Named(Box::new(t), vec![("k".into(), MArg::F32(0))]),
            1 => MHist::Named(Box::new(gn.text(0)), vec![("a".into(), MArg::F64(0)), ("k".into(), MArg::Text(t))]),
            2 => MHist::Ordered(Box::new(t), vec![]),
            3 => MHist::Ordered(Box::new(gn.text(0)), vec![MArg::F32(1), MArg::Text(t), MArg::F64(0)]),
            4 => MHist::Argument(Box::new(t), vec![]),
            5 => MHist::Argument(Box::new(gn.text(0)), vec![("z".into(), MArg::Text(t))]),
            6 => MHist::Number(Box::new(MArg::Text(t)), None, None),
            7 => MHist::Percent(Box::new(MArg::Text(t)), None, gn.fs()),
            8 => MHist::Currency(gn.fs(), Box::new(MArg::Text(t)), None, None),
            _ => MHist::Transform(Box::new(t), 1),
        };
        t = MText { flags, hist };
    }
    t
}

/// A text holding the argument.
fn text_with(gn: &mut Gen, a: MArg) -> MText {
    let base = || Box::new(MText { flags: 0, hist: MHist::Base(None, None, Some("{0}".into())) });
    let hist = match gn.s.below(6) {
        0 => MHist::Named(base(), vec![("x".into(), MArg::F32(0)), ("k".into(), a)]),
        1 => MHist::Ordered(base(), vec![MArg::F64(1), a]),
        2 => MHist::Argument(base(), vec![("k".into(), a)]),
        3 => MHist::Number(Box::new(a), None, None),
        4 => MHist::Percent(Box::new(a), None, None),
        _ => MHist::Currency(Some("EUR".into()), Box::new(a), None, None),
    };
    MText { flags: 1, hist }
}

/// The values in the same place: a property of their own or an element.
fn place_text(gn: &mut Gen, bad: MText, good: MText) -> (MVal, MVal) {
    let k = gn.s.below(6);
    let sib = gn.text(0);
    let f = |t: MText| match k {
        0 | 1 => MVal::Text(t),
        2 => MVal::Array { ty: "TextProperty".into(), sinfo: None, items: vec![MVal::Text(sib.clone()), MVal::Text(t)] },
        3 => MVal::Set { ty: "TextProperty".into(), flags: 0, items: vec![MVal::Text(t), MVal::Text(sib.clone())] },
        4 => MVal::Map { kt: "StrProperty".into(), vt: "TextProperty".into(), flags: 0, items: vec![(MVal::Str(None), MVal::Text(t))] },
        _ => MVal::Map { kt: "TextProperty".into(), vt: "BoolProperty".into(), flags: 0, items: vec![(MVal::Text(t), MVal::Bool(true))] },
    };
    (f(bad), f(good))
}

fn place_struct(gn: &mut Gen, ty: &str, bad: MStruct, good: MStruct) -> (MVal, MVal) {
    let k = gn.s.below(7);
    let sib = gn.strukt(ty, 0);
    let sp = || "StructProperty".to_string();
    let f = |t: MStruct| match k {
        0..=2 => MVal::Struct { guid: [7; 16], ty: ty.into(), val: t },
        3 => MVal::Array { ty: sp(), sinfo: Some(("F".into(), ty.into(), [0; 16])), items: vec![MVal::StructVal(sib.clone()), MVal::StructVal(t)] },
        4 => MVal::Set { ty: sp(), flags: 0, items: vec![MVal::StructVal(sib.clone()), MVal::StructVal(t)] },
        5 => MVal::Map { kt: "IntProperty".into(), vt: sp(), flags: 0, items: vec![(MVal::I32(1), MVal::StructVal(t))] },
        _ => MVal::Map { kt: sp(), vt: "StrProperty".into(), flags: 0, items: vec![(MVal::StructVal(t), MVal::Str(None))] },
    };
    (f(bad), f(good))
}

fn unstorable(gn: &mut Gen) -> Pair {
    let name = gn.name();
    let both = |what, bad: MVal, good: MVal| Pair { bad: (name.clone(), bad), good: (name.clone(), good), what };
    match gn.s.weighted(&[4, 4, 4, 3, 2, 2, 2, 3]) {
        0 => {
            let ty = *gn.s.pick(&VECS);
            let good = gn.strukt(ty, 0);
            let v = gn.ver;
            gn.ver = wrong_ver(v);
            let bad = gn.strukt(ty, 0);
            gn.ver = v;
            let (b, g) = place_struct(gn, ty, bad, good);
            both("wrong precision", b, g)
        }
        1 => {
            let signed = gn.s.chance(1, 2);
            let x = interesting(gn.s, 32);
            let make = |wide: bool| match (wide, signed) {
                (true, true) => MArg::I64(x as i64),
                (true, false) => MArg::U64(x),
                (false, true) => MArg::I32(x as i32),
                (false, false) => MArg::U32(x as u32),
            };
            let (a, b) = (make(!gn.ver.arg64), make(gn.ver.arg64));
            let save = gn.s.bits();
            // the same text around both: replayed from the same choices
            let depth = gn.s.below(3) as usize;
            let mut fork = Src::random(save);
            let mut g1 = Gen::new(&mut fork, gn.cfg.clone());
            g1.ver = gn.ver;
            let t = text_with(&mut g1, a);
            let bad = text_around(&mut g1, t, depth);
            let mut fork = Src::random(save);
            let mut g2 = Gen::new(&mut fork, gn.cfg.clone());
            g2.ver = gn.ver;
            let t = text_with(&mut g2, b);
            let good = text_around(&mut g2, t, depth);
            let (b, g) = place_text(gn, bad, good);
            both("wrong argument width", b, g)
        }
        2 if !gn.ver.culture => {
            let fs = gn.fs();
            let flags = interesting(gn.s, 32) as u32;
            let save = gn.s.bits();
            let depth = gn.s.below(3) as usize;
            let make = |h: MHist| {
                let mut fork = Src::random(save);
                let mut g1 = Gen::new(&mut fork, gn.cfg.clone());
                g1.ver = gn.ver;
                text_around(&mut g1, MText { flags, hist: h }, depth)
            };
            let (bad, good) = (make(MHist::None(fs)), make(MHist::Empty));
            let (b, g) = place_text(gn, bad, good);
            both("culture-invariant text", b, g)
        }
        2 | 3 => {
            // a string of some value made too long
            let mut good = loop_value(gn);
            let mut n = 0;
            strings_mut(&mut good, &mut |_| n += 1);
            if n == 0 {
                good = MVal::Str(Some("x".into()));
                n = 1;
            }
            let at = gn.s.idx(n);
            let (l, g) = long(gn.s);
            let mut bad = good.clone();
            for (v, t) in [(&mut bad, l), (&mut good, g)] {
                let mut i = 0;
                strings_mut(v, &mut |x| {
                    if i == at {
                        *x = t.clone();
                    }
                    i += 1;
                });
            }
            both("over-long string", bad, good)
        }
        4 => {
            let v = gn.value(1);
            Pair { bad: ("None".into(), v.clone()), good: (name, v), what: "property named None" }
        }
        5 => {
            let val = gn.string();
            let ty = gn.string();
            both("enum without type", MVal::Enum { ty: None, val: val.clone() }, MVal::Enum { ty: Some(ty), val })
        }
        6 => {
            let ty = gn.string();
            if gn.s.chance(1, 2) {
                both("byte without type", MVal::Byte { name: None, val: 7 }, MVal::Byte { name: Some(ty), val: 7 })
            } else {
                let val = gn.string();
                both("byte without type", MVal::ByteNs { name: None, val: val.clone() }, MVal::ByteNs { name: Some(ty), val })
            }
        }
        _ => {
            let ty = gn.struct_type(1);
            let val = gn.strukt(&ty, 1);
            both("bare struct value", MVal::StructVal(val.clone()), MVal::Struct { guid: [0; 16], ty, val })
        }
    }
}

fn loop_value(gn: &mut Gen) -> MVal {
    let depth = gn.s.below(3) as usize;
    let huge = std::mem::replace(&mut gn.cfg.huge, false);
    let v = gn.value(depth);
    gn.cfg.huge = huge;
    v
}

/// Puts both properties of the pair into the same surroundings.
fn wrap(gn: &mut Gen, p: Pair) -> Pair {
    let name = gn.name();
    let before: Vec<(String, Vec<MVal>)> = if gn.s.chance(1, 2) { vec![("before".into(), vec![gn.value(0)])] } else { vec![] };
    let after: Vec<(String, Vec<MVal>)> = if gn.s.chance(1, 2) { vec![("after".into(), vec![gn.value(0)])] } else { vec![] };
    // a repeated field
    let twin = if gn.s.chance(1, 6) { Some(gn.value(0)) } else { None };
    let k = gn.s.below(6);
    let sp = || "StructProperty".to_string();
    let f = |(n, v): (String, MVal)| {
        let n = if n == "before" || n == "after" { "field".to_string() } else { n };
        let mut fields = before.clone();
        let vals = match &twin {
            Some(t) => vec![t.clone(), v],
            None => vec![v],
        };
        fields.push((n, vals));
        fields.extend(after.clone());
        let st = MStruct::Custom(fields);
        let empty = MVal::StructVal(MStruct::Custom(vec![]));
        match k {
            0 | 1 => MVal::Struct { guid: [0; 16], ty: "Holder".into(), val: st },
            2 => MVal::Array { ty: sp(), sinfo: Some(("F".into(), "Holder".into(), [0; 16])), items: vec![empty, MVal::StructVal(st)] },
            3 => MVal::Set { ty: sp(), flags: 0, items: vec![MVal::StructVal(st), empty] },
            4 => MVal::Map { kt: "IntProperty".into(), vt: sp(), flags: 0, items: vec![(MVal::I32(1), empty), (MVal::I32(2), MVal::StructVal(st))] },
            _ => MVal::Map { kt: sp(), vt: "IntProperty".into(), flags: 0, items: vec![(MVal::StructVal(st), MVal::I32(2))] },
        }
    };
    Pair { bad: (name.clone(), f(p.bad)), good: (name, f(p.good)), what: p.what }
}

pub fn c12(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut gn = Gen::new(s, Cfg { budget: 15, depth: 2, ..Cfg::default() });
    let header = gn.header();
    gn.ver = ver_of(&header.versions);
    let mut props = gn.props();
    let mut pair = unstorable(&mut gn);
    let levels = gn.s.weighted(&[3, 3, 2, 1, 1]);
    for _ in 0..levels {
        pair = wrap(&mut gn, pair);
    }
    props.retain(|p| p.0 != pair.bad.0 && p.0 != pair.good.0);
    let at = s.idx(props.len() + 1);
    let pal = if s.chance(1, 3) { Some(s.below(3) as u8) } else { None };
    let form = if s.chance(1, 3) { Form::General } else { Form::Compact };
    let with = |p: &(String, MVal)| {
        let mut props = props.clone();
        props.insert(at, p.clone());
        MFile { pal, header: header.clone(), props }
    };
    let (mut bad, mut good) = (with(&pair.bad), with(&pair.good));
    let mut what = pair.what;
    // over-long strings and names outside of values
    if s.chance(1, 12) {
        bad = good.clone();
        let (l, g) = long(s);
        what = "over-long string outside of a value";
        match s.below(4) {
            0 => (bad.header.branch, good.header.branch) = (l, g),
            1 => (bad.header.class_name, good.header.class_name) = (l, g),
            2 => (bad.props[at].0, good.props[at].0) = (l, g),
            _ => {
                let raw = vec![1, 2, 3];
                bad.props[at].1 = MVal::Unknown { ty: l, raw: raw.clone() };
                good.props[at].1 = MVal::Unknown { ty: g, raw };
            }
        }
    }
    ctx.describe(|| format!("{what} {levels} levels deep, general {}\nbad {}\ngood {}", form == Form::General, clip(&bad), clip(&good)));
    ctx.label(what);
    ctx.label(format!("levels {levels}"));
    if levels > 0 || good.props.len() > 1 {
        ctx.nontrivial(clip(&bad).as_bytes());
    }
    let file = conv::file(&bad, form);
    let before: Vec<u8> = (0..s.below(40)).map(|i| i as u8).collect();
    let mut out = Cursor::new(before.clone());
    let start = s.below(before.len() as u64 + 1);
    out.set_position(start);
    let r = file.write(&mut out);
    ctx.eval();
    if r.is_ok() {
        return Err(format!("a file with {what} was written"));
    }
    if out.position() != start || *out.get_ref() != before {
        return Err(format!("writing a file with {what} failed but changed the output: {} bytes, position {} (before {} and {start})", out.get_ref().len(), out.position(), before.len()));
    }
    let want = enc::encode(&good).b;
    let out = conv::write(&conv::file(&good, form)).map_err(|e| format!("the file without the {what} was refused: {e}"))?;
    ctx.eval();
    let plain = unwrap_pal(pal, &out)?;
    if plain != want {
        return Err(format!("written bytes differ; {}", diff(&want, &plain)));
    }
    Ok(())
}

/// The file with long strings cut short.
fn clip(f: &MFile) -> String {
    let t = format!("{f:?}");
    let mut out = String::new();
    let mut run = 0;
    let mut last = '\0';
    for c in t.chars() {
        run = if c == last { run + 1 } else { 0 };
        last = c;
        if run < 20 {
            out.push(c);
        } else if run == 20 {
            out.push('…');
        }
    }
    out
}

// ---- C13 ----

fn near(s: &mut Src, path: &str) -> String {
    let p = path.to_string();
    match s.below(9) {
        0 => p.replace(".Key.", ".Value."),
        1 => p.replace(".Value.", ".Key."),
        2 => p.to_lowercase(),
        3 => format!("{p}.StructProperty"),
        4 => p.split_once('.').map(|x| x.1.to_string()).unwrap_or_default(),
        5 => p.rsplit_once('.').map(|x| x.0.to_string()).unwrap_or_default(),
        6 => format!(".{p}"),
        7 => p.replace(".StructProperty", ""),
        _ => "StructProperty".to_string(),
    }
}

fn is_hint_error(e: &Error, path: &str, pos: usize) -> Result<(), String> {
    match e {
        Error::Deserialize(DE::MissingHint(kind, p, at)) => {
            if &**kind != "StructProperty" || **p != *path || *at != pos as u64 {
                return Err(format!("expected a request for {path:?} at {pos}, got {kind} {p:?} at {at}"));
            }
            Ok(())
        }
        e => Err(format!("expected a request for a hint for {path:?} at {pos}, got {e:?}")),
    }
}

pub fn c13(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    if s.chance(1, 4) {
        return c13_single(s, ctx);
    }
    let c = g::file(s, Cfg { structs: true, pal: true, deep: true, ..Cfg::default() });
    let l = enc::encode(&c.file);
    let disk = enc::disk(&c.file, &l.b);
    ctx.describe(|| format!("{}\nbytes {}", show(&c), hex(&l.b)));
    let mut paths: Vec<String> = vec![];
    for u in &l.hint_uses {
        if !paths.contains(&u.path) {
            paths.push(u.path.clone());
        }
    }
    ctx.label(format!("hint paths {}", paths.len().min(5)));
    if paths.len() > 1 {
        ctx.nontrivial(&l.b);
    }
    // start with some of the hints, and with hints for places that do not exist
    let mut hints = Hints::new();
    let start = s.weighted(&[3, 1]);
    for p in &paths {
        if start == 1 && s.chance(1, 2) {
            hints.insert(p.clone(), c.hints[p].clone());
        }
    }
    let mut noise = Hints::new();
    for _ in 0..s.below(5) {
        let base = if paths.is_empty() || s.chance(1, 5) {
            match l.props.len() {
                0 => "StructProperty".to_string(),
                _ => format!("{}.StructProperty", c.file.props.first().map_or("", |p| &p.0)),
            }
        } else {
            paths[s.idx(paths.len())].clone()
        };
        let p = near(s, &base);
        if !paths.contains(&p) {
            noise.insert(p, s.pick(&["Guid", "Vector", "DateTime", "Custom", "", "IntPoint"]).to_string());
        }
    }
    ctx.describe(|| format!("given {hints:?} and unrelated {noise:?}"));
    let mut steps = 0;
    let got = loop {
        let mut all = noise.clone();
        all.extend(hints.clone());
        let first = l.hint_uses.iter().find(|u| !hints.contains_key(&u.path));
        let r = conv::read(&disk, c.file.pal, &all);
        ctx.eval();
        match (first, r) {
            (None, Ok(f)) => break f,
            (None, Err(e)) => return Err(format!("reading with all hints failed: {e}")),
            (Some(u), Ok(_)) => return Err(format!("reading without the hint for {:?} succeeded", u.path)),
            (Some(u), Err(e)) => {
                is_hint_error(&e, &u.path, u.pos)?;
                hints.insert(u.path.clone(), c.hints[&u.path].clone());
            }
        }
        steps += 1;
        if steps > 2000 {
            return Err("HARNESS hints do not run out".into());
        }
    };
    conv::cmp_file(&c.file, &got)?;
    let exact = conv::read(&disk, c.file.pal, &hints).map_err(|e| format!("reading without the unrelated hints failed: {e}"))?;
    ctx.eval();
    if exact != got {
        return Err("unrelated hints changed what was read".into());
    }
    // another type at one path: only that place changes
    if !paths.is_empty() {
        let p = &paths[s.idx(paths.len())];
        let ty = s.pick(&["Guid", "Vector", "DateTime", "Custom", "Quat", "IntPoint", "LinearColor", "Timespan", "Vector2D", "GameplayTagContainer", "Rotator"]).to_string();
        let mut other = hints.clone();
        other.insert(p.clone(), ty.clone());
        ctx.describe(|| format!("then {p:?} as {ty}"));
        let r = conv::read(&disk, c.file.pal, &other);
        match dec::decode(&l.b, &other) {
            Ok(mut w) if !w.dup => {
                ctx.eval();
                w.file.pal = c.file.pal;
                let r = r.map_err(|e| format!("with {ty} at {p:?} the file is well-formed but was rejected: {e}"))?;
                conv::cmp_file(&w.file, &r)?;
                ctx.label("another hint accepted");
            }
            Err(DErr::Bad(_)) => {
                ctx.eval();
                if r.is_ok() {
                    return Err(format!("with {ty} at {p:?} the file is not well-formed but was accepted"));
                }
            }
            Err(DErr::Hint(path, pos)) => {
                ctx.eval();
                match r {
                    Ok(_) => return Err(format!("with {ty} at {p:?} a hint for {path:?} is needed, but the file was accepted")),
                    Err(e) => is_hint_error(&e, &path, pos)?,
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// The same for one property read on its own.
fn c13_single(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut gn = Gen::new(s, Cfg { structs: true, budget: 30, ..Cfg::default() });
    let versions = gn.versions();
    gn.ver = ver_of(&versions);
    let stack: Vec<String> = (0..gn.s.below(4)).map(|_| gn.ident()).collect();
    gn.path = stack.clone();
    let (header, v) = if gn.s.chance(1, 3) {
        let ty = gn.struct_type(3);
        gn.path.push("StructProperty".into());
        let key = gn.path.join(".");
        gn.hints.insert(key, ty.clone());
        (false, MVal::StructVal(gn.strukt(&ty, 3)))
    } else {
        let k = gn.s.below(3);
        let tag = ["SetProperty", "MapProperty", "StructProperty"][k as usize];
        gn.path.push(tag.into());
        let v = match k {
            0 => gn.set(3),
            1 => gn.map(3),
            _ => {
                let ty = gn.struct_type(4);
                MVal::Struct { guid: [0; 16], val: gn.strukt(&ty, 3), ty }
            }
        };
        gn.path.pop();
        (true, v)
    };
    let needed = gn.hints.clone();
    let pre = s.below(20) as usize;
    let mut e = Enc::new(ver_of(&versions));
    e.b = vec![9; pre];
    e.path = stack.clone();
    if header {
        e.tagged(&v);
    } else {
        e.path.push("StructProperty".into());
        e.hint_uses.push(enc::HintUse { path: e.path.join("."), pos: pre });
        e.body(&v);
    }
    ctx.describe(|| format!("path {stack:?} header {header} {v:?} hints {needed:?} offset {pre}\nbytes {}", hex(&e.b)));
    let mut distinct: Vec<&String> = e.hint_uses.iter().map(|u| &u.path).collect();
    distinct.sort();
    distinct.dedup();
    if !distinct.is_empty() {
        ctx.nontrivial(&e.b);
    }
    ctx.label("single property");
    let vers = conv::versions(&versions);
    let mut hints = Hints::new();
    loop {
        let mut path = stack.clone();
        let mut options = PropertyOptions { hints: &hints, properties_stack: &mut path, custom_versions: &vers };
        let mut cur = Cursor::new(&e.b[..]);
        cur.set_position(pre as u64);
        let suggested = if header { None } else { Some((e.b.len() - pre) as u32) };
        let r = Property::new(&mut cur, v.type_name(), header, &mut options, suggested);
        ctx.eval();
        let first = e.hint_uses.iter().find(|u| !hints.contains_key(&u.path));
        match (first, r) {
            (None, Ok(p)) => return conv::cmp(&v, &p),
            (None, Err(e)) => return Err(format!("reading with all hints failed: {e}")),
            (Some(u), Ok(_)) => return Err(format!("reading without the hint for {:?} succeeded", u.path)),
            (Some(u), Err(er)) => {
                is_hint_error(&er, &u.path, u.pos)?;
                hints.insert(u.path.clone(), needed[&u.path].clone());
            }
        }
    }
}

// ---- C26 ----

/// What the error for a damaged field has to say.
#[derive(Debug, Clone)]
enum Want {
    Terminator(u8),
    ArrayIndex(u32),
    Boolean(u32),
    Enum(i8),
    Length(i32),
    StrTerm(u16),
    Utf8,
    Utf16,
    Size(u64, u64),
    Header(u64),
}

/// Damages the field so that exactly one error fits; none if the field cannot be damaged that way.
fn break_field(s: &mut Src, b: &[u8], spans: &[Span], i: usize) -> Option<(Vec<u8>, Want, (usize, usize), Option<usize>)> {
    let sp = &spans[i];
    let mut out = b.to_vec();
    let whole = (sp.start, sp.end);
    let nonzero = |s: &mut Src, bits: u32| match s.below(3) {
        0 => 1u64 << s.below(bits as u64),
        1 => 1,
        _ => interesting(s, bits).max(1),
    };
    Some(match sp.kind {
        Kind::Term => {
            let v = nonzero(s, 8);
            mutate::put(&mut out, sp, v);
            (out, Want::Terminator(v as u8), whole, None)
        }
        Kind::ArrayIndex => {
            let v = nonzero(s, 32);
            mutate::put(&mut out, sp, v);
            (out, Want::ArrayIndex(v as u32), whole, None)
        }
        Kind::Bool8 | Kind::Bool32 => {
            let bits = if sp.kind == Kind::Bool8 { 8 } else { 32 };
            let v = match s.below(3) {
                0 => 2 + s.below(5),
                1 => 1 << s.range(1, bits - 1),
                _ => interesting(s, bits as u32).max(2),
            };
            mutate::put(&mut out, sp, v);
            (out, Want::Boolean(v as u32), whole, None)
        }
        Kind::Enum { lo, hi } => {
            // two text kinds and one argument kind exist in the engine but are not supported
            let hi = match (lo, hi) {
                (-1, 11) => 13,
                (0, 4) => 5,
                _ => hi,
            };
            let v = match s.below(3) {
                0 => hi as i64 + 1,
                1 => lo as i64 - 1,
                _ => s.range(hi as u64 + 1, 127) as i64 * if s.chance(1, 2) { 1 } else { -1 },
            };
            let v = if v >= lo as i64 && v <= hi as i64 { -128 } else { v } as i8;
            mutate::put(&mut out, sp, v as u8 as u64);
            (out, Want::Enum(v), whole, None)
        }
        Kind::StrLen { required } => {
            let v = match s.below(if required { 6 } else { 4 }) {
                0 => 131073 + s.below(1000) as i32,
                1 => -131073 - s.below(1000) as i32,
                2 => i32::MIN,
                3 => i32::MAX,
                _ => 0,
            };
            mutate::put(&mut out, sp, v as u32 as u64);
            (out, Want::Length(v), whole, None)
        }
        Kind::StrTerm { wide } => {
            let v = nonzero(s, if wide { 16 } else { 8 });
            mutate::put(&mut out, sp, v);
            (out, Want::StrTerm(v as u16), whole, None)
        }
        Kind::StrBody { wide: false } => {
            if sp.start == sp.end {
                return None;
            }
            let at = sp.start + s.idx(sp.end - sp.start);
            out[at] = *s.pick(&[0xFFu8, 0x80, 0xC0, 0xED, 0xF5, 0xE2]);
            if std::str::from_utf8(&out[sp.start..sp.end]).is_ok() {
                return None;
            }
            (out, Want::Utf8, (spans[i - 1].start, spans[i + 1].end), None)
        }
        Kind::StrBody { wide: true } => {
            if sp.start == sp.end {
                return None;
            }
            let at = sp.start + s.idx((sp.end - sp.start) / 2) * 2;
            out[at + 1] = 0xD8 + s.below(8) as u8;
            let units: Vec<u16> = out[sp.start..sp.end].chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            if String::from_utf16(&units).is_ok() {
                return None;
            }
            (out, Want::Utf16, (spans[i - 1].start, spans[i + 1].end), None)
        }
        Kind::Size32 if !sp.steers => {
            let real = (sp.body.1 - sp.body.0) as u64;
            let v = mutate::other_value(s, b, sp);
            mutate::put(&mut out, sp, v);
            (out, Want::Size(real, v), whole, Some(sp.body.0))
        }
        Kind::SizeFixed => {
            let real = mutate::field(b, sp);
            let v = mutate::other_value(s, b, sp);
            mutate::put(&mut out, sp, v);
            (out, Want::Size(real, v), whole, Some(sp.body.0))
        }
        Kind::Magic | Kind::SaveVersion | Kind::Package | Kind::Ue5 | Kind::VersionFormat => {
            let v = if sp.kind == Kind::Magic { s.bits() & 0xFFFF_FFFF } else { mutate::other_value(s, b, sp) };
            let fine = match sp.kind {
                Kind::Magic => v == 0x5341_5647,
                Kind::SaveVersion => v == 2 || v == 3,
                Kind::Package => (0x205..=0x20D).contains(&v),
                Kind::Ue5 => (1000..=1009).contains(&v),
                _ => v == 3,
            };
            if fine {
                return None;
            }
            mutate::put(&mut out, sp, v);
            (out, Want::Header(v), whole, None)
        }
        _ => return None,
    })
}

fn judge(e: &Error, want: &Want, field: (usize, usize), value_at: Option<usize>) -> Result<(), String> {
    let bad = || Err(format!("damage {want:?} at {}..{} gave {e:?}", field.0, field.1));
    let Error::Deserialize(d) = e else { return bad() };
    let pos = match (want, d) {
        (Want::Terminator(v), DE::InvalidTerminator(x, p)) if v == x => *p,
        (Want::ArrayIndex(v), DE::InvalidArrayIndex(x, p)) if v == x => *p,
        (Want::Boolean(v), DE::InvalidBoolean(x, p)) if v == x => *p,
        (Want::Enum(v), DE::InvalidEnumValue(_, x, p)) if v == x => *p,
        (Want::Length(v), DE::InvalidString(x, p)) if v == x => *p,
        (Want::StrTerm(v), DE::InvalidStringTerminator(x, p)) if v == x => *p,
        (Want::Utf8, DE::FromUtf8Error(_, p)) => *p,
        (Want::Utf16, DE::FromUtf16Error(_, p)) => *p,
        (Want::Size(a, b), DE::InvalidValueSize(x, y, p)) if (a, b) == (x, y) || (a, b) == (y, x) => *p,
        (Want::Header(v), DE::InvalidHeader(t)) => {
            let t = t.to_lowercase();
            let le: String = (*v as u32).to_le_bytes().iter().map(|b| format!("{b:02x}")).collect();
            let found = [format!("{v}"), format!("{v:x}"), le, format!("{}", *v as i32)].iter().any(|f| t.contains(f));
            if !found {
                return Err(format!("the error for the header value {v} ({v:#x}) does not name it: {t:?}"));
            }
            return Ok(());
        }
        _ => return bad(),
    } as usize;
    // what is printed names them as well
    let text = e.to_string().to_lowercase();
    let says = |v: i128| text.contains(&format!("{v}")) || text.contains(&format!("{v:x}")) || text.contains(&format!("{:x}", v as i32));
    let values = match want {
        Want::Terminator(v) => vec![*v as i128],
        Want::ArrayIndex(v) => vec![*v as i128],
        Want::Boolean(v) => vec![*v as i128],
        Want::Enum(v) => vec![*v as i128],
        Want::Length(v) => vec![*v as i128],
        Want::StrTerm(v) => vec![*v as i128],
        Want::Size(a, b) => vec![*a as i128, *b as i128],
        _ => vec![],
    };
    if !values.iter().all(|v| says(*v)) || !says(pos as i128) {
        return Err(format!("damage {want:?} at {}..{} is printed without its value or position: {e}", field.0, field.1));
    }
    let exact = matches!(want, Want::Terminator(_) | Want::ArrayIndex(_) | Want::Length(_) | Want::Utf8 | Want::Utf16);
    let fits = if exact { pos == field.0 } else { (field.0..=field.1).contains(&pos) };
    if fits || value_at == Some(pos) {
        Ok(())
    } else {
        Err(format!("damage {want:?} at {}..{} was reported at {pos}: {e}", field.0, field.1))
    }
}

pub fn c26(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    if s.chance(1, 4) {
        let one = one_property(s, 12);
        let pre = s.below(30) as usize;
        ctx.describe(|| format!("{} offset {pre}", one.show()));
        ctx.label("single property");
        let vers = conv::versions(&one.versions);
        let order: Vec<usize> = (0..one.spans.len().min(40)).map(|_| s.idx(one.spans.len())).collect();
        for i in order {
            // a header-less byte is read as its length says
            if let Some((b, want, field, at)) = break_field(s, &one.bytes, &one.spans, i) {
                let data = [&vec![3u8; pre][..], &b].concat();
                let mut stack = one.stack.clone();
                let mut options = PropertyOptions { hints: &one.hints, properties_stack: &mut stack, custom_versions: &vers };
                let mut cur = Cursor::new(&data[..]);
                cur.set_position(pre as u64);
                ctx.describe(|| format!("then {want:?} at {field:?}"));
                ctx.nontrivial(&data);
                ctx.eval();
                match Property::new(&mut cur, one.v.type_name(), one.header, &mut options, one.suggested()) {
                    Ok(_) => return Err(format!("damage {want:?} at {field:?} was accepted")),
                    Err(e) => judge(&e, &want, (field.0 + pre, field.1 + pre), at.map(|a| a + pre))?,
                }
                ctx.label(kind_label(&want));
            }
        }
        return Ok(());
    }
    let c = g::file(s, Cfg { budget: 25, pal: true, deep: true, ..Cfg::default() });
    let alt = if s.chance(1, 4) { s.bits() | 2 } else { 0 };
    let l = enc::encode_alt(&c.file, alt);
    ctx.describe(|| format!("{}\nbytes {}", show(&c), hex(&l.b)));
    // every kind of field gets its share
    let mut kinds: std::collections::BTreeMap<String, Vec<usize>> = Default::default();
    for (i, sp) in l.spans.iter().enumerate() {
        let k = match sp.kind {
            Kind::Enum { .. } => "Enum".to_string(),
            Kind::Free | Kind::CountI | Kind::CountU | Kind::SizeUnknown | Kind::SizeInner | Kind::NameIndex => continue,
            k => format!("{k:?}"),
        };
        kinds.entry(k).or_default().push(i);
    }
    for list in kinds.values() {
        let n = list.len().min(3);
        for _ in 0..n {
            let i = list[s.idx(list.len())];
            let Some((b, want, field, at)) = break_field(s, &l.b, &l.spans, i) else { continue };
            ctx.describe(|| format!("then {want:?} at {field:?}"));
            if !c.file.props.is_empty() {
                ctx.nontrivial(&l.b);
            }
            let disk = match c.file.pal {
                // small files in a fast container
                Some(p) => enc::pal_wrap(&b, p, (1, 1)),
                None => b,
            };
            ctx.eval();
            match conv::read(&disk, c.file.pal, &c.hints) {
                Ok(_) => return Err(format!("damage {want:?} at {field:?} was accepted")),
                Err(e) => judge(&e, &want, field, at)?,
            }
            ctx.label(kind_label(&want));
        }
    }
    Ok(())
}

fn kind_label(w: &Want) -> &'static str {
    match w {
        Want::Terminator(_) => "terminator",
        Want::ArrayIndex(_) => "array index",
        Want::Boolean(_) => "boolean",
        Want::Enum(_) => "enum",
        Want::Length(_) => "string length",
        Want::StrTerm(_) => "string terminator",
        Want::Utf8 => "UTF-8",
        Want::Utf16 => "UTF-16",
        Want::Size(..) => "size",
        Want::Header(_) => "header",
    }
}

