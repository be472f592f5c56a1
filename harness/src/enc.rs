//! Reference encoder, written from the format. Records what every byte range is.

use crate::model::*;
use crate::src::mix;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    /// i32 length of a string; `required` strings must not be null.
    StrLen { required: bool },
    /// Characters of a string, without terminator.
    StrBody { wide: bool },
    StrTerm { wide: bool },
    /// u32 size of the body at `body` of a property of a known type.
    Size32,
    /// u32 size of a property of an unknown type.
    SizeUnknown,
    /// u64 size of a number or boolean (fixed by the type).
    SizeFixed,
    /// u64 size of the elements of a struct array.
    SizeInner,
    /// u32 array index that has to be 0.
    ArrayIndex,
    /// u32 array index of a name property (free).
    NameIndex,
    Term,
    /// u32 element count.
    CountU,
    /// i32 element count.
    CountI,
    Bool8,
    Bool32,
    /// i8 with values lo..=hi
    Enum { lo: i8, hi: i8 },
    /// Anything else (numbers, floats, flags, guids).
    Free,
    Magic,
    SaveVersion,
    Package,
    Ue5,
    VersionFormat,
}

#[derive(Clone, Debug)]
pub struct Span {
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
    /// For sizes: the range of bytes the size describes.
    pub body: (usize, usize),
    /// For sizes: the size also decides how the value is read.
    pub steers: bool,
}

/// A property with header: where it starts (at its name) and ends.
#[derive(Clone, Debug)]
pub struct Prop {
    pub start: usize,
    pub end: usize,
    pub depth: usize,
}

/// Header-less struct found in a set or map, with the path under which a hint is looked up.
#[derive(Clone, Debug)]
pub struct HintUse {
    pub path: String,
    pub pos: usize,
}

pub struct Enc {
    pub b: Vec<u8>,
    pub spans: Vec<Span>,
    pub props: Vec<Prop>,
    pub hint_uses: Vec<HintUse>,
    pub ver: Ver,
    /// Use the other permitted string encoding: 0 never, 1 always, otherwise by hash.
    pub alt: u64,
    pub alt_used: usize,
    strings: u64,
    depth: usize,
    pub path: Vec<String>,
}

impl Enc {
    pub fn new(ver: Ver) -> Self {
        Enc {
            b: vec![], spans: vec![], props: vec![], hint_uses: vec![], ver, alt: 0, alt_used: 0,
            strings: 0, depth: 0, path: vec![],
        }
    }

    fn span(&mut self, kind: Kind, start: usize) {
        let end = self.b.len();
        self.spans.push(Span { kind, start, end, body: (0, 0), steers: false });
    }
    fn put(&mut self, kind: Kind, bytes: &[u8]) {
        let start = self.b.len();
        self.b.extend_from_slice(bytes);
        self.span(kind, start);
    }
    fn u8(&mut self, k: Kind, v: u8) {
        self.put(k, &[v])
    }
    fn u32(&mut self, k: Kind, v: u32) {
        self.put(k, &v.to_le_bytes())
    }
    fn u64(&mut self, k: Kind, v: u64) {
        self.put(k, &v.to_le_bytes())
    }
    fn b32(&mut self, v: bool) {
        self.u32(Kind::Bool32, v as u32)
    }
    fn en(&mut self, v: i8, lo: i8, hi: i8) {
        self.u8(Kind::Enum { lo, hi }, v as u8)
    }

    fn string(&mut self, s: &str, required: bool) {
        self.strings += 1;
        let flip = match self.alt {
            0 => false,
            1 => true,
            a => mix(a, self.strings) & 1 == 1,
        };
        let wide = !s.is_ascii();
        // A narrow form of a long non-ASCII string can exceed the limit.
        let flip = flip && !(wide && s.len() + 1 > 131072);
        if flip {
            self.alt_used += 1;
        }
        if wide != flip {
            let words: Vec<u16> = s.encode_utf16().collect();
            self.u32(Kind::StrLen { required }, (-(words.len() as i32 + 1)) as u32);
            let start = self.b.len();
            for w in words {
                self.b.extend_from_slice(&w.to_le_bytes());
            }
            self.span(Kind::StrBody { wide: true }, start);
            self.put(Kind::StrTerm { wide: true }, &[0, 0]);
        } else {
            self.u32(Kind::StrLen { required }, s.len() as u32 + 1);
            self.put(Kind::StrBody { wide: false }, s.as_bytes());
            self.put(Kind::StrTerm { wide: false }, &[0]);
        }
    }
    pub fn s(&mut self, s: &str) {
        self.string(s, true)
    }
    pub fn fs(&mut self, s: &Fs) {
        match s {
            Some(s) => self.string(s, false),
            None => {
                self.strings += 1;
                self.u32(Kind::StrLen { required: false }, 0)
            }
        }
    }
    pub fn guid(&mut self, g: &G16) {
        self.put(Kind::Free, g)
    }

    pub fn header(&mut self, h: &MHeader) {
        self.put(Kind::Magic, b"GVAS");
        self.u32(Kind::SaveVersion, if h.ue5.is_some() { 3 } else { 2 });
        self.u32(Kind::Package, h.package);
        if let Some(v) = h.ue5 {
            self.u32(Kind::Ue5, v);
        }
        self.put(Kind::Free, &h.engine.0.to_le_bytes());
        self.put(Kind::Free, &h.engine.1.to_le_bytes());
        self.put(Kind::Free, &h.engine.2.to_le_bytes());
        self.u32(Kind::Free, h.engine.3);
        self.s(&h.branch);
        self.u32(Kind::VersionFormat, 3);
        self.u32(Kind::CountU, h.versions.len() as u32);
        for (g, v) in &h.versions {
            self.guid(g);
            self.u32(Kind::Free, *v);
        }
        self.s(&h.class_name);
    }

    /// Name, type and value of one property.
    pub fn named(&mut self, name: &str, v: &MVal) {
        let start = self.b.len();
        self.s(name);
        self.path.push(name.to_string());
        self.prop(v);
        self.path.pop();
        let end = self.b.len();
        self.props.push(Prop { start, end, depth: self.depth });
    }

    /// Type name, header and body.
    pub fn prop(&mut self, v: &MVal) {
        self.s(v.type_name());
        self.tagged(v);
    }

    /// Everything after the type name of a property with header.
    pub fn tagged(&mut self, v: &MVal) {
        self.depth += 1;
        self.path.push(v.type_name().to_string());
        let fixed = match v {
            MVal::Bool(_) => Some(0u64),
            MVal::I8(_) => Some(1),
            MVal::I16(_) | MVal::U16(_) => Some(2),
            MVal::I32(_) | MVal::U32(_) | MVal::F32(_) => Some(4),
            MVal::I64(_) | MVal::U64(_) | MVal::F64(_) => Some(8),
            _ => None,
        };
        if let Some(size) = fixed {
            self.u64(Kind::SizeFixed, size);
            let n = self.spans.len() - 1;
            if let MVal::Bool(b) = v {
                self.u8(Kind::Bool8, *b as u8);
                self.u8(Kind::Term, 0);
                let at = self.b.len();
                self.spans[n].body = (at, at);
            } else {
                self.u8(Kind::Term, 0);
                let start = self.b.len();
                self.body(v);
                self.spans[n].body = (start, self.b.len());
            }
        } else {
            let unknown = matches!(v, MVal::Unknown { .. });
            self.u32(if unknown { Kind::SizeUnknown } else { Kind::Size32 }, 0);
            let n = self.spans.len() - 1;
            match v {
                MVal::Name { idx, .. } => self.u32(Kind::NameIndex, *idx),
                _ => self.u32(Kind::ArrayIndex, 0),
            }
            match v {
                MVal::Byte { name, .. } | MVal::ByteNs { name, .. } => {
                    self.s(name.as_deref().expect("byte type name"))
                }
                MVal::Enum { ty, .. } => self.s(ty.as_deref().expect("enum type name")),
                MVal::Struct { guid, ty, .. } => {
                    self.s(ty);
                    self.guid(guid);
                }
                MVal::Array { ty, .. } | MVal::Set { ty, .. } => self.s(ty),
                MVal::Map { kt, vt, .. } => {
                    self.s(kt);
                    self.s(vt);
                }
                _ => {}
            }
            self.u8(Kind::Term, 0);
            let start = self.b.len();
            self.body(v);
            let end = self.b.len();
            let at = self.spans[n].start;
            self.b[at..at + 4].copy_from_slice(&((end - start) as u32).to_le_bytes());
            self.spans[n].body = (start, end);
            self.spans[n].steers = match v {
                MVal::Byte { .. } | MVal::ByteNs { .. } | MVal::Unknown { .. } => true,
                MVal::Array { ty, .. } | MVal::Set { ty, .. } => ty == "ByteProperty" || !is_known_type(ty),
                _ => false,
            };
        }
        self.path.pop();
        self.depth -= 1;
    }

    fn deleg(&mut self, d: &MDel) {
        self.s(&d.object);
        self.s(&d.function);
    }

    fn element(&mut self, v: &MVal) {
        self.path.push(v.type_name().to_string());
        if matches!(v, MVal::StructVal(_)) {
            self.hint_uses.push(HintUse { path: self.path.join("."), pos: self.b.len() });
        }
        self.body(v);
        self.path.pop();
    }

    /// The value without header.
    pub fn body(&mut self, v: &MVal) {
        match v {
            MVal::Bool(b) => self.u8(Kind::Bool8, *b as u8),
            MVal::Byte { val, .. } => self.u8(Kind::Free, *val),
            MVal::ByteNs { val, .. } => self.s(val),
            MVal::I8(x) => self.u8(Kind::Free, *x as u8),
            MVal::I16(x) => self.put(Kind::Free, &x.to_le_bytes()),
            MVal::U16(x) => self.put(Kind::Free, &x.to_le_bytes()),
            MVal::I32(x) => self.put(Kind::Free, &x.to_le_bytes()),
            MVal::U32(x) => self.put(Kind::Free, &x.to_le_bytes()),
            MVal::I64(x) => self.put(Kind::Free, &x.to_le_bytes()),
            MVal::U64(x) => self.put(Kind::Free, &x.to_le_bytes()),
            MVal::F32(x) => self.put(Kind::Free, &x.to_le_bytes()),
            MVal::F64(x) => self.put(Kind::Free, &x.to_le_bytes()),
            MVal::Enum { val, .. } => self.s(val),
            MVal::Name { val, .. } => self.fs(val),
            MVal::Str(s) => self.fs(s),
            MVal::Object(s) => self.s(s),
            MVal::Delegate(d) => self.deleg(d),
            MVal::MultiInline(ds) | MVal::MultiSparse(ds) => {
                self.u32(Kind::CountU, ds.len() as u32);
                ds.iter().for_each(|d| self.deleg(d));
            }
            MVal::FieldPath { path, owner } => {
                self.u32(Kind::CountU, path.len() as u32);
                path.iter().for_each(|p| self.s(p));
                self.s(owner);
            }
            MVal::Text(t) => self.text(t),
            MVal::Struct { val, .. } | MVal::StructVal(val) => self.strukt(val),
            MVal::Array { sinfo, items, .. } => {
                self.u32(Kind::CountU, items.len() as u32);
                match sinfo {
                    Some((field, ty, guid)) => {
                        self.s(field);
                        self.s("StructProperty");
                        self.u64(Kind::SizeInner, 0);
                        let n = self.spans.len() - 1;
                        self.s(ty);
                        self.guid(guid);
                        self.u8(Kind::Term, 0);
                        let start = self.b.len();
                        items.iter().for_each(|i| self.body(i));
                        let end = self.b.len();
                        let at = self.spans[n].start;
                        self.b[at..at + 8].copy_from_slice(&((end - start) as u64).to_le_bytes());
                        self.spans[n].body = (start, end);
                    }
                    None => items.iter().for_each(|i| self.element(i)),
                }
            }
            MVal::Set { flags, items, .. } => {
                self.u32(Kind::Free, *flags);
                self.u32(Kind::CountU, items.len() as u32);
                items.iter().for_each(|i| self.element(i));
            }
            MVal::Map { flags, items, .. } => {
                self.u32(Kind::Free, *flags);
                self.u32(Kind::CountU, items.len() as u32);
                for (k, v) in items {
                    self.path.push("Key".into());
                    self.element(k);
                    self.path.pop();
                    self.path.push("Value".into());
                    self.element(v);
                    self.path.pop();
                }
            }
            MVal::Unknown { raw, .. } => self.put(Kind::Free, raw),
        }
    }

    pub fn strukt(&mut self, v: &MStruct) {
        match v {
            MStruct::V2F(a) => a.iter().for_each(|x| self.u32(Kind::Free, *x)),
            MStruct::VF(a) | MStruct::RF(a) => a.iter().for_each(|x| self.u32(Kind::Free, *x)),
            MStruct::QF(a) | MStruct::Color(a) => a.iter().for_each(|x| self.u32(Kind::Free, *x)),
            MStruct::V2D(a) => a.iter().for_each(|x| self.u64(Kind::Free, *x)),
            MStruct::VD(a) | MStruct::RD(a) => a.iter().for_each(|x| self.u64(Kind::Free, *x)),
            MStruct::QD(a) => a.iter().for_each(|x| self.u64(Kind::Free, *x)),
            MStruct::DateTime(x) | MStruct::Timespan(x) => self.u64(Kind::Free, *x),
            MStruct::Guid(g) => self.guid(g),
            MStruct::IntPoint(x, y) => {
                self.u32(Kind::Free, *x as u32);
                self.u32(Kind::Free, *y as u32);
            }
            MStruct::Tags(t) => {
                self.u32(Kind::CountI, t.len() as u32);
                t.iter().for_each(|s| self.s(s));
            }
            MStruct::Custom(fields) => {
                for (name, vals) in fields {
                    for v in vals {
                        self.named(name, v);
                    }
                }
                self.s("None");
            }
        }
    }

    pub fn text(&mut self, t: &MText) {
        self.u32(Kind::Free, t.flags);
        self.hist(&t.hist);
    }

    fn ht(&mut self, v: i8) {
        self.en(v, -1, 11)
    }

    pub fn hist(&mut self, h: &MHist) {
        match h {
            MHist::Empty => {
                self.ht(-1);
                if self.ver.culture {
                    self.b32(false);
                }
            }
            MHist::None(s) => {
                self.ht(-1);
                self.b32(true);
                self.fs(s);
            }
            MHist::Base(a, b, c) => {
                self.ht(0);
                self.fs(a);
                self.fs(b);
                self.fs(c);
            }
            MHist::Named(t, args) | MHist::Argument(t, args) => {
                self.ht(if matches!(h, MHist::Named(..)) { 1 } else { 3 });
                self.text(t);
                self.u32(Kind::CountI, args.len() as u32);
                for (k, a) in args {
                    self.s(k);
                    self.arg(a);
                }
            }
            MHist::Ordered(t, args) => {
                self.ht(2);
                self.text(t);
                self.u32(Kind::CountI, args.len() as u32);
                args.iter().for_each(|a| self.arg(a));
            }
            MHist::Number(a, f, c) | MHist::Percent(a, f, c) => {
                self.ht(if matches!(h, MHist::Number(..)) { 4 } else { 5 });
                self.arg(a);
                self.opt_fmt(f);
                self.fs(c);
            }
            MHist::Currency(code, a, f, c) => {
                self.ht(6);
                self.fs(code);
                self.arg(a);
                self.opt_fmt(f);
                self.fs(c);
            }
            MHist::Date(t, s, c) => {
                self.ht(7);
                self.u64(Kind::Free, *t);
                self.en(*s, 0, 4);
                self.s(c);
            }
            MHist::Time(t, s, z, c) => {
                self.ht(8);
                self.u64(Kind::Free, *t);
                self.en(*s, 0, 4);
                self.s(z);
                self.s(c);
            }
            MHist::DateTime(t, s, u, z, c) => {
                self.ht(9);
                self.u64(Kind::Free, *t);
                self.en(*s, 0, 4);
                self.en(*u, 0, 4);
                self.s(z);
                self.s(c);
            }
            MHist::Transform(t, k) => {
                self.ht(10);
                self.text(t);
                self.en(*k, 0, 1);
            }
            MHist::StringTable(a, b) => {
                self.ht(11);
                self.s(a);
                self.s(b);
            }
        }
    }

    fn opt_fmt(&mut self, f: &Option<MFmt>) {
        self.b32(f.is_some());
        if let Some(f) = f {
            self.fmt(f);
        }
    }
    pub fn fmt(&mut self, f: &MFmt) {
        self.b32(f.sign);
        self.b32(f.grouping);
        self.en(f.rounding, 0, 6);
        f.digits.iter().for_each(|d| self.u32(Kind::Free, *d as u32));
    }

    pub fn arg(&mut self, a: &MArg) {
        let mut kind = |v: i8| self.en(v, 0, 4);
        match a {
            MArg::I32(x) => {
                kind(0);
                self.put(Kind::Free, &x.to_le_bytes())
            }
            MArg::I64(x) => {
                kind(0);
                self.put(Kind::Free, &x.to_le_bytes())
            }
            MArg::U32(x) => {
                kind(1);
                self.put(Kind::Free, &x.to_le_bytes())
            }
            MArg::U64(x) => {
                kind(1);
                self.put(Kind::Free, &x.to_le_bytes())
            }
            MArg::F32(x) => {
                kind(2);
                self.put(Kind::Free, &x.to_le_bytes())
            }
            MArg::F64(x) => {
                kind(3);
                self.put(Kind::Free, &x.to_le_bytes())
            }
            MArg::Text(t) => {
                kind(4);
                self.text(t)
            }
        }
    }
}

/// A whole file in plain form, with its layout.
pub struct Layout {
    pub b: Vec<u8>,
    pub spans: Vec<Span>,
    pub props: Vec<Prop>,
    pub hint_uses: Vec<HintUse>,
    /// End of the header.
    pub header_end: usize,
    /// End of the end marker (the padding follows).
    pub marker_end: usize,
    pub alt_used: usize,
}

pub fn encode_alt(f: &MFile, alt: u64) -> Layout {
    let mut e = Enc::new(f.ver());
    e.alt = alt;
    e.header(&f.header);
    let header_end = e.b.len();
    for (n, v) in &f.props {
        e.named(n, v);
    }
    e.s("None");
    let marker_end = e.b.len();
    e.b.extend_from_slice(&[0; 4]);
    Layout {
        b: e.b, spans: e.spans, props: e.props, hint_uses: e.hint_uses, header_end, marker_end,
        alt_used: e.alt_used,
    }
}

/// Plain form in the engine's own encoding.
pub fn encode(f: &MFile) -> Layout {
    encode_alt(f, 0)
}

pub fn zlib(data: &[u8], level: u32) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).expect("in-memory compression");
    e.finish().expect("in-memory compression")
}

pub fn unzlib(data: &[u8], limit: usize) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut out = Vec::new();
    flate2::read::ZlibDecoder::new(data).take(limit as u64 + 1).read_to_end(&mut out).ok()?;
    if out.len() > limit { None } else { Some(out) }
}

/// Palworld container around a plain file.
pub fn pal_wrap(plain: &[u8], compression: u8, levels: (u32, u32)) -> Vec<u8> {
    let (first, data) = match compression {
        0 => (plain.len(), plain.to_vec()),
        1 => {
            let d = zlib(plain, levels.0);
            (d.len(), d)
        }
        _ => {
            let d = zlib(plain, levels.0);
            (d.len(), zlib(&d, levels.1))
        }
    };
    let mut out = Vec::new();
    out.extend_from_slice(&(plain.len() as u32).to_le_bytes());
    out.extend_from_slice(&(first as u32).to_le_bytes());
    out.extend_from_slice(b"PlZ");
    out.push(0x30 + compression);
    out.extend_from_slice(&data);
    out
}

/// The file as it is on disk, plain or in its container.
pub fn disk(f: &MFile, plain: &[u8]) -> Vec<u8> {
    match f.pal {
        None => plain.to_vec(),
        Some(c) => pal_wrap(plain, c, (6, 6)),
    }
}
