//! Model of a save file, independent of gvas. Floats are bit patterns.

pub type Fs = Option<String>;
pub type G16 = [u8; 16];

#[derive(Clone, PartialEq, Debug)]
pub struct MHeader {
    pub ue5: Option<u32>,
    pub package: u32,
    pub engine: (u16, u16, u16, u32),
    pub branch: String,
    pub versions: Vec<(G16, u32)>,
    pub class_name: String,
}

#[derive(Clone, PartialEq, Debug)]
pub struct MFile {
    /// Palworld compression (0 none, 1 zlib, 2 zlib twice), or a plain file.
    pub pal: Option<u8>,
    pub header: MHeader,
    pub props: Vec<(String, MVal)>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct MDel {
    pub object: String,
    pub function: String,
}

#[derive(Clone, PartialEq, Debug)]
pub enum MVal {
    Bool(bool),
    Byte { name: Fs, val: u8 },
    ByteNs { name: Fs, val: String },
    I8(i8),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    F32(u32),
    F64(u64),
    Enum { ty: Fs, val: String },
    Name { idx: u32, val: Fs },
    Str(Fs),
    Object(String),
    Delegate(MDel),
    MultiInline(Vec<MDel>),
    MultiSparse(Vec<MDel>),
    FieldPath { path: Vec<String>, owner: String },
    Text(MText),
    Struct { guid: G16, ty: String, val: MStruct },
    StructVal(MStruct),
    Array { ty: String, sinfo: Option<(String, String, G16)>, items: Vec<MVal> },
    Set { ty: String, flags: u32, items: Vec<MVal> },
    Map { kt: String, vt: String, flags: u32, items: Vec<(MVal, MVal)> },
    Unknown { ty: String, raw: Vec<u8> },
}

#[derive(Clone, PartialEq, Debug)]
pub enum MStruct {
    V2F([u32; 2]),
    V2D([u64; 2]),
    VF([u32; 3]),
    VD([u64; 3]),
    RF([u32; 3]),
    RD([u64; 3]),
    QF([u32; 4]),
    QD([u64; 4]),
    DateTime(u64),
    Timespan(u64),
    Guid(G16),
    Color([u32; 4]),
    IntPoint(i32, i32),
    Tags(Vec<String>),
    Custom(Vec<(String, Vec<MVal>)>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct MText {
    pub flags: u32,
    pub hist: MHist,
}

#[derive(Clone, PartialEq, Debug)]
pub struct MFmt {
    pub sign: bool,
    pub grouping: bool,
    pub rounding: i8,
    pub digits: [i32; 4],
}

#[derive(Clone, PartialEq, Debug)]
pub enum MHist {
    Empty,
    None(Fs),
    Base(Fs, Fs, Fs),
    Named(Box<MText>, Vec<(String, MArg)>),
    Ordered(Box<MText>, Vec<MArg>),
    Argument(Box<MText>, Vec<(String, MArg)>),
    Number(Box<MArg>, Option<MFmt>, Fs),
    Percent(Box<MArg>, Option<MFmt>, Fs),
    Currency(Fs, Box<MArg>, Option<MFmt>, Fs),
    Date(u64, i8, String),
    Time(u64, i8, String, String),
    DateTime(u64, i8, i8, String, String),
    Transform(Box<MText>, i8),
    StringTable(String, String),
}

#[derive(Clone, PartialEq, Debug)]
pub enum MArg {
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    F32(u32),
    F64(u64),
    Text(MText),
}

/// Layout switches derived from the version table.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Ver {
    pub lwc: bool,
    pub arg64: bool,
    pub culture: bool,
}

pub const fn guid_words(w: [u32; 4]) -> G16 {
    let mut out = [0u8; 16];
    let mut i = 0;
    while i < 4 {
        let b = w[i].to_le_bytes();
        out[i * 4] = b[0];
        out[i * 4 + 1] = b[1];
        out[i * 4 + 2] = b[2];
        out[i * 4 + 3] = b[3];
        i += 1;
    }
    out
}

pub const RELEASE_GUID: G16 = guid_words([0xD89B5E42, 0x24BD4D46, 0x8412ACA8, 0xDF641779]);
pub const EDITOR_GUID: G16 = guid_words([0xE4B068ED, 0xF49442E9, 0xA231DA0B, 0x2E46BB41]);

pub fn lookup(versions: &[(G16, u32)], guid: &G16) -> u32 {
    versions.iter().rev().find(|v| v.0 == *guid).map_or(0, |v| v.1)
}

pub fn ver_of(versions: &[(G16, u32)]) -> Ver {
    let rel = lookup(versions, &RELEASE_GUID);
    let ed = lookup(versions, &EDITOR_GUID);
    Ver { lwc: rel >= 28, arg64: rel >= 12, culture: ed >= 32 }
}

pub const KNOWN_STRUCTS: [&str; 10] = [
    "Vector", "Vector2D", "Rotator", "Quat", "DateTime", "Timespan", "LinearColor", "IntPoint",
    "Guid", "GameplayTagContainer",
];

pub const SCALARS: [&str; 20] = [
    "IntProperty", "BoolProperty", "ByteProperty", "StrProperty", "NameProperty", "FloatProperty",
    "EnumProperty", "Int8Property", "Int16Property", "UInt16Property", "UInt32Property",
    "Int64Property", "UInt64Property", "DoubleProperty", "ObjectProperty", "TextProperty",
    "DelegateProperty", "MulticastInlineDelegateProperty", "MulticastSparseDelegateProperty",
    "FieldPathProperty",
];

pub fn is_known_type(ty: &str) -> bool {
    SCALARS.contains(&ty)
        || matches!(ty, "StructProperty" | "ArrayProperty" | "SetProperty" | "MapProperty")
}

impl MVal {
    /// Type name stored in front of the property.
    pub fn type_name(&self) -> &str {
        match self {
            MVal::Bool(_) => "BoolProperty",
            MVal::Byte { .. } | MVal::ByteNs { .. } => "ByteProperty",
            MVal::I8(_) => "Int8Property",
            MVal::I16(_) => "Int16Property",
            MVal::U16(_) => "UInt16Property",
            MVal::I32(_) => "IntProperty",
            MVal::U32(_) => "UInt32Property",
            MVal::I64(_) => "Int64Property",
            MVal::U64(_) => "UInt64Property",
            MVal::F32(_) => "FloatProperty",
            MVal::F64(_) => "DoubleProperty",
            MVal::Enum { .. } => "EnumProperty",
            MVal::Name { .. } => "NameProperty",
            MVal::Str(_) => "StrProperty",
            MVal::Object(_) => "ObjectProperty",
            MVal::Delegate(_) => "DelegateProperty",
            MVal::MultiInline(_) => "MulticastInlineDelegateProperty",
            MVal::MultiSparse(_) => "MulticastSparseDelegateProperty",
            MVal::FieldPath { .. } => "FieldPathProperty",
            MVal::Text(_) => "TextProperty",
            MVal::Struct { .. } | MVal::StructVal(_) => "StructProperty",
            MVal::Array { .. } => "ArrayProperty",
            MVal::Set { .. } => "SetProperty",
            MVal::Map { .. } => "MapProperty",
            MVal::Unknown { ty, .. } => ty,
        }
    }

    /// Visits this value and every value below it.
    pub fn walk(&self, f: &mut dyn FnMut(&MVal)) {
        f(self);
        match self {
            MVal::Struct { val, .. } | MVal::StructVal(val) => val.walk(f),
            MVal::Array { items, .. } | MVal::Set { items, .. } => items.iter().for_each(|v| v.walk(f)),
            MVal::Map { items, .. } => items.iter().for_each(|(k, v)| {
                k.walk(f);
                v.walk(f)
            }),
            _ => {}
        }
    }

    pub fn is_container(&self) -> bool {
        matches!(
            self,
            MVal::Struct { .. } | MVal::StructVal(_) | MVal::Array { .. } | MVal::Set { .. } | MVal::Map { .. }
        )
    }
}

impl MStruct {
    pub fn walk(&self, f: &mut dyn FnMut(&MVal)) {
        if let MStruct::Custom(fields) = self {
            for (_, vals) in fields {
                vals.iter().for_each(|v| v.walk(f));
            }
        }
    }
}

impl MFile {
    pub fn ver(&self) -> Ver {
        ver_of(&self.header.versions)
    }
    pub fn walk(&self, f: &mut dyn FnMut(&MVal)) {
        self.props.iter().for_each(|(_, v)| v.walk(f));
    }
    pub fn count(&self) -> usize {
        let mut n = 0;
        self.walk(&mut |_| n += 1);
        n
    }
}

// ---- canonical form: equal strings exactly for equal contents in the sense of C21 ----

fn push_len(out: &mut String, tag: &str, n: usize) {
    out.push_str(tag);
    out.push_str(&n.to_string());
    out.push(':');
}
fn cs(out: &mut String, s: &str) {
    push_len(out, "s", s.len());
    out.push_str(s);
}
fn cfs(out: &mut String, s: &Fs) {
    match s {
        None => out.push('n'),
        Some(s) => cs(out, s),
    }
}
fn c32(out: &mut String, b: u32) {
    let f = f32::from_bits(b);
    if f.is_nan() {
        out.push_str("fN,");
    } else if f == 0.0 {
        out.push_str("f0,");
    } else {
        out.push_str(&format!("f{b:x},"));
    }
}
fn c64(out: &mut String, b: u64) {
    let f = f64::from_bits(b);
    if f.is_nan() {
        out.push_str("dN,");
    } else if f == 0.0 {
        out.push_str("d0,");
    } else {
        out.push_str(&format!("d{b:x},"));
    }
}
fn cdel(out: &mut String, d: &MDel) {
    cs(out, &d.object);
    cs(out, &d.function);
}
fn sorted(out: &mut String, mut items: Vec<String>) {
    items.sort();
    push_len(out, "m", items.len());
    for i in items {
        cs(out, &i);
    }
}

impl MVal {
    pub fn canon(&self, out: &mut String) {
        match self {
            MVal::Bool(b) => out.push_str(if *b { "b1" } else { "b0" }),
            MVal::Byte { name, val } => {
                out.push_str(&format!("B{val},"));
                cfs(out, name)
            }
            MVal::ByteNs { name, val } => {
                out.push_str("BN");
                cs(out, val);
                cfs(out, name)
            }
            MVal::I8(v) => out.push_str(&format!("i8:{v},")),
            MVal::I16(v) => out.push_str(&format!("i16:{v},")),
            MVal::U16(v) => out.push_str(&format!("u16:{v},")),
            MVal::I32(v) => out.push_str(&format!("i32:{v},")),
            MVal::U32(v) => out.push_str(&format!("u32:{v},")),
            MVal::I64(v) => out.push_str(&format!("i64:{v},")),
            MVal::U64(v) => out.push_str(&format!("u64:{v},")),
            MVal::F32(v) => c32(out, *v),
            MVal::F64(v) => c64(out, *v),
            MVal::Enum { ty, val } => {
                out.push('E');
                cfs(out, ty);
                cs(out, val)
            }
            MVal::Name { idx, val } => {
                out.push_str(&format!("N{idx},"));
                cfs(out, val)
            }
            MVal::Str(s) => {
                out.push('S');
                cfs(out, s)
            }
            MVal::Object(s) => {
                out.push('O');
                cs(out, s)
            }
            MVal::Delegate(d) => {
                out.push('D');
                cdel(out, d)
            }
            MVal::MultiInline(ds) => {
                push_len(out, "DI", ds.len());
                ds.iter().for_each(|d| cdel(out, d))
            }
            MVal::MultiSparse(ds) => {
                push_len(out, "DS", ds.len());
                ds.iter().for_each(|d| cdel(out, d))
            }
            MVal::FieldPath { path, owner } => {
                push_len(out, "P", path.len());
                path.iter().for_each(|p| cs(out, p));
                cs(out, owner)
            }
            MVal::Text(t) => t.canon(out),
            MVal::Struct { guid, ty, val } => {
                out.push_str(&format!("R{guid:02x?}"));
                cs(out, ty);
                val.canon(out)
            }
            MVal::StructVal(val) => {
                out.push('V');
                val.canon(out)
            }
            MVal::Array { ty, sinfo, items } => {
                out.push('A');
                cs(out, ty);
                match sinfo {
                    None => out.push('n'),
                    Some((a, b, g)) => {
                        cs(out, a);
                        cs(out, b);
                        out.push_str(&format!("{g:02x?}"))
                    }
                }
                push_len(out, "", items.len());
                items.iter().for_each(|i| i.canon(out))
            }
            MVal::Set { ty, flags, items } => {
                out.push('T');
                cs(out, ty);
                push_len(out, &format!("{flags},"), items.len());
                items.iter().for_each(|i| i.canon(out))
            }
            MVal::Map { kt, vt, flags, items } => {
                out.push('M');
                cs(out, kt);
                cs(out, vt);
                out.push_str(&format!("{flags},"));
                sorted(out, items.iter().map(|(k, v)| {
                    let mut s = String::new();
                    k.canon(&mut s);
                    v.canon(&mut s);
                    s
                }).collect())
            }
            MVal::Unknown { ty, raw } => {
                out.push('U');
                cs(out, ty);
                out.push_str(&format!("{raw:02x?}"))
            }
        }
    }

    pub fn canon_string(&self) -> String {
        let mut s = String::new();
        self.canon(&mut s);
        s
    }
}

impl MStruct {
    pub fn canon(&self, out: &mut String) {
        match self {
            MStruct::V2F(a) => {
                out.push_str("2f");
                a.iter().for_each(|v| c32(out, *v))
            }
            MStruct::V2D(a) => {
                out.push_str("2d");
                a.iter().for_each(|v| c64(out, *v))
            }
            MStruct::VF(a) => {
                out.push_str("3f");
                a.iter().for_each(|v| c32(out, *v))
            }
            MStruct::VD(a) => {
                out.push_str("3d");
                a.iter().for_each(|v| c64(out, *v))
            }
            MStruct::RF(a) => {
                out.push_str("rf");
                a.iter().for_each(|v| c32(out, *v))
            }
            MStruct::RD(a) => {
                out.push_str("rd");
                a.iter().for_each(|v| c64(out, *v))
            }
            MStruct::QF(a) => {
                out.push_str("qf");
                a.iter().for_each(|v| c32(out, *v))
            }
            MStruct::QD(a) => {
                out.push_str("qd");
                a.iter().for_each(|v| c64(out, *v))
            }
            MStruct::DateTime(v) => out.push_str(&format!("dt{v},")),
            MStruct::Timespan(v) => out.push_str(&format!("ts{v},")),
            MStruct::Guid(g) => out.push_str(&format!("g{g:02x?}")),
            MStruct::Color(a) => {
                out.push_str("lc");
                a.iter().for_each(|v| c32(out, *v))
            }
            MStruct::IntPoint(x, y) => out.push_str(&format!("ip{x},{y},")),
            MStruct::Tags(t) => {
                push_len(out, "tg", t.len());
                t.iter().for_each(|s| cs(out, s))
            }
            MStruct::Custom(fields) => {
                out.push_str("cu");
                sorted(out, fields.iter().map(|(k, vs)| {
                    let mut s = String::new();
                    cs(&mut s, k);
                    push_len(&mut s, "", vs.len());
                    vs.iter().for_each(|v| v.canon(&mut s));
                    s
                }).collect())
            }
        }
    }
}

impl MText {
    pub fn canon(&self, out: &mut String) {
        out.push_str(&format!("t{},", self.flags));
        let fmt = |out: &mut String, f: &Option<MFmt>| out.push_str(&format!("{f:?}"));
        let named = |out: &mut String, a: &Vec<(String, MArg)>| {
            sorted(out, a.iter().map(|(k, v)| {
                let mut s = String::new();
                cs(&mut s, k);
                v.canon(&mut s);
                s
            }).collect())
        };
        match &self.hist {
            MHist::Empty => out.push_str("h-"),
            MHist::None(s) => {
                out.push_str("hn");
                cfs(out, s)
            }
            MHist::Base(a, b, c) => {
                out.push_str("hb");
                cfs(out, a);
                cfs(out, b);
                cfs(out, c)
            }
            MHist::Named(t, a) => {
                out.push_str("h1");
                t.canon(out);
                named(out, a)
            }
            MHist::Ordered(t, a) => {
                push_len(out, "h2", a.len());
                t.canon(out);
                a.iter().for_each(|x| x.canon(out))
            }
            MHist::Argument(t, a) => {
                out.push_str("h3");
                t.canon(out);
                named(out, a)
            }
            MHist::Number(a, f, c) => {
                out.push_str("h4");
                a.canon(out);
                fmt(out, f);
                cfs(out, c)
            }
            MHist::Percent(a, f, c) => {
                out.push_str("h5");
                a.canon(out);
                fmt(out, f);
                cfs(out, c)
            }
            MHist::Currency(code, a, f, c) => {
                out.push_str("h6");
                cfs(out, code);
                a.canon(out);
                fmt(out, f);
                cfs(out, c)
            }
            MHist::Date(t, s, c) => {
                out.push_str(&format!("h7{t},{s},"));
                cs(out, c)
            }
            MHist::Time(t, s, z, c) => {
                out.push_str(&format!("h8{t},{s},"));
                cs(out, z);
                cs(out, c)
            }
            MHist::DateTime(t, s, u, z, c) => {
                out.push_str(&format!("h9{t},{s},{u},"));
                cs(out, z);
                cs(out, c)
            }
            MHist::Transform(t, k) => {
                out.push_str(&format!("hx{k},"));
                t.canon(out)
            }
            MHist::StringTable(a, b) => {
                out.push_str("hs");
                cs(out, a);
                cs(out, b)
            }
        }
    }
}

impl MArg {
    pub fn canon(&self, out: &mut String) {
        match self {
            MArg::I32(v) => out.push_str(&format!("ai{v},")),
            MArg::U32(v) => out.push_str(&format!("au{v},")),
            MArg::I64(v) => out.push_str(&format!("aI{v},")),
            MArg::U64(v) => out.push_str(&format!("aU{v},")),
            MArg::F32(v) => c32(out, *v),
            MArg::F64(v) => c64(out, *v),
            MArg::Text(t) => t.canon(out),
        }
    }
}

/// Calls `f` on every string of the value that may hold any text (not on types that decide how the
/// value is read).
pub fn strings_mut(v: &mut MVal, f: &mut dyn FnMut(&mut String)) {
    fn o(x: &mut Fs, f: &mut dyn FnMut(&mut String)) {
        if let Some(s) = x {
            f(s)
        }
    }
    fn del(d: &mut MDel, f: &mut dyn FnMut(&mut String)) {
        f(&mut d.object);
        f(&mut d.function);
    }
    fn arg(a: &mut MArg, f: &mut dyn FnMut(&mut String)) {
        if let MArg::Text(t) = a {
            text(t, f)
        }
    }
    fn text(t: &mut MText, f: &mut dyn FnMut(&mut String)) {
        match &mut t.hist {
            MHist::Empty => {}
            MHist::None(s) => o(s, f),
            MHist::Base(a, b, c) => {
                o(a, f);
                o(b, f);
                o(c, f);
            }
            MHist::Named(t, a) | MHist::Argument(t, a) => {
                text(t, f);
                for (k, a) in a {
                    f(k);
                    arg(a, f);
                }
            }
            MHist::Ordered(t, a) => {
                text(t, f);
                a.iter_mut().for_each(|a| arg(a, f));
            }
            MHist::Number(a, _, c) | MHist::Percent(a, _, c) => {
                arg(a, f);
                o(c, f);
            }
            MHist::Currency(k, a, _, c) => {
                o(k, f);
                arg(a, f);
                o(c, f);
            }
            MHist::Date(_, _, c) => f(c),
            MHist::Time(_, _, a, b) | MHist::DateTime(_, _, _, a, b) | MHist::StringTable(a, b) => {
                f(a);
                f(b);
            }
            MHist::Transform(t, _) => text(t, f),
        }
    }
    fn strukt(s: &mut MStruct, f: &mut dyn FnMut(&mut String)) {
        match s {
            MStruct::Tags(t) => t.iter_mut().for_each(f),
            MStruct::Custom(fields) => {
                for (n, vs) in fields {
                    if !vs.is_empty() {
                        f(n);
                    }
                    vs.iter_mut().for_each(|v| strings_mut(v, f));
                }
            }
            _ => {}
        }
    }
    match v {
        MVal::Byte { name, .. } => o(name, f),
        MVal::ByteNs { name, val } => {
            o(name, f);
            f(val);
        }
        MVal::Enum { ty, val } => {
            o(ty, f);
            f(val);
        }
        MVal::Name { val, .. } | MVal::Str(val) => o(val, f),
        MVal::Object(x) => f(x),
        MVal::Delegate(d) => del(d, f),
        MVal::MultiInline(d) | MVal::MultiSparse(d) => d.iter_mut().for_each(|d| del(d, f)),
        MVal::FieldPath { path, owner } => {
            path.iter_mut().for_each(&mut *f);
            f(owner);
        }
        MVal::Text(t) => text(t, f),
        MVal::Struct { val, .. } | MVal::StructVal(val) => strukt(val, f),
        MVal::Array { sinfo, items, .. } => {
            if let Some((field, _, _)) = sinfo {
                f(field);
            }
            items.iter_mut().for_each(|i| strings_mut(i, f));
        }
        MVal::Set { items, .. } => items.iter_mut().for_each(|i| strings_mut(i, f)),
        MVal::Map { items, .. } => {
            for (k, v) in items {
                strings_mut(k, f);
                strings_mut(v, f);
            }
        }
        _ => {}
    }
}

/// Whether everything in the value can be stored under the layout switches.
pub fn fits(v: &MVal, ver: Ver) -> bool {
    match v {
        MVal::Text(t) => fits_text(t, ver),
        MVal::Struct { val, .. } | MVal::StructVal(val) => fits_struct(val, ver),
        MVal::Array { items, .. } | MVal::Set { items, .. } => items.iter().all(|i| fits(i, ver)),
        MVal::Map { items, .. } => items.iter().all(|(k, v)| fits(k, ver) && fits(v, ver)),
        _ => true,
    }
}

pub fn fits_struct(s: &MStruct, ver: Ver) -> bool {
    match s {
        MStruct::V2F(_) | MStruct::VF(_) | MStruct::RF(_) | MStruct::QF(_) => !ver.lwc,
        MStruct::V2D(_) | MStruct::VD(_) | MStruct::RD(_) | MStruct::QD(_) => ver.lwc,
        MStruct::Custom(f) => f.iter().all(|(_, vs)| vs.iter().all(|v| fits(v, ver))),
        _ => true,
    }
}

pub fn fits_arg(a: &MArg, ver: Ver) -> bool {
    match a {
        MArg::I32(_) | MArg::U32(_) => !ver.arg64,
        MArg::I64(_) | MArg::U64(_) => ver.arg64,
        MArg::F32(_) | MArg::F64(_) => true,
        MArg::Text(t) => fits_text(t, ver),
    }
}

pub fn fits_text(t: &MText, ver: Ver) -> bool {
    match &t.hist {
        MHist::None(_) => ver.culture,
        MHist::Named(t, a) | MHist::Argument(t, a) => fits_text(t, ver) && a.iter().all(|(_, a)| fits_arg(a, ver)),
        MHist::Ordered(t, a) => fits_text(t, ver) && a.iter().all(|a| fits_arg(a, ver)),
        MHist::Number(a, _, _) | MHist::Percent(a, _, _) | MHist::Currency(_, a, _, _) => fits_arg(a, ver),
        MHist::Transform(t, _) => fits_text(t, ver),
        _ => true,
    }
}
