//! Structured generator of save files.

use crate::model::*;
use crate::src::Src;
use std::collections::{HashMap, HashSet};

pub type Hints = HashMap<String, String>;

#[derive(Clone)]
pub struct Cfg {
    /// Only finite floats.
    pub finite: bool,
    /// Most values in one file.
    pub budget: usize,
    /// Nesting of containers (chains of structs go deeper when `deep`).
    pub depth: usize,
    pub deep: bool,
    pub unknown: bool,
    pub hints: bool,
    pub pal: bool,
    /// Strings close to the length limit (rare).
    pub huge: bool,
    /// Containers with hundreds to many thousands of elements (rare).
    pub large: bool,
    /// Mostly structs as elements of sets and maps.
    pub structs: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { finite: false, budget: 40, depth: 5, deep: false, unknown: true, hints: true, pal: false, huge: false, large: false, structs: false }
    }
}

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub cfg: Cfg,
    pub ver: Ver,
    pub hints: Hints,
    pub path: Vec<String>,
    pub budget: isize,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub file: MFile,
    pub hints: Hints,
}

const NAMES: [&str; 16] = [
    "A", "B", "Health", "Value", "Key", "Name", "X", "Level", "none", "NONE", "type", "flags",
    "value", "history", "Player Name", "IntProperty",
];

const CUSTOM_TYPES: [&str; 10] = [
    "MyStruct", "Transform", "vector", "Vector4", "", "Vector2", "VECTOR", "Guid2", "Rotator ", "None",
];

const UNKNOWN_TYPES: [&str; 10] = [
    "SoftObjectProperty", "Int32Property", "intproperty", "InterfaceProperty", "", "None",
    "FloatProperty2", "Property", "StructProperty ", "Ünbekannt",
];

pub fn unicode_char(s: &mut Src) -> char {
    match s.weighted(&[4, 3, 3, 2, 2, 1, 1]) {
        0 => char::from_u32(0xA0 + s.below(0x60) as u32).unwrap(),
        1 => char::from_u32(0x20 + s.below(0x5F) as u32).unwrap(),
        2 => char::from_u32(0x4E00 + s.below(0x5000) as u32).unwrap(),
        3 => char::from_u32(0x1F300 + s.below(0x300) as u32).unwrap(),
        4 => *s.pick(&['\u{7F}', '\u{80}', '\u{FF}', '\u{100}', '\u{7FF}', '\u{800}', '\u{D7FF}', '\u{E000}', '\u{FEFF}', '\u{FFFD}', '\u{FFFE}', '\u{FFFF}', '\u{10000}', '\u{10FFFF}']),
        5 => char::from_u32(s.below(0x20) as u32).unwrap(),
        _ => loop {
            // the surrogate gap is 1/17 of the first plane, so this ends at once
            let v = s.below(0x11_0000) as u32;
            if let Some(c) = char::from_u32(v) {
                break c;
            }
            break '\u{E000}';
        },
    }
}

pub fn interesting(s: &mut Src, bits: u32) -> u64 {
    let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    (match s.weighted(&[3, 2, 2, 3]) {
        0 => s.below(10),
        1 => s.bits(),
        2 => {
            let sh = s.below(bits as u64);
            (1u64 << sh).wrapping_sub(s.below(3).wrapping_sub(1))
        }
        _ => *s.pick(&[mask, mask >> 1, (mask >> 1) + 1, 0xff, 0x100, 0x7f, 0x80, 0xffff, 0x8000, 0x7fff, 0x0102030405060708, mask - 1]),
    }) & mask
}

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, cfg: Cfg) -> Self {
        let budget = cfg.budget as isize;
        Gen { s, cfg, ver: Ver { lwc: false, arg64: false, culture: false }, hints: Hints::new(), path: vec![], budget }
    }

    pub fn ident(&mut self) -> String {
        let n = self.s.range(1, 8);
        (0..n).map(|_| *self.s.pick(b"abcdefgXYZ_0123.") as char).collect()
    }

    pub fn string(&mut self) -> String {
        match self.s.weighted(&[30, 12, 20, 10, 20, 6, 2]) {
            0 => self.ident(),
            1 => String::new(),
            2 => {
                let n = self.s.range(0, 12);
                (0..n).map(|_| (0x20 + self.s.below(0x5F)) as u8 as char).collect()
            }
            3 => self.s.pick(&["None", "none", "IntProperty", "StructProperty", "\0", "a\0b", "\0\0", "\u{1}", "\u{7f}", "a ", " ", "EFoo::Bar"]).to_string(),
            4 => {
                let n = self.s.range(1, 8);
                (0..n).map(|_| unicode_char(self.s)).collect()
            }
            5 => {
                let n = self.s.range(9, 300) as usize;
                let c = if self.s.chance(1, 3) { unicode_char(self.s) } else { 'q' };
                let mut t: String = std::iter::repeat_n('x', n).collect();
                t.push(c);
                t
            }
            _ => {
                if self.cfg.huge && self.budget > 0 {
                    self.budget -= 10;
                    let n = *self.s.pick(&[255usize, 256, 65534, 65535, 65536, 131070, 131071]);
                    let wide = self.s.chance(1, 3);
                    let c = if wide { 'Ж' } else { 'z' };
                    std::iter::repeat_n(c, n).collect()
                } else {
                    let n = *self.s.pick(&[127usize, 128, 254, 255, 256, 511, 1023]);
                    std::iter::repeat_n('y', n).collect()
                }
            }
        }
    }

    pub fn fs(&mut self) -> Fs {
        if self.s.chance(1, 7) { None } else { Some(self.string()) }
    }

    /// A property name: anything except the end marker.
    pub fn name(&mut self) -> String {
        let n = match self.s.weighted(&[5, 4, 2]) {
            0 => self.s.pick(&NAMES).to_string(),
            1 => self.ident(),
            _ => self.string(),
        };
        if n == "None" || n.len() > 2000 { "Nope".to_string() } else { n }
    }

    pub fn guid(&mut self) -> G16 {
        let mut g = [0u8; 16];
        match self.s.weighted(&[3, 4, 1, 1, 1]) {
            0 => {}
            1 => {
                g[..8].copy_from_slice(&self.s.bits().to_le_bytes());
                g[8..].copy_from_slice(&self.s.bits().to_le_bytes());
            }
            2 => g = RELEASE_GUID,
            3 => g[self.s.idx(16)] = self.s.below(256) as u8,
            _ => g = [0xff; 16],
        }
        g
    }

    pub fn f32(&mut self) -> u32 {
        let b = match self.s.weighted(&[3, 3, 3]) {
            0 => (self.s.below(2000) as f32 / 8.0 - 100.0).to_bits(),
            1 => self.s.bits() as u32,
            _ => *self.s.pick(&[0, 0x8000_0000, 0x3F80_0000, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 0xFFC0_0000, 0x7FA0_0001, 0xFFFF_FFFF, 1, 0x8000_0001, 0x007F_FFFF, 0x7F7F_FFFF, 0xFF7F_FFFF, 0x3DCC_CCCD]),
        };
        if self.cfg.finite && !f32::from_bits(b).is_finite() { b & 0x807F_FFFF | 0x4000_0000 } else { b }
    }

    pub fn f64(&mut self) -> u64 {
        let b = match self.s.weighted(&[3, 3, 3]) {
            0 => (self.s.below(2000) as f64 / 8.0 - 100.0).to_bits(),
            1 => self.s.bits(),
            _ => *self.s.pick(&[
                0, 1 << 63, 0x3FF0_0000_0000_0000, 0x7FF0_0000_0000_0000, 0xFFF0_0000_0000_0000,
                0x7FF8_0000_0000_0000, 0x7FF4_0000_0000_0001, u64::MAX, 1, 0x000F_FFFF_FFFF_FFFF,
                0x7FEF_FFFF_FFFF_FFFF, 0x3FB9_9999_9999_999A, 0x36A0_0000_0000_0000, 0x47EF_FFFF_F000_0001,
            ]),
        };
        if self.cfg.finite && !f64::from_bits(b).is_finite() { b & 0x800F_FFFF_FFFF_FFFF | 0x4000_0000_0000_0000 } else { b }
    }

    fn count(&mut self) -> usize {
        let least = if self.cfg.structs { 1 } else { 0 };
        let n = match self.s.weighted(&[12, 3, 1]) {
            0 => self.s.range(least, 3),
            1 => self.s.range(4, 10),
            _ => self.s.range(11, 40),
        } as usize;
        n.min(self.budget.max(0) as usize + 1)
    }

    /// Rarely a large number of elements, where the configuration asks for it.
    fn many(&mut self, odds: u32) -> Option<usize> {
        if !self.cfg.large || self.budget <= 0 || !self.s.chance(1, odds) {
            return None;
        }
        self.budget -= 20;
        Some(match self.s.weighted(&[5, 1]) {
            0 => *self.s.pick(&[127usize, 128, 255, 256, 257, 1000]),
            _ => *self.s.pick(&[65535usize, 65536, 70000]),
        })
    }

    pub fn versions(&mut self) -> Vec<(G16, u32)> {
        let mut out: Vec<(G16, u32)> = vec![];
        let mut add = |g: G16, v: u32| {
            if !out.iter().any(|e| e.0 == g) {
                out.push((g, v));
            }
        };
        let n = self.s.range(0, 6);
        for _ in 0..n {
            match self.s.weighted(&[4, 3, 2, 2]) {
                0 => {
                    let v = *self.s.pick(&[0, 1, 11, 12, 13, 27, 28, 29, 31, 32, 100, u32::MAX, 0x8000_0000, 284]);
                    add(RELEASE_GUID, v)
                }
                1 => {
                    let v = *self.s.pick(&[0, 1, 12, 28, 31, 32, 33, 41, u32::MAX, 0x8000_0000, 288]);
                    add(EDITOR_GUID, v)
                }
                2 => {
                    // differs from a meaningful entry in one byte
                    let mut g = if self.s.chance(1, 2) { RELEASE_GUID } else { EDITOR_GUID };
                    g[self.s.idx(16)] ^= 1 << self.s.below(8);
                    let v = *self.s.pick(&[0, 12, 28, 32, 50, u32::MAX]);
                    add(g, v)
                }
                _ => {
                    let g = self.guid();
                    let v = interesting(self.s, 32) as u32;
                    add(g, v)
                }
            }
        }
        if let Some(n) = self.many(300) {
            out.extend((0..n as u32).map(|i| {
                let mut g = [0x77; 16];
                g[..4].copy_from_slice(&i.to_le_bytes());
                (g, i)
            }));
        }
        out
    }

    pub fn header(&mut self) -> MHeader {
        let ue5 = if self.s.chance(1, 2) { Some(self.s.range(1000, 1009) as u32) } else { None };
        let package = self.s.range(0x205, 0x20D) as u32;
        let engine = match self.s.weighted(&[2, 2, 1]) {
            0 => (4, self.s.below(29) as u16, self.s.below(5) as u16),
            1 => (5, self.s.below(5) as u16, self.s.below(5) as u16),
            _ => (self.s.below(65536) as u16, self.s.below(65536) as u16, self.s.below(65536) as u16),
        };
        let engine = (engine.0, engine.1, engine.2, interesting(self.s, 32) as u32);
        let branch = self.string();
        let versions = self.versions();
        let class_name = self.string();
        MHeader { ue5, package, engine, branch, versions, class_name }
    }

    fn delegate(&mut self) -> MDel {
        MDel { object: self.string(), function: self.string() }
    }

    fn delegates(&mut self) -> Vec<MDel> {
        if let Some(n) = self.many(100) {
            return (0..n).map(|i| MDel { object: format!("{i}"), function: String::new() }).collect();
        }
        let n = self.s.range(0, 3);
        (0..n).map(|_| self.delegate()).collect()
    }

    pub fn scalar_type(&mut self) -> &'static str {
        SCALARS[self.s.idx(SCALARS.len())]
    }

    /// A value of a scalar type; `header` says whether it carries its property header.
    pub fn scalar(&mut self, ty: &str, header: bool) -> MVal {
        match ty {
            "BoolProperty" => MVal::Bool(self.s.chance(1, 2)),
            "ByteProperty" => {
                let name = if header { Some(self.string()) } else { None };
                if header && self.s.chance(1, 2) {
                    MVal::ByteNs { name, val: self.string() }
                } else {
                    MVal::Byte { name, val: interesting(self.s, 8) as u8 }
                }
            }
            "Int8Property" => MVal::I8(interesting(self.s, 8) as i8),
            "Int16Property" => MVal::I16(interesting(self.s, 16) as i16),
            "UInt16Property" => MVal::U16(interesting(self.s, 16) as u16),
            "IntProperty" => MVal::I32(interesting(self.s, 32) as i32),
            "UInt32Property" => MVal::U32(interesting(self.s, 32) as u32),
            "Int64Property" => MVal::I64(interesting(self.s, 64) as i64),
            "UInt64Property" => MVal::U64(interesting(self.s, 64)),
            "FloatProperty" => MVal::F32(self.f32()),
            "DoubleProperty" => MVal::F64(self.f64()),
            "EnumProperty" => MVal::Enum { ty: if header { Some(self.string()) } else { None }, val: self.string() },
            "NameProperty" => MVal::Name {
                idx: if header && self.s.chance(1, 3) { interesting(self.s, 32) as u32 } else { 0 },
                val: self.fs(),
            },
            "StrProperty" => MVal::Str(self.fs()),
            "ObjectProperty" => MVal::Object(self.string()),
            "DelegateProperty" => MVal::Delegate(self.delegate()),
            "MulticastInlineDelegateProperty" => MVal::MultiInline(self.delegates()),
            "MulticastSparseDelegateProperty" => MVal::MultiSparse(self.delegates()),
            "FieldPathProperty" => {
                if let Some(n) = self.many(50) {
                    return MVal::FieldPath { path: (0..n).map(|i| format!("{i}")).collect(), owner: self.string() };
                }
                let n = self.s.range(0, 3);
                MVal::FieldPath { path: (0..n).map(|_| self.string()).collect(), owner: self.string() }
            }
            "TextProperty" => {
                let d = self.s.range(0, 3) as usize;
                MVal::Text(self.text(d))
            }
            _ => unreachable!("scalar type {ty}"),
        }
    }

    pub fn arg(&mut self, depth: usize) -> MArg {
        match self.s.weighted(&[3, 3, 2, 2, if depth > 0 { 3 } else { 0 }]) {
            0 if self.ver.arg64 => MArg::I64(interesting(self.s, 64) as i64),
            0 => MArg::I32(interesting(self.s, 32) as i32),
            1 if self.ver.arg64 => MArg::U64(interesting(self.s, 64)),
            1 => MArg::U32(interesting(self.s, 32) as u32),
            2 => MArg::F32(self.f32()),
            3 => MArg::F64(self.f64()),
            _ if depth == 0 => MArg::F32(0),
            _ => MArg::Text(self.text(depth - 1)),
        }
    }

    pub fn fmt(&mut self) -> MFmt {
        MFmt {
            sign: self.s.chance(1, 2),
            grouping: self.s.chance(1, 2),
            rounding: self.s.below(7) as i8,
            digits: [
                interesting(self.s, 32) as i32, interesting(self.s, 32) as i32,
                interesting(self.s, 32) as i32, interesting(self.s, 32) as i32,
            ],
        }
    }

    fn opt_fmt(&mut self) -> Option<MFmt> {
        if self.s.chance(1, 2) { Some(self.fmt()) } else { None }
    }

    fn named_args(&mut self, depth: usize) -> Vec<(String, MArg)> {
        if let Some(n) = self.many(100) {
            return (0..n).map(|i| (format!("{i}"), MArg::F32(i as u32))).collect();
        }
        let n = self.s.range(0, 3);
        let mut out: Vec<(String, MArg)> = vec![];
        for _ in 0..n {
            let k = self.string();
            let v = self.arg(depth);
            if !out.iter().any(|e| e.0 == k) {
                out.push((k, v));
            }
        }
        out
    }

    pub fn text(&mut self, depth: usize) -> MText {
        let flags = interesting(self.s, 32) as u32;
        MText { flags, hist: self.hist(depth) }
    }

    pub fn hist(&mut self, depth: usize) -> MHist {
        self.budget -= 1;
        let d = depth.saturating_sub(1);
        let k = if depth == 0 {
            *self.s.pick(&[0usize, 1, 2, 6, 7, 8, 9, 10, 11, 13])
        } else {
            self.s.idx(14)
        };
        match k {
            0 => MHist::Empty,
            1 if self.ver.culture => MHist::None(self.fs()),
            1 => MHist::Empty,
            2 => MHist::Base(self.fs(), self.fs(), self.fs()),
            3 => MHist::Named(Box::new(self.text(d)), self.named_args(d)),
            4 => {
                let t = Box::new(self.text(d));
                if let Some(n) = self.many(50) {
                    return MHist::Ordered(t, (0..n).map(|i| MArg::F64(i as u64)).collect());
                }
                let n = self.s.range(0, 3);
                MHist::Ordered(t, (0..n).map(|_| self.arg(d)).collect())
            }
            5 => MHist::Argument(Box::new(self.text(d)), self.named_args(d)),
            6 => MHist::Number(Box::new(self.arg(d)), self.opt_fmt(), self.fs()),
            7 => MHist::Percent(Box::new(self.arg(d)), self.opt_fmt(), self.fs()),
            8 => MHist::Currency(self.fs(), Box::new(self.arg(d)), self.opt_fmt(), self.fs()),
            9 => MHist::Date(interesting(self.s, 64), self.s.below(5) as i8, self.string()),
            10 => MHist::Time(interesting(self.s, 64), self.s.below(5) as i8, self.string(), self.string()),
            11 => MHist::DateTime(interesting(self.s, 64), self.s.below(5) as i8, self.s.below(5) as i8, self.string(), self.string()),
            12 => MHist::Transform(Box::new(self.text(d)), self.s.below(2) as i8),
            _ => MHist::StringTable(self.string(), self.string()),
        }
    }

    pub fn struct_type(&mut self, depth: usize) -> String {
        if depth > 0 && self.s.chance(1, 2) {
            match self.s.weighted(&[3, 1]) {
                0 => self.s.pick(&CUSTOM_TYPES).to_string(),
                _ => {
                    let t = self.string();
                    if t.len() > 2000 { "Big".into() } else { t }
                }
            }
        } else {
            self.s.pick(&KNOWN_STRUCTS).to_string()
        }
    }

    pub fn strukt(&mut self, ty: &str, depth: usize) -> MStruct {
        macro_rules! arr {
            ($n:expr, $f:ident) => {{
                let mut a = [0; $n];
                for x in &mut a {
                    *x = self.$f();
                }
                a
            }};
        }
        let lwc = self.ver.lwc;
        match ty {
            "Vector" if lwc => MStruct::VD(arr!(3, f64)),
            "Vector" => MStruct::VF(arr!(3, f32)),
            "Vector2D" if lwc => MStruct::V2D(arr!(2, f64)),
            "Vector2D" => MStruct::V2F(arr!(2, f32)),
            "Rotator" if lwc => MStruct::RD(arr!(3, f64)),
            "Rotator" => MStruct::RF(arr!(3, f32)),
            "Quat" if lwc => MStruct::QD(arr!(4, f64)),
            "Quat" => MStruct::QF(arr!(4, f32)),
            "DateTime" => MStruct::DateTime(interesting(self.s, 64)),
            "Timespan" => MStruct::Timespan(interesting(self.s, 64)),
            "LinearColor" => MStruct::Color(arr!(4, f32)),
            "IntPoint" => MStruct::IntPoint(interesting(self.s, 32) as i32, interesting(self.s, 32) as i32),
            "Guid" => MStruct::Guid(self.guid()),
            "GameplayTagContainer" => {
                if let Some(n) = self.many(30) {
                    return MStruct::Tags((0..n).map(|i| format!("tag.{i}")).collect());
                }
                let n = self.s.range(0, 3);
                MStruct::Tags((0..n).map(|_| self.string()).collect())
            }
            _ => {
                let n = self.count().min(6);
                let mut fields: Vec<(String, Vec<MVal>)> = vec![];
                for _ in 0..n {
                    let name = self.name();
                    if fields.iter().any(|f| f.0 == name) {
                        continue;
                    }
                    if let Some(n) = self.many(500) {
                        fields.push((name, (0..n).map(|i| MVal::I32(i as i32)).collect()));
                        continue;
                    }
                    let reps = if self.s.chance(1, 6) { self.s.range(2, 3) } else { 1 };
                    let mut vals = vec![];
                    self.path.push(name.clone());
                    for _ in 0..reps {
                        vals.push(self.value(depth.saturating_sub(1)));
                    }
                    self.path.pop();
                    fields.push((name, vals));
                }
                MStruct::Custom(fields)
            }
        }
    }

    pub fn unknown_type(&mut self) -> String {
        if self.s.chance(1, 4) {
            let t = self.string();
            if is_known_type(&t) || t.len() > 2000 { "UnknownProperty".into() } else { t }
        } else {
            self.s.pick(&UNKNOWN_TYPES).to_string()
        }
    }

    pub fn raw(&mut self, max: u64) -> Vec<u8> {
        let n = self.s.range(0, max);
        (0..n).map(|_| self.s.below(256) as u8).collect()
    }

    fn elem_path<T>(&mut self, ty: &str, f: impl FnOnce(&mut Self) -> T) -> T {
        self.path.push(ty.to_string());
        let r = f(self);
        self.path.pop();
        r
    }

    /// Header-less element of a set or map.
    pub fn element(&mut self, ty: &str, depth: usize) -> MVal {
        self.budget -= 1;
        if ty == "StructProperty" {
            self.elem_path(ty, |g| {
                let key = g.path.join(".");
                let sty = match g.hints.get(&key) {
                    Some(t) => t.clone(),
                    None => {
                        let t = g.struct_type(depth);
                        g.hints.insert(key, t.clone());
                        t
                    }
                };
                MVal::StructVal(g.strukt(&sty, depth.saturating_sub(1)))
            })
        } else {
            self.scalar(ty, false)
        }
    }

    /// Type of the elements of a set, or of the keys or values of a map.
    fn elem_type(&mut self, depth: usize) -> String {
        let part = if self.cfg.structs { 3 } else { 1 };
        if self.cfg.hints && depth > 0 && self.s.chance(part, 4) {
            "StructProperty".into()
        } else {
            self.scalar_type().into()
        }
    }

    fn any_type(&mut self) -> String {
        match self.s.weighted(&[3, 2, 1]) {
            0 => self.scalar_type().into(),
            1 => self.s.pick(&["StructProperty", "ArrayProperty", "SetProperty", "MapProperty"]).to_string(),
            _ if self.cfg.unknown => self.unknown_type(),
            _ => "IntProperty".into(),
        }
    }

    /// Many cheap elements from a single choice.
    fn bulk(&mut self) -> (String, Vec<MVal>) {
        let n = *self.s.pick(&[127usize, 128, 255, 256, 257, 1000, 32768, 65535, 65536, 70000]);
        let mut r = crate::src::Rng::new(self.s.bits());
        let ty = *self.s.pick(&["IntProperty", "BoolProperty", "ByteProperty", "FloatProperty", "StrProperty", "NameProperty", "EnumProperty", "UInt16Property", "Int64Property"]);
        let items = (0..n)
            .map(|i| {
                let x = r.next();
                match ty {
                    "IntProperty" => MVal::I32(x as i32),
                    "BoolProperty" => MVal::Bool(x & 1 == 1),
                    "ByteProperty" => MVal::Byte { name: None, val: x as u8 },
                    "FloatProperty" => MVal::F32(i as u32),
                    "StrProperty" => MVal::Str(Some(format!("s{i}"))),
                    "NameProperty" => MVal::Name { idx: 0, val: Some(format!("n{i}")) },
                    "EnumProperty" => MVal::Enum { ty: None, val: format!("E::{i}") },
                    "UInt16Property" => MVal::U16(x as u16),
                    _ => MVal::I64(x as i64),
                }
            })
            .collect();
        self.budget -= 20;
        (ty.into(), items)
    }

    fn bulk_map(&mut self) -> MVal {
        let n = *self.s.pick(&[127usize, 255, 256, 1000, 65536, 70000]);
        let kt = *self.s.pick(&["StrProperty", "NameProperty", "EnumProperty", "IntProperty"]);
        let vt = *self.s.pick(&["BoolProperty", "IntProperty", "StrProperty", "UInt32Property"]);
        let items = (0..n)
            .map(|i| {
                let k = match kt {
                    "StrProperty" => MVal::Str(Some(format!("k{i}"))),
                    "NameProperty" => MVal::Name { idx: 0, val: Some(format!("k{i}")) },
                    "EnumProperty" => MVal::Enum { ty: None, val: format!("k{i}") },
                    _ => MVal::I32(i as i32),
                };
                let v = match vt {
                    "BoolProperty" => MVal::Bool(i % 3 == 0),
                    "IntProperty" => MVal::I32(!(i as i32)),
                    "StrProperty" => MVal::Str(if i % 7 == 0 { None } else { Some(format!("v{i}")) }),
                    _ => MVal::U32((i as u32).wrapping_mul(65537)),
                };
                (k, v)
            })
            .collect();
        self.budget -= 20;
        MVal::Map { kt: kt.into(), vt: vt.into(), flags: 0, items }
    }

    /// Elements of a list-like container.
    fn list(&mut self, depth: usize) -> (String, Vec<MVal>) {
        if self.cfg.large && self.s.chance(1, 100) {
            return self.bulk();
        }
        match self.s.weighted(&[10, 2, 2, 2]) {
            0 => {
                let ty = self.elem_type(depth);
                let n = self.count();
                let items = (0..n).map(|_| self.element(&ty, depth)).collect();
                (ty, items)
            }
            1 => (self.any_type(), vec![]),
            2 if self.cfg.unknown => {
                let ty = self.unknown_type();
                let n = self.s.range(1, 4);
                let len = self.s.range(1, 6);
                let items = (0..n)
                    .map(|_| MVal::Unknown { ty: ty.clone(), raw: (0..len).map(|_| self.s.below(256) as u8).collect() })
                    .collect();
                (ty, items)
            }
            _ => {
                // bytes stored as names
                let n = self.s.range(1, 4);
                let items = (0..n).map(|_| MVal::ByteNs { name: None, val: self.string() }).collect();
                ("ByteProperty".into(), items)
            }
        }
    }

    pub fn array(&mut self, depth: usize) -> MVal {
        if self.s.chance(1, 3) {
            let field = self.string();
            let ty = self.struct_type(depth);
            let guid = self.guid();
            if let Some(n) = self.many(100) {
                let items = (0..n).map(|i| MVal::StructVal(MStruct::IntPoint(i as i32, -1))).collect();
                return MVal::Array { ty: "StructProperty".into(), sinfo: Some((field, "IntPoint".into(), guid)), items };
            }
            let n = self.count();
            self.budget -= n as isize;
            let items = (0..n).map(|_| MVal::StructVal(self.strukt(&ty, depth.saturating_sub(1)))).collect();
            return MVal::Array { ty: "StructProperty".into(), sinfo: Some((field, ty, guid)), items };
        }
        // header-less structs never occur in arrays
        let save = self.cfg.hints;
        self.cfg.hints = false;
        let (ty, items) = self.list(depth);
        self.cfg.hints = save;
        if ty == "StructProperty" {
            return MVal::Array { ty, sinfo: Some((String::new(), "Guid".into(), [0; 16])), items: vec![] };
        }
        MVal::Array { ty, sinfo: None, items }
    }

    pub fn set(&mut self, depth: usize) -> MVal {
        let flags = if self.s.chance(1, 3) { interesting(self.s, 32) as u32 } else { 0 };
        let (ty, items) = self.list(depth);
        MVal::Set { ty, flags, items }
    }

    pub fn map(&mut self, depth: usize) -> MVal {
        let flags = if self.s.chance(1, 4) { interesting(self.s, 32) as u32 } else { 0 };
        if self.s.chance(1, 8) {
            return MVal::Map { kt: self.any_type(), vt: self.any_type(), flags, items: vec![] };
        }
        if self.cfg.large && self.s.chance(1, 100) {
            return self.bulk_map();
        }
        // half of the keys are of a type with a compact form
        let kt: String = if self.s.chance(1, 2) {
            self.s.pick(&["StrProperty", "NameProperty", "EnumProperty"]).to_string()
        } else {
            self.elem_type(depth)
        };
        let vt: String = if !self.cfg.structs && self.s.chance(1, 3) {
            self.s.pick(&["BoolProperty", "IntProperty", "StrProperty"]).to_string()
        } else {
            self.elem_type(depth)
        };
        let n = self.count();
        let mut seen = HashSet::new();
        let mut items = vec![];
        for _ in 0..n {
            self.path.push("Key".into());
            let k = self.element(&kt, depth);
            self.path.pop();
            self.path.push("Value".into());
            let v = self.element(&vt, depth);
            self.path.pop();
            if seen.insert(k.canon_string()) {
                items.push((k, v));
            }
        }
        MVal::Map { kt, vt, flags, items }
    }

    /// A property with header. The path ends in its name.
    pub fn value(&mut self, depth: usize) -> MVal {
        self.budget -= 1;
        let c = if depth > 0 && self.budget > 0 { 5 } else { 0 };
        let u = if self.cfg.unknown { 2 } else { 0 };
        let scalars = if self.cfg.structs && c > 0 { 4 } else { 20 };
        match self.s.weighted(&[scalars, c, c, c, c, u]) {
            1 if c > 0 => self.elem_path("StructProperty", |g| {
                let ty = g.struct_type(depth);
                let guid = g.guid();
                let val = g.strukt(&ty, depth - 1);
                MVal::Struct { guid, ty, val }
            }),
            2 if c > 0 => self.elem_path("ArrayProperty", |g| g.array(depth - 1)),
            3 if c > 0 => self.elem_path("MapProperty", |g| g.map(depth - 1)),
            4 if c > 0 => self.elem_path("SetProperty", |g| g.set(depth - 1)),
            5 if u > 0 => {
                let ty = self.unknown_type();
                let raw = if self.cfg.large && self.s.chance(1, 100) {
                    let n = *self.s.pick(&[255usize, 256, 65535, 65536, 70000]);
                    (0..n).map(|i| (i * 7) as u8).collect()
                } else {
                    self.raw(20)
                };
                MVal::Unknown { ty, raw }
            }
            _ => {
                let ty = self.scalar_type();
                self.scalar(ty, true)
            }
        }
    }

    /// Structs nested through fields and struct arrays.
    pub fn chain(&mut self, levels: usize) -> MVal {
        if levels <= 1 {
            return self.value(1);
        }
        let name = self.name();
        let as_array = self.s.chance(1, 3);
        let tag = if as_array { "ArrayProperty" } else { "StructProperty" };
        self.path.push(tag.into());
        self.path.push(name.clone());
        let inner = self.chain(levels - 1);
        self.path.pop();
        self.path.pop();
        let val = MStruct::Custom(vec![(name, vec![inner])]);
        if as_array {
            MVal::Array { ty: "StructProperty".into(), sinfo: Some(("f".into(), "Chain".into(), [0; 16])), items: vec![MVal::StructVal(val)] }
        } else {
            MVal::Struct { guid: [0; 16], ty: "Chain".into(), val }
        }
    }

    /// Texts nested in texts, as formats, sources or arguments.
    pub fn text_chain(&mut self, levels: usize, same: Option<u64>) -> MText {
        if levels <= 1 {
            return self.text(1);
        }
        let flags = self.s.below(3) as u32;
        let inner = self.text_chain(levels - 1, same);
        let plain = || Box::new(MText { flags: 0, hist: MHist::Empty });
        let arg = |t: MText| Box::new(MArg::Text(t));
        let hist = match same.unwrap_or_else(|| self.s.below(10)) {
            0 => MHist::Transform(Box::new(inner), self.s.below(2) as i8),
            1 => MHist::Named(Box::new(inner), vec![]),
            2 => MHist::Named(plain(), vec![("a".into(), MArg::Text(inner))]),
            3 => MHist::Ordered(Box::new(inner), vec![]),
            4 => MHist::Ordered(plain(), vec![MArg::F32(0), MArg::Text(inner)]),
            5 => MHist::Argument(Box::new(inner), vec![]),
            6 => MHist::Argument(plain(), vec![("a".into(), MArg::Text(inner))]),
            7 => MHist::Number(arg(inner), None, None),
            8 => MHist::Percent(arg(inner), None, None),
            _ => MHist::Currency(None, arg(inner), None, None),
        };
        MText { flags, hist }
    }

    pub fn props(&mut self) -> Vec<(String, MVal)> {
        let n = match self.s.weighted(&[1, 6, 3]) {
            0 => 0,
            1 => self.s.range(1, 4),
            _ => self.s.range(4, 10),
        };
        let mut out: Vec<(String, MVal)> = vec![];
        if self.cfg.large && self.s.chance(1, 300) {
            let n = *self.s.pick(&[127, 255, 256, 300, 1000]);
            out.extend((0..n).map(|i| (format!("p{i}"), MVal::I32(i))));
        }
        for _ in 0..n {
            let name = self.name();
            if out.iter().any(|p| p.0 == name) {
                continue;
            }
            let least = if self.cfg.structs { 3 } else { 0 };
            let depth = self.s.range(least, self.cfg.depth as u64) as usize;
            self.path.push(name.clone());
            let v = if self.cfg.deep && self.s.chance(1, 8) {
                let levels = self.s.range(6, 50) as usize;
                if self.s.chance(1, 4) {
                    let same = if self.s.chance(1, 2) { Some(self.s.below(10)) } else { None };
                    MVal::Text(self.text_chain(levels, same))
                } else {
                    self.chain(levels)
                }
            } else {
                self.value(depth)
            };
            self.path.pop();
            out.push((name, v));
        }
        out
    }

    pub fn file(mut self) -> Case {
        let header = self.header();
        self.ver = ver_of(&header.versions);
        let props = self.props();
        let pal = if self.cfg.pal && self.s.chance(1, 6) { Some(self.s.below(3) as u8) } else { None };
        Case { file: MFile { pal, header, props }, hints: self.hints }
    }
}

pub fn file(s: &mut Src, cfg: Cfg) -> Case {
    Gen::new(s, cfg).file()
}
