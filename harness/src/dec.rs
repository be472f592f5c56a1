//! Strict reference decoder over arbitrary bytes, written from the format.

use crate::model::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone, PartialEq, Debug)]
pub enum DErr {
    /// Not a well-formed file; what is wrong first.
    Bad(&'static str),
    /// A header-less struct without hint: path and position.
    Hint(String, usize),
    /// Nested deeper than the reference decoder follows.
    Deep,
}

type R<T> = Result<T, DErr>;

pub struct Dec<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub ver: Ver,
    pub hints: &'a HashMap<String, String>,
    pub path: Vec<String>,
    /// A repeated key or name was met, so that contents are ambiguous.
    pub dup: bool,
    pub depth: usize,
    /// The last string was null.
    pub budget: usize,
}

const MAX_DEPTH: usize = 56;

fn bad<T>(what: &'static str) -> R<T> {
    Err(DErr::Bad(what))
}

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8], ver: Ver, hints: &'a HashMap<String, String>) -> Self {
        Dec { b, pos: 0, ver, hints, path: vec![], dup: false, depth: 0, budget: 0 }
    }

    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.pos < n {
            return bad("end of data");
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> R<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn guid(&mut self) -> R<G16> {
        Ok(self.take(16)?.try_into().unwrap())
    }
    fn bool8(&mut self) -> R<bool> {
        match self.u8()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => bad("boolean"),
        }
    }
    fn b32(&mut self) -> R<bool> {
        match self.u32()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => bad("boolean"),
        }
    }
    fn en(&mut self, lo: i8, hi: i8) -> R<i8> {
        let v = self.u8()? as i8;
        if v < lo || v > hi { bad("enumeration") } else { Ok(v) }
    }
    fn term(&mut self) -> R<()> {
        if self.u8()? != 0 { bad("separator") } else { Ok(()) }
    }
    fn index0(&mut self) -> R<()> {
        if self.u32()? != 0 { bad("array index") } else { Ok(()) }
    }

    pub fn fs(&mut self) -> R<Fs> {
        let len = self.u32()? as i32;
        if !(-131072..=131072).contains(&len) {
            return bad("string length");
        }
        if len == 0 {
            return Ok(None);
        }
        if len > 0 {
            let body = self.take(len as usize - 1)?;
            if self.u8()? != 0 {
                return bad("string terminator");
            }
            match std::str::from_utf8(body) {
                Ok(s) => Ok(Some(s.to_string())),
                Err(_) => bad("UTF-8"),
            }
        } else {
            let body = self.take((-len as usize - 1) * 2)?;
            if self.u16()? != 0 {
                return bad("string terminator");
            }
            let words = body.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]]));
            match char::decode_utf16(words).collect::<Result<String, _>>() {
                Ok(s) => Ok(Some(s)),
                Err(_) => bad("UTF-16"),
            }
        }
    }
    pub fn s(&mut self) -> R<String> {
        match self.fs()? {
            Some(s) => Ok(s),
            None => bad("null string"),
        }
    }

    pub fn header(&mut self) -> R<MHeader> {
        if self.take(4)? != b"GVAS" {
            return bad("magic");
        }
        let save = self.u32()?;
        if save != 2 && save != 3 {
            return bad("save version");
        }
        let package = self.u32()?;
        if !(0x205..=0x20D).contains(&package) {
            return bad("package version");
        }
        let ue5 = if save == 3 {
            let v = self.u32()?;
            if !(1000..=1009).contains(&v) {
                return bad("UE5 version");
            }
            Some(v)
        } else {
            None
        };
        let engine = (self.u16()?, self.u16()?, self.u16()?, self.u32()?);
        let branch = self.s()?;
        if self.u32()? != 3 {
            return bad("custom version format");
        }
        let n = self.u32()?;
        let mut versions: Vec<(G16, u32)> = vec![];
        let mut seen = HashSet::new();
        for _ in 0..n {
            let g = self.guid()?;
            let v = self.u32()?;
            if !seen.insert(g) {
                self.dup = true;
            }
            versions.push((g, v));
        }
        let class_name = self.s()?;
        Ok(MHeader { ue5, package, engine, branch, versions, class_name })
    }

    pub fn props(&mut self) -> R<Vec<(String, MVal)>> {
        let mut out: Vec<(String, MVal)> = vec![];
        let mut seen = HashSet::new();
        loop {
            let name = self.s()?;
            if name == "None" {
                return Ok(out);
            }
            let ty = self.s()?;
            if !seen.insert(name.clone()) {
                self.dup = true;
            }
            self.path.push(name.clone());
            let v = self.tagged(&ty)?;
            self.path.pop();
            out.push((name, v));
        }
    }

    /// A property with header, after its type name.
    pub fn tagged(&mut self, ty: &str) -> R<MVal> {
        self.depth += 1;
        if self.depth > MAX_DEPTH {
            return Err(DErr::Deep);
        }
        self.path.push(ty.to_string());
        let v = self.tagged_inner(ty)?;
        self.path.pop();
        self.depth -= 1;
        Ok(v)
    }

    fn fixed(&mut self, size: u64) -> R<()> {
        if self.u64()? != size {
            return bad("size");
        }
        self.term()
    }

    fn tagged_inner(&mut self, ty: &str) -> R<MVal> {
        match ty {
            "BoolProperty" => {
                if self.u64()? != 0 {
                    return bad("size");
                }
                let v = self.bool8()?;
                self.term()?;
                return Ok(MVal::Bool(v));
            }
            "Int8Property" => {
                self.fixed(1)?;
                return self.scalar(ty);
            }
            "Int16Property" | "UInt16Property" => {
                self.fixed(2)?;
                return self.scalar(ty);
            }
            "IntProperty" | "UInt32Property" | "FloatProperty" => {
                self.fixed(4)?;
                return self.scalar(ty);
            }
            "Int64Property" | "UInt64Property" | "DoubleProperty" => {
                self.fixed(8)?;
                return self.scalar(ty);
            }
            _ => {}
        }
        let size = self.u32()? as usize;
        let mut idx = 0;
        if ty == "NameProperty" {
            idx = self.u32()?;
        } else {
            self.index0()?;
        }
        if !is_known_type(ty) {
            self.term()?;
            let raw = self.take(size)?.to_vec();
            return Ok(MVal::Unknown { ty: ty.to_string(), raw });
        }
        let mut strs = vec![];
        let n = match ty {
            "ByteProperty" | "EnumProperty" | "StructProperty" | "ArrayProperty" | "SetProperty" => 1,
            "MapProperty" => 2,
            _ => 0,
        };
        for _ in 0..n {
            strs.push(self.s()?);
        }
        let guid = if ty == "StructProperty" { self.guid()? } else { [0; 16] };
        self.term()?;
        let start = self.pos;
        let v = match ty {
            "ByteProperty" => {
                let name = strs.pop();
                if size <= 2 {
                    MVal::Byte { name, val: self.u8()? }
                } else {
                    MVal::ByteNs { name, val: self.s()? }
                }
            }
            "EnumProperty" => MVal::Enum { ty: strs.pop(), val: self.s()? },
            "NameProperty" => MVal::Name { idx, val: self.fs()? },
            "StructProperty" => {
                let ty = strs.pop().unwrap();
                let val = self.strukt(&ty)?;
                MVal::Struct { guid, ty, val }
            }
            "ArrayProperty" => self.array(strs.pop().unwrap(), size)?,
            "SetProperty" => {
                let ety = strs.pop().unwrap();
                let flags = self.u32()?;
                let count = self.u32()? as usize;
                let each = if count > 0 { Some(size.saturating_sub(8) / count) } else { None };
                let mut items = vec![];
                for _ in 0..count {
                    items.push(self.element(&ety, each)?);
                }
                MVal::Set { ty: ety, flags, items }
            }
            "MapProperty" => {
                let vt = strs.pop().unwrap();
                let kt = strs.pop().unwrap();
                let flags = self.u32()?;
                let count = self.u32()?;
                let mut items = vec![];
                let mut seen = HashSet::new();
                for _ in 0..count {
                    self.path.push("Key".into());
                    let k = self.element(&kt, None)?;
                    self.path.pop();
                    self.path.push("Value".into());
                    let v = self.element(&vt, None)?;
                    self.path.pop();
                    if !seen.insert(k.canon_string()) {
                        self.dup = true;
                    }
                    items.push((k, v));
                }
                MVal::Map { kt, vt, flags, items }
            }
            _ => self.scalar(ty)?,
        };
        if self.pos - start != size {
            return bad("size");
        }
        Ok(v)
    }

    fn array(&mut self, ety: String, size: usize) -> R<MVal> {
        let count = self.u32()? as usize;
        let mut items = vec![];
        if ety == "StructProperty" {
            let field = self.s()?;
            if self.s()? != "StructProperty" {
                return bad("array element type");
            }
            let inner = self.u64()?;
            let sty = self.s()?;
            let guid = self.guid()?;
            self.term()?;
            let start = self.pos;
            for _ in 0..count {
                items.push(MVal::StructVal(self.strukt(&sty)?));
            }
            if (self.pos - start) as u64 != inner {
                return bad("size");
            }
            return Ok(MVal::Array { ty: ety, sinfo: Some((field, sty, guid)), items });
        }
        let each = if count > 0 && size >= 4 { Some((size - 4) / count) } else { None };
        for _ in 0..count {
            items.push(self.element(&ety, each)?);
        }
        Ok(MVal::Array { ty: ety, sinfo: None, items })
    }

    /// An element of an array, set or map.
    pub fn element(&mut self, ty: &str, each: Option<usize>) -> R<MVal> {
        self.depth += 1;
        if self.depth > MAX_DEPTH {
            return Err(DErr::Deep);
        }
        self.path.push(ty.to_string());
        let v = match ty {
            "StructProperty" => {
                let path = self.path.join(".");
                match self.hints.get(&path) {
                    None => return Err(DErr::Hint(path, self.pos)),
                    Some(h) => {
                        let h = h.clone();
                        MVal::StructVal(self.strukt(&h)?)
                    }
                }
            }
            "ArrayProperty" | "SetProperty" | "MapProperty" => return bad("nested container"),
            "ByteProperty" => {
                if each.unwrap_or(1) <= 2 {
                    MVal::Byte { name: None, val: self.u8()? }
                } else {
                    MVal::ByteNs { name: None, val: self.s()? }
                }
            }
            _ if is_known_type(ty) => self.scalar(ty)?,
            _ => match each {
                Some(n) if n > 0 => MVal::Unknown { ty: ty.to_string(), raw: self.take(n)?.to_vec() },
                _ => return bad("unknown element type"),
            },
        };
        self.path.pop();
        self.depth -= 1;
        Ok(v)
    }

    fn deleg(&mut self) -> R<MDel> {
        Ok(MDel { object: self.s()?, function: self.s()? })
    }
    fn delegs(&mut self) -> R<Vec<MDel>> {
        let n = self.u32()?;
        let mut out = vec![];
        for _ in 0..n {
            out.push(self.deleg()?);
        }
        Ok(out)
    }

    fn scalar(&mut self, ty: &str) -> R<MVal> {
        Ok(match ty {
            "BoolProperty" => MVal::Bool(self.bool8()?),
            "Int8Property" => MVal::I8(self.u8()? as i8),
            "Int16Property" => MVal::I16(self.u16()? as i16),
            "UInt16Property" => MVal::U16(self.u16()?),
            "IntProperty" => MVal::I32(self.u32()? as i32),
            "UInt32Property" => MVal::U32(self.u32()?),
            "Int64Property" => MVal::I64(self.u64()? as i64),
            "UInt64Property" => MVal::U64(self.u64()?),
            "FloatProperty" => MVal::F32(self.u32()?),
            "DoubleProperty" => MVal::F64(self.u64()?),
            "EnumProperty" => MVal::Enum { ty: None, val: self.s()? },
            "NameProperty" => MVal::Name { idx: 0, val: self.fs()? },
            "StrProperty" => MVal::Str(self.fs()?),
            "ObjectProperty" => MVal::Object(self.s()?),
            "DelegateProperty" => MVal::Delegate(self.deleg()?),
            "MulticastInlineDelegateProperty" => MVal::MultiInline(self.delegs()?),
            "MulticastSparseDelegateProperty" => MVal::MultiSparse(self.delegs()?),
            "FieldPathProperty" => {
                let n = self.u32()?;
                let mut path = vec![];
                for _ in 0..n {
                    path.push(self.s()?);
                }
                MVal::FieldPath { path, owner: self.s()? }
            }
            "TextProperty" => MVal::Text(self.text()?),
            _ => unreachable!("scalar type {ty}"),
        })
    }

    pub fn strukt(&mut self, ty: &str) -> R<MStruct> {
        fn f<const N: usize>(d: &mut Dec) -> R<[u32; N]> {
            let mut a = [0; N];
            for x in &mut a {
                *x = d.u32()?;
            }
            Ok(a)
        }
        fn g<const N: usize>(d: &mut Dec) -> R<[u64; N]> {
            let mut a = [0; N];
            for x in &mut a {
                *x = d.u64()?;
            }
            Ok(a)
        }
        let lwc = self.ver.lwc;
        Ok(match ty {
            "Vector" if lwc => MStruct::VD(g(self)?),
            "Vector" => MStruct::VF(f(self)?),
            "Vector2D" if lwc => MStruct::V2D(g(self)?),
            "Vector2D" => MStruct::V2F(f(self)?),
            "Rotator" if lwc => MStruct::RD(g(self)?),
            "Rotator" => MStruct::RF(f(self)?),
            "Quat" if lwc => MStruct::QD(g(self)?),
            "Quat" => MStruct::QF(f(self)?),
            "DateTime" => MStruct::DateTime(self.u64()?),
            "Timespan" => MStruct::Timespan(self.u64()?),
            "LinearColor" => MStruct::Color(f(self)?),
            "IntPoint" => MStruct::IntPoint(self.u32()? as i32, self.u32()? as i32),
            "Guid" => MStruct::Guid(self.guid()?),
            "GameplayTagContainer" => {
                let n = self.u32()? as i32;
                if n < 0 {
                    return bad("negative count");
                }
                let mut t = vec![];
                for _ in 0..n {
                    t.push(self.s()?);
                }
                MStruct::Tags(t)
            }
            _ => {
                let mut fields: Vec<(String, Vec<MVal>)> = vec![];
                let mut at: HashMap<String, usize> = HashMap::new();
                loop {
                    let name = self.s()?;
                    if name == "None" {
                        break;
                    }
                    let ty = self.s()?;
                    self.path.push(name.clone());
                    let v = self.tagged(&ty)?;
                    self.path.pop();
                    match at.get(&name) {
                        Some(i) => fields[*i].1.push(v),
                        None => {
                            at.insert(name.clone(), fields.len());
                            fields.push((name, vec![v]));
                        }
                    }
                }
                MStruct::Custom(fields)
            }
        })
    }

    pub fn text(&mut self) -> R<MText> {
        self.depth += 1;
        if self.depth > MAX_DEPTH {
            return Err(DErr::Deep);
        }
        let flags = self.u32()?;
        let hist = self.hist()?;
        self.depth -= 1;
        Ok(MText { flags, hist })
    }

    fn count_i(&mut self) -> R<usize> {
        let n = self.u32()? as i32;
        if n < 0 { bad("negative count") } else { Ok(n as usize) }
    }

    fn named_args(&mut self) -> R<Vec<(String, MArg)>> {
        let n = self.count_i()?;
        let mut out = vec![];
        let mut seen = HashSet::new();
        for _ in 0..n {
            let k = self.s()?;
            if !seen.insert(k.clone()) {
                self.dup = true;
            }
            out.push((k, self.arg()?));
        }
        Ok(out)
    }

    pub fn hist(&mut self) -> R<MHist> {
        Ok(match self.en(-1, 11)? {
            -1 => {
                if self.ver.culture && self.b32()? {
                    MHist::None(self.fs()?)
                } else {
                    MHist::Empty
                }
            }
            0 => MHist::Base(self.fs()?, self.fs()?, self.fs()?),
            1 => MHist::Named(Box::new(self.text()?), self.named_args()?),
            2 => {
                let t = Box::new(self.text()?);
                let n = self.count_i()?;
                let mut a = vec![];
                for _ in 0..n {
                    a.push(self.arg()?);
                }
                MHist::Ordered(t, a)
            }
            3 => MHist::Argument(Box::new(self.text()?), self.named_args()?),
            4 => MHist::Number(Box::new(self.arg()?), self.opt_fmt()?, self.fs()?),
            5 => MHist::Percent(Box::new(self.arg()?), self.opt_fmt()?, self.fs()?),
            6 => MHist::Currency(self.fs()?, Box::new(self.arg()?), self.opt_fmt()?, self.fs()?),
            7 => MHist::Date(self.u64()?, self.en(0, 4)?, self.s()?),
            8 => MHist::Time(self.u64()?, self.en(0, 4)?, self.s()?, self.s()?),
            9 => MHist::DateTime(self.u64()?, self.en(0, 4)?, self.en(0, 4)?, self.s()?, self.s()?),
            10 => MHist::Transform(Box::new(self.text()?), self.en(0, 1)?),
            _ => MHist::StringTable(self.s()?, self.s()?),
        })
    }

    fn opt_fmt(&mut self) -> R<Option<MFmt>> {
        if self.b32()? { Ok(Some(self.fmt()?)) } else { Ok(None) }
    }
    pub fn fmt(&mut self) -> R<MFmt> {
        Ok(MFmt {
            sign: self.b32()?,
            grouping: self.b32()?,
            rounding: self.en(0, 6)?,
            digits: [self.u32()? as i32, self.u32()? as i32, self.u32()? as i32, self.u32()? as i32],
        })
    }

    pub fn arg(&mut self) -> R<MArg> {
        Ok(match self.en(0, 4)? {
            0 if self.ver.arg64 => MArg::I64(self.u64()? as i64),
            0 => MArg::I32(self.u32()? as i32),
            1 if self.ver.arg64 => MArg::U64(self.u64()?),
            1 => MArg::U32(self.u32()?),
            2 => MArg::F32(self.u32()?),
            3 => MArg::F64(self.u64()?),
            _ => MArg::Text(self.text()?),
        })
    }
}

pub struct Decoded {
    pub file: MFile,
    pub dup: bool,
}

/// Decodes a plain file.
pub fn decode(b: &[u8], hints: &HashMap<String, String>) -> Result<Decoded, DErr> {
    let mut d = Dec::new(b, Ver { lwc: false, arg64: false, culture: false }, hints);
    let header = d.header()?;
    d.ver = ver_of(&header.versions);
    let props = d.props()?;
    Ok(Decoded { file: MFile { pal: None, header, props }, dup: d.dup })
}
