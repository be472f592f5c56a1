//! C19, C20, C21, C24 and C25: JSON, container forms, equality, sizes and accessors.

use super::*;
use crate::conv::{self, Form};
use crate::dec;
use crate::enc::{self, Kind};
use crate::r#gen::{self as g, Cfg, Gen, interesting};
use crate::leaf;
use crate::src::Src;
use gvas::cursor_ext::WriteExt;
use gvas::engine_version::{EngineVersion, FEngineVersion};
use gvas::properties::array_property::ArrayProperty;
use gvas::properties::delegate_property::*;
use gvas::properties::enum_property::EnumProperty;
use gvas::properties::field_path_property::{FieldPath, FieldPathProperty};
use gvas::properties::int_property::*;
use gvas::properties::map_property::MapProperty;
use gvas::properties::name_property::NameProperty;
use gvas::properties::object_property::ObjectProperty;
use gvas::properties::set_property::SetProperty;
use gvas::properties::str_property::StrProperty;
use gvas::properties::struct_property::{StructProperty, StructPropertyValue};
use gvas::properties::struct_types::*;
use gvas::properties::text_property::*;
use gvas::properties::unknown_property::UnknownProperty;
use gvas::properties::{Property, PropertyOptions, PropertyTrait};
use gvas::types::Guid;
use gvas::types::map::HashableIndexMap;
use gvas::{GvasFile, GvasHeader};
use indexmap::IndexMap;
use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::{Cursor, Write};

// ---- C19 ----

pub fn c19(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let part = s.weighted(&[5, 2, 1, 1]);
    let cfg = Cfg { finite: true, pal: true, large: true, ..Cfg::default() };
    let form = if s.chance(1, 4) { Form::General } else { Form::Compact };
    match part {
        0 => {
            let c = g::file(s, cfg);
            ctx.describe(|| show(&c));
            ctx.label("file");
            if classify(&c.file, ctx) {
                ctx.nontrivial(format!("{:?}", c.file).as_bytes());
            }
            // half of the files come from bytes, half are built
            let file = if s.chance(1, 2) && form == Form::Compact {
                let disk = enc::disk(&c.file, &enc::encode(&c.file).b);
                conv::read(&disk, c.file.pal, &c.hints).map_err(|e| format!("reading a well-formed save failed: {e}"))?
            } else {
                conv::file(&c.file, form)
            };
            let bytes = conv::write(&file).map_err(|e| format!("saving failed: {e}"))?;
            json(s, ctx, &file, &mut |back: &GvasFile| {
                conv::cmp_file(&c.file, back)?;
                let again = conv::write(back).map_err(|e| format!("saving the converted file failed: {e}"))?;
                if again != bytes {
                    return Err(format!("the converted file saves differently; {}", diff(&bytes, &again)));
                }
                Ok(())
            })
        }
        1 => {
            // one property, also where it cannot occur in a file
            let mut gn = Gen::new(s, cfg);
            gn.ver = Ver { lwc: gn.s.chance(1, 2), arg64: gn.s.chance(1, 2), culture: true };
            let v = match gn.s.weighted(&[4, 1, 1, 2]) {
                0 => gn.value(4),
                1 => {
                    let ty = gn.struct_type(3);
                    MVal::StructVal(gn.strukt(&ty, 3))
                }
                2 => {
                    let t = gn.scalar_type();
                    gn.scalar(t, false)
                }
                _ => MVal::Text(gn.text(6)),
            };
            ctx.describe(|| format!("property {v:?}"));
            ctx.label("property");
            ctx.nontrivial(format!("{v:?}").as_bytes());
            let p = conv::value(&v, form);
            json(s, ctx, &p, &mut |back: &Property| conv::cmp(&v, back))
        }
        2 => {
            let mut gn = Gen::new(s, cfg);
            let h = gn.header();
            ctx.describe(|| format!("header {h:?}"));
            ctx.label("header");
            ctx.nontrivial(format!("{h:?}").as_bytes());
            let hd = conv::header(&h);
            json(s, ctx, &hd, &mut |back: &GvasHeader| conv::cmp_header(&h, back))
        }
        _ => {
            let mut gn = Gen::new(s, cfg);
            gn.ver = Ver { lwc: false, arg64: gn.s.chance(1, 2), culture: true };
            let t = gn.text(5);
            ctx.describe(|| format!("text {t:?}"));
            ctx.label("text");
            ctx.nontrivial(format!("{t:?}").as_bytes());
            let x = conv::text(&t);
            json(s, ctx, &x, &mut |back: &FText| conv::cmp_text(&t, back))
        }
    }
}

fn json<T>(s: &mut Src, ctx: &mut Ctx, v: &T, cmp: &mut dyn FnMut(&T) -> Result<(), String>) -> Result<(), String>
where
    T: serde::Serialize + for<'a> serde::Deserialize<'a> + PartialEq,
{
    let way = s.below(5);
    let back: T = match way {
        0 => {
            let t = serde_json::to_string(v).map_err(|e| format!("writing JSON failed: {e}"))?;
            serde_json::from_str(&t).map_err(|e| format!("reading JSON failed: {e}; {}", cut(&t)))?
        }
        1 => {
            let t = serde_json::to_string_pretty(v).map_err(|e| format!("writing JSON failed: {e}"))?;
            serde_json::from_str(&t).map_err(|e| format!("reading JSON failed: {e}; {}", cut(&t)))?
        }
        2 => {
            let t = serde_json::to_value(v).map_err(|e| format!("converting to a JSON value failed: {e}"))?;
            serde_json::from_value(t.clone()).map_err(|e| format!("converting from a JSON value failed: {e}; {}", cut(&t.to_string())))?
        }
        3 => {
            // from a stream of bytes
            let mut t = Vec::new();
            serde_json::to_writer(&mut t, v).map_err(|e| format!("writing JSON failed: {e}"))?;
            serde_json::from_reader(&t[..]).map_err(|e| format!("reading JSON failed: {e}; {}", cut(&String::from_utf8_lossy(&t))))?
        }
        _ => {
            // text to value tree to text
            let t = serde_json::to_string(v).map_err(|e| format!("writing JSON failed: {e}"))?;
            let tree: serde_json::Value = serde_json::from_str(&t).map_err(|e| format!("not JSON: {e}; {}", cut(&t)))?;
            serde_json::from_value(tree).map_err(|e| format!("converting from a JSON value failed: {e}; {}", cut(&t)))?
        }
    };
    ctx.label(["compact", "pretty", "value tree", "stream", "text and tree"][way as usize]);
    ctx.eval();
    cmp(&back).map_err(|e| format!("after JSON: {e}"))?;
    ctx.eval();
    if back != *v {
        return Err("the value from JSON does not equal the original".into());
    }
    Ok(())
}

pub fn cut(t: &str) -> String {
    if t.chars().count() > 400 { t.chars().take(400).collect::<String>() + "…" } else { t.to_string() }
}

// ---- C20 ----

/// Elements as a caller could build them: of the type or not, with parts that are only stored in a
/// header or without.
fn elements(gn: &mut Gen, ty: &str, n: usize) -> Vec<MVal> {
    let plain = gn.s.chance(2, 5);
    let odd = if gn.s.chance(1, 6) { Some(gn.s.idx(n.max(1))) } else { None };
    let rich = gn.s.idx(n.max(1));
    (0..n)
        .map(|i| {
            if odd == Some(i) {
                let t = gn.scalar_type();
                gn.scalar(t, false)
            } else {
                let header = !plain && (i == rich || gn.s.chance(1, 4));
                gn.scalar(ty, header)
            }
        })
        .collect()
}

/// The element as it comes back from a place without header, if it can be stored in one of its type.
fn stored(v: &MVal, ty: &str) -> Option<MVal> {
    if v.type_name() != ty {
        return None;
    }
    Some(match v {
        MVal::Byte { val, .. } => MVal::Byte { name: None, val: *val },
        MVal::ByteNs { val, .. } => MVal::ByteNs { name: None, val: val.clone() },
        MVal::Enum { val, .. } => MVal::Enum { ty: None, val: val.clone() },
        MVal::Name { val, .. } => MVal::Name { idx: 0, val: val.clone() },
        v => v.clone(),
    })
}

pub fn c20(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut gn = Gen::new(s, Cfg { large: true, ..Cfg::default() });
    let versions = gn.versions();
    gn.ver = ver_of(&versions);
    gn.path = vec!["P".into()];
    let what = gn.s.weighted(&[4, 5, 1, 1]);
    let v = match what {
        0 => {
            let ty = if gn.s.chance(3, 4) {
                *gn.s.pick(&["BoolProperty", "ByteProperty", "EnumProperty", "FloatProperty", "IntProperty", "NameProperty", "StrProperty"])
            } else {
                gn.scalar_type()
            };
            let n = *gn.s.pick(&[0usize, 1, 2, 3, 5, 9, 40]);
            MVal::Array { ty: ty.into(), sinfo: None, items: elements(&mut gn, ty, n) }
        }
        1 => {
            let compact = ["EnumProperty", "NameProperty", "StrProperty"];
            let kt = if gn.s.chance(5, 6) { *gn.s.pick(&compact) } else { gn.scalar_type() };
            let vt = if gn.s.chance(3, 5) { *gn.s.pick(&["BoolProperty", "IntProperty", "StrProperty"]) } else { gn.scalar_type() };
            let n = *gn.s.pick(&[0usize, 1, 2, 3, 5, 9, 40]);
            let ks = elements(&mut gn, kt, n);
            let vs = elements(&mut gn, vt, n);
            let flags = if gn.s.chance(1, 5) { interesting(gn.s, 32) as u32 } else { 0 };
            let mut seen = std::collections::HashSet::new();
            let items = ks.into_iter().zip(vs).filter(|(k, _)| seen.insert(k.canon_string())).collect();
            MVal::Map { kt: kt.into(), vt: vt.into(), flags, items }
        }
        2 => {
            gn.path.push("ArrayProperty".into());
            gn.array(3)
        }
        _ => {
            gn.path.push("MapProperty".into());
            gn.map(3)
        }
    };
    let mut hints = gn.hints.clone();
    if what < 2 {
        hints.clear();
    }
    ctx.describe(|| format!("{v:?} versions {versions:02x?}"));
    let (keys, same_type) = match &v {
        MVal::Array { ty, items, .. } => (items.len(), items.iter().all(|i| i.type_name() == ty || matches!(i, MVal::StructVal(_)))),
        MVal::Map { kt, vt, items, .. } => (items.len(), items.iter().all(|(k, v)| {
            (k.type_name() == kt || matches!(k, MVal::StructVal(_))) && (v.type_name() == vt || matches!(v, MVal::StructVal(_)))
        })),
        _ => unreachable!(),
    };
    // names and numbers of bytes cannot be told apart in one container, nor in a map at all
    let named = |i: &MVal| matches!(i, MVal::ByteNs { .. });
    let same_size = match &v {
        MVal::Array { items, .. } => items.iter().all(named) || !items.iter().any(named),
        MVal::Map { items, .. } => !items.iter().any(|(k, v)| named(k) || named(v)),
        _ => unreachable!(),
    };
    if keys > 0 {
        ctx.nontrivial(format!("{v:?}").as_bytes());
    }
    ctx.label(match &v {
        MVal::Array { .. } if same_type => "array",
        MVal::Array { .. } => "array with an element of another type",
        MVal::Map { flags, .. } if same_type && *flags == 0 => "map",
        MVal::Map { .. } if same_type => "map with flags",
        _ => "map with an element of another type",
    });

    // 0. a description of structs goes with structs only
    if let MVal::Array { ty, sinfo, items } = &v
        && s.chance(1, 4)
    {
        let ps = |v: &[MVal]| v.iter().map(|i| conv::value(i, Form::Compact)).collect::<Vec<_>>();
        let info = || Some(("f".to_string(), "T".to_string(), Guid([1; 16])));
        let structs = items.iter().filter(|i| matches!(i, MVal::StructVal(_))).count();
        let want = ty == "StructProperty" && structs == items.len();
        let r = ArrayProperty::new(ty.clone(), info(), ps(items));
        ctx.eval();
        ctx.label("array with a description of structs");
        if r.is_ok() != want {
            return Err(format!("an array of {ty} described as structs: {}", if want { "refused" } else { "accepted" }));
        }
        if sinfo.is_some() {
            let mut mixed = ps(items);
            mixed.insert(s.idx(mixed.len() + 1), IntProperty::new(1).into());
            if ArrayProperty::new(ty.clone(), info(), mixed).is_ok() {
                return Err("an array of structs accepts a number among its elements".into());
            }
        }
    }

    // 1. constructing keeps everything
    let compact = conv::value(&v, Form::Compact);
    ctx.eval();
    conv::cmp(&v, &compact).map_err(|e| format!("constructed: {e}"))?;
    let form = match &compact {
        Property::ArrayProperty(ArrayProperty::Properties { .. }) | Property::MapProperty(MapProperty::Properties { .. }) => "general form chosen",
        _ => "compact form chosen",
    };
    ctx.label(form);

    // 2. both forms are stored alike
    let general = conv::value(&v, Form::General);
    let vers = conv::versions(&versions);
    let mut stack = vec!["P".to_string()];
    let mut options = PropertyOptions { hints: &hints, properties_stack: &mut stack, custom_versions: &vers };
    let mut put = |p: &Property| {
        let mut out = Cursor::new(Vec::new());
        p.write(&mut out, true, &mut options).map(|_| out.into_inner()).map_err(|e| e.to_string())
    };
    let (a, b) = (put(&compact), put(&general));
    ctx.eval();
    let bytes = match (a, b) {
        (Ok(a), Ok(b)) if a == b => a,
        (Ok(a), Ok(b)) => return Err(format!("the two forms are stored differently; {}", diff(&b, &a))),
        (Err(_), Err(_)) if !same_type || !same_size => return Ok(()),
        (a, b) => return Err(format!("storing: compact form {:?}, general form {:?}", a.map(|b| b.len()), b.map(|b| b.len()))),
    };

    // 3. and read back as the same value
    let norm = match &v {
        MVal::Array { ty, sinfo: None, items } => {
            let Some(items) = items.iter().map(|i| stored(i, ty).or_else(|| matches!(i, MVal::Unknown { .. }).then(|| i.clone()))).collect() else { return Ok(()) };
            MVal::Array { ty: ty.clone(), sinfo: None, items }
        }
        MVal::Map { kt, vt, flags, items } if what == 1 => {
            let mut out = vec![];
            let mut seen = std::collections::HashSet::new();
            for (k, v) in items {
                let (Some(k), Some(v)) = (stored(k, kt), stored(v, vt)) else { return Ok(()) };
                if !seen.insert(k.canon_string()) {
                    return Ok(());
                }
                out.push((k, v));
            }
            MVal::Map { kt: kt.clone(), vt: vt.clone(), flags: *flags, items: out }
        }
        v => v.clone(),
    };
    if !same_size {
        return Ok(());
    }
    let skip = 4 + v.type_name().len() + 1;
    let mut rd = Cursor::new(&bytes[skip.min(bytes.len())..]);
    let back = Property::new(&mut rd, v.type_name(), true, &mut options, None).map_err(|e| format!("reading the stored container failed: {e}"))?;
    ctx.eval();
    conv::cmp(&norm, &back).map_err(|e| format!("read back: {e}"))?;
    if rd.position() as usize != bytes.len() - skip {
        return Err("reading the stored container left bytes".into());
    }
    // the value read is the one the constructor gives for the stored elements
    if back != conv::value(&norm, Form::Compact) {
        return Err("the container read back is of another form than the constructed one".into());
    }
    ctx.label("read back");
    Ok(())
}

// ---- C21 ----

fn hash(v: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Another hash function.
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}
fn fnv(v: &impl Hash) -> u64 {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    v.hash(&mut h);
    h.finish()
}

fn coherent<T: PartialEq + Hash + Clone + std::fmt::Debug>(ctx: &mut Ctx, a: &T, b: &T, want: bool) -> Result<(), String> {
    ctx.eval();
    #[allow(clippy::eq_op)]
    if !(a == a) || a != a {
        return Err(format!("a value does not equal itself: {}", cut(&format!("{a:?}"))));
    }
    if (a == b) != want || (b == a) != want || (a != b) == want {
        return Err(format!("expected {}, but == is {} and {}", if want { "equal" } else { "different" }, a == b, b == a));
    }
    if want && (hash(a) != hash(b) || fnv(a) != fnv(b)) {
        return Err(format!("equal values hash differently: {} and {}", cut(&format!("{a:?}")), cut(&format!("{b:?}"))));
    }
    let c = a.clone();
    if c != *a || hash(&c) != hash(a) {
        return Err("a clone differs from its original".into());
    }
    Ok(())
}

/// Two values that are the same, equal or different, and whose maps have keys that differ.
pub fn pair(s: &mut Src) -> Option<(MVal, MVal)> {
    let mut gn = Gen::new(s, Cfg { budget: 25, depth: 4, ..Cfg::default() });
    gn.ver = Ver { lwc: gn.s.chance(1, 2), arg64: gn.s.chance(1, 2), culture: true };
    gn.path = vec!["P".into()];
    let a = match gn.s.weighted(&[6, 2, 2, 2, 2]) {
        0 => gn.value(4),
        1 => {
            let ty = gn.struct_type(3);
            MVal::StructVal(gn.strukt(&ty, 3))
        }
        2 => MVal::Text(gn.text(4)),
        3 => gn.map(3),
        _ => {
            let t = gn.scalar_type();
            let header = gn.s.chance(1, 2);
            gn.scalar(t, header)
        }
    };
    let mut b = a.clone();
    let how = s.weighted(&[4, 4, 5, 1, 1]);
    match how {
        0 => leaf::reorder(&mut b, s),
        1 => {
            leaf::same_floats(&mut b, s);
            if s.chance(1, 2) {
                leaf::reorder(&mut b, s)
            }
        }
        2 => {
            leaf::perturb(&mut b, s);
            if s.chance(1, 3) {
                leaf::reorder(&mut b, s)
            }
        }
        3 => {
            leaf::perturb(&mut b, s);
            leaf::perturb(&mut b, s);
        }
        _ => {
            let mut gn = Gen::new(s, Cfg { budget: 10, depth: 2, ..Cfg::default() });
            b = gn.value(2);
        }
    }
    leaf::well_keyed(&b).then_some((a, b))
}

pub fn c21(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let Some((a, b)) = pair(s) else { return Ok(()) };
    let want = a.canon_string() == b.canon_string();
    ctx.describe(|| format!("{a:?}\nand {b:?}\nexpected {}", if want { "equal" } else { "different" }));
    ctx.label(if want { if a == b { "identical" } else { "equal, but built differently" } } else { "different" });
    if a != b {
        ctx.nontrivial(format!("{a:?}{b:?}").as_bytes());
    }
    let (pa, pb) = (conv::value(&a, Form::Compact), conv::value(&b, Form::Compact));
    coherent(ctx, &pa, &pb, want)?;
    match (&pa, &pb) {
        (Property::StructPropertyValue(x), Property::StructPropertyValue(y)) => coherent(ctx, x, y, want)?,
        (Property::TextProperty(x), Property::TextProperty(y)) => {
            coherent(ctx, x, y, want)?;
            coherent(ctx, &x.value, &y.value, want)?;
            coherent(ctx, &x.value.history, &y.value.history, want || (x.value.flags != y.value.flags && {
                let (MVal::Text(p), MVal::Text(q)) = (&a, &b) else { unreachable!() };
                let (mut p, mut q) = (p.clone(), q.clone());
                p.flags = 0;
                q.flags = 0;
                MVal::Text(p).canon_string() == MVal::Text(q).canon_string()
            }))?;
        }
        (Property::MapProperty(x), Property::MapProperty(y)) => coherent(ctx, x, y, want)?,
        (Property::ArrayProperty(x), Property::ArrayProperty(y)) => coherent(ctx, x, y, want)?,
        (Property::SetProperty(x), Property::SetProperty(y)) => coherent(ctx, x, y, want)?,
        _ => {}
    }
    // used as a key among others
    let mut map: HashMap<Property, u32> = HashMap::new();
    let mut imap: HashableIndexMap<Property, Property> = HashableIndexMap::new();
    for i in 0..3u32 {
        let k: Property = UInt32Property::new(i).into();
        map.insert(k.clone(), 100 + i);
        imap.insert(k, BoolProperty::new(true).into());
    }
    map.insert(pa.clone(), 1);
    imap.insert(pa.clone(), IntProperty::new(1).into());
    ctx.eval();
    if map.get(&pa.clone()) != Some(&1) || imap.get(&pa.clone()) != Some(&IntProperty::new(1).into()) {
        return Err("a property used as a key is not found again".into());
    }
    let stray = matches!(&b, MVal::U32(x) if *x < 3);
    if !stray && (map.get(&pb) == Some(&1)) != want {
        return Err(format!("looking up the other value finds {:?}, expected {}", map.get(&pb), if want { "the first" } else { "nothing" }));
    }
    // a whole file, where the order of properties does not matter either
    if s.chance(1, 4) {
        let gnf = Gen::new(s, Cfg { budget: 6, depth: 2, ..Cfg::default() }).file();
        let mut fa = conv::file(&gnf.file, Form::Compact);
        let mut fb = fa.clone();
        fa.properties.insert("first or last".into(), pa.clone());
        fb.properties.shift_insert(0, "first or last".into(), pb.clone());
        ctx.eval();
        if (fa == fb) != want || (fb == fa) != want {
            return Err(format!("files with these properties: expected {}", if want { "equal" } else { "different" }));
        }
        if want && (hash(&fa.properties) != hash(&fb.properties)) {
            return Err("equal property collections hash differently".into());
        }
        let mut hb = gnf.file.header.clone();
        let which = s.below(7);
        let mut same = false;
        match which {
            0 => hb.class_name.push('x'),
            1 => hb.branch.push('x'),
            2 => hb.package ^= 1,
            3 => hb.engine.3 ^= 1,
            4 => hb.engine.1 ^= 1,
            5 if !hb.versions.is_empty() => hb.versions[0].1 ^= 1,
            _ => {
                hb.versions.reverse();
                same = true;
            }
        }
        let (ha, hb) = (conv::header(&gnf.file.header), conv::header(&hb));
        ctx.eval();
        if (ha == hb) != same || ha.clone() != ha {
            return Err(format!("headers: expected {}: {ha:?} and {hb:?}", if same { "equal" } else { "different" }));
        }
    }
    Ok(())
}

// ---- C24 ----

/// Collects what it is given, in pieces.
struct Sink {
    out: Vec<u8>,
    piece: usize,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.piece);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn c24(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let piece = if s.chance(1, 4) { s.range(1, 5) as usize } else { usize::MAX };
    let form = if s.chance(1, 3) { Form::General } else { Form::Compact };
    let kind = s.weighted(&[5, 3, 1, 2, 1]);
    let mut gn = Gen::new(s, Cfg { deep: true, large: true, huge: true, ..Cfg::default() });
    let versions = gn.versions();
    gn.ver = ver_of(&versions);
    let ver = gn.ver;
    let vers = conv::versions(&versions);
    let sized = |what: &str, f: &mut dyn FnMut(&mut Sink) -> Result<usize, gvas::error::Error>| -> Result<Vec<u8>, String> {
        let mut sink = Sink { out: vec![], piece };
        let n = f(&mut sink).map_err(|e| format!("writing {what} failed: {e}"))?;
        if n != sink.out.len() {
            return Err(format!("writing {what} reported {n} bytes, but {} were written", sink.out.len()));
        }
        Ok(sink.out)
    };
    match kind {
        0 => {
            // every property of a file, on its own and in the file
            let mut c = gn.file();
            c.file.pal = None;
            ctx.describe(|| show(&c));
            ctx.label("file");
            if classify(&c.file, ctx) {
                ctx.nontrivial(format!("{:?}", c.file).as_bytes());
            }
            let file = conv::file(&c.file, form);
            let vers = conv::versions(&c.file.header.versions);
            let mut stack = vec![];
            let mut options = PropertyOptions { hints: &c.hints, properties_stack: &mut stack, custom_versions: &vers };
            for (n, p) in file.properties.iter() {
                ctx.eval();
                each(p, &format!("{n:?}"), true, &sized, &mut options)?;
            }
            ctx.eval();
            sized("the header", &mut |w| file.header.write(w))?;
            // sizes stored in the file
            let out = conv::write(&file).map_err(|e| format!("saving failed: {e}"))?;
            let l = enc::encode(&c.file);
            ctx.eval();
            if out.len() == l.b.len() {
                for sp in &l.spans {
                    let size = matches!(sp.kind, Kind::Size32 | Kind::SizeUnknown | Kind::SizeFixed | Kind::SizeInner);
                    if size && out[sp.start..sp.end] != l.b[sp.start..sp.end] {
                        return Err(format!(
                            "the size stored at {:#x} is {}, the value has {}", sp.start, hex(&out[sp.start..sp.end]), hex(&l.b[sp.start..sp.end])
                        ));
                    }
                }
            } else if dec::decode(&out, &c.hints).is_err() {
                return Err(format!("sizes stored in the file do not fit its values; {}", diff(&l.b, &out)));
            }
            Ok(())
        }
        1 => {
            // values as they occur inside containers
            gn.path = vec!["P".into()];
            let mut header = true;
            let v = match gn.s.below(3) {
                0 => {
                    let t = gn.scalar_type();
                    header = gn.s.chance(1, 2);
                    gn.scalar(t, header)
                }
                1 => {
                    let ty = gn.struct_type(4);
                    MVal::StructVal(gn.strukt(&ty, 4))
                }
                _ => gn.value(4),
            };
            let hints = gn.hints.clone();
            ctx.describe(|| format!("{v:?}"));
            ctx.label("property");
            ctx.nontrivial(format!("{v:?}").as_bytes());
            let p = conv::value(&v, form);
            let mut stack = vec!["P".to_string()];
            let mut options = PropertyOptions { hints: &hints, properties_stack: &mut stack, custom_versions: &vers };
            ctx.eval();
            each(&p, "a property", header, &sized, &mut options)
        }
        2 => {
            let h = gn.header();
            ctx.describe(|| format!("{h:?}"));
            ctx.label("header");
            ctx.nontrivial(format!("{h:?}").as_bytes());
            let hd = conv::header(&h);
            ctx.eval();
            sized("a header", &mut |w| hd.write(w)).map(drop)
        }
        3 => {
            let t = gn.text(5);
            let a = gn.arg(3);
            let f = gn.fmt();
            ctx.describe(|| format!("{t:?} {a:?} {f:?}"));
            ctx.label("text");
            ctx.nontrivial(format!("{t:?}{a:?}").as_bytes());
            let hints = no_hints();
            let mut stack = vec![];
            let options = PropertyOptions { hints: &hints, properties_stack: &mut stack, custom_versions: &vers };
            let (x, y, z) = (conv::text(&t), conv::arg(&a), conv::fmt(&f));
            ctx.eval();
            sized("a text", &mut |w| x.write(w, &options))?;
            sized("a text history", &mut |w| x.history.write(w, &options))?;
            if fits_arg(&a, ver) {
                sized("a text argument", &mut |w| y.write(w, &options))?;
            }
            sized("a number format", &mut |w| z.write(w)).map(drop)
        }
        _ => {
            let (a, b) = (gn.string(), gn.fs());
            ctx.describe(|| format!("{a:?} {b:?}"));
            ctx.label("string");
            ctx.nontrivial(format!("{a:?}{b:?}").as_bytes());
            ctx.eval();
            sized("a string", &mut |w| w.write_string(&a))?;
            sized("an optional string", &mut |w| w.write_fstring(b.as_deref())).map(drop)
        }
    }
}

type Sized_<'a> = &'a dyn Fn(&str, &mut dyn FnMut(&mut Sink) -> Result<usize, gvas::error::Error>) -> Result<Vec<u8>, String>;

/// The property and everything inside it, each on its own; `header` says whether it has what a header
/// needs.
fn each(p: &Property, what: &str, header: bool, sized: Sized_, options: &mut PropertyOptions) -> Result<(), String> {
    if header && !matches!(p, Property::StructPropertyValue(_)) {
        sized(&format!("{what} with header"), &mut |w| p.write(w, true, options))?;
    }
    if !matches!(p, Property::ArrayProperty(_) | Property::MapProperty(_) | Property::SetProperty(_)) {
        sized(&format!("{what} without header"), &mut |w| p.write(w, false, options))?;
    }
    sized(&format!("the body of {what}"), &mut |w| p.write_body(w, options))?;
    // the concrete types report for themselves
    macro_rules! own {
        ($($kind:ident)*) => {
            match p {
                $(Property::$kind(x) => {
                    sized(&format!("the body of {what}"), &mut |w| x.write_body(w, options))?;
                })*
                #[allow(unreachable_patterns)]
                _ => {}
            }
        };
    }
    own!(ArrayProperty BoolProperty ByteProperty DoubleProperty EnumProperty FloatProperty Int16Property Int64Property
        Int8Property IntProperty MapProperty NameProperty ObjectProperty DelegateProperty MulticastInlineDelegateProperty
        MulticastSparseDelegateProperty FieldPathProperty SetProperty StrProperty StructProperty StructPropertyValue
        TextProperty UInt16Property UInt32Property UInt64Property UnknownProperty);
    let inside = |s: &StructPropertyValue, options: &mut PropertyOptions| -> Result<(), String> {
        if let StructPropertyValue::CustomStruct(fields) = s {
            for (n, vs) in fields.iter() {
                for v in vs {
                    each(v, &format!("{what}/{n:?}"), true, sized, options)?;
                }
            }
        }
        Ok(())
    };
    match p {
        Property::StructProperty(x) => inside(&x.value, options),
        Property::StructPropertyValue(x) => inside(x, options),
        Property::ArrayProperty(ArrayProperty::Structs { structs, .. }) => structs.iter().try_for_each(|x| inside(x, options)),
        _ => Ok(()),
    }
}

// ---- C25 ----

pub fn c25(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    match s.weighted(&[5, 3, 2, 2]) {
        0 => accessors(s, ctx),
        1 => struct_accessors(s, ctx),
        2 => conversions(s, ctx),
        _ => engine(s, ctx),
    }
}

/// A value of the same kind.
fn another(gn: &mut Gen, like: &MVal) -> MVal {
    match like {
        MVal::Struct { .. } => {
            gn.path.push("StructProperty".into());
            let ty = gn.struct_type(2);
            let v = MVal::Struct { guid: gn.guid(), val: gn.strukt(&ty, 2), ty };
            gn.path.pop();
            v
        }
        MVal::Array { .. } => {
            gn.path.push("ArrayProperty".into());
            let v = gn.array(2);
            gn.path.pop();
            v
        }
        MVal::Set { .. } => {
            gn.path.push("SetProperty".into());
            let v = gn.set(2);
            gn.path.pop();
            v
        }
        MVal::Map { .. } => {
            gn.path.push("MapProperty".into());
            let v = gn.map(2);
            gn.path.pop();
            v
        }
        MVal::Unknown { .. } => MVal::Unknown { ty: gn.unknown_type(), raw: gn.raw(20) },
        v => gn.scalar(&v.type_name().to_string(), true),
    }
}

fn accessors(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut gn = Gen::new(s, Cfg::default());
    let header = gn.header();
    gn.ver = ver_of(&header.versions);
    gn.path = vec!["P".into()];
    let kind = *gn.s.pick(&SCALARS[..].iter().copied().chain(["StructProperty", "ArrayProperty", "SetProperty", "MapProperty", "?"]).collect::<Vec<_>>());
    let like = match kind {
        "StructProperty" => MVal::Struct { guid: [0; 16], ty: String::new(), val: MStruct::DateTime(0) },
        "ArrayProperty" => MVal::Array { ty: String::new(), sinfo: None, items: vec![] },
        "SetProperty" => MVal::Set { ty: String::new(), flags: 0, items: vec![] },
        "MapProperty" => MVal::Map { kt: String::new(), vt: String::new(), flags: 0, items: vec![] },
        "?" => MVal::Unknown { ty: String::new(), raw: vec![] },
        t => gn.scalar(t, true),
    };
    let old = another(&mut gn, &like);
    let new = another(&mut gn, &like);
    let hints = gn.hints.clone();
    ctx.describe(|| format!("{old:?}\nchanged to {new:?}"));
    ctx.label(kind);
    ctx.nontrivial(format!("{old:?}{new:?}").as_bytes());
    let mut p = conv::value(&old, Form::Compact);
    let mut q = conv::value(&new, Form::Compact);
    let mut hits = 0;
    macro_rules! all {
        ($($kind:ident $get:ident $get_mut:ident)*) => {
            $(
                let own = matches!(p, Property::$kind(_));
                ctx.eval();
                if p.$get().is_some() != own || p.$get_mut().is_some() != own {
                    return Err(format!("{} gives {:?} for {:?}", stringify!($get), p.$get(), old));
                }
                if let Some(v) = p.$get() {
                    // what it gives is what is held
                    let held: Property = v.clone().into();
                    conv::cmp(&old, &held).map_err(|e| format!("{}: {e}", stringify!($get)))?;
                    if held != p {
                        return Err(format!("{} gives another value", stringify!($get)));
                    }
                    let held: Property = p.$get_mut().unwrap().clone().into();
                    conv::cmp(&old, &held).map_err(|e| format!("{}: {e}", stringify!($get_mut)))?;
                    hits += 1;
                }
            )*
        };
    }
    all!(ArrayProperty get_array get_array_mut EnumProperty get_enum get_enum_mut BoolProperty get_bool get_bool_mut
        ByteProperty get_byte get_byte_mut DoubleProperty get_f64 get_f64_mut FloatProperty get_f32 get_f32_mut
        Int16Property get_i16 get_i16_mut Int64Property get_i64 get_i64_mut Int8Property get_i8 get_i8_mut
        IntProperty get_int get_int_mut UInt16Property get_u16 get_u16_mut UInt32Property get_u32 get_u32_mut
        UInt64Property get_u64 get_u64_mut MapProperty get_map get_map_mut NameProperty get_name get_name_mut
        ObjectProperty get_object_ref get_object_ref_mut DelegateProperty get_delegate get_delegate_mut
        MulticastInlineDelegateProperty get_multicast_inline_delegate get_multicast_inline_delegate_mut
        MulticastSparseDelegateProperty get_multicast_sparse_delegate get_multicast_sparse_delegate_mut
        FieldPathProperty get_field_path get_field_path_mut SetProperty get_set get_set_mut StrProperty get_str get_str_mut
        StructProperty get_struct get_struct_mut TextProperty get_text get_text_mut UnknownProperty get_unknown get_unknown_mut);
    if hits != 1 {
        return Err(format!("{hits} accessors give a value for {old:?}"));
    }
    // change through the mutable accessor, then look and save
    macro_rules! swap {
        ($($kind:ident $get_mut:ident)*) => {
            match kind_of(&p) {
                $(stringify!($kind) => std::mem::swap(p.$get_mut().unwrap(), q.$get_mut().unwrap()),)*
                other => return Err(format!("no accessor for {other}")),
            }
        };
    }
    swap!(ArrayProperty get_array_mut EnumProperty get_enum_mut BoolProperty get_bool_mut ByteProperty get_byte_mut
        DoubleProperty get_f64_mut FloatProperty get_f32_mut Int16Property get_i16_mut Int64Property get_i64_mut
        Int8Property get_i8_mut IntProperty get_int_mut UInt16Property get_u16_mut UInt32Property get_u32_mut
        UInt64Property get_u64_mut MapProperty get_map_mut NameProperty get_name_mut ObjectProperty get_object_ref_mut
        DelegateProperty get_delegate_mut MulticastInlineDelegateProperty get_multicast_inline_delegate_mut
        MulticastSparseDelegateProperty get_multicast_sparse_delegate_mut FieldPathProperty get_field_path_mut
        SetProperty get_set_mut StrProperty get_str_mut StructProperty get_struct_mut TextProperty get_text_mut
        UnknownProperty get_unknown_mut);
    ctx.eval();
    conv::cmp(&new, &p).map_err(|e| format!("after the change: {e}"))?;
    conv::cmp(&old, &q).map_err(|e| format!("after the exchange: {e}"))?;
    let m = MFile { pal: None, header, props: vec![("P".into(), new)] };
    let mut file = conv::file(&MFile { props: vec![], ..m.clone() }, Form::Compact);
    file.properties.insert("P".into(), p);
    let out = conv::write(&file).map_err(|e| format!("saving failed: {e}"))?;
    let want = enc::encode(&m).b;
    ctx.eval();
    if out != want {
        return Err(format!("the change is not what is saved; {}", diff(&want, &out)));
    }
    let back = conv::read(&out, None, &hints).map_err(|e| format!("reading the change failed: {e}"))?;
    conv::cmp_file(&m, &back)
}

fn kind_of(p: &Property) -> &'static str {
    macro_rules! k {
        ($($kind:ident)*) => { match p { $(Property::$kind(_) => stringify!($kind),)* #[allow(unreachable_patterns)] _ => "?" } };
    }
    k!(ArrayProperty BoolProperty ByteProperty DoubleProperty EnumProperty FloatProperty Int16Property Int64Property
        Int8Property IntProperty MapProperty NameProperty ObjectProperty DelegateProperty MulticastInlineDelegateProperty
        MulticastSparseDelegateProperty FieldPathProperty SetProperty StrProperty StructProperty StructPropertyValue
        TextProperty UInt16Property UInt32Property UInt64Property UnknownProperty)
}

fn struct_accessors(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut gn = Gen::new(s, Cfg::default());
    gn.path = vec!["P".into(), "StructProperty".into()];
    let lwc = gn.s.chance(1, 2);
    gn.ver = Ver { lwc, arg64: true, culture: true };
    let ty = gn.struct_type(2);
    let (old, new) = (gn.strukt(&ty, 2), gn.strukt(&ty, 2));
    ctx.describe(|| format!("struct {old:?}\nchanged to {new:?}"));
    ctx.label("struct value");
    ctx.nontrivial(format!("{old:?}{new:?}").as_bytes());
    let mut p = conv::strukt(&old, Form::Compact);
    let mut q = conv::strukt(&new, Form::Compact);
    let mut hits = 0;
    macro_rules! all {
        ($($kind:ident $get:ident $get_mut:ident)*) => {
            $(
                let own = matches!(p, StructPropertyValue::$kind(_));
                ctx.eval();
                if p.$get().is_some() != own || p.$get_mut().is_some() != own {
                    return Err(format!("{} gives {:?} for {:?}", stringify!($get), p.$get(), old));
                }
                if let Some(v) = p.$get() {
                    let held = StructPropertyValue::$kind(v.clone());
                    conv::cmp_struct(&old, &held).map_err(|e| format!("{}: {e}", stringify!($get)))?;
                    let held = StructPropertyValue::$kind(p.$get_mut().unwrap().clone());
                    conv::cmp_struct(&old, &held).map_err(|e| format!("{}: {e}", stringify!($get_mut)))?;
                    std::mem::swap(p.$get_mut().unwrap(), q.$get_mut().unwrap());
                    hits += 1;
                    conv::cmp_struct(&new, &p).map_err(|e| format!("after the change through {}: {e}", stringify!($get_mut)))?;
                    conv::cmp_struct(&old, &q).map_err(|e| format!("after the exchange through {}: {e}", stringify!($get_mut)))?;
                    std::mem::swap(p.$get_mut().unwrap(), q.$get_mut().unwrap());
                }
            )*
        };
    }
    all!(VectorF get_vector_f get_vector_f_mut VectorD get_vector_d get_vector_d_mut
        RotatorF get_rotator_f get_rotator_f_mut RotatorD get_rotator_d get_rotator_d_mut
        QuatF get_quat_f get_quat_f_mut QuatD get_quat_d get_quat_d_mut DateTime get_date_time get_date_time_mut
        IntPoint get_int_point get_int_point_mut Guid get_guid get_guid_mut CustomStruct get_custom_struct get_custom_struct_mut);
    let most = matches!(
        p,
        StructPropertyValue::Vector2F(_) | StructPropertyValue::Vector2D(_) | StructPropertyValue::Timespan(_)
            | StructPropertyValue::LinearColor(_) | StructPropertyValue::GameplayTagContainer(_)
    );
    if hits != if most { 0 } else { 1 } {
        return Err(format!("{hits} accessors give a value for {old:?}"));
    }
    // through a property that holds the struct
    let mut holder: Property = StructProperty::new(Guid::default(), ty.clone(), p).into();
    let st = holder.get_struct_mut().ok_or("a struct property gives no struct")?;
    st.value = q;
    ctx.eval();
    conv::cmp(&MVal::Struct { guid: [0; 16], ty: ty.clone(), val: new.clone() }, &holder).map_err(|e| format!("after replacing the value of a struct: {e}"))?;
    let versions = vec![(RELEASE_GUID, if lwc { 28 } else { 12 }), (EDITOR_GUID, 32)];
    let m = MFile {
        pal: None,
        header: MHeader { ue5: None, package: 0x205, engine: (4, 27, 2, 0), branch: "b".into(), versions, class_name: "c".into() },
        props: vec![("P".into(), MVal::Struct { guid: [0; 16], ty, val: new })],
    };
    let mut file = conv::file(&MFile { props: vec![], ..m.clone() }, Form::Compact);
    file.properties.insert("P".into(), holder);
    let out = conv::write(&file).map_err(|e| format!("saving failed: {e}"))?;
    let want = enc::encode(&m).b;
    ctx.eval();
    if out != want {
        return Err(format!("the change is not what is saved; {}", diff(&want, &out)));
    }
    Ok(())
}

fn conversions(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut gn = Gen::new(s, Cfg::default());
    let (a, b, c, d) = (gn.f32(), gn.f32(), gn.f32(), gn.f32());
    let (e, f, h, i) = (gn.f64(), gn.f64(), gn.f64(), gn.f64());
    let t = interesting(gn.s, 64);
    let (x, y) = (interesting(gn.s, 32) as i32, interesting(gn.s, 32) as i32);
    let guid = gn.guid();
    let (st, os, st2) = (gn.string(), gn.fs(), gn.string());
    let n = interesting(gn.s, 64);
    ctx.describe(|| format!("parts {a:#x} {b:#x} {c:#x} {d:#x} {e:#x} {f:#x} {h:#x} {i:#x} {t} {x} {y} {guid:02x?} {st:?} {os:?} {st2:?} {n}"));
    ctx.label("conversions");
    ctx.nontrivial(format!("{a}{e}{t}{x}{st:?}{os:?}").as_bytes());
    use conv::{d as d64, f as f32_};
    let mut structs: Vec<(MStruct, StructPropertyValue)> = vec![];
    macro_rules! conv_from {
        ($m:expr, $v:expr) => {{
            let v = $v;
            structs.push(($m, v.clone().into()));
            structs.push(($m, StructPropertyValue::from(v)));
        }};
    }
    conv_from!(MStruct::V2F([a, b]), Vector2F::new(f32_(a), f32_(b)));
    conv_from!(MStruct::V2D([e, f]), Vector2D::new(d64(e), d64(f)));
    conv_from!(MStruct::VF([a, b, c]), VectorF::new(f32_(a), f32_(b), f32_(c)));
    conv_from!(MStruct::VD([e, f, h]), VectorD::new(d64(e), d64(f), d64(h)));
    conv_from!(MStruct::RF([a, b, c]), RotatorF::new(f32_(a), f32_(b), f32_(c)));
    conv_from!(MStruct::RD([e, f, h]), RotatorD::new(d64(e), d64(f), d64(h)));
    conv_from!(MStruct::QF([a, b, c, d]), QuatF::new(f32_(a), f32_(b), f32_(c), f32_(d)));
    conv_from!(MStruct::QD([e, f, h, i]), QuatD::new(d64(e), d64(f), d64(h), d64(i)));
    conv_from!(MStruct::Color([a, b, c, d]), LinearColor::new(f32_(a), f32_(b), f32_(c), f32_(d)));
    conv_from!(MStruct::DateTime(t), DateTime::new(t));
    conv_from!(MStruct::Timespan(t), Timespan::new(t));
    conv_from!(MStruct::Guid(guid), Guid(guid));
    conv_from!(MStruct::IntPoint(x, y), IntPoint::new(x, y));
    for (m, v) in &structs {
        ctx.eval();
        conv::cmp_struct(m, v).map_err(|e| format!("converted: {e}"))?;
        // and on into a property
        let p: Property = v.clone().into();
        conv::cmp(&MVal::StructVal(m.clone()), &p).map_err(|e| format!("converted to a property: {e}"))?;
        let back: Result<StructPropertyValue, _> = p.try_into();
        match back {
            Ok(b) => conv::cmp_struct(m, &b).map_err(|e| format!("converted back: {e}"))?,
            Err(e) => return Err(format!("a struct value in a property does not convert back: {e}")),
        }
    }
    ctx.eval();
    let names: [(NameProperty, Fs); 4] = [
        (NameProperty::from(st.as_str()), Some(st.clone())),
        (NameProperty::from(st.clone()), Some(st.clone())),
        (NameProperty::from(os.clone()), os.clone()),
        (NameProperty::from(None::<String>), None),
    ];
    for (p, want) in names {
        conv::cmp(&MVal::Name { idx: 0, val: want }, &p.into()).map_err(|e| format!("name: {e}"))?;
    }
    conv::cmp(&MVal::Str(Some(st.clone())), &StrProperty::from(st.clone()).into()).map_err(|e| format!("string: {e}"))?;
    conv::cmp(&MVal::Str(Some(st.clone())), &StrProperty::from(st.as_str()).into()).map_err(|e| format!("string: {e}"))?;
    conv::cmp(&MVal::Object(st.clone()), &ObjectProperty::from(st.as_str()).into()).map_err(|e| format!("object: {e}"))?;
    // errors keep what they are made from
    {
        use gvas::error::{DeserializeError as D, SerializeError as S};
        let mut at = Cursor::new(vec![0u8; 3]);
        at.set_position(t >> 1);
        ctx.eval();
        let ok = matches!(D::missing_argument(st.as_str(), &mut at), D::MissingArgument(a, p) if *a == *st && p == t >> 1)
            && matches!(D::invalid_property(st.as_str(), &mut at), D::InvalidProperty(a, p) if *a == *st && p == t >> 1)
            && matches!(D::invalid_enum_value(st.as_str(), n as i8, &mut at), D::InvalidEnumValue(a, v, p) if *a == *st && v == n as i8 && p == t >> 1)
            && matches!(S::invalid_value(st.as_str()), S::InvalidValue(a) if *a == *st)
            && matches!(S::struct_missing_field(st.as_str(), st2.as_str()), S::StructMissingField(a, b) if *a == *st && *b == *st2);
        if !ok {
            return Err("an error does not hold what it was made from".into());
        }
    }
    // every other constructor, through the conversion into a property
    let m: Vec<(MVal, Property)> = vec![
        (MVal::Bool(n & 1 == 1), BoolProperty::new(n & 1 == 1).into()),
        (MVal::I8(n as i8), Int8Property::new(n as i8).into()),
        (MVal::Byte { name: os.clone(), val: n as u8 }, ByteProperty::new_byte(os.clone(), n as u8).into()),
        (MVal::Byte { name: os.clone(), val: n as u8 }, ByteProperty::new(os.clone(), BytePropertyValue::Byte(n as u8)).into()),
        (MVal::ByteNs { name: os.clone(), val: st.clone() }, ByteProperty::new_namespaced(os.clone(), st.clone()).into()),
        (MVal::ByteNs { name: os.clone(), val: st.clone() }, ByteProperty::new(os.clone(), BytePropertyValue::Namespaced(st.clone())).into()),
        (MVal::I16(n as i16), Int16Property::new(n as i16).into()),
        (MVal::U16(n as u16), UInt16Property::new(n as u16).into()),
        (MVal::I32(n as i32), IntProperty::new(n as i32).into()),
        (MVal::U32(n as u32), UInt32Property::new(n as u32).into()),
        (MVal::I64(n as i64), Int64Property::new(n as i64).into()),
        (MVal::U64(n), UInt64Property::new(n).into()),
        (MVal::F32(a), FloatProperty::new(f32_(a)).into()),
        (MVal::F64(e), DoubleProperty::new(d64(e)).into()),
        (MVal::Enum { ty: os.clone(), val: st.clone() }, EnumProperty::new(os.clone(), st.clone()).into()),
        (MVal::Object(st.clone()), ObjectProperty::new(st.clone()).into()),
        (MVal::Str(os.clone()), StrProperty::new(os.clone()).into()),
        (MVal::Delegate(MDel { object: st.clone(), function: st2.clone() }), DelegateProperty::new(Delegate::new(st.clone(), st2.clone())).into()),
        (
            MVal::MultiInline(vec![MDel { object: st.clone(), function: st2.clone() }; 2]),
            MulticastInlineDelegateProperty::new(MulticastScriptDelegate::new(vec![Delegate::new(st.clone(), st2.clone()); 2])).into(),
        ),
        (
            MVal::MultiSparse(vec![MDel { object: st.clone(), function: st2.clone() }; 2]),
            MulticastSparseDelegateProperty::new(MulticastScriptDelegate::new(vec![Delegate::new(st.clone(), st2.clone()); 2])).into(),
        ),
        (
            MVal::FieldPath { path: vec![st.clone(), st2.clone()], owner: st.clone() },
            FieldPathProperty::new(FieldPath::new(vec![st.clone(), st2.clone()], st.clone())).into(),
        ),
        (
            MVal::Text(MText { flags: n as u32, hist: MHist::Base(os.clone(), Some(st.clone()), Some(st2.clone())) }),
            TextProperty::new(FText::new_base(n as u32, os.clone(), Some(st.clone()), Some(st2.clone()))).into(),
        ),
        (MVal::Text(MText { flags: n as u32, hist: MHist::None(os.clone()) }), TextProperty::new(FText::new_none(n as u32, Some(os.clone()))).into()),
        (MVal::Text(MText { flags: n as u32, hist: MHist::Empty }), TextProperty::new(FText::new_none(n as u32, None)).into()),
        (MVal::Unknown { ty: st.clone(), raw: guid.to_vec() }, UnknownProperty::new(st.clone(), guid.to_vec()).into()),
        (
            MVal::Struct { guid, ty: st.clone(), val: MStruct::IntPoint(x, y) },
            StructProperty::new(Guid(guid), st.clone(), IntPoint::new(x, y).into()).into(),
        ),
        (
            MVal::Set { ty: st.clone(), flags: n as u32, items: vec![MVal::I32(x), MVal::I32(y)] },
            SetProperty::new(st.clone(), n as u32, vec![IntProperty::new(x).into(), IntProperty::new(y).into()]).into(),
        ),
    ];
    for (m, p) in &m {
        ctx.eval();
        conv::cmp(m, p).map_err(|e| format!("constructed: {e}"))?;
    }
    // maps from arrays keep keys, values and order
    let keys = [(Guid(guid), n as u32), (Guid::from_u128(!u128::from_le_bytes(guid)), x as u32)];
    let map = HashableIndexMap::from(keys);
    let map2: HashableIndexMap<_, _> = keys.into();
    ctx.eval();
    if map.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>() != keys || map2 != map || map.0 != IndexMap::from(keys) {
        return Err("a map built from an array holds something else".into());
    }
    if (&map).into_iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>() != keys {
        return Err("iterating over a map gives something else".into());
    }
    let mut map3 = map.clone();
    for (_, v) in &mut map3 {
        *v ^= 1;
    }
    if map3.get(&keys[0].0) != Some(&(keys[0].1 ^ 1)) || map3.len() != 2 {
        return Err("changing the values of a map has another effect".into());
    }
    if HashableIndexMap::<Guid, u32>::new() != HashableIndexMap::with_capacity(5) || !HashableIndexMap::<Guid, u32>::default().is_empty() {
        return Err("empty maps differ".into());
    }
    Ok(())
}

fn engine(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let (major, minor) = match s.weighted(&[3, 3, 2]) {
        0 => (4, s.below(32) as u16),
        1 => (5, s.below(8) as u16),
        _ => (*s.pick(&[0, 1, 3, 4, 5, 6, 260, 261, 1028, 0x8004, u16::MAX]), *s.pick(&[0, 1, 2, 3, 5, 27, 28, 29, 256, 257, 283, 0x8000, u16::MAX])),
    };
    let patch = interesting(s, 16) as u16;
    let change = interesting(s, 32) as u32;
    let mut gn = Gen::new(s, Cfg::default());
    let branch = gn.string();
    ctx.describe(|| format!("engine version {major}.{minor}.{patch} {change} {branch:?}"));
    ctx.label("engine version");
    ctx.nontrivial(format!("{major}.{minor}.{patch}").as_bytes());
    let v = FEngineVersion::new(major, minor, patch, change, branch.clone());
    ctx.eval();
    if (v.major, v.minor, v.patch, v.change_list, &v.branch) != (major, minor, patch, change, &branch) {
        return Err(format!("constructed engine version {v:?}"));
    }
    let got = v.get_version();
    use EngineVersion as E;
    let ue4 = [
        E::VER_UE4_0, E::VER_UE4_1, E::VER_UE4_2, E::VER_UE4_3, E::VER_UE4_4, E::VER_UE4_5, E::VER_UE4_6, E::VER_UE4_7, E::VER_UE4_8,
        E::VER_UE4_9, E::VER_UE4_10, E::VER_UE4_11, E::VER_UE4_12, E::VER_UE4_13, E::VER_UE4_14, E::VER_UE4_15, E::VER_UE4_16,
        E::VER_UE4_17, E::VER_UE4_18, E::VER_UE4_19, E::VER_UE4_20, E::VER_UE4_21, E::VER_UE4_22, E::VER_UE4_23, E::VER_UE4_24,
        E::VER_UE4_25, E::VER_UE4_26, E::VER_UE4_27,
    ];
    let ue5 = [E::VER_UE5_0, E::VER_UE5_1, E::VER_UE5_2];
    // releases after the last one known here may be added to the library
    let want = match major {
        4 => ue4.get(minor as usize).copied(),
        5 => ue5.get(minor as usize).copied(),
        _ => None,
    };
    match want {
        Some(w) if w != got => Err(format!("{major}.{minor} maps to {got:?}")),
        None if got != E::UNKNOWN && format!("{got:?}") != format!("VER_UE{major}_{minor}") => Err(format!("{major}.{minor} maps to {got:?}")),
        _ => Ok(()),
    }
}
