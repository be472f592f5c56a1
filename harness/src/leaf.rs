//! Visiting and changing the parts of a model value.

use crate::r#gen::Gen;
use crate::model::*;
use crate::src::Src;
use std::collections::HashSet;

/// One part of a value.
pub enum Leaf<'a> {
    Bool(&'a mut bool),
    U8(&'a mut u8),
    I8(&'a mut i8),
    I16(&'a mut i16),
    U16(&'a mut u16),
    I32(&'a mut i32),
    U32(&'a mut u32),
    I64(&'a mut i64),
    U64(&'a mut u64),
    F32(&'a mut u32),
    F64(&'a mut u64),
    Text(&'a mut String),
    Fs(&'a mut Fs),
    Guid(&'a mut G16),
    Raw(&'a mut Vec<u8>),
    /// A small enumeration with this many members.
    Pick(&'a mut i8, i8),
}

type F<'f> = &'f mut dyn FnMut(Leaf);

fn del(d: &mut MDel, f: F) {
    f(Leaf::Text(&mut d.object));
    f(Leaf::Text(&mut d.function));
}

pub fn arg_leaves(a: &mut MArg, f: F) {
    match a {
        MArg::I32(x) => f(Leaf::I32(x)),
        MArg::U32(x) => f(Leaf::U32(x)),
        MArg::I64(x) => f(Leaf::I64(x)),
        MArg::U64(x) => f(Leaf::U64(x)),
        MArg::F32(x) => f(Leaf::F32(x)),
        MArg::F64(x) => f(Leaf::F64(x)),
        MArg::Text(t) => text_leaves(t, f),
    }
}

fn fmt(o: &mut Option<MFmt>, f: F) {
    if let Some(m) = o {
        f(Leaf::Bool(&mut m.sign));
        f(Leaf::Bool(&mut m.grouping));
        f(Leaf::Pick(&mut m.rounding, 7));
        m.digits.iter_mut().for_each(|d| f(Leaf::I32(d)));
    }
}

pub fn text_leaves(t: &mut MText, f: F) {
    f(Leaf::U32(&mut t.flags));
    match &mut t.hist {
        MHist::Empty => {}
        MHist::None(s) => f(Leaf::Fs(s)),
        MHist::Base(a, b, c) => [a, b, c].into_iter().for_each(|x| f(Leaf::Fs(x))),
        MHist::Named(t, a) | MHist::Argument(t, a) => {
            text_leaves(t, f);
            for (k, a) in a {
                f(Leaf::Text(k));
                arg_leaves(a, f);
            }
        }
        MHist::Ordered(t, a) => {
            text_leaves(t, f);
            a.iter_mut().for_each(|a| arg_leaves(a, f));
        }
        MHist::Number(a, o, c) | MHist::Percent(a, o, c) => {
            arg_leaves(a, f);
            fmt(o, f);
            f(Leaf::Fs(c));
        }
        MHist::Currency(k, a, o, c) => {
            f(Leaf::Fs(k));
            arg_leaves(a, f);
            fmt(o, f);
            f(Leaf::Fs(c));
        }
        MHist::Date(t, s, c) => {
            f(Leaf::U64(t));
            f(Leaf::Pick(s, 5));
            f(Leaf::Text(c));
        }
        MHist::Time(t, s, z, c) => {
            f(Leaf::U64(t));
            f(Leaf::Pick(s, 5));
            f(Leaf::Text(z));
            f(Leaf::Text(c));
        }
        MHist::DateTime(t, s, u, z, c) => {
            f(Leaf::U64(t));
            f(Leaf::Pick(s, 5));
            f(Leaf::Pick(u, 5));
            f(Leaf::Text(z));
            f(Leaf::Text(c));
        }
        MHist::Transform(t, k) => {
            text_leaves(t, f);
            f(Leaf::Pick(k, 2));
        }
        MHist::StringTable(a, b) => {
            f(Leaf::Text(a));
            f(Leaf::Text(b));
        }
    }
}

pub fn struct_leaves(s: &mut MStruct, f: F) {
    match s {
        MStruct::V2F(a) => a.iter_mut().for_each(|x| f(Leaf::F32(x))),
        MStruct::V2D(a) => a.iter_mut().for_each(|x| f(Leaf::F64(x))),
        MStruct::VF(a) | MStruct::RF(a) => a.iter_mut().for_each(|x| f(Leaf::F32(x))),
        MStruct::VD(a) | MStruct::RD(a) => a.iter_mut().for_each(|x| f(Leaf::F64(x))),
        MStruct::QF(a) | MStruct::Color(a) => a.iter_mut().for_each(|x| f(Leaf::F32(x))),
        MStruct::QD(a) => a.iter_mut().for_each(|x| f(Leaf::F64(x))),
        MStruct::DateTime(t) | MStruct::Timespan(t) => f(Leaf::U64(t)),
        MStruct::Guid(g) => f(Leaf::Guid(g)),
        MStruct::IntPoint(x, y) => {
            f(Leaf::I32(x));
            f(Leaf::I32(y));
        }
        MStruct::Tags(t) => t.iter_mut().for_each(|s| f(Leaf::Text(s))),
        MStruct::Custom(fields) => {
            for (n, vs) in fields {
                f(Leaf::Text(n));
                vs.iter_mut().for_each(|v| leaves(v, f));
            }
        }
    }
}

/// Every part of the value, including names and types.
pub fn leaves(v: &mut MVal, f: F) {
    match v {
        MVal::Bool(b) => f(Leaf::Bool(b)),
        MVal::Byte { name, val } => {
            f(Leaf::Fs(name));
            f(Leaf::U8(val));
        }
        MVal::ByteNs { name, val } => {
            f(Leaf::Fs(name));
            f(Leaf::Text(val));
        }
        MVal::I8(x) => f(Leaf::I8(x)),
        MVal::I16(x) => f(Leaf::I16(x)),
        MVal::U16(x) => f(Leaf::U16(x)),
        MVal::I32(x) => f(Leaf::I32(x)),
        MVal::U32(x) => f(Leaf::U32(x)),
        MVal::I64(x) => f(Leaf::I64(x)),
        MVal::U64(x) => f(Leaf::U64(x)),
        MVal::F32(x) => f(Leaf::F32(x)),
        MVal::F64(x) => f(Leaf::F64(x)),
        MVal::Enum { ty, val } => {
            f(Leaf::Fs(ty));
            f(Leaf::Text(val));
        }
        MVal::Name { idx, val } => {
            f(Leaf::U32(idx));
            f(Leaf::Fs(val));
        }
        MVal::Str(s) => f(Leaf::Fs(s)),
        MVal::Object(s) => f(Leaf::Text(s)),
        MVal::Delegate(d) => del(d, f),
        MVal::MultiInline(d) | MVal::MultiSparse(d) => d.iter_mut().for_each(|d| del(d, f)),
        MVal::FieldPath { path, owner } => {
            path.iter_mut().for_each(|p| f(Leaf::Text(p)));
            f(Leaf::Text(owner));
        }
        MVal::Text(t) => text_leaves(t, f),
        MVal::Struct { guid, ty, val } => {
            f(Leaf::Guid(guid));
            f(Leaf::Text(ty));
            struct_leaves(val, f);
        }
        MVal::StructVal(s) => struct_leaves(s, f),
        MVal::Array { ty, sinfo, items } => {
            match sinfo {
                None => f(Leaf::Text(ty)),
                Some((a, b, g)) => {
                    f(Leaf::Text(a));
                    f(Leaf::Text(b));
                    f(Leaf::Guid(g));
                }
            }
            items.iter_mut().for_each(|i| leaves(i, f));
        }
        MVal::Set { ty, flags, items } => {
            f(Leaf::Text(ty));
            f(Leaf::U32(flags));
            items.iter_mut().for_each(|i| leaves(i, f));
        }
        MVal::Map { kt, vt, flags, items } => {
            f(Leaf::Text(kt));
            f(Leaf::Text(vt));
            f(Leaf::U32(flags));
            for (k, v) in items {
                leaves(k, f);
                leaves(v, f);
            }
        }
        MVal::Unknown { ty, raw } => {
            f(Leaf::Text(ty));
            f(Leaf::Raw(raw));
        }
    }
}

/// Calls `f` on this value and every value inside it.
pub fn nodes(v: &mut MVal, f: &mut dyn FnMut(&mut MVal)) {
    f(v);
    fn inside(s: &mut MStruct, f: &mut dyn FnMut(&mut MVal)) {
        if let MStruct::Custom(fields) = s {
            for (_, vs) in fields {
                vs.iter_mut().for_each(|v| nodes(v, f));
            }
        }
    }
    match v {
        MVal::Struct { val, .. } | MVal::StructVal(val) => inside(val, f),
        MVal::Array { items, .. } | MVal::Set { items, .. } => items.iter_mut().for_each(|i| nodes(i, f)),
        MVal::Map { items, .. } => {
            for (k, v) in items {
                nodes(k, f);
                nodes(v, f);
            }
        }
        _ => {}
    }
}

/// Changes the leaf to another value (another bit pattern for floats).
pub fn change(l: Leaf, s: &mut Src) {
    macro_rules! int {
        ($x:expr, $t:ty) => {{
            let bit = s.below(<$t>::BITS as u64);
            *$x ^= (1 as $t) << bit;
        }};
    }
    match l {
        Leaf::Bool(b) => *b = !*b,
        Leaf::U8(x) => int!(x, u8),
        Leaf::I8(x) => int!(x, i8),
        Leaf::I16(x) => int!(x, i16),
        Leaf::U16(x) => int!(x, u16),
        Leaf::I32(x) => int!(x, i32),
        Leaf::U32(x) | Leaf::F32(x) => int!(x, u32),
        Leaf::I64(x) => int!(x, i64),
        Leaf::U64(x) | Leaf::F64(x) => int!(x, u64),
        Leaf::Text(t) => text(t, s),
        Leaf::Fs(o) => match o {
            None => *o = Some(if s.chance(1, 2) { String::new() } else { "x".into() }),
            Some(_) if s.chance(1, 3) => *o = None,
            Some(t) => text(t, s),
        },
        Leaf::Guid(g) => g[s.idx(16)] ^= 1 << s.below(8),
        Leaf::Raw(r) => {
            if r.is_empty() || s.chance(1, 3) {
                r.push(s.below(256) as u8)
            } else if s.chance(1, 3) {
                r.pop();
            } else {
                let i = s.idx(r.len());
                r[i] ^= 1 << s.below(8);
            }
        }
        Leaf::Pick(v, n) => *v = (*v + 1 + s.below(n as u64 - 1) as i8) % n,
    }
}

fn text(t: &mut String, s: &mut Src) {
    match s.weighted(&[2, 1, 1, 1]) {
        1 if !t.is_empty() => {
            t.pop();
        }
        2 if !t.is_empty() => {
            t.remove(0);
        }
        3 if t.chars().any(|c| c.is_ascii_alphabetic()) => {
            // another case of one letter
            let at = t.char_indices().filter(|c| c.1.is_ascii_alphabetic()).map(|c| c.0).collect::<Vec<_>>();
            let i = at[s.idx(at.len())];
            let c = t.as_bytes()[i] ^ 0x20;
            t.replace_range(i..i + 1, &(c as char).to_string());
        }
        _ => t.push(*s.pick(&['x', ' ', '\0', 'é'])),
    }
}

/// Applies `f` to the leaf number `n`.
pub fn nth_leaf(v: &mut MVal, n: usize, mut f: impl FnMut(Leaf)) {
    let mut i = 0;
    leaves(v, &mut |l| {
        if i == n {
            f(l);
        }
        i += 1;
    });
}

pub fn count_leaves(v: &mut MVal) -> usize {
    let mut n = 0;
    leaves(v, &mut |_| n += 1);
    n
}

/// Whether keys are unique wherever gvas keeps key-value collections.
pub fn well_keyed(v: &MVal) -> bool {
    let mut ok = true;
    v.walk(&mut |v| {
        let fields = match v {
            MVal::Struct { val: MStruct::Custom(f), .. } | MVal::StructVal(MStruct::Custom(f)) => Some(f),
            _ => None,
        };
        if let Some(f) = fields {
            let mut seen = HashSet::new();
            ok &= f.iter().all(|f| seen.insert(&f.0));
        }
        match v {
            MVal::Map { items, .. } => {
                let mut seen = HashSet::new();
                ok &= items.iter().all(|(k, _)| seen.insert(k.canon_string()));
            }
            MVal::Text(t) => ok &= text_keyed(t),
            _ => {}
        }
    });
    ok
}

pub fn text_keyed(t: &MText) -> bool {
    fn a(a: &MArg) -> bool {
        if let MArg::Text(t) = a { text_keyed(t) } else { true }
    }
    match &t.hist {
        MHist::Named(t, x) | MHist::Argument(t, x) => {
            let mut seen = HashSet::new();
            text_keyed(t) && x.iter().all(|(k, v)| seen.insert(k) && a(v))
        }
        MHist::Ordered(t, x) => text_keyed(t) && x.iter().all(a),
        MHist::Number(x, _, _) | MHist::Percent(x, _, _) | MHist::Currency(_, x, _, _) => a(x),
        MHist::Transform(t, _) => text_keyed(t),
        _ => true,
    }
}

fn shuffle<T>(v: &mut [T], s: &mut Src) {
    for i in (1..v.len()).rev() {
        let j = s.idx(i + 1);
        v.swap(i, j);
    }
}

fn shuffle_text(t: &mut MText, s: &mut Src) {
    let arg = |a: &mut MArg, s: &mut Src| {
        if let MArg::Text(t) = a {
            shuffle_text(t, s)
        }
    };
    match &mut t.hist {
        MHist::Named(t, a) | MHist::Argument(t, a) => {
            shuffle_text(t, s);
            shuffle(a, s);
            a.iter_mut().for_each(|a| arg(&mut a.1, s));
        }
        MHist::Ordered(t, a) => {
            shuffle_text(t, s);
            a.iter_mut().for_each(|a| arg(a, s));
        }
        MHist::Number(a, _, _) | MHist::Percent(a, _, _) | MHist::Currency(_, a, _, _) => arg(a, s),
        MHist::Transform(t, _) => shuffle_text(t, s),
        _ => {}
    }
}

/// Reorders the entries of every key-value collection.
pub fn reorder(v: &mut MVal, s: &mut Src) {
    nodes(v, &mut |v| match v {
        MVal::Map { items, .. } => shuffle(items, s),
        MVal::Struct { val: MStruct::Custom(f), .. } | MVal::StructVal(MStruct::Custom(f)) => shuffle(f, s),
        MVal::Text(t) => shuffle_text(t, s),
        _ => {}
    });
}

/// Replaces floats by others of the same value: zeros of the other sign, other NaNs.
pub fn same_floats(v: &mut MVal, s: &mut Src) {
    leaves(v, &mut |l| match l {
        Leaf::F32(x) => {
            let f = f32::from_bits(*x);
            if f == 0.0 {
                *x = if s.chance(1, 2) { 0 } else { 0x8000_0000 };
            } else if f.is_nan() {
                *x = 0x7F80_0000 | (s.bits() as u32 & 0x807F_FFFF) | 1;
            }
        }
        Leaf::F64(x) => {
            let f = f64::from_bits(*x);
            if f == 0.0 {
                *x = if s.chance(1, 2) { 0 } else { 1 << 63 };
            } else if f.is_nan() {
                *x = 0x7FF0_0000_0000_0000 | (s.bits() & 0x800F_FFFF_FFFF_FFFF) | 1;
            }
        }
        _ => {}
    });
}

/// Another kind of value with the same content, where there is one.
fn retag(v: &MVal) -> Option<MVal> {
    Some(match v {
        MVal::I8(x) => MVal::Byte { name: None, val: *x as u8 },
        MVal::I16(x) => MVal::U16(*x as u16),
        MVal::U16(x) => MVal::I16(*x as i16),
        MVal::I32(x) => MVal::U32(*x as u32),
        MVal::U32(x) => MVal::F32(*x),
        MVal::F32(x) => MVal::I32(*x as i32),
        MVal::I64(x) => MVal::U64(*x as u64),
        MVal::U64(x) => MVal::F64(*x),
        MVal::F64(x) => MVal::I64(*x as i64),
        MVal::Byte { name, val } => MVal::ByteNs { name: name.clone(), val: val.to_string() },
        MVal::ByteNs { name, val } => MVal::Enum { ty: name.clone(), val: val.clone() },
        MVal::Enum { ty, val } => MVal::ByteNs { name: ty.clone(), val: val.clone() },
        MVal::Name { val, .. } => MVal::Str(val.clone()),
        MVal::Str(val) => MVal::Name { idx: 0, val: val.clone() },
        MVal::Object(x) => MVal::Str(Some(x.clone())),
        MVal::MultiInline(d) => MVal::MultiSparse(d.clone()),
        MVal::MultiSparse(d) => MVal::MultiInline(d.clone()),
        MVal::Struct { val, .. } => MVal::StructVal(val.clone()),
        MVal::StructVal(MStruct::VF(a)) => MVal::StructVal(MStruct::RF(*a)),
        MVal::StructVal(MStruct::VD(a)) => MVal::StructVal(MStruct::RD(*a)),
        MVal::StructVal(MStruct::RF(a)) => MVal::StructVal(MStruct::VF(*a)),
        MVal::StructVal(MStruct::QF(a)) => MVal::StructVal(MStruct::Color(*a)),
        MVal::StructVal(MStruct::Color(a)) => MVal::StructVal(MStruct::QF(*a)),
        MVal::StructVal(MStruct::DateTime(t)) => MVal::StructVal(MStruct::Timespan(*t)),
        MVal::StructVal(MStruct::Timespan(t)) => MVal::StructVal(MStruct::DateTime(*t)),
        MVal::Array { ty, items, sinfo: None } => MVal::Set { ty: ty.clone(), flags: 0, items: items.clone() },
        MVal::Set { ty, items, .. } if ty != "StructProperty" => MVal::Array { ty: ty.clone(), sinfo: None, items: items.clone() },
        _ => return None,
    })
}

fn restructure(v: &mut MVal, s: &mut Src) {
    fn list<T: Clone>(v: &mut Vec<T>, s: &mut Src) {
        match s.below(4) {
            0 if v.len() > 1 => {
                let (i, j) = (s.idx(v.len()), s.idx(v.len()));
                v.swap(i, j);
            }
            1 if !v.is_empty() => {
                let i = s.idx(v.len());
                v.remove(i);
            }
            2 if !v.is_empty() => {
                let i = s.idx(v.len());
                v.push(v[i].clone());
            }
            _ if !v.is_empty() => v.rotate_left(1),
            _ => {}
        }
    }
    match v {
        MVal::Array { items, .. } | MVal::Set { items, .. } => list(items, s),
        MVal::Map { items, .. } => {
            if items.len() > 1 && s.chance(1, 2) {
                // two entries exchange their values
                let (i, j) = (s.idx(items.len()), s.idx(items.len()));
                let (a, b) = (items[i].1.clone(), items[j].1.clone());
                items[i].1 = b;
                items[j].1 = a;
            } else if !items.is_empty() {
                let i = s.idx(items.len());
                items.remove(i);
            }
        }
        MVal::MultiInline(d) | MVal::MultiSparse(d) => list(d, s),
        MVal::FieldPath { path, .. } => list(path, s),
        MVal::Struct { val, .. } | MVal::StructVal(val) => match val {
            MStruct::Tags(t) => list(t, s),
            MStruct::Custom(f) if !f.is_empty() => {
                let i = s.idx(f.len());
                if s.chance(1, 2) && f[i].1.len() > 1 { list(&mut f[i].1, s) } else { drop(f.remove(i)) }
                f.retain(|f| !f.1.is_empty());
            }
            _ => {}
        },
        _ => {}
    }
}

/// Changes one place of the value.
pub fn perturb(v: &mut MVal, s: &mut Src) {
    match s.weighted(&[6, 2, 2]) {
        0 => {
            let n = s.idx(count_leaves(v).max(1));
            nth_leaf(v, n, |l| change(l, s));
        }
        k => {
            let mut n = 0;
            nodes(v, &mut |_| n += 1);
            let at = s.idx(n);
            let mut i = 0;
            // the kind of a value inside a struct array is given by the array
            nodes(v, &mut |v| {
                if i == at {
                    if k == 1 {
                        if let Some(w) = retag(v) {
                            *v = w;
                        }
                    } else {
                        restructure(v, s);
                    }
                }
                i += 1;
            });
        }
    }
}

/// A value for this leaf that is not related to the old one.
pub fn fresh(l: Leaf, g: &mut Gen) {
    use crate::r#gen::interesting;
    match l {
        Leaf::Bool(b) => *b = g.s.chance(1, 2),
        Leaf::U8(x) => *x = interesting(g.s, 8) as u8,
        Leaf::I8(x) => *x = interesting(g.s, 8) as i8,
        Leaf::I16(x) => *x = interesting(g.s, 16) as i16,
        Leaf::U16(x) => *x = interesting(g.s, 16) as u16,
        Leaf::I32(x) => *x = interesting(g.s, 32) as i32,
        Leaf::U32(x) => *x = interesting(g.s, 32) as u32,
        Leaf::I64(x) => *x = interesting(g.s, 64) as i64,
        Leaf::U64(x) => *x = interesting(g.s, 64),
        Leaf::F32(x) => *x = g.f32(),
        Leaf::F64(x) => *x = g.f64(),
        Leaf::Text(t) => *t = g.string(),
        Leaf::Fs(o) => *o = g.fs(),
        Leaf::Guid(x) => *x = g.guid(),
        Leaf::Raw(r) => *r = g.raw(20),
        Leaf::Pick(v, n) => *v = g.s.below(n as u64) as i8,
    }
}
