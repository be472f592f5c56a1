//! C32, C33, C34, C37 and C38: printed values, reformatted JSON, builds, undefined behaviour and
//! other machines.

use super::*;
use super::robust::{self, one_property};
use super::values::{cut, pair};
use crate::conv::{self, Form};
use crate::enc::{self, Enc, Kind};
use crate::r#gen::{self as g, Cfg, Gen, interesting};
use crate::mutate;
use crate::runner::{Caught, guard};
use crate::src::Src;
use gvas::engine_version::FEngineVersion;
use gvas::properties::Property;
use gvas::properties::struct_property::StructPropertyValue;
use gvas::properties::struct_types::*;
use gvas::properties::text_property::FText;
use gvas::{GvasFile, GvasHeader};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::{Debug, Display};
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

#[path = "../../../plain/src/work.rs"]
mod work;

// ---- C32 ----

pub fn c32(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    match s.weighted(&[6, 3, 2, 2]) {
        0 => two_values(s, ctx),
        1 => numbers(s, ctx),
        2 => engine(s, ctx),
        _ => two_files(s, ctx),
    }
}

/// Both printed forms, which a copy must have as well.
fn printed<T: Debug + Clone>(ctx: &mut Ctx, v: &T) -> Result<(String, String), String> {
    let p = (format!("{v:?}"), format!("{v:#?}"));
    let c = v.clone();
    ctx.eval();
    if p != (format!("{c:?}"), format!("{c:#?}")) {
        return Err("a clone prints differently".into());
    }
    Ok(p)
}

fn apart<T: Debug + Clone>(ctx: &mut Ctx, a: &T, b: &T, same: bool, differ: bool) -> Result<(), String> {
    let (x, y) = (printed(ctx, a)?, printed(ctx, b)?);
    ctx.eval();
    if differ && (x.0 == y.0 || x.1 == y.1) {
        return Err(format!("values that differ are printed alike: {}", cut(&x.0)));
    }
    if same && x != y {
        return Err(format!("the same value is printed as {} and as {}", cut(&x.0), cut(&y.0)));
    }
    Ok(())
}

fn two_values(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let Some((a, b)) = pair(s) else { return Ok(()) };
    let differ = a.canon_string() != b.canon_string();
    ctx.describe(|| format!("{a:?}\nand {b:?}"));
    ctx.label(if differ { "two values that differ" } else if a == b { "the same value twice" } else { "equal values built differently" });
    if differ {
        ctx.nontrivial(format!("{a:?}{b:?}").as_bytes());
    }
    let (pa, pb) = (conv::value(&a, Form::Compact), conv::value(&b, Form::Compact));
    apart(ctx, &pa, &pb, a == b, differ)?;
    match (&pa, &pb) {
        (Property::StructPropertyValue(x), Property::StructPropertyValue(y)) => apart(ctx, x, y, a == b, differ),
        (Property::TextProperty(x), Property::TextProperty(y)) => apart(ctx, &x.value, &y.value, a == b, differ),
        (Property::MapProperty(x), Property::MapProperty(y)) => apart(ctx, x, y, a == b, differ),
        (Property::ArrayProperty(x), Property::ArrayProperty(y)) => apart(ctx, x, y, a == b, differ),
        (Property::SetProperty(x), Property::SetProperty(y)) => apart(ctx, x, y, a == b, differ),
        (Property::StructProperty(x), Property::StructProperty(y)) => apart(ctx, x, y, a == b, differ),
        _ => Ok(()),
    }
}

fn two_files(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let c = g::file(s, Cfg { budget: 12, depth: 3, pal: true, ..Cfg::default() });
    let mut m = c.file.clone();
    let what = match s.below(9) {
        0 => {
            m.header.class_name.push('x');
            "class name"
        }
        1 => {
            m.header.branch.push('x');
            "branch"
        }
        2 => {
            m.header.package ^= 1 << s.below(32);
            "package version"
        }
        3 => {
            let n = s.below(16) as u32;
            match s.below(4) {
                0 => m.header.engine.0 ^= 1 << n,
                1 => m.header.engine.1 ^= 1 << n,
                2 => m.header.engine.2 ^= 1 << n,
                _ => m.header.engine.3 ^= 1 << (2 * n),
            }
            "engine version"
        }
        4 => {
            m.header.ue5 = match m.header.ue5 {
                None => Some(1000),
                Some(x) => Some(x ^ 1),
            };
            "second package version"
        }
        5 if !m.header.versions.is_empty() => {
            let i = s.idx(m.header.versions.len());
            if s.chance(1, 2) {
                m.header.versions[i].1 ^= 1 << s.below(32);
            } else {
                m.header.versions[i].0[s.idx(16)] ^= 1 << s.below(8);
                let k = m.header.versions[i].0;
                if m.header.versions.iter().filter(|(x, _)| *x == k).count() > 1 {
                    return Ok(());
                }
            }
            "version table"
        }
        6 if !m.props.is_empty() => {
            let i = s.idx(m.props.len());
            m.props[i].0.push('\u{1}');
            let k = m.props[i].0.clone();
            if m.props.iter().filter(|(x, _)| *x == k).count() > 1 {
                return Ok(());
            }
            "name of a property"
        }
        7 if !m.props.is_empty() => {
            m.props.remove(s.idx(m.props.len()));
            "number of properties"
        }
        8 => {
            m.pal = match m.pal {
                None => Some(s.below(3) as u8),
                Some(x) => *s.pick(&[None, Some((x + 1) % 3), Some((x + 2) % 3)]),
            };
            "container"
        }
        _ => "",
    };
    ctx.describe(|| format!("{}\nand with another {what}", show(&c)));
    ctx.label("files");
    if !what.is_empty() {
        ctx.nontrivial(format!("{:?}{what}", c.file).as_bytes());
    }
    let (fa, fb) = (conv::file(&c.file, Form::Compact), conv::file(&m, Form::Compact));
    apart(ctx, &fa, &fb, what.is_empty(), !what.is_empty()).map_err(|e| format!("{e} (another {what})"))?;
    if c.file.header != m.header {
        apart(ctx, &fa.header, &fb.header, false, true).map_err(|e| format!("{e} (another {what})"))?;
    }
    // every name is there to be found
    let all = format!("{fa:?}");
    ctx.eval();
    for (name, _) in &c.file.props {
        if !all.contains(&format!("{name:?}")) {
            return Err(format!("the printed file does not name its property {name:?}"));
        }
    }
    for (k, v) in &c.file.header.versions {
        let k = format!("{}", gvas::types::Guid(*k));
        if !all.contains(&k) || !all.contains(&v.to_string()) {
            return Err(format!("the printed file does not show version {v} of {k}"));
        }
    }
    Ok(())
}

/// The words of a printed struct: names with a colon, each followed by its value.
fn words(ctx: &mut Ctx, v: &impl Display, names: &[&str]) -> Result<Vec<String>, String> {
    let t = v.to_string();
    let w: Vec<&str> = t.split_whitespace().collect();
    ctx.eval();
    if w.len() != 2 * names.len() || names.iter().enumerate().any(|(i, n)| w[2 * i].to_lowercase() != format!("{n}:")) {
        return Err(format!("printed as {t:?}, expected a value for each of {names:?}"));
    }
    Ok(w.iter().skip(1).step_by(2).map(|x| x.to_string()).collect())
}

fn floats<const N: usize>(ctx: &mut Ctx, v: &impl Display, names: &[&str], want: &[u32; N]) -> Result<(), String> {
    for (w, x) in words(ctx, v, names)?.iter().zip(want) {
        let f = f32::from_bits(*x);
        let back: f32 = w.parse().map_err(|_| format!("{f} is printed as {w}"))?;
        if back.to_bits() != *x && !(back.is_nan() && f.is_nan()) {
            return Err(format!("{f:?} is printed as {w}"));
        }
    }
    Ok(())
}

fn doubles<const N: usize>(ctx: &mut Ctx, v: &impl Display, names: &[&str], want: &[u64; N]) -> Result<(), String> {
    for (w, x) in words(ctx, v, names)?.iter().zip(want) {
        let f = f64::from_bits(*x);
        let back: f64 = w.parse().map_err(|_| format!("{f} is printed as {w}"))?;
        if back.to_bits() != *x && !(back.is_nan() && f.is_nan()) {
            return Err(format!("{f:?} is printed as {w}"));
        }
    }
    Ok(())
}

fn numbers(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut gn = Gen::new(s, Cfg::default());
    let lwc = gn.s.chance(1, 2);
    gn.ver = Ver { lwc, arg64: true, culture: true };
    let ty = *gn.s.pick(&["Vector2D", "Vector", "Rotator", "Quat", "DateTime", "Timespan", "LinearColor", "IntPoint"]);
    let m = gn.strukt(ty, 1);
    ctx.describe(|| format!("{m:?}"));
    ctx.label("struct of numbers");
    ctx.nontrivial(format!("{m:?}").as_bytes());
    use conv::{d, f};
    const XYZW: [&str; 4] = ["x", "y", "z", "w"];
    const PYR: [&str; 3] = ["pitch", "yaw", "roll"];
    match &m {
        MStruct::V2F(v) => floats(ctx, &Vector2F::new(f(v[0]), f(v[1])), &XYZW[..2], v),
        MStruct::V2D(v) => doubles(ctx, &Vector2D::new(d(v[0]), d(v[1])), &XYZW[..2], v),
        MStruct::VF(v) => floats(ctx, &VectorF::new(f(v[0]), f(v[1]), f(v[2])), &XYZW[..3], v),
        MStruct::VD(v) => doubles(ctx, &VectorD::new(d(v[0]), d(v[1]), d(v[2])), &XYZW[..3], v),
        MStruct::RF(v) => floats(ctx, &RotatorF::new(f(v[0]), f(v[1]), f(v[2])), &PYR, v),
        MStruct::RD(v) => doubles(ctx, &RotatorD::new(d(v[0]), d(v[1]), d(v[2])), &PYR, v),
        MStruct::QF(v) => floats(ctx, &QuatF::new(f(v[0]), f(v[1]), f(v[2]), f(v[3])), &XYZW, v),
        MStruct::QD(v) => doubles(ctx, &QuatD::new(d(v[0]), d(v[1]), d(v[2]), d(v[3])), &XYZW, v),
        MStruct::Color(v) => floats(ctx, &LinearColor::new(f(v[0]), f(v[1]), f(v[2]), f(v[3])), &["r", "g", "b", "a"], v),
        MStruct::DateTime(v) => whole(ctx, &DateTime::new(*v), &["ticks"], &[*v as i128]),
        MStruct::Timespan(v) => whole(ctx, &Timespan::new(*v), &["ticks"], &[*v as i128]),
        MStruct::IntPoint(x, y) => whole(ctx, &IntPoint::new(*x, *y), &XYZW[..2], &[*x as i128, *y as i128]),
        _ => Ok(()),
    }?;
    // the same through the value read from a file
    let v = conv::strukt(&m, Form::Compact);
    let t = format!("{v:?}");
    ctx.eval();
    let shown = match &v {
        StructPropertyValue::DateTime(x) => t.contains(&x.ticks.to_string()),
        StructPropertyValue::Timespan(x) => t.contains(&x.ticks.to_string()),
        StructPropertyValue::IntPoint(p) => t.contains(&p.x.to_string()) && t.contains(&p.y.to_string()),
        _ => true,
    };
    if !shown {
        return Err(format!("the numbers of {m:?} are missing from {t}"));
    }
    Ok(())
}

fn whole(ctx: &mut Ctx, v: &impl Display, names: &[&str], want: &[i128]) -> Result<(), String> {
    for (w, x) in words(ctx, v, names)?.iter().zip(want) {
        if w.parse() != Ok(*x) {
            return Err(format!("{x} is printed as {w}"));
        }
    }
    Ok(())
}

fn engine(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n: Vec<u32> = [16, 16, 16, 32].iter().map(|b| interesting(s, *b) as u32).collect();
    let branch = Gen::new(s, Cfg::default()).string();
    ctx.describe(|| format!("engine version {n:?} {branch:?}"));
    ctx.label("engine version");
    ctx.nontrivial(format!("{n:?}{branch}").as_bytes());
    let v = FEngineVersion::new(n[0] as u16, n[1] as u16, n[2] as u16, n[3], branch.clone());
    let want = format!("{}.{}.{}-{}+++{}", n[0], n[1], n[2], n[3], branch);
    ctx.eval();
    if v.to_string() != want {
        return Err(format!("printed as {:?} instead of {want:?}", v.to_string()));
    }
    let (a, b) = printed(ctx, &v)?;
    ctx.eval();
    for x in n.iter().map(|x| x.to_string()).chain([format!("{branch:?}")]) {
        if !a.contains(&x) || !b.contains(&x) {
            return Err(format!("{x} is missing from {a}"));
        }
    }
    Ok(())
}

// ---- C33 ----

pub fn c33(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = Cfg { finite: true, pal: true, ..Cfg::default() };
    let form = if s.chance(1, 4) { Form::General } else { Form::Compact };
    match s.weighted(&[5, 3, 1, 1]) {
        0 => {
            let c = g::file(s, cfg);
            ctx.describe(|| show(&c));
            ctx.label("file");
            let f = conv::file(&c.file, form);
            let bytes = conv::write(&f).map_err(|e| format!("saving failed: {e}"))?;
            reformat(s, ctx, &f, &mut |back: &GvasFile| {
                // maps may be in another order now, but hold the same
                let again = conv::write(back).map_err(|e| format!("saving the file from JSON failed: {e}"))?;
                if c.file.pal.is_none() && again.len() != bytes.len() {
                    return Err(format!("the file from JSON is saved in {} bytes instead of {}", again.len(), bytes.len()));
                }
                Ok(())
            })
        }
        1 => {
            let mut gn = Gen::new(s, cfg);
            gn.ver = Ver { lwc: gn.s.chance(1, 2), arg64: gn.s.chance(1, 2), culture: true };
            let v = match gn.s.weighted(&[4, 2, 2, 2]) {
                0 => gn.value(4),
                1 => {
                    let ty = gn.struct_type(3);
                    MVal::StructVal(gn.strukt(&ty, 3))
                }
                2 => {
                    let t = gn.scalar_type();
                    let header = gn.s.chance(1, 2);
                    gn.scalar(t, header)
                }
                _ => gn.map(3),
            };
            ctx.describe(|| format!("property {v:?}"));
            ctx.label("property");
            reformat(s, ctx, &conv::value(&v, form), &mut |_: &Property| Ok(()))
        }
        2 => {
            let h = Gen::new(s, cfg).header();
            ctx.describe(|| format!("header {h:?}"));
            ctx.label("header");
            reformat(s, ctx, &conv::header(&h), &mut |_: &GvasHeader| Ok(()))
        }
        _ => {
            let mut gn = Gen::new(s, cfg);
            gn.ver = Ver { lwc: false, arg64: gn.s.chance(1, 2), culture: true };
            let t = gn.text(5);
            ctx.describe(|| format!("text {t:?}"));
            ctx.label("text");
            reformat(s, ctx, &conv::text(&t), &mut |_: &FText| Ok(()))
        }
    }
}

#[derive(Clone, Copy, Debug)]
struct Style {
    shuffle: bool,
    spaces: bool,
    escapes: bool,
    whole: bool,
}

/// The same JSON in another order; true when something moved.
fn shuffle(s: &mut Src, v: &mut Value) -> bool {
    match v {
        Value::Array(a) => a.iter_mut().fold(false, |m, x| shuffle(s, x) | m),
        Value::Object(o) => {
            let mut moved = false;
            let mut all: Vec<(String, Value)> = std::mem::take(o).into_iter().collect();
            for (_, x) in all.iter_mut() {
                moved |= shuffle(s, x);
            }
            match s.below(3) {
                0 => {
                    moved |= all.len() > 1;
                    all.reverse();
                }
                1 => {
                    let was: Vec<String> = all.iter().map(|(k, _)| k.clone()).collect();
                    all.sort_by(|a, b| a.0.cmp(&b.0));
                    moved |= !was.iter().eq(all.iter().map(|(k, _)| k));
                }
                _ => {
                    for i in (1..all.len()).rev() {
                        let j = s.idx(i + 1);
                        moved |= i != j;
                        all.swap(i, j);
                    }
                }
            }
            o.extend(all);
            moved
        }
        _ => false,
    }
}

fn space(s: &mut Src, st: Style, out: &mut String) {
    if st.spaces && s.chance(1, 4) {
        out.push_str(*s.pick(&[" ", "\n", "\t", "\r\n", "  "]));
    }
}

fn string(s: &mut Src, st: Style, x: &str, out: &mut String) {
    if !st.escapes {
        out.push_str(&serde_json::to_string(x).unwrap());
        return;
    }
    let every = s.chance(1, 4);
    out.push('"');
    for c in x.chars() {
        if every || (c as u32) < 32 || c == '"' || c == '\\' || s.chance(1, 6) {
            let mut u = [0; 2];
            for u in c.encode_utf16(&mut u) {
                out.push_str(&format!("\\u{u:04x}"));
            }
        } else if c == '/' {
            out.push_str("\\/");
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

fn print(s: &mut Src, st: Style, v: &Value, out: &mut String) {
    space(s, st, out);
    match v {
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                print(s, st, x, out);
            }
            space(s, st, out);
            out.push(']');
        }
        Value::Object(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                space(s, st, out);
                string(s, st, k, out);
                space(s, st, out);
                out.push(':');
                print(s, st, x, out);
            }
            space(s, st, out);
            out.push('}');
        }
        Value::String(x) => string(s, st, x, out),
        Value::Number(n) => match n.as_f64() {
            // as JavaScript and others write whole numbers
            Some(f) if st.whole && n.is_f64() && f.fract() == 0.0 && f.abs() < 9e15 && (f != 0.0 || f.is_sign_positive()) => out.push_str(&format!("{}", f as i64)),
            _ => out.push_str(&n.to_string()),
        },
        x => out.push_str(&x.to_string()),
    }
    space(s, st, out);
}

fn reformat<T>(s: &mut Src, ctx: &mut Ctx, v: &T, more: &mut dyn FnMut(&T) -> Result<(), String>) -> Result<(), String>
where
    T: serde::Serialize + for<'a> serde::Deserialize<'a> + PartialEq,
{
    let first = serde_json::to_string(v).map_err(|e| format!("writing JSON failed: {e}"))?;
    let tree: Value = serde_json::from_str(&first).map_err(|e| format!("not JSON: {e}; {}", cut(&first)))?;
    let st = Style { shuffle: s.chance(3, 4), spaces: s.chance(1, 3), escapes: s.chance(1, 3), whole: s.chance(1, 3) };
    let mut other = tree.clone();
    let moved = st.shuffle && shuffle(s, &mut other);
    let way = s.below(3);
    let back: T = if way == 0 && !st.spaces && !st.escapes && !st.whole {
        serde_json::from_value(other.clone()).map_err(|e| format!("reading a value tree in another order failed: {e}; {}", cut(&other.to_string())))?
    } else {
        let mut t = String::new();
        print(s, st, &other, &mut t);
        ctx.describe(|| format!("{st:?} {}", cut(&t)));
        if moved || t != first {
            ctx.nontrivial(t.as_bytes());
        }
        match way {
            1 => serde_json::from_reader(t.as_bytes()).map_err(|e| format!("reading reformatted JSON failed: {e}; {}", cut(&t)))?,
            2 => {
                let b = t.as_bytes();
                serde_json::from_slice(b).map_err(|e| format!("reading reformatted JSON failed: {e}; {}", cut(&t)))?
            }
            _ => serde_json::from_str(&t).map_err(|e| format!("reading reformatted JSON failed: {e}; {}", cut(&t)))?,
        }
    };
    ctx.label(match (moved, st.escapes, st.whole) {
        (true, ..) => "members in another order",
        (_, true, _) => "escaped strings",
        (.., true) => "whole numbers without fraction",
        _ => "other",
    });
    ctx.eval();
    if back != *v {
        return Err(format!("reformatted JSON gives another value ({st:?})"));
    }
    // and the same JSON, where the order of members does not count
    let again = serde_json::to_string(&back).map_err(|e| format!("writing JSON failed: {e}"))?;
    let again: Value = serde_json::from_str(&again).map_err(|e| format!("not JSON: {e}; {}", cut(&again)))?;
    ctx.eval();
    if again != tree {
        return Err(format!("the value from reformatted JSON is written as {} instead of {}", cut(&again.to_string()), cut(&tree.to_string())));
    }
    more(&back)
}

// ---- C34 ----

/// Where requests are answered.
#[derive(Clone, Copy, PartialEq)]
enum Place {
    /// The build without features and checks.
    Plain,
    /// An interpreter that stops at undefined behaviour, for a machine of this kind. The number
    /// decides how it lays out memory.
    Interpreter(&'static str, u8),
}

struct Peer(Child);

impl Drop for Peer {
    fn drop(&mut self) {
        drop(self.0.stdin.take());
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

thread_local! {
    static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
}

fn peer(place: Place) -> Peer {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let mut c = match place {
        Place::Plain => Command::new(format!("{dir}/work/plain/release/gvasplain")),
        Place::Interpreter(target, layout) => {
            let mut c = Command::new("bash");
            c.arg(format!("{dir}/check.sh")).arg("interpret").arg(target).arg(layout.to_string());
            c
        }
    };
    let err = if place == Place::Plain { Stdio::null() } else { Stdio::piped() };
    match c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(err).spawn() {
        Ok(c) => Peer(c),
        Err(e) => panic!("HARNESS {c:?}: {e}"),
    }
}

/// What the other side answers, or its last words when it dies.
fn ask(place: Place, request: &[u8]) -> Result<Vec<u8>, String> {
    PEER.with(|p| {
        let mut p = p.borrow_mut();
        let c = &mut p.get_or_insert_with(|| peer(place)).0;
        let mut go = || -> std::io::Result<Vec<u8>> {
            let i = c.stdin.as_mut().unwrap();
            i.write_all(&(request.len() as u32).to_le_bytes())?;
            i.write_all(request)?;
            i.flush()?;
            let o = c.stdout.as_mut().unwrap();
            let mut n = [0; 4];
            o.read_exact(&mut n)?;
            let mut b = vec![0; u32::from_le_bytes(n) as usize];
            o.read_exact(&mut b)?;
            Ok(b)
        };
        go().map_err(|_| {
            let mut words = String::new();
            if let Some(mut e) = p.take().and_then(|mut p| p.0.stderr.take()) {
                let _ = e.read_to_string(&mut words);
            }
            words
        })
    })
}

fn show_answer(a: &[u8]) -> String {
    match a[0] {
        work::DONE => format!("accepted: {}", cut(&String::from_utf8_lossy(&a[5..]))),
        work::REFUSED => format!("refused: {}", cut(&String::from_utf8_lossy(&a[1..]))),
        _ => "a panic".into(),
    }
}

/// A request; `small` for answers that take long.
fn request(s: &mut Src, ctx: &mut Ctx, small: bool) -> work::Request {
    let mut r = work::Request::default();
    let cfg = if small { Cfg { budget: 6, depth: 3, ..Cfg::default() } } else { Cfg { pal: true, large: true, ..Cfg::default() } };
    match s.weighted(if small { &[2, 3, 1, 6, 4, 1, 1] } else { &[4, 5, 1, 4, 1, 1, 1] }) {
        0 => {
            let deep = small && s.chance(1, 30);
            let mut c = g::file(s, Cfg { deep, ..cfg });
            if small && s.chance(1, 50) {
                // not compressed: that takes far too long
                c.file.pal = Some(0);
            }
            ctx.describe(|| show(&c));
            ctx.label("well-formed file");
            r.palworld = c.file.pal.is_some();
            r.data = enc::disk(&c.file, &enc::encode(&c.file).b);
            r.hints = c.hints;
            if !c.file.props.is_empty() {
                ctx.nontrivial(&r.data);
            }
        }
        1 if small => {
            let c = g::file(s, cfg);
            let (b, what) = mutate::damage(s, &enc::encode(&c.file));
            ctx.describe(|| format!("{what} {}", show(&c)));
            ctx.label("damaged file");
            ctx.nontrivial(&b);
            r.hints = c.hints;
            r.data = b;
        }
        1 => {
            let h = robust::hostile(s);
            ctx.describe(|| format!("{} {:?} {}", h.what, h.pal, hex(&h.bytes)));
            ctx.label("damaged file");
            ctx.nontrivial(&h.bytes);
            r.palworld = h.pal.is_some();
            r.hints = h.hints;
            r.data = h.bytes;
        }
        2 => {
            let h = Gen::new(s, Cfg::default()).header();
            let mut e = Enc::new(ver_of(&h.versions));
            e.header(&h);
            ctx.describe(|| format!("{h:?}"));
            ctx.label("header");
            r.what = 1;
            r.data = e.b;
            damage(s, &e.spans, &mut r.data);
            ctx.nontrivial(&r.data);
        }
        3 => {
            let o = one_property(s, if small { 5 } else { 12 });
            ctx.describe(|| o.show());
            ctx.label("property");
            r.what = 2;
            r.ty = o.v.type_name().to_string();
            r.header = o.header;
            r.suggested = o.suggested();
            if s.chance(1, 6) {
                r.suggested = *s.pick(&[None, Some(0), Some(1), Some(u32::MAX), Some(o.bytes.len() as u32 + 1)]);
            }
            r.stack = o.stack.clone();
            r.hints = o.hints.clone();
            r.versions = o.versions.clone();
            r.data = o.bytes.clone();
            damage(s, &o.spans, &mut r.data);
            ctx.nontrivial(&r.data);
        }
        4 => {
            let mut gn = Gen::new(s, Cfg::default());
            r.versions = gn.versions();
            gn.ver = ver_of(&r.versions);
            let t = gn.text(if small { 2 } else { 4 });
            let mut e = Enc::new(gn.ver);
            e.text(&t);
            ctx.describe(|| format!("{t:?}"));
            ctx.label("text");
            r.what = 3;
            r.data = e.b;
            damage(s, &e.spans, &mut r.data);
            ctx.nontrivial(&r.data);
        }
        5 => {
            let mut e = Enc::new(ver_of(&[]));
            let mut gn = Gen::new(s, Cfg::default());
            r.what = if gn.s.chance(1, 2) {
                let f = gn.fmt();
                ctx.describe(|| format!("{f:?}"));
                e.fmt(&f);
                5
            } else {
                let t = gn.fs();
                ctx.describe(|| format!("{t:?}"));
                e.fs(&t);
                6
            };
            ctx.label("number format or string");
            r.data = e.b;
            damage(s, &e.spans, &mut r.data);
            ctx.nontrivial(&r.data);
        }
        _ => {
            let gd = Gen::new(s, Cfg::default()).guid();
            let mut t = gvas::types::Guid(gd).to_string().into_bytes();
            for _ in 0..s.below(3) {
                let at = s.idx(t.len() + 1);
                match s.below(3) {
                    0 => t.insert(at, *s.pick(b"-{} 0fF\xff\xc3\xa9")),
                    1 if at < t.len() => {
                        t.remove(at);
                    }
                    _ if at < t.len() => t[at] = s.below(128) as u8,
                    _ => {}
                }
            }
            ctx.describe(|| format!("GUID text {:?}", String::from_utf8_lossy(&t)));
            ctx.label("GUID text");
            r.what = 4;
            ctx.nontrivial(&t);
            r.data = t;
        }
    }
    ctx.describe(|| format!("data {}", hex(&r.data)));
    r
}

/// What the build of the harness answers.
fn here(ctx: &mut Ctx, request: &[u8]) -> Vec<u8> {
    let a = match guard(|| work::answer(request)) {
        Ok(a) => a,
        Err(Caught::Panic(_)) => vec![work::PANIC],
        Err(Caught::Harness(m)) => panic!("HARNESS {m}"),
    };
    ctx.label(["accepted", "refused", "panic"][(a[0] as usize).min(2)]);
    a
}

pub fn c34(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let request = request(s, ctx, false).bytes();
    let here = here(ctx, &request);
    let there = match ask(Place::Plain, &request).or_else(|_| ask(Place::Plain, &request)) {
        Ok(a) => a,
        Err(_) => return Err("the plain build dies where the checked build gives an answer".into()),
    };
    ctx.eval();
    if here != there {
        return Err(format!("the checked build gives {}; the plain build gives {}", show_answer(&here), show_answer(&there)));
    }
    Ok(())
}

// ---- C37 and C38 ----

/// Set once a case is known to fail: the ones made from it are looked at as closely.
static CLOSELY: AtomicBool = AtomicBool::new(false);

/// The interpreter's answer. Undefined behaviour is a violation; anything else it stops at is not
/// for it to judge.
fn interpret(ctx: &mut Ctx, target: &'static str, request: &[u8]) -> Result<Vec<u8>, String> {
    let ask = |layout| {
        ask(Place::Interpreter(target, layout), request).map_err(|words| match words.lines().position(|l| l.contains("Undefined Behavior")) {
            Some(n) => {
                let at = words.lines().skip(n + 1).find(|l| l.contains("-->")).unwrap_or("").trim();
                format!("{} {at}", words.lines().nth(n).unwrap().trim_start_matches("error: "))
            }
            None => panic!("HARNESS the interpreter stops: {}", cut(&words.lines().filter(|l| l.starts_with("error")).collect::<Vec<_>>().join("; "))),
        })
    };
    if !CLOSELY.load(SeqCst)
        && std::env::args().nth(1).is_none_or(|a| a != "replay")
        && let Ok(a) = ask(0)
    {
        return Ok(a);
    }
    // alone in fresh interpreters, so that no other request has a part in it
    let mut answer = Ok(vec![work::PANIC]);
    for layout in 0..6 {
        PEER.with(|p| p.borrow_mut().take());
        answer = ask(layout);
        if answer.is_err() {
            CLOSELY.store(true, SeqCst);
            return answer;
        }
    }
    ctx.label("looked at alone");
    PEER.with(|p| p.borrow_mut().take());
    answer
}

pub fn c37(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = request(s, ctx, true);
    r.lean = true;
    r.json = s.chance(1, 8);
    if r.json {
        ctx.label("JSON");
    }
    if s.chance(1, 5) {
        let stop = (s.below(r.data.len() as u64 + 2) as u32, s.chance(1, 2));
        let writing = s.chance(1, 2);
        ctx.describe(|| format!("the device stops {} at {}{}", if writing { "writing" } else { "reading" }, stop.0, if stop.1 { ", by a panic" } else { "" }));
        ctx.label("device stops");
        r.stops[writing as usize] = Some(stop);
    }
    let answer = interpret(ctx, "x86_64-unknown-linux-gnu", &r.bytes())?;
    ctx.eval();
    ctx.label(["accepted", "refused", "panic"][(answer[0] as usize).min(2)]);
    Ok(())
}

/// Printed text with the characters it escapes put back. Which ones are escaped depends on the
/// version of the standard library.
fn unescaped(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    let mut parts = t.split("\\u{");
    let mut out = parts.next().unwrap().to_string();
    for p in parts {
        match p.split_once('}').and_then(|(n, rest)| Some((char::from_u32(u32::from_str_radix(n, 16).ok()?)?, rest))) {
            Some((c, rest)) => {
                out.push(c);
                out.push_str(rest);
            }
            None => {
                out.push_str("\\u{");
                out.push_str(p);
            }
        }
    }
    out
}

/// An answer as its printed part and the rest.
fn parts(a: &[u8]) -> (String, Vec<u8>) {
    if a[0] == work::DONE {
        let mut rest = &a[1..];
        let printed = unescaped(work::take(&mut rest));
        (printed, rest.to_vec())
    } else {
        (unescaped(&a[1..]), vec![a[0]])
    }
}

pub fn c38(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let request = request(s, ctx, true).bytes();
    let here = here(ctx, &request);
    let there = interpret(ctx, "powerpc-unknown-linux-gnu", &request)?;
    ctx.eval();
    if parts(&here) != parts(&there) {
        return Err(format!("this machine gives {}; one with 32 bits and the other byte order gives {}", show_answer(&here), show_answer(&there)));
    }
    Ok(())
}

fn damage(s: &mut Src, spans: &[enc::Span], b: &mut Vec<u8>) {
    // kinds of fields first, so that the rare ones get their share
    let mut kinds: Vec<_> = spans.iter().filter(|sp| sp.end > sp.start).map(|sp| std::mem::discriminant(&sp.kind)).collect();
    let mut seen = HashSet::new();
    kinds.retain(|k| seen.insert(*k));
    if s.chance(1, 2) && !kinds.is_empty() {
        let weights: Vec<u32> = kinds.iter().map(|k| if *k == std::mem::discriminant(&Kind::Enum { lo: 0, hi: 0 }) { 4 } else { 1 }).collect();
        let kind = kinds[s.weighted(&weights)];
        let of_kind: Vec<_> = spans.iter().filter(|sp| sp.end > sp.start && std::mem::discriminant(&sp.kind) == kind).collect();
        let sp = of_kind[s.idx(of_kind.len())];
        let v = mutate::other_value(s, b, sp);
        mutate::put(b, sp, v);
    }
}
