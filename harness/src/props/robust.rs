//! C05 to C09: hostile, truncated and damaged input.

use super::*;
use crate::alloc;
use crate::conv;
use crate::dec::{self, DErr};
use crate::enc::{self, Enc, Kind};
use crate::r#gen::{self as g, Cfg, Gen, interesting};
use crate::mutate;
use crate::runner::{Caught, guard};
use crate::src::Src;
use gvas::properties::text_property::{FText, FTextHistory, NumberFormattingOptions};
use gvas::properties::{Property, PropertyOptions, PropertyTrait};
use gvas::types::Guid;
use gvas::{GvasFile, GvasHeader};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::Cursor;
use std::sync::mpsc;

/// Stack of a thread by default.
const SMALL: usize = 2 << 20;

type Job = Box<dyn FnOnce() + Send>;

thread_local! {
    /// A thread with a stack of the default size beside every worker. Starting one per case takes
    /// longer than most cases.
    static BESIDE: (mpsc::Sender<Job>, mpsc::Receiver<()>) = {
        let (send, jobs) = mpsc::channel::<Job>();
        let (done, wait) = mpsc::channel();
        std::thread::Builder::new()
            .stack_size(SMALL)
            .spawn(move || {
                while let Ok(job) = jobs.recv() {
                    job();
                    if done.send(()).is_err() {
                        return;
                    }
                }
            })
            .expect("HARNESS: thread");
        (send, wait)
    };
}

/// Runs `f` on a thread with a stack of the default size. Panics come back as messages.
fn on_small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
    let mut result = None;
    {
        let slot = &mut result;
        let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
            alloc::limit(1 << 30);
            *slot = Some(guard(f));
        });
        // The job does not outlive this block: it is run and dropped before the answer is sent, and
        // nothing here returns without the answer.
        let job: Job = unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + '_>, Job>(job) };
        BESIDE.with(|(send, wait)| {
            send.send(job).expect("HARNESS: thread");
            wait.recv().expect("HARNESS: thread");
        });
    }
    match result {
        Some(Ok(v)) => Ok(v),
        Some(Err(Caught::Panic(m))) => Err(m),
        Some(Err(Caught::Harness(m))) => panic!("HARNESS: {m}"),
        None => panic!("HARNESS: no result"),
    }
}

fn name(out: &mut Vec<u8>, s: &str) {
    out.extend_from_slice(&(s.len() as u32 + 1).to_le_bytes());
    out.extend_from_slice(s.as_bytes());
    out.push(0);
}

fn plain_header() -> Vec<u8> {
    let mut e = Enc::new(ver_of(&[]));
    e.header(&MHeader { ue5: None, package: 0x205, engine: (4, 27, 2, 0), branch: "b".into(), versions: vec![], class_name: "c".into() });
    e.b
}

/// Levels of values inside each other, built front to back. Returns the bytes after the header of
/// the file, and the hints.
fn nest(s: &mut Src) -> (Vec<u8>, Hints, String) {
    let kind = s.below(9);
    let hinted = kind >= 6;
    let levels = match s.weighted(&[3, 2, 1]) {
        0 => s.range(20, 140) as usize,
        1 => s.range(140, if hinted { 300 } else { 2000 }) as usize,
        _ => if hinted { 300 } else { 20000 },
    };
    let mut hints = Hints::new();
    let mut pre: Vec<Vec<u8>> = vec![];
    let mut post: Vec<Vec<u8>> = vec![];
    // offset of the size field in `pre` and how many bytes of `pre` follow the size's value start
    let mut sizes: Vec<Vec<(usize, usize, usize)>> = vec![];
    let mut path = vec!["a".to_string()];
    let mut none = vec![];
    name(&mut none, "None");
    let text = (2..6).contains(&kind);
    for _ in 0..levels {
        let mut p = vec![];
        let mut q = vec![];
        let mut z = vec![];
        match kind {
            0 | 1 | 6 | 7 | 8 => {
                let how = match kind {
                    0 => 0,
                    1 => s.below(2),
                    6 => 2,
                    7 => 3,
                    _ => s.below(4),
                };
                name(&mut p, "a");
                match how {
                    0 => {
                        name(&mut p, "StructProperty");
                        let at = p.len();
                        p.extend_from_slice(&[0; 8]);
                        name(&mut p, "S");
                        p.extend_from_slice(&[0; 17]);
                        z.push((at, 4, p.len()));
                        path.push("StructProperty".into());
                    }
                    1 => {
                        name(&mut p, "ArrayProperty");
                        let at = p.len();
                        p.extend_from_slice(&[0; 8]);
                        name(&mut p, "StructProperty");
                        p.push(0);
                        z.push((at, 4, p.len()));
                        p.extend_from_slice(&1u32.to_le_bytes());
                        name(&mut p, "f");
                        name(&mut p, "StructProperty");
                        let at = p.len();
                        p.extend_from_slice(&[0; 8]);
                        name(&mut p, "S");
                        p.extend_from_slice(&[0; 17]);
                        z.push((at, 8, p.len()));
                        path.push("ArrayProperty".into());
                    }
                    2 => {
                        name(&mut p, "MapProperty");
                        let at = p.len();
                        p.extend_from_slice(&[0; 8]);
                        name(&mut p, "BoolProperty");
                        name(&mut p, "StructProperty");
                        p.push(0);
                        z.push((at, 4, p.len()));
                        p.extend_from_slice(&[0, 0, 0, 0, 1, 0, 0, 0, 0]);
                        path.extend(["MapProperty".into(), "Value".into(), "StructProperty".into()]);
                        hints.insert(path.join("."), "S".into());
                    }
                    _ => {
                        name(&mut p, "SetProperty");
                        let at = p.len();
                        p.extend_from_slice(&[0; 8]);
                        name(&mut p, "StructProperty");
                        p.push(0);
                        z.push((at, 4, p.len()));
                        p.extend_from_slice(&[0, 0, 0, 0, 1, 0, 0, 0]);
                        path.extend(["SetProperty".into(), "StructProperty".into()]);
                        hints.insert(path.join("."), "S".into());
                    }
                }
                path.push("a".into());
                q.extend_from_slice(&none);
            }
            2 => {
                p.extend_from_slice(&[0, 0, 0, 0, 10]);
                q.push(0);
            }
            3 => {
                p.extend_from_slice(&[0, 0, 0, 0, 2]);
                q.extend_from_slice(&[0; 4]);
            }
            4 => {
                p.extend_from_slice(&[0, 0, 0, 0, 4, 4]);
                q.extend_from_slice(&[0; 8]);
            }
            _ => {
                // an argument of a format whose source is empty
                p.extend_from_slice(&[0, 0, 0, 0, 1, 0, 0, 0, 0, 0xFF, 1, 0, 0, 0]);
                name(&mut p, "k");
                p.push(4);
            }
        }
        pre.push(p);
        post.push(q);
        sizes.push(z);
    }
    let core = if text { vec![0, 0, 0, 0, 0xFF] } else { vec![] };
    // sizes from the inside out
    let mut inner = core.len();
    for i in (0..levels).rev() {
        let total = pre[i].len() + inner + post[i].len();
        for (at, width, start) in sizes[i].clone() {
            let v = (total - start) as u64;
            pre[i][at..at + width].copy_from_slice(&v.to_le_bytes()[..width]);
        }
        inner = total;
    }
    let mut out = vec![];
    if text {
        name(&mut out, "a");
        name(&mut out, "TextProperty");
        out.extend_from_slice(&(inner as u32).to_le_bytes());
        out.extend_from_slice(&[0; 5]);
    }
    pre.iter().for_each(|p| out.extend_from_slice(p));
    out.extend_from_slice(&core);
    post.iter().rev().for_each(|q| out.extend_from_slice(q));
    out.extend_from_slice(&none);
    out.extend_from_slice(&[0; 4]);
    (out, hints, format!("nest of kind {kind}, {levels} levels"))
}

fn raw_bytes(s: &mut Src, max: u64) -> Vec<u8> {
    let n = s.range(0, max);
    let low = s.chance(1, 2);
    (0..n).map(|_| if low { s.below(6) as u8 } else { s.below(256) as u8 }).collect()
}

pub struct Hostile {
    pub bytes: Vec<u8>,
    pub pal: Option<u8>,
    pub hints: Hints,
    pub what: String,
    /// Bytes a compressed container delivers within its declared length.
    pub delivered: usize,
    pub hard: bool,
}

/// A file that is well-formed, damaged, deeply nested or arbitrary.
pub fn hostile(s: &mut Src) -> Hostile {
    let mut hints = Hints::new();
    let (mut plain, what, mut hard) = match s.weighted(&[14, 4, 2, 1]) {
        0 => {
            let c = g::file(s, Cfg { large: true, ..Cfg::default() });
            hints = c.hints.clone();
            let l = enc::encode(&c.file);
            let (mut b, mut what) = mutate::damage(s, &l);
            // more damage at unrelated places
            let n = s.below(3);
            for _ in 0..n {
                if b.is_empty() {
                    break;
                }
                let at = s.idx(b.len());
                match s.below(3) {
                    0 => b[at] = s.below(256) as u8,
                    1 => {
                        b.remove(at);
                    }
                    _ => b.insert(at, interesting(s, 8) as u8),
                }
                what.push_str(" and more");
            }
            if s.chance(1, 8) {
                hints.clear();
            }
            (b, what, !c.file.props.is_empty())
        }
        1 => {
            let (b, h, what) = nest(s);
            hints = h;
            ([plain_header(), b].concat(), what, true)
        }
        2 => {
            let b = raw_bytes(s, 120);
            ([plain_header(), b].concat(), "arbitrary bytes after a header".into(), true)
        }
        _ => (raw_bytes(s, 120), "arbitrary bytes".into(), false),
    };
    if s.chance(1, 6) {
        for t in ["Vector", "S", "GameplayTagContainer"] {
            hints.insert(format!("a.{}", s.pick(&["SetProperty.StructProperty", "MapProperty.Key.StructProperty", "MapProperty.Value.StructProperty"])), t.to_string());
        }
    }
    let mut pal = None;
    let mut delivered = 0;
    let mut what = what;
    let mut bytes = plain.clone();
    if s.chance(1, 4) {
        let c = s.below(3) as u8;
        pal = Some(c);
        if s.chance(1, 12) {
            // expands far beyond what the container declares
            let n = *s.pick(&[100_000usize, 1_000_000, 4_000_000]);
            plain.extend(std::iter::repeat_n(0, n));
            what.push_str(", expanding");
            hard = true;
        }
        bytes = enc::pal_wrap(&plain, c, (9, 9));
        let declared = match s.weighted(&[2, 1, 1]) {
            0 => plain.len() as u64,
            1 => s.below(300),
            _ => *s.pick(&[0xFFFF_FFFFu64, 0x8000_0000, 0x7FFF_FFFF, 0x1000_0000, 0, 1]),
        };
        bytes[..4].copy_from_slice(&(declared as u32).to_le_bytes());
        delivered = (plain.len() as u64).min(declared) as usize;
        if s.chance(1, 3) {
            let v = *s.pick(&[0xFFFF_FFFFu32, 0x8000_0000, 0x7FFF_FFFF, 0, 1]);
            bytes[4..8].copy_from_slice(&v.to_le_bytes());
        }
        if s.chance(1, 4) {
            let at = s.idx(bytes.len());
            bytes[at] ^= 1 << s.below(8);
            // a damaged stream can deliver anything within the declared length
            delivered = u32::from_le_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]).min(64 << 20) as usize;
            what.push_str(", container damaged");
        }
        what.push_str(&format!(", Palworld {c}"));
    }
    Hostile { bytes, pal, hints, what, delivered, hard }
}

fn use_hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn use_file(f: &GvasFile) {
    let _ = format!("{f:?}").len();
    let c = f.clone();
    std::hint::black_box(c == *f);
    std::hint::black_box(use_hash(&f.properties));
    std::hint::black_box(conv::write(f).map(|b| b.len()).ok());
    let _ = serde_json::to_string(f).map(|t| t.len());
}

fn use_prop(p: &Property, options: &mut PropertyOptions) {
    let _ = format!("{p:?}").len();
    let c = p.clone();
    std::hint::black_box(c == *p);
    std::hint::black_box(use_hash(p));
    for header in [true, false] {
        let _ = p.write(&mut Cursor::new(Vec::new()), header, options).is_ok();
    }
    let _ = p.write_body(&mut Cursor::new(Vec::new()), options).is_ok();
}

fn use_error(e: &gvas::error::Error) -> usize {
    format!("{e} {e:?}").len()
}

/// A type name to read a property as.
fn some_type(s: &mut Src) -> String {
    match s.weighted(&[8, 4, 2]) {
        0 => SCALARS[s.idx(SCALARS.len())].to_string(),
        1 => s.pick(&["StructProperty", "ArrayProperty", "SetProperty", "MapProperty"]).to_string(),
        _ => s.pick(&["", "None", "SoftObjectProperty", "intproperty", "Structproperty"]).to_string(),
    }
}

/// Text as a string to parse as JSON.
fn json_text(s: &mut Src) -> String {
    let kind = s.weighted(&[6, 2, 1]);
    if kind == 1 {
        let n = *s.pick(&[10usize, 50, 60, 100, 127, 128, 129, 1000, 50000]);
        let (a, b) = *s.pick(&[
            ("[", "]"), ("{\"properties\":", "}"), ("{\"type\":\"ArrayProperty\",\"properties\":[", "]}"),
            ("{\"type\":\"StructProperty\",\"type_name\":\"S\",\"CustomStruct\":{\"a\":[", "]}}"),
            ("{\"type\":\"MapProperty\",\"value\":[", "]}"),
            ("{\"flags\":0,\"history\":\"Transform\",\"transform\":\"ToLower\",\"source_text\":", "}"),
        ]);
        return format!("{}1{}", a.repeat(n), b.repeat(n));
    }
    if kind == 2 {
        return (0..s.below(40)).map(|_| *s.pick(&['{', '}', '[', ']', '"', ':', ',', '1', '-', 'e', 'n', '\\', 'u', 'D', '8', ' ', 'é'])).collect();
    }
    let c = g::file(s, Cfg { deep: true, budget: 15, ..Cfg::default() });
    let f = conv::file(&c.file, conv::Form::Compact);
    let mut t: Vec<char> = match serde_json::to_string(&f) {
        Ok(t) => t.chars().collect(),
        Err(_) => "{}".chars().collect(),
    };
    let n = s.below(4);
    for _ in 0..n {
        let at = s.idx(t.len());
        match s.weighted(&[2, 2, 2, 3]) {
            0 => t.truncate(at.max(1)),
            1 => t[at] = *s.pick(&['0', '9', '-', '"', '}', ',', '.', 'e', 'x', '[']),
            2 => {
                t.remove(at);
                if t.is_empty() {
                    t.push(' ');
                }
            }
            _ => {
                // another number in place of one
                if let Some(p) = (at..t.len()).find(|i| t[*i].is_ascii_digit()) {
                    let e = (p..t.len()).find(|i| !t[*i].is_ascii_digit()).unwrap_or(t.len());
                    let new = *s.pick(&["-1", "1e400", "18446744073709551616", "4294967296", "null", "1.5", "\"\"", "[]", "{}", "999999999999999999999999"]);
                    t.splice(p..e, new.chars());
                }
            }
        }
    }
    t.into_iter().collect()
}

pub fn c05(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    match s.weighted(&[10, 1, 6, 2, 1, 2]) {
        0 => {
            let h = hostile(s);
            ctx.describe(|| format!("{} hints {:?} bytes {}", h.what, h.hints, hex(&h.bytes)));
            ctx.label(if h.pal.is_some() { "Palworld file" } else { "plain file" });
            ctx.label(h.what.split(" at ").next().unwrap_or("").split(',').next().unwrap_or("").split(" kind").next().unwrap_or("").to_string());
            if h.hard {
                ctx.nontrivial(&h.bytes);
            }
            let ok = on_small_stack(|| match conv::read(&h.bytes, h.pal, &h.hints) {
                Ok(f) => {
                    use_file(&f);
                    true
                }
                Err(e) => use_error(&e) == 0,
            })?;
            ctx.label(if ok { "accepted" } else { "rejected" });
        }
        1 => {
            let mut e = Enc::new(ver_of(&[]));
            let mut gn = Gen::new(s, Cfg::default());
            let h = gn.header();
            e.header(&h);
            let l = enc::Layout { header_end: e.b.len(), marker_end: e.b.len(), b: e.b, spans: e.spans, props: vec![], hint_uses: vec![], alt_used: 0 };
            let (b, what) = mutate::damage(s, &l);
            ctx.describe(|| format!("header, {what}: {}", hex(&b)));
            ctx.label("header");
            ctx.nontrivial(&b);
            on_small_stack(|| match GvasHeader::read(&mut Cursor::new(&b)) {
                Ok(h) => {
                    let c = h.clone();
                    std::hint::black_box(c == h);
                    let _ = format!("{h:?}").len();
                    let _ = h.write(&mut Cursor::new(Vec::new())).is_ok();
                }
                Err(e) => {
                    use_error(&e);
                }
            })?;
        }
        2 => {
            // a property on its own
            let mut gn = Gen::new(s, Cfg { budget: 15, ..Cfg::default() });
            let versions = gn.versions();
            gn.ver = ver_of(&versions);
            let mut hints = Hints::new();
            let v = gn.value(3);
            let mut ty = v.type_name().to_string();
            hints.extend(gn.hints.clone());
            let header = gn.s.chance(1, 2);
            let mut e = Enc::new(ver_of(&versions));
            if header {
                e.tagged(&v);
            } else {
                e.body(&v);
            }
            let l = enc::Layout { header_end: 0, marker_end: e.b.len(), b: e.b, spans: e.spans, props: e.props, hint_uses: vec![], alt_used: 0 };
            let b = match s.weighted(&[6, 2, 1]) {
                0 if !l.b.is_empty() && !l.spans.is_empty() && l.spans.iter().any(|x| matches!(x.kind, Kind::StrLen { .. })) => mutate::damage(s, &l).0,
                0 | 1 => {
                    let mut b = l.b.clone();
                    if !b.is_empty() {
                        let at = s.idx(b.len());
                        b[at] = interesting(s, 8) as u8;
                    }
                    b
                }
                _ => raw_bytes(s, 60),
            };
            if s.chance(1, 4) {
                ty = some_type(s);
            }
            if s.chance(1, 3) {
                hints.insert("StructProperty".into(), s.pick(&["Vector", "S", "Guid", "GameplayTagContainer"]).to_string());
            }
            let suggested = match s.weighted(&[1, 1, 2]) {
                0 => None,
                1 => Some(l.b.len() as u32),
                _ => Some(interesting(s, 32) as u32),
            };
            let stack: Vec<String> = match s.weighted(&[3, 1]) {
                0 => vec![],
                _ => (0..s.range(1, 200)).map(|_| "p".to_string()).collect(),
            };
            ctx.describe(|| format!("{ty} header {header} suggested {suggested:?} path {} versions {versions:02x?} hints {hints:?}: {}", stack.len(), hex(&b)));
            ctx.label("property on its own");
            if b.len() > 4 {
                ctx.nontrivial(&b);
            }
            on_small_stack(move || {
                let vers = conv::versions(&versions);
                let mut stack = stack;
                let mut options = PropertyOptions { hints: &hints, properties_stack: &mut stack, custom_versions: &vers };
                match Property::new(&mut Cursor::new(&b), &ty, header, &mut options, suggested) {
                    Ok(p) => use_prop(&p, &mut options),
                    Err(e) => {
                        use_error(&e);
                    }
                }
            })?;
        }
        3 => {
            let mut gn = Gen::new(s, Cfg { budget: 15, ..Cfg::default() });
            let versions = gn.versions();
            gn.ver = ver_of(&versions);
            let t = gn.text(4);
            let mut e = Enc::new(ver_of(&versions));
            e.text(&t);
            let mut b = e.b;
            let n = s.below(4);
            for _ in 0..n {
                if !b.is_empty() {
                    let at = s.idx(b.len());
                    match s.below(3) {
                        0 => b[at] = interesting(s, 8) as u8,
                        1 => b.truncate(at),
                        _ => b.insert(at, s.below(256) as u8),
                    }
                }
            }
            if s.chance(1, 6) {
                b = raw_bytes(s, 60);
            }
            ctx.describe(|| format!("text, versions {versions:02x?}: {}", hex(&b)));
            ctx.label("text on its own");
            if b.len() > 4 {
                ctx.nontrivial(&b);
            }
            on_small_stack(|| {
                let vers = conv::versions(&versions);
                let hints = no_hints();
                let mut stack = vec![];
                let options = PropertyOptions { hints: &hints, properties_stack: &mut stack, custom_versions: &vers };
                if let Ok(t) = FText::read(&mut Cursor::new(&b), &options) {
                    let c = t.clone();
                    std::hint::black_box((c == t, use_hash(&t)));
                    let _ = format!("{t:?}").len();
                    let _ = t.write(&mut Cursor::new(Vec::new()), &options).is_ok();
                }
                let _ = FTextHistory::read(&mut Cursor::new(&b), &options).is_ok();
                let _ = NumberFormattingOptions::read(&mut Cursor::new(&b)).is_ok();
            })?;
        }
        4 => {
            let mut gn = Gen::new(s, Cfg::default());
            let mut t: Vec<char> = match gn.s.below(3) {
                0 => gn.string().chars().collect(),
                1 => {
                    let g = gn.guid();
                    Guid(g).to_string().chars().collect()
                }
                _ => (0..gn.s.range(28, 40)).map(|_| *gn.s.pick(&['0', 'a', 'F', '-', 'é', '{', '}', '+', 'Ж', ' '])).collect(),
            };
            if !t.is_empty() && s.chance(1, 2) {
                let at = s.idx(t.len());
                t[at] = g::unicode_char(s);
            }
            let t: String = t.into_iter().collect();
            ctx.describe(|| format!("GUID text {t:?}"));
            ctx.label("GUID text");
            ctx.nontrivial(t.as_bytes());
            on_small_stack(|| match t.parse::<Guid>() {
                Ok(g) => {
                    let _ = format!("{g} {g:?}");
                    std::hint::black_box((g == g.clone(), use_hash(&g)));
                }
                Err(e) => {
                    let _ = format!("{e} {e:?}");
                }
            })?;
        }
        _ => {
            let t = json_text(s);
            ctx.describe(|| format!("JSON {}", t.chars().take(2000).collect::<String>()));
            ctx.label("JSON");
            ctx.nontrivial(t.as_bytes());
            on_small_stack(|| {
                if let Ok(f) = serde_json::from_str::<GvasFile>(&t) {
                    use_file(&f);
                }
                let hints = no_hints();
                let vers = conv::versions(&[]);
                let mut stack = vec![];
                let mut options = PropertyOptions { hints: &hints, properties_stack: &mut stack, custom_versions: &vers };
                if let Ok(p) = serde_json::from_str::<Property>(&t) {
                    use_prop(&p, &mut options);
                }
                let _ = serde_json::from_str::<FText>(&t).is_ok();
                let _ = serde_json::from_str::<Guid>(&t).is_ok();
            })?;
        }
    }
    ctx.eval();
    Ok(())
}

/// Input that claims to be larger than it is.
pub fn claims(s: &mut Src) -> Hostile {
    match s.weighted(&[3, 4, 1]) {
        0 => hostile(s),
        1 => {
            // one claim of a well-formed file set to something large
            let c = g::file(s, Cfg { large: true, budget: 12, ..Cfg::default() });
            let l = enc::encode(&c.file);
            let claims: Vec<_> = l.spans.iter().filter(|x| matches!(x.kind, Kind::StrLen { .. } | Kind::Size32 | Kind::SizeUnknown | Kind::SizeInner | Kind::SizeFixed | Kind::CountU | Kind::CountI)).collect();
            let mut b = l.b.clone();
            let mut what = String::new();
            // sizes around a count often have to be large as well before the count matters
            for _ in 0..s.range(1, 3) {
                let sp = claims[s.idx(claims.len())];
                let v = match s.weighted(&[3, 1]) {
                    0 => *s.pick(&[0xFFFF_FFFFu64, 0x7FFF_FFFF, 0x8000_0000, 0x1000_0000, 0x100_0000, 0x10_0000, 131072, (-131072i64) as u64]),
                    _ => interesting(s, 32),
                };
                mutate::put(&mut b, sp, v);
                what = format!("{:?} at {} claims {v}", sp.kind, sp.start);
            }
            let pal = if s.chance(1, 8) { Some(s.below(3) as u8) } else { None };
            let delivered = if pal.is_some() { b.len() } else { 0 };
            let bytes = match pal {
                Some(c) => enc::pal_wrap(&b, c, (6, 6)),
                None => b,
            };
            Hostile { bytes, pal, hints: c.hints, what, delivered, hard: true }
        }
        _ => {
            // a double-compressed container far larger inside than it declares
            static BOMBS: std::sync::OnceLock<Vec<(usize, Vec<u8>, Vec<u8>)>> = std::sync::OnceLock::new();
            let bombs = BOMBS.get_or_init(|| {
                [3_000_000usize, 10_000_000, 30_000_000].map(|n| {
                    let inner = enc::zlib(&vec![0; n], 9);
                    let outer = enc::zlib(&inner, 9);
                    (n, inner, outer)
                }).to_vec()
            });
            let (n, inner, outer) = s.pick(bombs);
            let mut plain = plain_header();
            plain.extend_from_slice(&[0; 64]);
            let mut bytes = vec![];
            let declared = match s.below(3) {
                0 => s.below(200) as u32,
                1 => plain.len() as u32,
                _ => 0,
            };
            bytes.extend_from_slice(&declared.to_le_bytes());
            bytes.extend_from_slice(&s.pick(&[0u32, inner.len() as u32, u32::MAX]).to_le_bytes());
            bytes.extend_from_slice(b"PlZ2");
            bytes.extend_from_slice(outer);
            Hostile { bytes, pal: Some(2), hints: no_hints(), what: format!("{n} zeros declared as {declared}"), delivered: declared as usize, hard: true }
        }
    }
}

pub fn c06(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let h = claims(s);
    ctx.describe(|| format!("{} hints {:?} bytes {}", h.what, h.hints, hex(&h.bytes)));
    if h.hard {
        ctx.nontrivial(&h.bytes);
    }
    ctx.label(if h.pal.is_some() { "Palworld file" } else { "plain file" });
    let size = h.bytes.len() + h.delivered;
    let bound = 1000 * size + (1 << 20);
    let (ok, peak) = alloc::peak(|| conv::read(&h.bytes, h.pal, &h.hints).is_ok());
    ctx.eval();
    ctx.label(if ok { "accepted" } else { "rejected" });
    ctx.max("peak bytes", peak as u64);
    ctx.max("peak per input byte beyond 1 MiB", (peak.saturating_sub(1 << 20) / size.max(1)) as u64);
    if peak > bound {
        return Err(format!("reading {} input bytes held {peak} bytes of memory, more than {bound}", size));
    }
    Ok(())
}

pub fn c07(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    match s.weighted(&[6, 2, 1, 3]) {
        0 => {
            let c = g::file(s, Cfg { deep: true, budget: 25, ..Cfg::default() });
            let l = enc::encode(&c.file);
            ctx.describe(|| format!("{}\nbytes {}", show(&c), hex(&l.b)));
            ctx.label("plain file");
            if c.file.props.len() > 0 {
                ctx.nontrivial(&l.b);
            }
            for cut in cuts(s, l.marker_end, &l.spans) {
                ctx.eval();
                if conv::read(&l.b[..cut], None, &c.hints).is_ok() {
                    return Err(format!("the first {cut} bytes of {} were accepted (the end marker ends at {})", l.b.len(), l.marker_end));
                }
            }
            Ok(())
        }
        1 => {
            let mut c = g::file(s, Cfg { budget: 15, ..Cfg::default() });
            let k = s.below(3) as u8;
            c.file.pal = Some(k);
            let l = enc::encode(&c.file);
            let level = s.below(10) as u32;
            let full = enc::pal_wrap(&l.b, k, (level, 6));
            ctx.describe(|| format!("{}\nlevel {level} container {}", show(&c), hex(&full)));
            ctx.label(format!("Palworld {k}"));
            ctx.nontrivial(&full);
            for cut in cuts(s, full.len(), &[]) {
                let have = if cut < 12 { 0 } else { partial(&full[12..cut], k).len() };
                if have >= l.marker_end {
                    continue;
                }
                ctx.eval();
                if conv::read(&full[..cut], Some(k), &c.hints).is_ok() {
                    return Err(format!("the first {cut} bytes of a container of {} were accepted ({have} bytes of contents, the end marker ends at {})", full.len(), l.marker_end));
                }
            }
            Ok(())
        }
        2 => {
            let h = Gen::new(s, Cfg::default()).header();
            let mut e = Enc::new(ver_of(&[]));
            e.header(&h);
            ctx.describe(|| format!("header {h:?}"));
            ctx.label("header");
            if !h.versions.is_empty() {
                ctx.nontrivial(&e.b);
            }
            for cut in cuts(s, e.b.len(), &e.spans) {
                ctx.eval();
                if GvasHeader::read(&mut Cursor::new(&e.b[..cut])).is_ok() {
                    return Err(format!("the first {cut} bytes of a header of {} were accepted", e.b.len()));
                }
            }
            Ok(())
        }
        _ => {
            let p = one_property(s, 25);
            ctx.describe(|| p.show());
            ctx.label(if p.header { "property with header" } else { "property without header" });
            ctx.nontrivial(&p.bytes);
            for cut in cuts(s, p.bytes.len(), &p.spans) {
                ctx.eval();
                if p.read(&p.bytes[..cut]).is_ok() {
                    return Err(format!("the first {cut} bytes of a {} of {} were accepted", p.v.type_name(), p.bytes.len()));
                }
            }
            Ok(())
        }
    }
}

/// Cut points before `end`: all of them for short data, otherwise the edges of fields and others.
fn cuts(s: &mut Src, end: usize, spans: &[enc::Span]) -> Vec<usize> {
    if end <= 500 {
        return (0..end).collect();
    }
    let mut v: Vec<usize> = (0..150).map(|_| s.idx(end)).collect();
    for _ in 0..100 {
        if !spans.is_empty() {
            let sp = &spans[s.idx(spans.len())];
            v.extend([sp.start, sp.end, sp.end.saturating_sub(1)]);
        }
    }
    v.extend(end - 30..end);
    v.retain(|c| *c < end);
    v.sort();
    v.dedup();
    v
}

/// What can be decompressed from the beginning of a payload.
fn partial(data: &[u8], compression: u8) -> Vec<u8> {
    use std::io::Read;
    fn inflate(mut r: impl Read) -> Vec<u8> {
        let mut out = vec![];
        let mut buf = [0u8; 64];
        loop {
            match r.read(&mut buf) {
                Ok(0) | Err(_) => return out,
                Ok(n) => out.extend_from_slice(&buf[..n]),
            }
        }
    }
    match compression {
        0 => data.to_vec(),
        1 => inflate(flate2::read::ZlibDecoder::new(data)),
        _ => {
            let first = inflate(flate2::read::ZlibDecoder::new(data));
            inflate(flate2::read::ZlibDecoder::new(&first[..]))
        }
    }
}

/// A property on its own, encoded by the reference encoder.
pub struct One {
    pub v: MVal,
    pub header: bool,
    pub versions: Vec<(G16, u32)>,
    pub stack: Vec<String>,
    pub hints: Hints,
    pub bytes: Vec<u8>,
    pub spans: Vec<enc::Span>,
}

impl One {
    pub fn show(&self) -> String {
        format!("header {} path {:?} versions {:02x?} hints {:?} {:?}\nbytes {}", self.header, self.stack, self.versions, self.hints, self.v, hex(&self.bytes))
    }
    pub fn suggested(&self) -> Option<u32> {
        if self.header { None } else { Some(self.bytes.len() as u32) }
    }
    pub fn read(&self, b: &[u8]) -> Result<Property, gvas::error::Error> {
        let vers = conv::versions(&self.versions);
        let mut stack = self.stack.clone();
        let mut options = PropertyOptions { hints: &self.hints, properties_stack: &mut stack, custom_versions: &vers };
        Property::new(&mut Cursor::new(b), self.v.type_name(), self.header, &mut options, self.suggested())
    }
}

pub fn one_property(s: &mut Src, budget: usize) -> One {
    let mut gn = Gen::new(s, Cfg { budget, deep: true, ..Cfg::default() });
    let versions = gn.versions();
    gn.ver = ver_of(&versions);
    let stack: Vec<String> = (0..gn.s.below(3)).map(|_| gn.ident()).collect();
    gn.path = stack.clone();
    let header = gn.s.chance(3, 5);
    let v = if header {
        let d = gn.s.below(5) as usize;
        gn.value(d)
    } else if gn.s.chance(1, 3) {
        let ty = gn.struct_type(3);
        gn.path.push("StructProperty".into());
        let key = gn.path.join(".");
        gn.hints.insert(key, ty.clone());
        MVal::StructVal(gn.strukt(&ty, 3))
    } else {
        match gn.s.weighted(&[8, 1, 1]) {
            0 => {
                let ty = gn.scalar_type();
                gn.scalar(ty, false)
            }
            1 => MVal::ByteNs { name: None, val: gn.string() },
            _ => {
                let ty = gn.unknown_type();
                let mut raw = gn.raw(20);
                raw.push(1);
                MVal::Unknown { ty, raw }
            }
        }
    };
    let hints = gn.hints.clone();
    let mut e = Enc::new(ver_of(&versions));
    if header {
        e.tagged(&v);
    } else {
        e.body(&v);
    }
    One { v, header, versions, stack, hints, bytes: e.b, spans: e.spans }
}

pub fn c08(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let c = g::file(s, Cfg { deep: true, budget: 30, ..Cfg::default() });
    let l = enc::encode(&c.file);
    let sizes: Vec<_> = l.spans.iter().filter(|x| matches!(x.kind, Kind::Size32 | Kind::SizeFixed | Kind::SizeInner)).collect();
    ctx.describe(|| format!("{}\nbytes {}", show(&c), hex(&l.b)));
    if sizes.is_empty() {
        ctx.label("no sized property");
        return Ok(());
    }
    ctx.nontrivial(&l.b);
    // every size field of small files, some of the others
    let some: Vec<&&enc::Span> = if sizes.len() <= 12 { sizes.iter().collect() } else { (0..12).map(|_| &sizes[s.idx(sizes.len())]).collect() };
    for sp in some {
        let bytes = match s.weighted(&[4, 2, 2]) {
            0 => {
                let v = mutate::other_value(s, &l.b, sp);
                let mut b = l.b.clone();
                mutate::put(&mut b, sp, v);
                ctx.label("size changed");
                b
            }
            1 => {
                // bytes added to the value, only its own size left as it was
                let at = match s.below(3) {
                    0 => sp.body.0,
                    1 => sp.body.1,
                    _ => sp.body.0 + s.idx(sp.body.1 - sp.body.0 + 1),
                };
                let n = s.range(1, 9);
                let new: Vec<u8> = (0..n).map(|_| s.below(256) as u8).collect();
                ctx.label("bytes added");
                mutate::splice(&l, at, at, &new, |x| x.start == sp.start)
            }
            _ => {
                let len = sp.body.1 - sp.body.0;
                if len == 0 {
                    continue;
                }
                let at = sp.body.0 + s.idx(len);
                let end = (at + s.range(1, 9) as usize).min(sp.body.1);
                ctx.label("bytes removed");
                mutate::splice(&l, at, end, &[], |x| x.start == sp.start)
            }
        };
        match dec::decode(&bytes, &c.hints) {
            Ok(_) => ctx.label("still well-formed"),
            Err(DErr::Deep) => ctx.label("too deep for the reference"),
            Err(why) => {
                ctx.eval();
                if conv::read(&bytes, None, &c.hints).is_ok() {
                    return Err(format!("accepted although the {:?} at {} is wrong ({why:?})\ndamaged bytes {}", sp.kind, sp.start, hex(&bytes)));
                }
            }
        }
    }
    // the same for a property on its own
    if s.chance(1, 2) {
        let p = one_property(s, 10);
        if let Some(sp) = p.spans.first().filter(|x| p.header && matches!(x.kind, Kind::Size32 | Kind::SizeFixed)) {
            ctx.describe(|| p.show());
            let mut b = p.bytes.clone();
            let v = mutate::other_value(s, &b, sp);
            mutate::put(&mut b, sp, v);
            let mut d = dec::Dec::new(&b, ver_of(&p.versions), &p.hints);
            d.path = p.stack.clone();
            if matches!(d.tagged(p.v.type_name()), Err(DErr::Bad(_)) | Err(DErr::Hint(..))) {
                ctx.eval();
                ctx.label("property on its own");
                if p.read(&b).is_ok() {
                    return Err(format!("a {} of its own was accepted with size {v}", p.v.type_name()));
                }
            }
        }
    }
    Ok(())
}

pub fn c09(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let c = g::file(s, Cfg { deep: true, budget: 30, ..Cfg::default() });
    let alt = if s.chance(1, 4) { s.bits() | 2 } else { 0 };
    let l = enc::encode_alt(&c.file, alt);
    ctx.describe(|| format!("{}\nbytes {}", show(&c), hex(&l.b)));
    let rounds = 8;
    let mut reached = false;
    for _ in 0..rounds {
        let (b, what) = mutate::damage(s, &l);
        let want = dec::decode(&b, &c.hints);
        if matches!(want, Err(DErr::Deep)) {
            ctx.label("too deep for the reference");
            continue;
        }
        let kind = what.split(" at ").next().unwrap_or("");
        let got = conv::read(&b, None, &c.hints);
        ctx.eval();
        match (want, got) {
            (Ok(d), Ok(f)) => {
                ctx.label(format!("{kind}: accepted"));
                reached = true;
                if !d.dup {
                    conv::cmp_file(&d.file, &f).map_err(|m| format!("{what}: read with another meaning: {m}\ndamaged bytes {}", hex(&b)))?;
                }
            }
            (Err(_), Err(_)) => {
                ctx.label(format!("{kind}: rejected"));
                reached = true;
            }
            (Ok(_), Err(e)) => return Err(format!("{what}: the file is well-formed but was rejected: {e}\ndamaged bytes {}", hex(&b))),
            (Err(e), Ok(_)) => return Err(format!("{what}: the file is not well-formed ({e:?}) but was accepted\ndamaged bytes {}", hex(&b))),
        }
    }
    if reached && !c.file.props.is_empty() {
        ctx.nontrivial(&l.b);
    }
    Ok(())
}
