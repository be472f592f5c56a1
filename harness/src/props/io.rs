//! C15 and C16: faulty and slow devices.

use super::robust::one_property;
use super::*;
use crate::conv::{self, Form};
use crate::enc::{self, Enc};
use crate::r#gen::{self as g, Cfg, Gen};
use crate::mutate;
use crate::src::{Rng, Src};
use gvas::error::Error;
use gvas::properties::text_property::FText;
use gvas::properties::{Property, PropertyOptions, PropertyTrait};
use gvas::{GvasFile, GvasHeader};
use std::io::{self, Cursor, ErrorKind, Read, Seek, SeekFrom, Write};

const KINDS: [ErrorKind; 10] = [
    ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::BrokenPipe, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock,
    ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::ConnectionReset, ErrorKind::WriteZero, ErrorKind::InvalidInput,
];

#[derive(Clone, Copy, Debug)]
struct Plan {
    /// Largest piece (0: unlimited).
    piece: usize,
    /// One call in this many is interrupted (0: never).
    interrupt: u64,
    seed: u64,
    /// Byte at which the device fails.
    fail: Option<usize>,
    kind: ErrorKind,
    /// Fails once and works again afterwards.
    once: bool,
}

struct Dev {
    data: Vec<u8>,
    pos: usize,
    start: usize,
    plan: Plan,
    rng: Rng,
    fired: bool,
    last_interrupted: bool,
    /// Questions about the position that are answered before one fails.
    seeks: Option<u64>,
    lost: bool,
}

impl Dev {
    fn new(data: Vec<u8>, start: usize, plan: Plan) -> Self {
        Dev { data, pos: start, start, plan, rng: Rng::new(plan.seed), fired: false, last_interrupted: false, seeks: None, lost: false }
    }
    /// How many of `want` bytes this call moves.
    fn step(&mut self, want: usize) -> io::Result<usize> {
        if self.plan.interrupt > 0 && !self.last_interrupted && self.rng.next() % self.plan.interrupt == 0 {
            self.last_interrupted = true;
            return Err(ErrorKind::Interrupted.into());
        }
        self.last_interrupted = false;
        let mut n = want;
        if self.plan.piece > 0 && n > 0 {
            n = n.min(1 + (self.rng.next() % self.plan.piece as u64) as usize);
        }
        if let Some(at) = self.plan.fail {
            let at = self.start + at;
            if !(self.fired && self.plan.once) && self.pos + n > at {
                if self.pos >= at {
                    self.fired = true;
                    return Err(io::Error::new(self.plan.kind, "device fault 4711"));
                }
                n = at - self.pos;
            }
        }
        Ok(n)
    }
}

impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.step(buf.len())?;
        if self.data.len() < self.pos + n {
            self.data.resize(self.pos + n, 0);
        }
        self.data[self.pos..self.pos + n].copy_from_slice(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let left = self.data.len().saturating_sub(self.pos);
        // at the end the next byte is the one that fails, if it is to fail there
        if left == 0 {
            if self.plan.fail == Some(self.pos - self.start) && !(self.fired && self.plan.once) {
                self.fired = true;
                return Err(io::Error::new(self.plan.kind, "device fault 4711"));
            }
            return Ok(0);
        }
        let n = self.step(buf.len().min(left))?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Seek for Dev {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if let Some(n) = self.seeks
            && !(self.lost && self.plan.once)
        {
            if n == 0 {
                self.lost = true;
                return Err(io::Error::new(self.plan.kind, "device fault 4711"));
            }
            self.seeks = Some(n - 1);
        }
        let to = match p {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => self.data.len() as i64 + d,
        };
        if to < 0 {
            return Err(ErrorKind::InvalidInput.into());
        }
        self.pos = to as usize;
        Ok(self.pos as u64)
    }
}

fn plan(s: &mut Src) -> Plan {
    Plan {
        piece: *s.pick(&[0, 1, 2, 3, 7, 16, 100]),
        interrupt: *s.pick(&[0, 0, 2, 3, 10]),
        seed: s.bits(),
        fail: None,
        kind: *s.pick(&KINDS),
        once: s.chance(1, 3),
    }
}

/// Fault points: all of them for small outputs, otherwise the ends and a sample.
fn points(s: &mut Src, len: usize, ctx: &mut Ctx) -> Vec<usize> {
    if len <= 160 || (ctx.thorough && len <= 2000) {
        ctx.label("every fault point");
        (0..len).collect()
    } else {
        let mut v: Vec<usize> = (0..16).chain(len - 8..len).collect();
        v.extend((0..40).map(|_| s.idx(len)));
        ctx.label("sampled fault points");
        v
    }
}

fn same_fault(e: &Error, kind: ErrorKind) -> bool {
    matches!(e, Error::Io(e) if e.kind() == kind && e.to_string().contains("device fault 4711"))
}

enum Out {
    File(GvasFile),
    Header(GvasHeader),
    Prop(Property, bool, Vec<(G16, u32)>),
    Body(Property, Vec<(G16, u32)>),
    Text(FText, Vec<(G16, u32)>),
}

impl Out {
    fn write(&self, w: &mut Dev) -> Result<(), Error> {
        let opt = |v: &[(G16, u32)], f: &mut dyn FnMut(&mut PropertyOptions) -> Result<usize, Error>| {
            let vers = conv::versions(v);
            let hints = no_hints();
            let mut stack = vec![];
            f(&mut PropertyOptions { hints: &hints, properties_stack: &mut stack, custom_versions: &vers }).map(|_| ())
        };
        match self {
            Out::File(f) => f.write(w),
            Out::Header(h) => h.write(w).map(|_| ()),
            Out::Prop(p, header, v) => opt(v, &mut |o| p.write(w, *header, o)),
            Out::Body(p, v) => opt(v, &mut |o| p.write_body(w, o)),
            Out::Text(t, v) => opt(v, &mut |o| t.write(w, o)),
        }
    }
}

pub fn c15(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let form = if s.chance(1, 3) { Form::General } else { Form::Compact };
    let what;
    let mut want = None;
    let out = match s.weighted(&[6, 1, 3, 1]) {
        0 => {
            let c = g::file(s, Cfg { budget: 12, depth: 3, pal: true, large: true, ..Cfg::default() });
            ctx.describe(|| show(&c));
            what = match c.file.pal {
                None => "plain file",
                Some(_) => "Palworld file",
            };
            if !c.file.props.is_empty() {
                ctx.nontrivial(format!("{:?}", c.file).as_bytes());
            }
            if c.file.pal.is_none() {
                want = Some(enc::encode(&c.file).b);
            }
            Out::File(conv::file(&c.file, form))
        }
        1 => {
            let h = Gen::new(s, Cfg::default()).header();
            ctx.describe(|| format!("{h:?}"));
            what = "header";
            ctx.nontrivial(format!("{h:?}").as_bytes());
            let mut e = Enc::new(ver_of(&h.versions));
            e.header(&h);
            want = Some(e.b);
            Out::Header(conv::header(&h))
        }
        2 => {
            let o = one_property(s, 12);
            ctx.describe(|| o.show());
            ctx.nontrivial(&o.bytes);
            if s.chance(1, 3) {
                what = "body of a property";
                Out::Body(conv::value(&o.v, form), o.versions)
            } else {
                what = "property";
                Out::Prop(conv::value(&o.v, form), o.header, o.versions)
            }
        }
        _ => {
            let mut gn = Gen::new(s, Cfg::default());
            let versions = gn.versions();
            gn.ver = ver_of(&versions);
            let t = gn.text(4);
            ctx.describe(|| format!("{t:?}"));
            what = "text";
            ctx.nontrivial(format!("{t:?}").as_bytes());
            let mut e = Enc::new(gn.ver);
            e.text(&t);
            want = Some(e.b);
            Out::Text(conv::text(&t), versions)
        }
    };
    ctx.label(what);
    let quiet = Plan { piece: 0, interrupt: 0, seed: 0, fail: None, kind: ErrorKind::Other, once: false };
    let mut dev = Dev::new(vec![], 0, quiet);
    out.write(&mut dev).map_err(|e| format!("writing a {what} failed: {e}"))?;
    ctx.eval();
    let normal = dev.data;
    if let Some(w) = want
        && w != normal
    {
        return Err(format!("written bytes differ; {}", diff(&w, &normal)));
    }
    // slow devices, over old contents and from any position
    for _ in 0..3 {
        let mut p = plan(s);
        if normal.len() > 20000 {
            p.piece = p.piece.max(16) * 50;
        }
        let old: Vec<u8> = (0..s.below(30)).map(|i| 0xA0 ^ i as u8).collect();
        let old = if s.chance(1, 3) { [&old[..], &vec![0xEE; normal.len() + 9]].concat() } else { old };
        let start = s.idx(old.len().min(30) + 1);
        let mut dev = Dev::new(old.clone(), start, p);
        ctx.describe(|| format!("slow device {p:?} start {start}"));
        out.write(&mut dev).map_err(|e| format!("writing a {what} to a slow device failed: {e}"))?;
        ctx.eval();
        let end = start + normal.len();
        if dev.data[..start] != old[..start] || dev.data.len() < end || dev.data[start..end] != normal[..] {
            return Err(format!("a slow device received other bytes; {}", diff(&normal, &dev.data[start.min(dev.data.len())..])));
        }
        if old.len() > end && dev.data[end..] != old[end..] || old.len() <= end && dev.data.len() != end {
            return Err("writing changed bytes behind the output".into());
        }
    }
    // faults at every byte
    let kind = *s.pick(&KINDS);
    let base = plan(s);
    for at in points(s, normal.len(), ctx) {
        let mut p = Plan { fail: Some(at), kind, ..base };
        if normal.len() > 20000 {
            p.piece = 0;
        }
        let start = base.seed as usize % 5;
        let mut dev = Dev::new(vec![0x77; start], start, p);
        let r = out.write(&mut dev);
        ctx.eval();
        match r {
            Ok(()) => return Err(format!("a fault {kind:?} at byte {at} of {} was not reported ({what})", normal.len())),
            Err(e) if !same_fault(&e, kind) => return Err(format!("a fault {kind:?} at byte {at} was reported as {e:?} ({what})")),
            Err(_) => {}
        }
        let got = &dev.data[start.min(dev.data.len())..];
        if !normal.starts_with(got) {
            return Err(format!("after a fault at byte {at} the output is not a prefix of the {what}; {}", diff(&normal, got)));
        }
    }
    ctx.max("output bytes", normal.len() as u64);
    Ok(())
}

enum In {
    File(Option<u8>, Hints),
    Header,
    Prop(String, bool, Option<u32>, Vec<String>, Vec<(G16, u32)>, Hints),
    Text(Vec<(G16, u32)>),
}

#[derive(PartialEq, Debug, Clone)]
enum Val {
    File(GvasFile),
    Header(GvasHeader),
    Prop(Property),
    Text(FText),
}

impl In {
    fn read<R: Read + Seek>(&self, r: &mut R) -> Result<Val, Error> {
        match self {
            In::File(pal, hints) => GvasFile::read_with_hints(r, conv::game_arg(*pal), hints).map(Val::File),
            In::Header => GvasHeader::read(r).map(Val::Header),
            In::Prop(ty, header, suggested, stack, v, hints) => {
                let vers = conv::versions(v);
                let mut stack = stack.clone();
                let mut o = PropertyOptions { hints, properties_stack: &mut stack, custom_versions: &vers };
                Property::new(r, ty, *header, &mut o, *suggested).map(Val::Prop)
            }
            In::Text(v) => {
                let vers = conv::versions(v);
                let hints = no_hints();
                let mut stack = vec![];
                let o = PropertyOptions { hints: &hints, properties_stack: &mut stack, custom_versions: &vers };
                FText::read(r, &o).map(Val::Text)
            }
        }
    }
}

pub fn c16(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let what;
    let (input, mut data) = match s.weighted(&[6, 1, 2, 1]) {
        0 => {
            let c = g::file(s, Cfg { budget: 12, depth: 3, pal: true, large: true, ..Cfg::default() });
            ctx.describe(|| show(&c));
            let mut l = enc::encode(&c.file);
            what = if c.file.pal.is_some() { "Palworld file" } else { "plain file" };
            if s.chance(1, 5) {
                let (b, how) = mutate::damage(s, &l);
                ctx.describe(|| format!("damaged: {how}"));
                l.b = b;
                ctx.label("damaged");
            }
            if !c.file.props.is_empty() {
                ctx.nontrivial(&l.b);
            }
            let disk = enc::disk(&c.file, &l.b);
            (In::File(c.file.pal, c.hints), disk)
        }
        1 => {
            let h = Gen::new(s, Cfg::default()).header();
            let mut e = Enc::new(ver_of(&h.versions));
            e.header(&h);
            what = "header";
            ctx.nontrivial(&e.b);
            (In::Header, e.b)
        }
        2 => {
            let o = one_property(s, 12);
            ctx.describe(|| o.show());
            what = "property";
            ctx.nontrivial(&o.bytes);
            let input = In::Prop(o.v.type_name().to_string(), o.header, o.suggested(), o.stack.clone(), o.versions.clone(), o.hints.clone());
            let mut b = o.bytes;
            if s.chance(1, 3) && !o.spans.is_empty() {
                // sizes more often than other fields
                let sized: Vec<_> = o.spans.iter().filter(|x| matches!(x.kind, enc::Kind::Size32 | enc::Kind::SizeInner | enc::Kind::SizeFixed)).cloned().collect();
                let from = if !sized.is_empty() && s.chance(1, 2) { &sized } else { &o.spans };
                let sp = s.pick(from).clone();
                if sp.end > sp.start {
                    let v = if s.chance(1, 2) { mutate::field(&b, &sp).wrapping_add(1) } else { mutate::other_value(s, &b, &sp) };
                    mutate::put(&mut b, &sp, v);
                    ctx.describe(|| format!("damaged: {:?} at {} is {v}", sp.kind, sp.start));
                    ctx.label("damaged");
                }
            }
            (input, b)
        }
        _ => {
            let mut gn = Gen::new(s, Cfg::default());
            let versions = gn.versions();
            gn.ver = ver_of(&versions);
            let t = gn.text(4);
            ctx.describe(|| format!("{t:?}"));
            what = "text";
            let mut e = Enc::new(gn.ver);
            e.text(&t);
            ctx.nontrivial(&e.b);
            (In::Text(versions), e.b)
        }
    };
    ctx.label(what);
    if s.chance(1, 4) && !matches!(input, In::File(..)) {
        let n = s.range(1, 20);
        data.extend((0..n).map(|_| s.below(256) as u8));
    }
    ctx.describe(|| format!("bytes {}", hex(&data)));
    let mut cur = Cursor::new(&data[..]);
    let normal = input.read(&mut cur);
    let used = cur.position() as usize;
    let streaming = !matches!(input, In::File(..));
    ctx.label(if normal.is_ok() { "well-formed" } else { "malformed" });
    // slow devices
    for _ in 0..3 {
        let mut p = plan(s);
        if data.len() > 20000 {
            p.piece = p.piece.max(16) * 50;
        }
        let start = if s.chance(1, 2) { 0 } else { s.range(1, 40) as usize };
        let all = [&vec![0x47u8; start][..], &data].concat();
        let mut dev = Dev::new(all, start, p);
        ctx.describe(|| format!("slow device {p:?} start {start}"));
        let got = input.read(&mut dev);
        ctx.eval();
        match (&normal, &got) {
            (Ok(a), Ok(b)) => {
                if a != b {
                    return Err(format!("a slow device gave another value ({what}, {p:?}, start {start})"));
                }
                if streaming && dev.pos != start + used {
                    return Err(format!("reading a {what} consumed {} bytes from a slow device instead of {used}", dev.pos - start));
                }
            }
            (Err(a), Err(b)) => {
                if start == 0 && format!("{a:?}") != format!("{b:?}") {
                    return Err(format!("a slow device gave another error ({what}): {b:?} instead of {a:?}"));
                }
            }
            (Ok(_), Err(e)) => return Err(format!("reading a {what} from a slow device failed: {e} ({p:?}, start {start})")),
            (Err(e), Ok(_)) => return Err(format!("a slow device made a malformed {what} readable ({e})")),
        }
    }
    // faults at every byte
    let kind = *s.pick(&KINDS);
    let base = plan(s);
    let mut at_points = points(s, data.len(), ctx);
    at_points.push(data.len());
    for at in at_points {
        let mut p = Plan { fail: Some(at), kind, ..base };
        if data.len() > 20000 {
            p.piece = 0;
        }
        let start = base.seed as usize % 5;
        let all = [&vec![0x47u8; start][..], &data].concat();
        let mut dev = Dev::new(all, start, p);
        let r = input.read(&mut dev);
        ctx.eval();
        match r {
            Ok(_) if dev.fired => return Err(format!("a fault {kind:?} at byte {at} of {} was ignored and a value returned ({what})", data.len())),
            Err(e) if dev.fired && !same_fault(&e, kind) => return Err(format!("a fault {kind:?} at byte {at} of {} was reported as {e:?} ({what})", data.len())),
            Ok(v) => match &normal {
                Ok(n) if *n == v => {}
                Ok(_) => return Err(format!("an unreached fault at byte {at} changed the value ({what})")),
                Err(e) => return Err(format!("an unreached fault at byte {at} made a malformed {what} readable ({e})")),
            },
            Err(e) if !dev.fired => {
                if normal.is_ok() {
                    return Err(format!("an unreached fault at byte {at} made reading a {what} fail: {e}"));
                }
            }
            Err(_) => {}
        }
        if at < used && streaming && normal.is_ok() && !dev.fired {
            return Err(format!("byte {at} of a {what} was never read"));
        }
    }
    // faults of questions about the position
    for n in 0..12 {
        let mut dev = Dev::new(data.clone(), 0, Plan { interrupt: 0, piece: 0, ..base });
        dev.plan.kind = kind;
        dev.seeks = Some(n);
        let r = input.read(&mut dev);
        if !dev.lost {
            break;
        }
        ctx.eval();
        ctx.label("position unavailable");
        match (&normal, r) {
            (Ok(a), Ok(b)) if *a == b => {}
            (Ok(_), Ok(_)) => return Err(format!("a device without position gave another value ({what})")),
            (Ok(_), Err(e)) if !same_fault(&e, kind) => return Err(format!("a fault {kind:?} of the position was reported as {e:?} ({what})")),
            (Err(e), Ok(_)) => return Err(format!("a device without position made a malformed {what} readable ({e})")),
            _ => {}
        }
    }
    ctx.max("input bytes", data.len() as u64);
    Ok(())
}
