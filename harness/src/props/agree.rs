//! C29, C30, C31 and C36: entry points, destinations and work.
#![allow(unreachable_patterns)]

use super::robust::{self, One};
use super::*;
use crate::alloc;
use crate::conv::{self, Form};
use crate::enc::{self, Enc};
use crate::r#gen::{self as g, Cfg};
use crate::mutate;
use crate::src::Src;
use gvas::cursor_ext::ReadExt;
use gvas::error::Error;
use gvas::properties::array_property::ArrayProperty;
use gvas::properties::delegate_property::*;
use gvas::properties::enum_property::EnumProperty;
use gvas::properties::field_path_property::FieldPathProperty;
use gvas::properties::map_property::MapProperty;
use gvas::properties::name_property::NameProperty;
use gvas::properties::object_property::ObjectProperty;
use gvas::properties::set_property::SetProperty;
use gvas::properties::str_property::StrProperty;
use gvas::properties::struct_property::StructPropertyValue;
use gvas::properties::text_property::*;
use gvas::properties::{Property, PropertyOptions, PropertyTrait};
use gvas::{GvasFile, GvasHeader};
use std::io::{self, BufWriter, Cursor, Read, Seek, SeekFrom, Write};

// ---- C29 ----

type Got = Result<Property, Error>;

/// Reads with the readers of the type itself, where it has any. Each result comes with the
/// position afterwards.
fn by_type(ty: &str, header: bool, b: &[u8], options: &mut PropertyOptions) -> Vec<(&'static str, Got, u64)> {
    let mut out = vec![];
    macro_rules! go {
        ($name:literal, $c:ident, $e:expr) => {{
            let mut cur = Cursor::new(b);
            let $c = &mut cur;
            let r: Got = $e.map(Into::into);
            out.push(($name, r, cur.position()));
        }};
    }
    macro_rules! plain {
        ($t:ident) => {{
            go!("read", c, $t::read(c, header));
            if header {
                go!("read_header", c, $t::read_header(c));
            }
        }};
    }
    match ty {
        "StrProperty" => plain!(StrProperty),
        "NameProperty" => plain!(NameProperty),
        "ObjectProperty" => plain!(ObjectProperty),
        "DelegateProperty" => plain!(DelegateProperty),
        "MulticastInlineDelegateProperty" => plain!(MulticastInlineDelegateProperty),
        "MulticastSparseDelegateProperty" => plain!(MulticastSparseDelegateProperty),
        "FieldPathProperty" => plain!(FieldPathProperty),
        "EnumProperty" if header => go!("read_header", c, EnumProperty::read_header(c)),
        "TextProperty" => {
            go!("read", c, TextProperty::read(c, header, options));
            if header {
                go!("read_header", c, TextProperty::read_header(c, options));
            } else {
                go!("the text's own read", c, FText::read(c, options).map(|value| TextProperty { value }));
            }
        }
        "ArrayProperty" if header => go!("read_header", c, ArrayProperty::read_header(c, options)),
        "SetProperty" if header => go!("read_header", c, SetProperty::read_header(c, options)),
        "MapProperty" if header => go!("read_header", c, MapProperty::read_header(c, options)),
        _ => {}
    }
    out
}

/// Writes the value itself rather than the property around it.
fn inner(p: &Property, header: bool, body: bool, options: &mut PropertyOptions) -> Result<(Vec<u8>, usize), Error> {
    let mut out = Cursor::new(Vec::new());
    let c = &mut out;
    macro_rules! each {
        ($($v:ident)*) => {
            match p {
                $(Property::$v(x) => if body { x.write_body(c, options) } else { x.write(c, header, options) },)*
                _ => if body { p.write_body(c, options) } else { p.write(c, header, options) },
            }
        };
    }
    let n = each!(ArrayProperty BoolProperty ByteProperty DoubleProperty EnumProperty FloatProperty Int16Property Int64Property
        Int8Property IntProperty MapProperty NameProperty ObjectProperty DelegateProperty MulticastInlineDelegateProperty
        MulticastSparseDelegateProperty FieldPathProperty SetProperty StrProperty StructProperty StructPropertyValue TextProperty
        UInt16Property UInt32Property UInt64Property UnknownProperty)?;
    Ok((out.into_inner(), n))
}

fn outer(p: &Property, header: bool, body: bool, options: &mut PropertyOptions) -> Result<(Vec<u8>, usize), Error> {
    let mut out = Cursor::new(Vec::new());
    let n = if body { p.write_body(&mut out, options)? } else { p.write(&mut out, header, options)? };
    Ok((out.into_inner(), n))
}

pub fn c29(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    match s.weighted(&[5, 4, 3, 3]) {
        0 => single_read(s, ctx),
        1 => single_write(s, ctx),
        2 => whole_read(s, ctx),
        _ => whole_write(s, ctx),
    }
}

fn single_read(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut o: One = robust::one_property(s, 12);
    let mut damaged = String::new();
    if s.chance(1, 2) && !o.spans.is_empty() {
        let sp = o.spans[s.idx(o.spans.len())].clone();
        if sp.end > sp.start {
            let v = mutate::other_value(s, &o.bytes, &sp);
            mutate::put(&mut o.bytes, &sp, v);
            damaged = format!(" {:?} at {} is {v}", sp.kind, sp.start);
        }
    }
    let ty = o.v.type_name().to_string();
    ctx.describe(|| format!("{}{damaged} as {}", o.show(), hex(&o.bytes)));
    ctx.label("one property, read");
    let vers = conv::versions(&o.versions);
    let run = |b: &[u8]| {
        let mut stack = o.stack.clone();
        let mut options = PropertyOptions { hints: &o.hints, properties_stack: &mut stack, custom_versions: &vers };
        let mut c = Cursor::new(b);
        let suggested = if o.header { None } else { Some(o.bytes.len() as u32) };
        let r = Property::new(&mut c, &ty, o.header, &mut options, suggested);
        (r, c.position())
    };
    let more = [&o.bytes[..], &[0x5A; 7]].concat();
    let (general, at) = run(&more);
    ctx.label(if general.is_ok() { "accepted" } else { "rejected" });
    let mut stack = o.stack.clone();
    stack.push(ty.clone());
    let mut options = PropertyOptions { hints: &o.hints, properties_stack: &mut stack, custom_versions: &vers };
    let own = by_type(&ty, o.header, &more, &mut options);
    if !own.is_empty() {
        ctx.nontrivial(&o.bytes);
    }
    for (name, r, pos) in own {
        ctx.eval();
        match (&general, &r) {
            (Ok(a), Ok(b)) if a == b => {
                if at != pos {
                    return Err(format!("{name} of {ty} stops at {pos}, the general reader at {at}"));
                }
            }
            (Ok(_), Ok(_)) => return Err(format!("{name} of {ty} returns another value than the general reader")),
            (Err(_), Err(_)) => {}
            (Ok(_), Err(e)) => return Err(format!("{name} of {ty} refuses what the general reader accepts: {e}")),
            (Err(e), Ok(_)) => return Err(format!("{name} of {ty} accepts what the general reader refuses: {e}")),
        }
    }
    // the same value as the only property of a file
    if o.header && o.stack.len() == 1 && o.stack[0] != "None" {
        let h = MHeader { ue5: None, package: 522, engine: (4, 27, 2, 0), branch: "b".into(), versions: o.versions.clone(), class_name: "c".into() };
        let mut e = Enc::new(ver_of(&o.versions));
        e.header(&h);
        e.s(&o.stack[0]);
        e.s(&ty);
        let start = e.b.len();
        let mut b = e.b;
        b.extend_from_slice(&o.bytes);
        let mut e = Enc::new(ver_of(&o.versions));
        e.s("None");
        b.extend_from_slice(&e.b);
        b.extend_from_slice(&[0; 4]);
        let (alone, end) = run(&b[start..]);
        let file = conv::read(&b, None, &o.hints);
        ctx.eval();
        match (alone, file) {
            (Ok(p), Ok(f)) => {
                if f.properties.get(&o.stack[0]) != Some(&p) {
                    return Err("a property read on its own is not the one found in a file".into());
                }
            }
            (Err(_), Err(_)) => {}
            (Err(e), Ok(_)) => return Err(format!("a file is accepted whose only property is refused on its own: {e}")),
            (Ok(_), Err(e)) if start as u64 + end == (b.len() - 13) as u64 => return Err(format!("a file is refused whose only property is accepted on its own: {e}")),
            _ => {}
        }
    }
    Ok(())
}

fn single_write(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let o: One = robust::one_property(s, 12);
    let form = if s.chance(1, 3) { Form::General } else { Form::Compact };
    ctx.describe(|| o.show());
    ctx.label("one property, written");
    ctx.nontrivial(format!("{:?}", o.v).as_bytes());
    let vers = conv::versions(&o.versions);
    let mut stack = o.stack.clone();
    let mut options = PropertyOptions { hints: &o.hints, properties_stack: &mut stack, custom_versions: &vers };
    let p = conv::value(&o.v, form);
    let name = |e: Error| format!("writing failed: {e}");
    let (want, n) = outer(&p, o.header, false, &mut options).map_err(name)?;
    let (got, m) = inner(&p, o.header, false, &mut options).map_err(name)?;
    ctx.eval();
    if want != got || n != m {
        return Err(format!("the property and the value in it are written differently; {}", diff(&want, &got)));
    }
    // boolean flags of whole properties are stored before the body
    let bool_ = matches!(p, Property::BoolProperty(_));
    let (body, n) = outer(&p, o.header, true, &mut options).map_err(name)?;
    let (inner_body, m) = inner(&p, o.header, true, &mut options).map_err(name)?;
    ctx.eval();
    if body != inner_body || n != m {
        return Err(format!("the bodies of the property and of the value in it are written differently; {}", diff(&body, &inner_body)));
    }
    if !bool_ {
        if !want.ends_with(&body) {
            return Err("a written property does not end in its body".into());
        }
        if !o.header && want != body {
            return Err("a property without header is not its body".into());
        }
    }
    match &p {
        Property::TextProperty(t) => {
            let mut c = Cursor::new(Vec::new());
            t.value.write(&mut c, &options).map_err(name)?;
            ctx.eval();
            if c.get_ref() != &body {
                return Err("a text is written otherwise than as a property".into());
            }
            let mut c = Cursor::new(Vec::new());
            t.value.history.write(&mut c, &options).map_err(name)?;
            ctx.eval();
            if c.get_ref()[..] != body[4..] {
                return Err("a text history is written otherwise than within its text".into());
            }
        }
        Property::StructProperty(x) => {
            let v: Property = x.value.clone().into();
            let (b, _) = outer(&v, false, false, &mut options).map_err(name)?;
            ctx.eval();
            if b != body {
                return Err("a struct value is written otherwise than within its struct".into());
            }
            if let StructPropertyValue::CustomStruct(fields) = &x.value {
                let mut all = vec![];
                for (k, list) in &fields.0 {
                    for q in list {
                        let mut e = Enc::new(ver_of(&o.versions));
                        e.s(k);
                        all.extend_from_slice(&e.b);
                        all.extend_from_slice(&outer(q, true, false, &mut options).map_err(name)?.0);
                    }
                }
                let mut e = Enc::new(ver_of(&o.versions));
                e.s("None");
                all.extend_from_slice(&e.b);
                ctx.eval();
                if all != body {
                    return Err(format!("a struct is not written as its fields one after the other; {}", diff(&all, &body)));
                }
            }
        }
        _ => {}
    }
    Ok(())
}

fn whole_read(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let c = g::file(s, Cfg { budget: 20, deep: true, ..Cfg::default() });
    let l = enc::encode(&c.file);
    let (b, what) = if s.chance(1, 2) { (l.b.clone(), "intact".to_string()) } else { mutate::damage(s, &l) };
    let no_hint = s.chance(1, 4);
    let hints = if no_hint { no_hints() } else { c.hints.clone() };
    ctx.describe(|| format!("{}\n{what}, hints {hints:?}: {}", show(&c), hex(&b)));
    ctx.label("file, read");
    if !c.file.props.is_empty() {
        ctx.nontrivial(&b);
    }
    let base = conv::read(&b, None, &hints);
    ctx.label(if base.is_ok() { "accepted" } else { "rejected" });
    // the other ways to the same contents
    let mut others: Vec<(String, Result<GvasFile, Error>)> = vec![];
    if hints.is_empty() {
        others.push(("read without hints".into(), GvasFile::read(&mut Cursor::new(&b), conv::game_arg(None))));
    }
    let k = s.below(3) as u8;
    let boxed = enc::pal_wrap(&b, k, (s.below(10) as u32, 6));
    others.push((format!("a container of kind {k}"), conv::read(&boxed, Some(k), &hints)));
    if hints.is_empty() {
        others.push((format!("a container of kind {k}, read without hints"), GvasFile::read(&mut Cursor::new(&boxed), conv::game_arg(Some(k)))));
    }
    for (name, r) in others {
        ctx.eval();
        match (&base, &r) {
            (Ok(x), Ok(y)) if x.header == y.header && x.properties == y.properties => {}
            (Err(_), Err(_)) => {}
            (Ok(_), Ok(_)) => return Err(format!("{name}: another value")),
            (Ok(_), Err(e)) => return Err(format!("{name}: refused ({e}), while the plain file is accepted")),
            (Err(e), Ok(_)) => return Err(format!("{name}: accepted, while the plain file is refused ({e})")),
        }
    }
    let mut cur = Cursor::new(&b);
    let head = GvasHeader::read(&mut cur);
    ctx.eval();
    match (&base, &head) {
        (Ok(f), Ok(h)) if &f.header != h => return Err("the header read on its own is another one".into()),
        (Ok(_), Err(e)) => return Err(format!("the header of an accepted file is refused on its own: {e}")),
        _ => {}
    }
    // the properties one by one, from where the header ends
    if let (Ok(f), true) = (&base, what == "intact") {
        let (_, _, _, _, versions, _) = conv::header_parts(&f.header);
        for (name, p) in &f.properties.0 {
            let mut e = Enc::new(c.file.ver());
            e.s(name);
            let m = &c.file.props.iter().find(|(n, _)| n == name).ok_or("a property of an unknown name")?.1;
            e.s(m.type_name());
            cur.seek(SeekFrom::Current(e.b.len() as i64)).map_err(|e| e.to_string())?;
            let mut stack = vec![name.clone()];
            let mut options = PropertyOptions { hints: &hints, properties_stack: &mut stack, custom_versions: versions };
            let q = Property::new(&mut cur, m.type_name(), true, &mut options, None).map_err(|e| format!("property {name:?} of an accepted file is refused on its own: {e}"))?;
            ctx.eval();
            if &q != p {
                return Err(format!("property {name:?} read on its own is another one"));
            }
        }
        if cur.position() != (l.marker_end - 9) as u64 {
            return Err(format!("the properties read one by one end at {}, the marker starts at {}", cur.position(), l.marker_end - 9));
        }
    }
    Ok(())
}

fn whole_write(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let c = g::file(s, Cfg { pal: true, budget: 20, deep: true, ..Cfg::default() });
    let form = if s.chance(1, 3) { Form::General } else { Form::Compact };
    ctx.describe(|| show(&c));
    ctx.label("file, written");
    if !c.file.props.is_empty() {
        ctx.nontrivial(format!("{:?}", c.file).as_bytes());
    }
    let f = conv::file(&c.file, form);
    let out = conv::write(&f).map_err(|e| format!("saving failed: {e}"))?;
    let plain = super::basic::unwrap_pal(c.file.pal, &out)?;
    let mut want = Cursor::new(Vec::new());
    f.header.write(&mut want).map_err(|e| format!("writing the header failed: {e}"))?;
    let mut want = want.into_inner();
    let (_, _, _, _, versions, _) = conv::header_parts(&f.header);
    for (name, p) in &f.properties.0 {
        let mut e = Enc::new(c.file.ver());
        e.s(name);
        want.extend_from_slice(&e.b);
        let hints = no_hints();
        let mut stack = vec![];
        let mut options = PropertyOptions { hints: &hints, properties_stack: &mut stack, custom_versions: versions };
        want.extend_from_slice(&outer(p, true, false, &mut options).map_err(|e| format!("writing property {name:?} failed: {e}"))?.0);
    }
    let mut e = Enc::new(c.file.ver());
    e.s("None");
    want.extend_from_slice(&e.b);
    want.extend_from_slice(&[0; 4]);
    ctx.eval();
    if plain != want {
        return Err(format!("a file is not saved as its parts one after the other; {}", diff(&want, &plain)));
    }
    Ok(())
}

// ---- C30 ----

enum Thing {
    File(GvasFile),
    Header(GvasHeader),
    Prop(Property),
    Text(FText),
}

pub fn c30(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    // things to write, with the bytes they become in an empty destination
    let c = g::file(s, Cfg { pal: true, budget: 12, ..Cfg::default() });
    let vers = conv::versions(&c.file.header.versions);
    let hints = no_hints();
    let mut things = vec![];
    let f = conv::file(&c.file, if s.chance(1, 4) { Form::General } else { Form::Compact });
    things.push(("header", Thing::Header(f.header.clone())));
    for p in f.properties.0.values().take(2) {
        things.push(("property", Thing::Prop(p.clone())));
        if let Property::TextProperty(t) = p {
            things.push(("text", Thing::Text(t.value.clone())));
        }
    }
    things.push(("file", Thing::File(f)));
    things.reverse();
    let save = |t: &Thing, w: &mut dyn WriteSeek| -> Result<(), Error> {
        let mut stack = vec![];
        let mut options = PropertyOptions { hints: &hints, properties_stack: &mut stack, custom_versions: &vers };
        let mut w = Dyn(w);
        match t {
            Thing::File(f) => f.write(&mut w),
            Thing::Header(h) => h.write(&mut w).map(|_| ()),
            Thing::Prop(p) => p.write(&mut w, true, &mut options).map(|_| ()),
            Thing::Text(t) => t.write(&mut w, &options).map(|_| ()),
        }
    };
    let mut bytes = vec![];
    for (name, t) in &things {
        let mut out = Cursor::new(Vec::new());
        save(t, &mut out).map_err(|e| format!("saving a {name} failed: {e}"))?;
        bytes.push(out.into_inner());
    }
    if c.file.pal.is_none() {
        let plain = enc::encode(&c.file).b;
        if bytes[0] != plain {
            return Err(format!("the file is not saved in its normal form; {}", diff(&plain, &bytes[0])));
        }
    }
    // a destination with contents
    let mut model: Vec<u8> = (0..s.below(40)).map(|_| s.below(256) as u8).collect();
    if s.chance(1, 3) {
        let n = s.below(600) as usize;
        model.extend((0..n).map(|i| (i * 7 + 1) as u8 | 0x80));
    }
    let mut pos = s.below(model.len() as u64 + 3) as usize;
    let buffered = s.chance(1, 4);
    let steps = s.range(1, 6);
    let mut log = format!("{} bytes, position {pos}, buffered {buffered}", model.len());
    let mut dest = Cursor::new(model.clone());
    dest.set_position(pos as u64);
    let mut buf_dest = BufWriter::with_capacity(s.range(1, 64) as usize, dest);
    let w: &mut dyn WriteSeek = if buffered { &mut buf_dest } else { buf_dest.get_mut() };
    let mut written = 0;
    for _ in 0..steps {
        match s.weighted(&[4, 1]) {
            0 => {
                let i = s.idx(things.len());
                let (name, t) = &things[i];
                log.push_str(&format!("; {name} {i}"));
                let before = match t {
                    Thing::File(f) => Some(f.clone()),
                    _ => None,
                };
                save(t, w).map_err(|e| format!("saving a {name} failed: {e} ({log})"))?;
                written += 1;
                if let (Some(b), Thing::File(f)) = (before, t)
                    && &b != f
                {
                    return Err(format!("saving changed the file ({log})"));
                }
                let b = &bytes[i];
                if model.len() < pos + b.len() {
                    model.resize(pos + b.len(), 0);
                }
                model[pos..pos + b.len()].copy_from_slice(b);
                pos += b.len();
                ctx.eval();
                let now = w.stream_position().map_err(|e| e.to_string())?;
                if now != pos as u64 {
                    return Err(format!("after saving the destination is at {now} instead of {pos} ({log})"));
                }
            }
            _ => {
                pos = s.below(model.len() as u64 + 5) as usize;
                log.push_str(&format!("; seek {pos}"));
                w.seek(SeekFrom::Start(pos as u64)).map_err(|e| e.to_string())?;
            }
        }
    }
    w.flush().map_err(|e| e.to_string())?;
    ctx.describe(|| format!("{}\n{log}", show(&c)));
    ctx.label(if buffered { "buffered" } else { "direct" });
    if let Some(k) = c.file.pal {
        ctx.label(format!("Palworld {k}"));
    }
    if written >= 2 && !c.file.props.is_empty() {
        ctx.nontrivial(format!("{:?}{log}", c.file).as_bytes());
    }
    ctx.eval();
    let got = buf_dest.into_inner().map_err(|e| e.to_string())?.into_inner();
    if got != model {
        return Err(format!("the destination differs from the saves written into it; {} ({log})", diff(&model, &got)));
    }
    Ok(())
}

trait WriteSeek: Write + Seek {}
impl<T: Write + Seek> WriteSeek for T {}

struct Dyn<'a>(&'a mut dyn WriteSeek);

impl Write for Dyn<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}

impl Seek for Dyn<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.0.seek(p)
    }
}

// ---- C31 ----

/// Requests, device calls and bytes asked of the device, per byte of input and beyond it.
const PER_BYTE: u64 = 32;
const BEYOND: u64 = 1 << 14;
/// Bytes requested from the allocator in all.
const TOTAL_PER_BYTE: u64 = 2000;
const TOTAL_BEYOND: u64 = 4 << 20;

struct Metered<'a> {
    c: Cursor<&'a [u8]>,
    calls: u64,
    bytes: u64,
    most: u64,
}

impl Metered<'_> {
    fn call(&mut self) {
        self.calls += 1;
        if self.calls > self.most || self.bytes > self.most {
            panic!("ORACLE: more than {} calls or bytes asked of a source of {} bytes", self.most, self.c.get_ref().len());
        }
    }
}

impl Read for Metered<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.call();
        let n = self.c.read(b)?;
        self.bytes += n as u64;
        Ok(n)
    }
}

impl Seek for Metered<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.call();
        self.c.seek(p)
    }
}

/// Reads a plain file with the public readers of its parts.
fn pieces(dev: &mut Metered, hints: &Hints) -> Result<(), Error> {
    let h = GvasHeader::read(dev)?;
    let (_, _, _, _, versions, _) = conv::header_parts(&h);
    loop {
        let name = dev.read_string()?;
        if name == "None" {
            return Ok(());
        }
        let ty = dev.read_string()?;
        let mut stack = vec![name];
        let mut options = PropertyOptions { hints, properties_stack: &mut stack, custom_versions: versions };
        Property::new(dev, &ty, true, &mut options, None)?;
    }
}

pub fn c31(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let h = robust::claims(s);
    ctx.describe(|| format!("{} hints {:?} bytes {}", h.what, h.hints, hex(&h.bytes)));
    if h.hard {
        ctx.nontrivial(&h.bytes);
    }
    ctx.label(if h.pal.is_some() { "Palworld file" } else { "plain file" });
    let size = (h.bytes.len() + h.delivered) as u64;
    let most = PER_BYTE * size + BEYOND;
    if h.pal.is_none() {
        // the same file piece by piece, where every step of the reader is a call to the source
        let mut dev = Metered { c: Cursor::new(&h.bytes), calls: 0, bytes: 0, most };
        let (ok, _, _) = alloc::work(most, || pieces(&mut dev, &h.hints).is_ok());
        ctx.eval();
        ctx.label(if ok { "accepted in pieces" } else { "rejected in pieces" });
        ctx.max("calls in pieces", dev.calls);
        ctx.max("calls in pieces per 1000 bytes beyond 64 calls", dev.calls.saturating_sub(64) * 1000 / size.max(1));
    }
    let mut dev = Metered { c: Cursor::new(&h.bytes), calls: 0, bytes: 0, most };
    let (ok, count, total) = alloc::work(most, || GvasFile::read_with_hints(&mut dev, conv::game_arg(h.pal), &h.hints).is_ok());
    ctx.eval();
    ctx.label(if ok { "accepted" } else { "rejected" });
    ctx.max("device calls", dev.calls);
    ctx.max("device calls per 1000 bytes beyond 64 calls", dev.calls.saturating_sub(64) * 1000 / size.max(1));
    ctx.max("requests per 1000 bytes beyond 64 requests", count.saturating_sub(64) * 1000 / size.max(1));
    ctx.max("bytes requested per byte beyond 1 MiB", total.saturating_sub(1 << 20) / size.max(1));
    if total > TOTAL_PER_BYTE * size + TOTAL_BEYOND {
        return Err(format!("reading {size} input bytes requested {total} bytes of memory in all"));
    }
    Ok(())
}

// ---- C36 ----

/// Requests and device calls per byte of output and beyond it.
const SAVE_CALLS: (u64, u64) = (4, 1 << 9);
/// Bytes requested in all and held at once, per byte of output counted once for every property
/// that encloses it.
const SAVE_TOTAL: (u64, u64) = (200, 1 << 18);
const SAVE_PEAK: (u64, u64) = (64, 1 << 17);
/// What compression holds beyond that.
const SAVE_PACK: u64 = 4 << 20;

/// A destination that counts and keeps nothing.
struct Scale {
    at: u64,
    calls: u64,
    bytes: u64,
    most: u64,
}

impl Scale {
    fn call(&mut self) {
        self.calls += 1;
        if self.calls > self.most || self.bytes > self.most {
            panic!("ORACLE: more than {} calls or bytes sent to the destination", self.most);
        }
    }
}

impl Write for Scale {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.bytes += b.len() as u64;
        self.at += b.len() as u64;
        self.call();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.call();
        Ok(())
    }
}

impl Seek for Scale {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.call();
        self.at = match p {
            SeekFrom::Start(n) => n,
            SeekFrom::Current(n) => self.at.wrapping_add_signed(n),
            SeekFrom::End(n) => self.bytes.wrapping_add_signed(n),
        };
        Ok(self.at)
    }
}

/// The bytes of an encoding, each counted once for itself and once for every sized property it is
/// part of.
fn volume(b: &[u8], spans: &[enc::Span]) -> u64 {
    let sized = spans.iter().filter(|x| matches!(x.kind, enc::Kind::Size32 | enc::Kind::SizeInner | enc::Kind::SizeUnknown));
    b.len() as u64 + sized.map(|x| u32::from_le_bytes(b[x.start..x.start + 4].try_into().unwrap()) as u64).sum::<u64>()
}

pub fn c36(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let form = if s.chance(1, 4) { Form::General } else { Form::Compact };
    if s.chance(1, 3) {
        let o = robust::one_property(s, 30);
        ctx.describe(|| format!("property {:?} {} header", o.v, if o.header { "with" } else { "without" }));
        ctx.label("property");
        // the name of the type comes with the header, but is not among the bytes
        let named = if o.header { 6 + 2 * o.v.type_name().encode_utf16().count() as u64 } else { 0 };
        let v = conv::value(&o.v, form);
        let versions = conv::versions(&o.versions);
        let mut stack = o.stack.clone();
        let mut options = PropertyOptions { hints: &o.hints, properties_stack: &mut stack, custom_versions: &versions };
        return weigh(ctx, &o.bytes, &o.spans, named, None, |dev| v.write(dev, o.header, &mut options).map(|_| ()));
    }
    let cfg = match s.weighted(&[6, 2, 1]) {
        0 => Cfg { deep: true, pal: true, ..Cfg::default() },
        1 => Cfg { deep: true, budget: 12, ..Cfg::default() },
        _ => Cfg { large: true, pal: true, ..Cfg::default() },
    };
    let c = g::file(s, cfg);
    ctx.describe(|| show(&c));
    ctx.label(if c.file.pal.is_some() { "Palworld file" } else { "plain file" });
    let l = enc::encode(&c.file);
    let f = conv::file(&c.file, form);
    weigh(ctx, &l.b, &l.spans, 0, c.file.pal, |dev| f.write(dev))
}

fn weigh(ctx: &mut Ctx, b: &[u8], spans: &[enc::Span], named: u64, pal: Option<u8>, save: impl FnOnce(&mut Scale) -> Result<(), Error>) -> Result<(), String> {
    let (size, volume) = (b.len() as u64 + named, volume(b, spans) + named);
    let most = SAVE_CALLS.0 * size + SAVE_CALLS.1;
    let pack = if pal.is_some() { SAVE_PACK } else { 0 };
    let mut dev = Scale { at: 0, calls: 0, bytes: 0, most };
    let (((r, peak), total), count) = {
        let (r, count, total) = alloc::work(most, || alloc::peak(|| save(&mut dev)));
        ((r, total), count)
    };
    ctx.eval();
    r.map_err(|e| format!("saving failed: {e}"))?;
    ctx.label(if volume > 10 * size { "deeply nested" } else if volume > 3 * size { "nested" } else { "flat" });
    if size > 2000 || volume > 3 * size {
        ctx.nontrivial(b);
    }
    ctx.max("output bytes", size);
    ctx.max("calls per 1000 bytes beyond 64 calls", dev.calls.saturating_sub(64) * 1000 / size.max(1));
    ctx.max("requests per 1000 bytes beyond 64 requests", count.saturating_sub(64) * 1000 / size.max(1));
    if pal.is_none() {
        ctx.max("requested per 100 bytes of volume beyond 4 KiB", total.saturating_sub(1 << 12) * 100 / volume.max(1));
        ctx.max("held per 100 bytes of volume beyond 4 KiB", (peak as u64).saturating_sub(1 << 12) * 100 / volume.max(1));
    } else {
        ctx.max("requested by compression beyond 10 times the volume", total.saturating_sub(10 * volume));
    }
    if total > SAVE_TOTAL.0 * volume + SAVE_TOTAL.1 + pack {
        return Err(format!("saving {size} bytes requested {total} bytes of memory in all"));
    }
    if peak as u64 > SAVE_PEAK.0 * volume + SAVE_PEAK.1 + pack {
        return Err(format!("saving {size} bytes held {peak} bytes of memory"));
    }
    Ok(())
}
