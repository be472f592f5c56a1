//! One request to gvas and what it comes to. Compiled into the harness as well, where gvas has
//! its optional features, overflow checks and debug assertions.
#![allow(unexpected_cfgs)]

use gvas::cursor_ext::{ReadExt, WriteExt};
use gvas::error::Error;
use gvas::game_version::GameVersion;
use gvas::properties::text_property::{FText, NumberFormattingOptions};
use gvas::properties::{Property, PropertyOptions, PropertyTrait};
use gvas::types::Guid;
use gvas::types::map::HashableIndexMap;
use gvas::{GvasFile, GvasHeader};
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

pub const DONE: u8 = 0;
pub const REFUSED: u8 = 1;
pub const PANIC: u8 = 2;

#[derive(Default)]
pub struct Request {
    /// 0 file, 1 header, 2 property, 3 text, 4 GUID text, 5 number format, 6 string.
    pub what: u8,
    pub palworld: bool,
    /// Values are copied, compared and hashed instead of printed.
    pub lean: bool,
    /// And taken through JSON, where that is compiled in.
    pub json: bool,
    pub ty: String,
    pub header: bool,
    pub suggested: Option<u32>,
    pub stack: Vec<String>,
    pub hints: HashMap<String, String>,
    pub versions: Vec<([u8; 16], u32)>,
    pub data: Vec<u8>,
    /// Where the device stops in reading and where in writing, by an error or a panic.
    pub stops: [Option<(u32, bool)>; 2],
}

fn put(b: &mut Vec<u8>, d: &[u8]) {
    b.extend_from_slice(&(d.len() as u32).to_le_bytes());
    b.extend_from_slice(d);
}

pub fn take<'a>(b: &mut &'a [u8]) -> &'a [u8] {
    let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
    let r = &b[4..4 + n];
    *b = &b[4 + n..];
    r
}

fn text(b: &mut &[u8]) -> String {
    String::from_utf8(take(b).to_vec()).unwrap()
}

fn number(b: &mut &[u8]) -> u32 {
    u32::from_le_bytes(take(b).try_into().unwrap())
}

impl Request {
    #[allow(dead_code)]
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![self.what, self.palworld as u8 | (self.lean as u8) << 1 | (self.json as u8) << 2, self.header as u8, self.suggested.is_some() as u8];
        put(&mut b, &self.suggested.unwrap_or(0).to_le_bytes());
        put(&mut b, self.ty.as_bytes());
        put(&mut b, &(self.stack.len() as u32).to_le_bytes());
        self.stack.iter().for_each(|s| put(&mut b, s.as_bytes()));
        put(&mut b, &(self.hints.len() as u32).to_le_bytes());
        self.hints.iter().for_each(|(k, v)| {
            put(&mut b, k.as_bytes());
            put(&mut b, v.as_bytes());
        });
        put(&mut b, &(self.versions.len() as u32).to_le_bytes());
        self.versions.iter().for_each(|(k, v)| {
            put(&mut b, k);
            put(&mut b, &v.to_le_bytes());
        });
        put(&mut b, &self.data);
        for s in self.stops {
            b.push(s.is_some() as u8 + s.is_some_and(|s| s.1) as u8);
            put(&mut b, &s.map_or(0, |s| s.0).to_le_bytes());
        }
        b
    }

    fn parse(b: &[u8]) -> Request {
        let mut r = Request { what: b[0], palworld: b[1] & 1 == 1, lean: b[1] & 2 == 2, json: b[1] & 4 == 4, header: b[2] == 1, ..Default::default() };
        let some = b[3] == 1;
        let b = &mut &b[4..];
        let n = number(b);
        r.suggested = some.then_some(n);
        r.ty = text(b);
        r.stack = (0..number(b)).map(|_| text(b)).collect();
        r.hints = (0..number(b)).map(|_| (text(b), text(b))).collect();
        r.versions = (0..number(b)).map(|_| (take(b).try_into().unwrap(), number(b))).collect();
        r.data = take(b).to_vec();
        for s in &mut r.stops {
            let kind = b[0];
            *b = &b[1..];
            let at = number(b);
            *s = (kind > 0).then_some((at, kind > 1));
        }
        r
    }
}

#[cfg(feature = "json")]
trait Json: serde::Serialize + serde::de::DeserializeOwned {
    fn through_json(&self) {
        if let Ok(j) = serde_json::to_string(self) {
            let _ = serde_json::from_str::<Self>(&j);
        }
    }
}
#[cfg(feature = "json")]
impl<T: serde::Serialize + serde::de::DeserializeOwned> Json for T {}
#[cfg(not(feature = "json"))]
trait Json {
    fn through_json(&self) {}
}
#[cfg(not(feature = "json"))]
impl<T> Json for T {}

/// A device that looks at the memory it is given, hands over little at a time and may stop.
struct Device<T> {
    inner: T,
    stop: Option<(u32, bool)>,
    lean: bool,
}

impl<T: Seek> Device<T> {
    fn next(&mut self, n: usize) -> std::io::Result<usize> {
        let Some((at, panics)) = self.stop else {
            return Ok(if self.lean { n.min(21) } else { n });
        };
        let left = (at as u64).saturating_sub(self.inner.stream_position()?);
        if left == 0 && n > 0 {
            if panics {
                panic!("the device stops");
            }
            return Err(std::io::Error::other("the device stops"));
        }
        Ok(n.min(21).min(left as usize))
    }
}

impl<T: Read + Seek> Read for Device<T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.lean {
            std::hint::black_box((b.first().copied(), b.last().copied()));
        }
        let n = self.next(b.len())?;
        self.inner.read(&mut b[..n])
    }
}

impl<T: Write + Seek> Write for Device<T> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.lean {
            std::hint::black_box((b.first().copied(), b.last().copied()));
        }
        let n = self.next(b.len())?;
        self.inner.write(&b[..n])
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl<T: Seek> Seek for Device<T> {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        self.inner.seek(to)
    }
}

/// A hasher that is cheap to interpret.
#[derive(Default)]
struct Sum(u64);

impl Hasher for Sum {
    fn write(&mut self, b: &[u8]) {
        self.0 = b.first().zip(b.last()).map_or(self.0, |(x, y)| self.0.rotate_left(5) ^ (*x as u64 | (*y as u64) << 8 | (b.len() as u64) << 16));
    }

    fn finish(&self) -> u64 {
        self.0
    }
}

fn show<T: Debug + Clone + PartialEq + Json>(r: &Request, v: &T, hash: impl Fn(&T, &mut Sum)) -> String {
    if !r.lean {
        return format!("{v:?}");
    }
    if r.json {
        v.through_json();
    }
    let c = v.clone();
    let (mut a, mut b) = (Sum::default(), Sum::default());
    hash(v, &mut a);
    hash(&c, &mut b);
    (c == *v && a.finish() == b.finish()).to_string()
}

/// What is read, printed; what is written from it; and how far the input was consumed.
fn run(r: &Request) -> Result<Vec<u8>, Error> {
    let mut c = Device { inner: Cursor::new(&r.data[..]), stop: r.stops[0], lean: r.lean };
    let mut out = Device { inner: Cursor::new(Vec::new()), stop: r.stops[1], lean: r.lean };
    let versions: HashableIndexMap<Guid, u32> = HashableIndexMap(r.versions.iter().map(|(k, v)| (Guid(*k), *v)).collect());
    let mut stack = r.stack.clone();
    let mut o = PropertyOptions { hints: &r.hints, properties_stack: &mut stack, custom_versions: &versions };
    let mut answer = vec![DONE];
    let (printed, written) = match r.what {
        0 => {
            let v = if r.palworld { GameVersion::Palworld } else { GameVersion::Default };
            let f = GvasFile::read_with_hints(&mut c, v, &r.hints)?;
            (show(r, &f, |f, h| f.properties.hash(h)), f.write(&mut out).map(|_| 0))
        }
        1 => {
            let h = GvasHeader::read(&mut c)?;
            (show(r, &h, |h, s| h.get_custom_versions().hash(s)), h.write(&mut out))
        }
        2 => {
            let p = Property::new(&mut c, &r.ty, r.header, &mut o, r.suggested)?;
            (show(r, &p, Hash::hash), p.write(&mut out, r.header, &mut o))
        }
        3 => {
            let t = FText::read(&mut c, &o)?;
            (show(r, &t, Hash::hash), t.write(&mut out, &mut o))
        }
        5 => {
            let n = NumberFormattingOptions::read(&mut c)?;
            (show(r, &n, Hash::hash), n.write(&mut out))
        }
        6 => {
            let t = c.read_fstring()?;
            (show(r, &t, Hash::hash), out.write_fstring(t.as_deref()))
        }
        _ => {
            let g = String::from_utf8_lossy(&r.data).parse::<Guid>();
            let ways = g.as_ref().ok().map(|g| (g.to_u8(), g.to_u32(), g.to_u128(), Guid::from(g.to_u32()), Guid::from(g.to_u128()), g.is_zero()));
            (format!("{g:?} {ways:?}"), Ok(0))
        }
    };
    put(&mut answer, printed.as_bytes());
    put(&mut answer, format!("{written:?}").as_bytes());
    put(&mut answer, out.inner.get_ref());
    put(&mut answer, &c.inner.position().to_le_bytes());
    Ok(answer)
}

pub fn answer(request: &[u8]) -> Vec<u8> {
    match run(&Request::parse(request)) {
        Ok(a) => a,
        Err(e) => [&[REFUSED][..], format!("{e:?}; {e}").as_bytes()].concat(),
    }
}
