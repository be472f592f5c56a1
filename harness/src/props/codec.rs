//! C17 and C18: strings, flags, enums and GUIDs on their own.

use super::*;
use crate::r#gen::{Cfg, Gen, interesting, unicode_char};
use crate::src::Src;
use gvas::cursor_ext::{ReadExt, WriteExt};
use gvas::game_version::PalworldCompressionType;
use gvas::properties::text_property::{DateTimeStyle, RoundingMode, TransformType};
use gvas::types::Guid;
use std::collections::HashMap;
use std::io::Cursor;
use std::str::FromStr;

const MAX: usize = 131072;

fn encode(s: &str) -> Vec<u8> {
    let mut b = vec![];
    if s.bytes().all(|c| c < 128) {
        b.extend_from_slice(&(s.len() as i32 + 1).to_le_bytes());
        b.extend_from_slice(s.as_bytes());
        b.push(0);
    } else {
        let w: Vec<u16> = s.encode_utf16().collect();
        b.extend_from_slice(&(-(w.len() as i32) - 1).to_le_bytes());
        w.iter().for_each(|x| b.extend_from_slice(&x.to_le_bytes()));
        b.extend_from_slice(&[0, 0]);
    }
    b
}

/// What a reader of nullable strings has to make of the bytes: the string and the bytes used.
fn decode(b: &[u8]) -> Option<(Option<String>, usize)> {
    let len = i32::from_le_bytes(b.get(..4)?.try_into().ok()?);
    let n = len.unsigned_abs() as usize;
    if n > MAX {
        return None;
    }
    if n == 0 {
        return Some((None, 4));
    }
    if len > 0 {
        let body = b.get(4..4 + n)?;
        if body[n - 1] != 0 {
            return None;
        }
        Some((Some(std::str::from_utf8(&body[..n - 1]).ok()?.to_string()), 4 + n))
    } else {
        let body = b.get(4..4 + n * 2)?;
        let w: Vec<u16> = body.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
        if w[n - 1] != 0 {
            return None;
        }
        Some((Some(String::from_utf16(&w[..n - 1]).ok()?), 4 + n * 2))
    }
}

fn size_at_limit(s: &mut Src) -> String {
    let n = *s.pick(&[131070usize, 131071, 131072, 131073, 140000, 65535, 65536]);
    let c = *s.pick(&['a', 'Ж', '😀', '\0', '\u{7f}', '\u{80}']);
    let mut t: String = std::iter::repeat_n(c, n).collect();
    if s.chance(1, 3) {
        t.pop();
        t.push(*s.pick(&['b', 'é', '😀']));
    }
    t
}

pub fn c17(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let pre = s.below(6) as usize;
    let tail: Vec<u8> = (0..s.below(6)).map(|_| s.below(256) as u8).collect();
    match s.weighted(&[10, 10, 1, 1, 2]) {
        0 => {
            let t: Option<String> = if s.chance(1, 60) {
                Some(size_at_limit(s))
            } else {
                match s.weighted(&[4, 3, 1, 1]) {
                    0 => Gen::new(s, Cfg::default()).fs(),
                    1 => {
                        let n = s.range(0, 20);
                        Some((0..n).map(|_| unicode_char(s)).collect())
                    }
                    2 => {
                        let n = s.range(0, 20);
                        Some((0..n).map(|_| s.below(128) as u8 as char).collect())
                    }
                    _ => Some(s.pick(&["", "\0", "a\0", "\0a", "\u{7f}", "\u{80}", "\u{feff}a", "a\u{ffff}", "\u{10ffff}", "\u{d7ff}\u{e000}"]).to_string()),
                }
            };
            ctx.describe(|| format!("string {:?} after {pre} bytes", t.as_ref().map(|t| t.chars().take(400).collect::<String>())));
            let units = t.as_ref().map_or(0, |t| if t.is_ascii() { t.len() } else { t.encode_utf16().count() } + 1);
            let fits = units <= MAX;
            ctx.label(match &t {
                None => "null",
                Some(_) if !fits => "too long",
                Some(t) if t.is_ascii() => "narrow",
                Some(_) => "wide",
            });
            if t.as_ref().is_some_and(|t| !t.is_empty()) {
                ctx.nontrivial(t.as_ref().map_or(&[][..], |t| t.as_bytes()));
            }
            let want = t.as_ref().map_or(vec![0; 4], |t| encode(t));
            for nullable in [false, true] {
                let Some(text) = (if nullable { Some("") } else { t.as_deref() }) else { continue };
                let mut out = Cursor::new(vec![0x5A; pre]);
                out.set_position(pre as u64);
                let r = if nullable { out.write_fstring(t.as_deref()) } else { out.write_string(text) };
                ctx.eval();
                let r = match (fits, r) {
                    (true, Ok(n)) => n,
                    (true, Err(e)) => return Err(format!("writing a string of {units} units failed: {e}")),
                    (false, Ok(_)) => return Err(format!("a string of {units} units was written")),
                    (false, Err(_)) => continue,
                };
                let out = out.into_inner();
                if out[pre..] != want[..] {
                    return Err(format!("string stored differently; {}", diff(&want, &out[pre..])));
                }
                if r != want.len() {
                    return Err(format!("writing a string reported {r} bytes instead of {}", want.len()));
                }
            }
            // and back; too long ones are refused as well
            let data = [&vec![0x5A; pre][..], &want, &tail].concat();
            for nullable in [false, true] {
                let mut cur = Cursor::new(&data[..]);
                cur.set_position(pre as u64);
                let r = if nullable { cur.read_fstring() } else { cur.read_string().map(Some) };
                ctx.eval();
                let ok = fits && (nullable || t.is_some());
                match r {
                    Ok(got) if ok => {
                        if got != t {
                            return Err("a string reads back as another one".into());
                        }
                        if cur.position() != (pre + want.len()) as u64 {
                            return Err(format!("reading a string consumed {} of {} bytes", cur.position() as i64 - pre as i64, want.len()));
                        }
                    }
                    Err(_) if !ok => {}
                    Ok(_) => return Err(format!("a string of {units} units was read (nullable {nullable})")),
                    Err(e) => return Err(format!("reading a string of {units} units failed: {e}")),
                }
            }
            Ok(())
        }
        1 => {
            // any stored form
            let len: i64 = match s.weighted(&[6, 1, 2, 2]) {
                0 => s.range(0, 12) as i64,
                1 => 0,
                2 => s.range(1, 6) as i64,
                _ => *s.pick(&[131072i64, 131073, 200000, 0x7FFF_FFFF, 0x8000_0000, 0x0100_0005, 0x10005]),
            };
            let wide = s.chance(1, 2);
            let stored = if wide { (-len) as i32 } else { len as i32 };
            let mut b = stored.to_le_bytes().to_vec();
            let n = (len as usize).min(140000);
            if n > 1000 {
                // valid contents at the limit
                let unit: &[u8] = if wide { &[0x16, 0x04] } else { b"n" };
                for _ in 0..n - 1 {
                    b.extend_from_slice(unit);
                }
                b.extend_from_slice(if wide { &[0, 0] } else { &[0] });
            } else {
                for i in 0..n {
                    let last = i + 1 == n;
                    if wide {
                        let u: u16 = if last {
                            if s.chance(4, 5) { 0 } else { *s.pick(&[1, 0x100, 0x8000, 0x41]) }
                        } else {
                            *s.pick(&[0x41, 0xE9, 0x4E00, 0xD83D, 0xDE00, 0xDFFF, 0xD800, 0, 0xFFFF, 0xFEFF, 0x20])
                        };
                        b.extend_from_slice(&u.to_le_bytes());
                    } else if last {
                        b.push(if s.chance(4, 5) { 0 } else { *s.pick(&[1, 0x41, 0x80, 0xFF]) });
                    } else if s.chance(2, 3) {
                        b.push(s.range(0x20, 0x7E) as u8);
                    } else {
                        b.push(*s.pick(&[0xC3, 0xA9, 0xE4, 0xB8, 0x80, 0xF0, 0x9F, 0x98, 0xED, 0xA0, 0xC0, 0xFF, 0, 0xF4, 0x90, 0xBF]));
                    }
                }
            }
            if s.chance(1, 10) {
                let k = s.idx(b.len().min(40) + 1);
                b.truncate(b.len() - k.min(b.len()));
            }
            let want = decode(&b);
            ctx.describe(|| format!("stored {}", hex(&b)));
            ctx.label(if want.is_some() { "stored form valid" } else { "stored form invalid" });
            ctx.nontrivial(&b);
            let used = want.as_ref().map_or(0, |w| w.1);
            for nullable in [true, false] {
                let data = [&vec![0x5A; pre][..], &b].concat();
                let mut cur = Cursor::new(&data[..]);
                cur.set_position(pre as u64);
                let r = if nullable { cur.read_fstring() } else { cur.read_string().map(Some) };
                ctx.eval();
                match (&want, r) {
                    (Some((None, _)), Err(_)) if !nullable => {}
                    (Some((None, _)), Ok(_)) if !nullable => return Err("a null string was read as a string".into()),
                    (Some((t, _)), Ok(got)) => {
                        if *t != got {
                            return Err(format!("stored form read as {got:?} instead of {t:?}"));
                        }
                        if cur.position() != (pre + used) as u64 {
                            return Err(format!("reading consumed {} of {used} bytes", cur.position() as i64 - pre as i64));
                        }
                    }
                    (None, Err(_)) => {}
                    (None, Ok(got)) => return Err(format!("an invalid stored form was read as {got:?}")),
                    (Some(_), Err(e)) => return Err(format!("a valid stored form was rejected: {e}")),
                }
            }
            Ok(())
        }
        2 => {
            let v = if s.chance(1, 2) { s.below(256) as u32 } else { interesting(s, 32) as u32 };
            ctx.describe(|| format!("boolean {v}"));
            ctx.label("boolean");
            ctx.nontrivial(&v.to_le_bytes());
            let data = [&v.to_le_bytes()[..], &tail].concat();
            let mut cur = Cursor::new(&data[..]);
            let r = cur.read_bool();
            ctx.eval();
            let low = v & 0xFF;
            if r.as_ref().ok() != (if low < 2 { Some(low == 1) } else { None }).as_ref() || (low < 2 && cur.position() != 1) {
                return Err(format!("byte {low} read as boolean {r:?}"));
            }
            let mut cur = Cursor::new(&data[..]);
            let r = cur.read_b32();
            ctx.eval();
            if r.as_ref().ok() != (if v < 2 { Some(v == 1) } else { None }).as_ref() || (v < 2 && cur.position() != 4) {
                return Err(format!("word {v} read as boolean {r:?}"));
            }
            for b in [false, true] {
                let (mut a, mut c) = (vec![], vec![]);
                a.write_bool(b).map_err(|e| e.to_string())?;
                c.write_b32(b).map_err(|e| e.to_string())?;
                if a != [b as u8] || c != (b as u32).to_le_bytes() {
                    return Err(format!("boolean {b} stored as {a:?} and {c:?}"));
                }
            }
            Ok(())
        }
        3 => {
            let mut gd = [0u8; 16];
            gd[..8].copy_from_slice(&s.bits().to_le_bytes());
            gd[8..].copy_from_slice(&s.bits().to_le_bytes());
            ctx.describe(|| format!("GUID {gd:02x?}"));
            ctx.label("GUID");
            ctx.nontrivial(&gd);
            let mut out = vec![];
            out.write_guid(&Guid(gd)).map_err(|e| e.to_string())?;
            ctx.eval();
            if out != gd {
                return Err(format!("GUID stored as {out:02x?}"));
            }
            out.extend_from_slice(&tail);
            let mut cur = Cursor::new(&out[..]);
            let back = cur.read_guid().map_err(|e| e.to_string())?;
            if back.0 != gd || cur.position() != 16 {
                return Err(format!("GUID read as {back:?}, {} bytes", cur.position()));
            }
            let cut = s.idx(16);
            if Cursor::new(&gd[..cut]).read_guid().is_ok() {
                return Err(format!("{cut} bytes were read as a GUID"));
            }
            Ok(())
        }
        _ => {
            let v = s.below(256) as u8 as i8;
            ctx.describe(|| format!("enum value {v}"));
            ctx.label("enum");
            ctx.nontrivial(&[v as u8]);
            let tail = tail.len();
            one_enum::<DateTimeStyle>(ctx, v, tail, &["Default", "Short", "Medium", "Long", "Full"], 0)?;
            one_enum::<RoundingMode>(ctx, v, tail, &["HalfToEven", "HalfFromZero", "HalfToZero", "FromZero", "ToZero", "ToNegativeInfinity", "ToPositiveInfinity"], 0)?;
            one_enum::<TransformType>(ctx, v, tail, &["ToLower", "ToUpper"], 0)?;
            one_enum::<PalworldCompressionType>(ctx, v, tail, &["None", "Zlib", "ZlibTwice"], 0x30)
        }
    }
}

fn one_enum<T>(ctx: &mut Ctx, v: i8, tail: usize, names: &[&str], first: i8) -> Result<(), String>
where
    T: TryFrom<i8> + Into<i8> + std::fmt::Debug,
{
    let data = vec![v as u8; 1 + tail];
    let mut cur = Cursor::new(&data[..]);
    let r = cur.read_enum::<T>();
    ctx.eval();
    let at = v as i32 - first as i32;
    let want = if at >= 0 { names.get(at as usize) } else { None };
    match (want, r) {
        (None, Err(_)) => Ok(()),
        (None, Ok(x)) => Err(format!("value {v} read as {x:?}")),
        (Some(n), Err(e)) => Err(format!("value {v} ({n}) rejected: {e}")),
        (Some(n), Ok(x)) => {
            if format!("{x:?}") != **n || cur.position() != 1 {
                return Err(format!("value {v} read as {x:?} instead of {n}"));
            }
            let mut out = vec![];
            out.write_enum(x).map_err(|e| e.to_string())?;
            if out != [v as u8] {
                return Err(format!("{n} stored as {out:?} instead of {v}"));
            }
            Ok(())
        }
    }
}

/// What the parser may do with a text.
enum Verdict {
    Accept([u8; 16]),
    /// Not settled by the statement: refuse, or the value of the digits.
    Either([u8; 16]),
    Reject,
}

fn digits(b: &[u8; 16], case: u64) -> Vec<char> {
    let mut out = vec![];
    for (i, x) in b.iter().enumerate() {
        for c in format!("{x:02x}").chars() {
            out.push(match case {
                0 => c,
                1 => c.to_ascii_uppercase(),
                _ => {
                    if (i * 7) % 3 == 0 { c.to_ascii_uppercase() } else { c }
                }
            });
        }
    }
    out
}

/// A character that has no place in the text form of a GUID.
fn foreign(s: &mut Src) -> char {
    const ASCII: &[u8] = b"!\"#$%&'()*+,./:;<=>?@[\\]^_`|~ghijklmnopqrstuvwxyzGHIJKLMNOPQRSTUVWXYZ\0\x01\x08\x1b\x7f";
    if s.chance(3, 4) {
        ASCII[s.idx(ASCII.len())] as char
    } else {
        *s.pick(&['–', '—', '‐', '‑', '−', '\u{ad}', '\u{200b}', '\u{feff}', 'é', '０', 'Ａ'])
    }
}

fn guid_text(s: &mut Src) -> (String, Verdict) {
    let mut b = [0u8; 16];
    if !s.chance(1, 8) {
        b[..8].copy_from_slice(&s.bits().to_le_bytes());
        b[8..].copy_from_slice(&s.bits().to_le_bytes());
    }
    let zero = s.chance(1, 10);
    if zero {
        b = [0; 16];
    }
    let case = s.below(3);
    let d: Vec<char> = if zero { vec!['0'] } else { digits(&b, case) };
    let mut either = false;
    let mut t = String::new();
    match s.weighted(&[3, 4, 2, 1]) {
        0 => t.extend(&d),
        1 => {
            for (i, c) in d.iter().enumerate() {
                if [8, 12, 16, 20].contains(&i) {
                    t.push('-');
                }
                t.push(*c);
            }
        }
        2 => {
            // between any two bytes
            for (i, c) in d.iter().enumerate() {
                if i > 0 && i % 2 == 0 && s.chance(1, 4) {
                    t.push('-');
                }
                t.push(*c);
            }
        }
        _ => {
            // anywhere, repeated, at the ends
            either = true;
            for c in &d {
                if s.chance(1, 6) {
                    t.push('-');
                }
                t.push(*c);
            }
            if s.chance(1, 3) {
                t.push('-');
            }
        }
    }
    match s.weighted(&[4, 3, 1, 1]) {
        0 => {}
        1 => t = format!("{{{t}}}"),
        2 => {
            either = true;
            t = if s.chance(1, 2) { format!("{{{t}") } else { format!("{t}}}") };
        }
        _ => {
            // blanks within the braces
            either = true;
            t = format!("{{ {t} }}");
        }
    }
    if s.chance(1, 3) {
        let (a, z) = (s.below(3), s.below(3));
        let c = *s.pick(&[' ', ' ', '\t', '\n']);
        t = format!("{}{t}{}", String::from(c).repeat(a as usize), String::from(c).repeat(z as usize));
    }
    if s.chance(1, 20) {
        either = true;
        t = format!("\u{a0}{t}\u{3000}");
    }
    if !s.chance(2, 5) {
        return (t, if either { Verdict::Either(b) } else { Verdict::Accept(b) });
    }
    // damage that no reading permits
    let mut c: Vec<char> = t.chars().collect();
    let hexes: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_hexdigit()).collect();
    match s.below(8) {
        0 => {
            // another character for a digit
            let at = hexes[s.idx(hexes.len())];
            c[at] = *s.pick(&['g', 'G', 'x', '+', '.', '_', '/', ':', '@', '`', 'O', 'é', '０', '𝟎', '\0', '*', 'l']);
        }
        1 => {
            let at = hexes[s.idx(hexes.len())];
            let k = s.range(1, 2);
            for _ in 0..k {
                c.insert(at, *s.pick(&['0', 'f', 'A']));
            }
        }
        2 => {
            // a digit missing; a single 0 becomes nothing
            let at = hexes[s.idx(hexes.len())];
            c.remove(at);
        }
        3 => {
            if zero {
                return ("00".into(), Verdict::Reject);
            }
            // a blank or sign between the digits
            let at = hexes[1 + s.idx(hexes.len() - 1)];
            c.insert(at, *s.pick(&[' ', '+', '{', '}', 'x', ',']));
        }
        4 => {
            // what looks like a separator, within or beside the digits
            let at = hexes[s.idx(hexes.len())] + s.idx(2);
            c.insert(at, foreign(s));
        }
        5 => {
            // other separators, or other brackets
            let other = foreign(s);
            if c.contains(&'-') && s.chance(1, 2) {
                c.iter_mut().filter(|x| **x == '-').for_each(|x| *x = other);
            } else {
                let (a, z) = *s.pick(&[("(", ")"), ("[", "]"), ("\"", "\""), ("0x", ""), ("urn:uuid:", ""), ("Guid(", ")"), ("", "h"), ("", ";"), ("<", ">")]);
                return (format!("{a}{t}{z}"), Verdict::Reject);
            }
        }
        6 => return (format!("{{{{{t}}}}}").replace("{{{", "{{").replace("}}}", "}}"), Verdict::Reject),
        _ => {
            let junk = *s.pick(&["", " ", "{}", "-", "{-}", "1", "f", "00", "000", "0x0", "{", "}", "null", "0 0", "{{0}}", "00000000", "-1", "+0", "0.", "00000000-0000-0000-0000"]);
            return (junk.to_string(), Verdict::Reject);
        }
    }
    (c.into_iter().collect(), Verdict::Reject)
}

pub fn c18(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut b = [0u8; 16];
    match s.weighted(&[6, 2, 2, 1]) {
        0 => {
            b[..8].copy_from_slice(&s.bits().to_le_bytes());
            b[8..].copy_from_slice(&s.bits().to_le_bytes());
        }
        1 => b[s.idx(16)] = s.below(256) as u8,
        2 => {
            for x in &mut b {
                *x = *s.pick(&[0, 0, 0xFF, 0x0F, 0xF0, 0x80, 1]);
            }
        }
        _ => {}
    }
    let gd = Guid(b);
    ctx.describe(|| format!("GUID {b:02x?}"));
    // between the forms
    let words: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
    let words = [words[0], words[1], words[2], words[3]];
    let mut big = 0u128;
    for (i, x) in b.iter().enumerate() {
        big |= (*x as u128) << (8 * i);
    }
    ctx.eval();
    let forms = [
        ("from_u8", Guid::from_u8(b)), ("from_u32", Guid::from_u32(words)), ("from_u128", Guid::from_u128(big)),
        ("From<[u32; 4]>", Guid::from(words)), ("From<u128>", Guid::from(big)),
    ];
    for (n, f) in forms {
        if f.0 != b {
            return Err(format!("{n} gives {:02x?}", f.0));
        }
    }
    if gd.to_u8() != b || gd.to_u32() != words || gd.to_u128() != big || <[u32; 4]>::from(gd) != words || u128::from(gd) != big {
        return Err(format!("GUID converts to {:?} {:x?} {:x}", gd.to_u8(), gd.to_u32(), gd.to_u128()));
    }
    if gd.is_zero() != (b == [0; 16]) {
        return Err(format!("is_zero is {}", gd.is_zero()));
    }
    // text
    let t = gd.to_string();
    let stripped: String = t.chars().filter(|c| c.is_ascii_hexdigit()).collect::<String>().to_lowercase();
    let plain: String = b.iter().map(|x| format!("{x:02x}")).collect();
    ctx.eval();
    if !(stripped == plain || (b == [0; 16] && t == "0")) {
        return Err(format!("text form {t:?} of {plain}"));
    }
    if Guid::from_str(&t).ok() != Some(gd) || t.parse::<Guid>().ok().map(|g| g.0) != Some(b) {
        return Err(format!("text form {t:?} reads as {:?}", Guid::from_str(&t)));
    }
    if !format!("{gd:?}").contains(&t) {
        return Err(format!("debug form {gd:?} does not show {t}"));
    }
    let j = serde_json::to_string(&gd).map_err(|e| e.to_string())?;
    let back: Guid = serde_json::from_str(&j).map_err(|e| format!("JSON form {j} not read: {e}"))?;
    ctx.eval();
    if back.0 != b || j != format!("\"{t}\"") {
        return Err(format!("JSON form {j} reads as {back:?}"));
    }
    // equality is that of the bytes
    let mut o = b;
    if s.chance(2, 3) {
        o[s.idx(16)] ^= 1 << s.below(8);
        if s.chance(1, 4) {
            // swapped bytes
            o = b;
            let (x, y) = (s.idx(16), s.idx(16));
            o.swap(x, y);
        }
    }
    let og = Guid(o);
    ctx.eval();
    if (gd == og) != (b == o) || (gd != og) != (b != o) {
        return Err(format!("{gd:?} == {og:?} is {}", gd == og));
    }
    let mut map = HashMap::new();
    map.insert(gd, 1);
    if map.get(&og).is_some() != (b == o) {
        return Err(format!("looking {og:?} up by key {gd:?} is wrong"));
    }
    if (gd.to_string() == og.to_string()) != (b == o) {
        return Err(format!("{gd:?} and {og:?} share a text form or not"));
    }
    // parsing
    let (t, v) = guid_text(s);
    ctx.describe(|| format!("text {t:?}"));
    ctx.nontrivial(&[&b[..], t.as_bytes()].concat());
    ctx.eval();
    let r = Guid::from_str(&t);
    let js = serde_json::to_string(&t).map_err(|e| e.to_string())?;
    let jr = serde_json::from_str::<Guid>(&js);
    if r.as_ref().ok() != jr.as_ref().ok() {
        return Err(format!("parsing {t:?} gives {r:?}, from JSON {jr:?}"));
    }
    match (v, r) {
        (Verdict::Accept(w), Ok(g)) | (Verdict::Either(w), Ok(g)) => {
            ctx.label("accepted");
            if g.0 != w {
                return Err(format!("{t:?} parsed as {g:?}"));
            }
        }
        (Verdict::Accept(_), Err(_)) => return Err(format!("{t:?} was rejected")),
        (Verdict::Either(_), Err(_)) => ctx.label("unsettled, rejected"),
        (Verdict::Reject, Err(_)) => ctx.label("rejected"),
        (Verdict::Reject, Ok(g)) => return Err(format!("{t:?} was accepted as {g:?}")),
    }
    Ok(())
}
