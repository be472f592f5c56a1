//! Damage to encoded files, aware of what every byte range is.

use crate::enc::{Kind, Layout, Span};
use crate::r#gen::interesting;
use crate::src::Src;

fn get(b: &[u8], s: &Span) -> u64 {
    let mut v = [0u8; 8];
    let n = (s.end - s.start).min(8);
    v[..n].copy_from_slice(&b[s.start..s.start + n]);
    u64::from_le_bytes(v)
}

pub fn field(b: &[u8], s: &Span) -> u64 {
    get(b, s)
}

pub fn put(b: &mut [u8], s: &Span, v: u64) {
    let n = (s.end - s.start).min(8);
    b[s.start..s.start + n].copy_from_slice(&v.to_le_bytes()[..n]);
}

fn resizes(k: Kind) -> bool {
    matches!(k, Kind::Size32 | Kind::SizeUnknown | Kind::SizeInner)
}

/// Replaces `start..end` by `new` and adjusts the sizes of all values around it, except those for
/// which `keep` says that they stay as they are.
pub fn splice(l: &Layout, start: usize, end: usize, new: &[u8], keep: impl Fn(&Span) -> bool) -> Vec<u8> {
    let mut b = l.b.clone();
    let delta = new.len() as i64 - (end - start) as i64;
    for s in &l.spans {
        if resizes(s.kind) && s.body.0 <= start && end <= s.body.1 && !keep(s) {
            let v = get(&b, s) as i64 + delta;
            put(&mut b, s, v as u64);
        }
    }
    b.splice(start..end, new.iter().copied());
    b
}

/// Another value for the field, mostly one that breaks a rule.
pub fn other_value(s: &mut Src, b: &[u8], sp: &Span) -> u64 {
    let old = get(b, sp);
    let bits = ((sp.end - sp.start).min(8) * 8) as u32;
    let mask = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let v = match sp.kind {
        Kind::StrLen { .. } => match s.weighted(&[2, 2, 2, 2, 1, 3]) {
            0 => 0,
            1 => old.wrapping_add(1),
            2 => old.wrapping_sub(1),
            3 => old.wrapping_neg(),
            4 => *s.pick(&[1u64, (-1i64) as u64, 2, (-2i64) as u64]),
            _ => *s.pick(&[131072u64, 131073, (-131072i64) as u64, (-131073i64) as u64, 0x8000_0000, 0x7FFF_FFFF, 0x8000_0001, 0xFFFF]),
        },
        Kind::Size32 | Kind::SizeUnknown | Kind::SizeInner | Kind::SizeFixed => match s.weighted(&[2, 2, 2, 2, 2, 1]) {
            0 => old.wrapping_add(1),
            1 => old.wrapping_sub(1),
            2 => s.below(10),
            3 => old ^ (1 << s.below(bits as u64)),
            4 => old.wrapping_add(s.range(2, 40)),
            _ => mask,
        },
        Kind::CountU | Kind::CountI => match s.weighted(&[3, 3, 1, 2, 2]) {
            0 => old.wrapping_add(1),
            1 => old.wrapping_sub(1),
            2 => 0,
            3 => *s.pick(&[0x8000_0000u64, 0xFFFF_FFFF, 0x7FFF_FFFF, 0x8000_0001, 0x10000, 1000]),
            _ => old ^ (1 << s.below(bits as u64)),
        },
        Kind::Bool8 | Kind::Bool32 => match s.weighted(&[2, 3, 2]) {
            0 => old ^ 1,
            1 => *s.pick(&[2u64, 3, 0xFF, 0x80, 0x100, 0x101, 0x0100_0000, 0x8000_0000]),
            _ => old ^ (1 << s.below(bits as u64)),
        },
        Kind::Enum { lo, hi } => match s.weighted(&[2, 3, 2]) {
            0 => (lo as i64 + s.below((hi as i64 - lo as i64 + 1) as u64) as i64) as u64,
            1 => *s.pick(&[hi as i64 + 1, lo as i64 - 1, hi as i64 + 1, hi as i64 + 2, hi as i64 + 3, 127, -128]) as u64,
            _ => s.below(256),
        },
        Kind::ArrayIndex | Kind::Term => match s.weighted(&[2, 2]) {
            0 => 1u64 << s.below(bits as u64),
            _ => interesting(s, bits),
        },
        Kind::Package => match s.weighted(&[3, 1, 1]) {
            0 => *s.pick(&[0x204u64, 0x20E, 0x205, 0x20D, 0, 0xFFFF_FFFF, 0x10205, 0x105, 0x0205_0000]),
            1 => old ^ (1 << s.below(32)),
            _ => interesting(s, 32),
        },
        Kind::Ue5 => match s.weighted(&[3, 1, 1]) {
            0 => *s.pick(&[999u64, 1000, 1009, 1010, 0, 0xFFFF_FFFF, 1000 + 65536, 232]),
            1 => old ^ (1 << s.below(32)),
            _ => interesting(s, 32),
        },
        Kind::SaveVersion | Kind::VersionFormat => match s.weighted(&[3, 1]) {
            0 => s.below(6),
            _ => *s.pick(&[0xFFFF_FFFFu64, 0x102, 0x103, 0x10003, 0x0300_0000, 0x0200_0000]),
        },
        _ => match s.weighted(&[2, 1]) {
            0 => old ^ (1 << s.below(bits.max(1) as u64)),
            _ => s.bits(),
        },
    } & mask;
    if v == old { (old ^ 1) & mask } else { v }
}

/// A short stretch of new bytes.
fn fresh(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[4, 2, 1]) {
        0 => s.range(1, 4),
        1 => s.range(5, 12),
        _ => s.range(13, 60),
    };
    match s.weighted(&[2, 1, 1]) {
        0 => (0..n).map(|_| s.below(256) as u8).collect(),
        1 => vec![0; n as usize],
        _ => b"\x05\0\0\0None\0".iter().copied().cycle().take(n as usize).collect(),
    }
}

/// One damage to the file. The second value says what was done.
pub fn damage(s: &mut Src, l: &Layout) -> (Vec<u8>, String) {
    let nothing = |_: &Span| false;
    let len = l.b.len();
    match s.weighted(&[12, 4, 3, 3, 3, 2, 3, 2, 2]) {
        0 => {
            // change the value of a field; kinds with few fields get their share
            let kinds: std::collections::BTreeMap<String, Vec<&Span>> = l.spans.iter().filter(|x| x.end > x.start).fold(Default::default(), |mut m, x| {
                let mut k = format!("{:?}", x.kind);
                if let Kind::Enum { .. } = x.kind {
                    k = "Enum".into();
                }
                m.entry(k).or_insert_with(Vec::new).push(x);
                m
            });
            let keys: Vec<&String> = kinds.keys().collect();
            let k = keys[s.idx(keys.len())];
            let v = &kinds[k];
            let sp = v[s.idx(v.len())];
            let mut b = l.b.clone();
            match sp.kind {
                Kind::StrBody { wide } => {
                    let at = sp.start + s.idx(sp.end - sp.start);
                    if wide && s.chance(1, 2) {
                        // half of a surrogate pair
                        let at = sp.start + (at - sp.start) / 2 * 2;
                        b[at + 1] = 0xD8 + s.below(8) as u8;
                    } else {
                        b[at] = *s.pick(&[0xFFu8, 0x80, 0xC0, 0, b'A', 0xED, 0xF5, 0xC3]);
                    }
                }
                Kind::Free | Kind::Magic | Kind::NameIndex if s.chance(1, 2) => {
                    let at = sp.start + s.idx(sp.end - sp.start);
                    b[at] ^= 1 << s.below(8);
                }
                _ => {
                    let v = other_value(s, &l.b, sp);
                    put(&mut b, sp, v);
                }
            }
            (b, format!("{k} at {}..{}", sp.start, sp.end))
        }
        1 => {
            let mut b = l.b.clone();
            let n = s.range(1, 3);
            for _ in 0..n {
                let at = s.idx(len);
                b[at] ^= 1 << s.below(8);
            }
            (b, "bit flips".into())
        }
        2 => {
            let at = s.idx(len + 1);
            (splice(l, at, at, &fresh(s), |_| true), "bytes inserted".into())
        }
        3 => {
            let at = s.idx(len);
            let n = s.range(1, 8) as usize;
            (splice(l, at, (at + n).min(len), &[], |_| true), "bytes removed".into())
        }
        4 => {
            // at the edge of a field, with the sizes around it adjusted
            let sp = &l.spans[s.idx(l.spans.len())];
            let at = if s.chance(1, 2) { sp.start } else { sp.end };
            if s.chance(1, 2) {
                (splice(l, at, at, &fresh(s), nothing), "bytes inserted, sizes adjusted".into())
            } else {
                (splice(l, sp.start, sp.end, &[], nothing), "field removed, sizes adjusted".into())
            }
        }
        5 => {
            let at = s.idx(len);
            (l.b[..at].to_vec(), "cut off".into())
        }
        6 => {
            // another string in place of one, sizes adjusted: swaps types, names and values
            let strs: Vec<usize> = (0..l.spans.len()).filter(|i| matches!(l.spans[*i].kind, Kind::StrLen { .. })).collect();
            let pick_string = |s: &mut Src| {
                let i = strs[s.idx(strs.len())];
                let start = l.spans[i].start;
                let end = if get(&l.b, &l.spans[i]) == 0 { l.spans[i].end } else { l.spans[i + 2].end };
                (start, end)
            };
            let (a0, a1) = pick_string(s);
            let new = if s.chance(1, 2) {
                let (b0, b1) = pick_string(s);
                l.b[b0..b1].to_vec()
            } else {
                let t = *s.pick(&[
                    "IntProperty", "StrProperty", "None", "StructProperty", "ArrayProperty", "MapProperty", "SetProperty",
                    "ByteProperty", "EnumProperty", "TextProperty", "BoolProperty", "Vector", "Guid", "Quat", "FloatProperty",
                    "NameProperty", "Int64Property", "X", "", "DateTime", "GameplayTagContainer", "ObjectProperty", "UInt32Property",
                    "FieldPathProperty", "DelegateProperty", "Int8Property", "DoubleProperty", "Rotator", "Vector2D",
                ]);
                let mut v = (t.len() as u32 + 1).to_le_bytes().to_vec();
                v.extend_from_slice(t.as_bytes());
                v.push(0);
                v
            };
            (splice(l, a0, a1, &new, nothing), "string replaced, sizes adjusted".into())
        }
        7 => {
            // a property repeated, moved or dropped, sizes adjusted
            if l.props.is_empty() {
                return (l.b[..len - 1].to_vec(), "cut off".into());
            }
            let p = &l.props[s.idx(l.props.len())];
            let bytes = l.b[p.start..p.end].to_vec();
            match s.below(3) {
                0 => (splice(l, p.start, p.start, &bytes, nothing), "property repeated".into()),
                1 => (splice(l, p.start, p.end, &[], nothing), "property dropped".into()),
                _ => {
                    let q = &l.props[s.idx(l.props.len())];
                    (splice(l, q.start, q.start, &bytes, nothing), "property copied".into())
                }
            }
        }
        _ => {
            // a stretch of the file copied over another place
            let a = s.idx(len);
            let n = s.range(1, 24) as usize;
            let piece = l.b[a..(a + n).min(len)].to_vec();
            let at = s.idx(len);
            let end = (at + piece.len()).min(len);
            let mut b = l.b.clone();
            b.splice(at..end, piece);
            (b, "stretch copied".into())
        }
    }
}
