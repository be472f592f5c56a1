//! C39: JSON documents edited by hand.

use super::*;
use super::values::cut;
use crate::conv::{self, Form};
use crate::r#gen::{self as g, Cfg, interesting};
use crate::src::Src;
use gvas::GvasFile;
use std::io::Cursor;
use serde_json::{Map, Number, Value, json};

/// One step from a value to a value inside it.
#[derive(Clone, Debug)]
enum Step {
    Member(String),
    Element(usize),
}

/// The places of a document, with the number of values inside each.
fn places(v: &Value, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(Step::Element(i));
                places(x, at, out);
                at.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                at.push(Step::Member(k.clone()));
                places(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn find<'a>(mut v: &'a mut Value, at: &[Step]) -> &'a mut Value {
    for st in at {
        v = match st {
            Step::Member(k) => &mut v[k.as_str()],
            Step::Element(i) => &mut v[*i],
        };
    }
    v
}

fn integer(s: &mut Src) -> Value {
    match s.below(4) {
        0 => Value::from(s.below(12) as i64 - 4),
        1 => Value::from(interesting(s, 64)),
        2 => Value::from(interesting(s, 64) as i64),
        _ => {
            let edge = 1i128 << *s.pick(&[7, 8, 15, 16, 31, 32, 63, 64]);
            let n = *s.pick(&[edge, edge - 1, -edge, -edge - 1]);
            match (u64::try_from(n), i64::try_from(n)) {
                (Ok(n), _) => Value::from(n),
                (_, Ok(n)) => Value::from(n),
                _ => Value::from(n as f64),
            }
        }
    }
}

const STRINGS: [&str; 24] = [
    "",
    "None",
    "0",
    "é",
    "BoolProperty",
    "ByteProperty",
    "EnumProperty",
    "FloatProperty",
    "Int64Property",
    "IntProperty",
    "NameProperty",
    "StrProperty",
    "StructProperty",
    "TextProperty",
    "ArrayProperty",
    "MapProperty",
    "SetProperty",
    "Property",
    "Guid",
    "Vector",
    "Vector2D",
    "LinearColor",
    "DateTime",
    "GameplayTagContainer",
];

/// Changes one place of a document.
fn edit(s: &mut Src, doc: &mut Value) -> Option<String> {
    // the table of versions decides how values are stored
    if s.chance(1, 8) {
        let versions = doc.get_mut("header")?.get_mut("custom_versions")?.as_object_mut()?;
        let k = versions.keys().nth(s.idx(versions.len().max(1)))?.clone();
        let to = *s.pick(&[0, 11, 12, 27, 28, 31, 32, 100]);
        let old = if s.chance(1, 3) { versions.shift_remove(&k) } else { versions.insert(k.clone(), Value::from(to)) };
        let new = versions.get(&k);
        return if new == old.as_ref() { None } else { Some(format!("version {k}: {old:?} becomes {new:?}")) };
    }
    let mut all = vec![];
    places(doc, &mut vec![], &mut all);
    let inner: Vec<_> = all.iter().filter(|p| p.len() > 1 && matches!(&p[0], Step::Member(k) if k == "properties")).collect();
    let at = if inner.is_empty() || s.chance(1, 4) { all[s.idx(all.len())].clone() } else { inner[s.idx(inner.len())].clone() };
    let names: Vec<String> = all.iter().filter_map(|p| if let Some(Step::Member(k)) = p.last() { Some(k.clone()) } else { None }).collect();
    let like = at.last().cloned();
    let alike: Vec<_> = all.iter().filter(|p| match (p.last(), &like) {
        (Some(Step::Member(a)), Some(Step::Member(b))) => a == b,
        (Some(Step::Element(_)), Some(Step::Element(_))) => true,
        _ => false,
    }).collect();
    let from = if alike.is_empty() || s.chance(1, 3) { &all[s.idx(all.len())] } else { alike[s.idx(alike.len())] };
    let donor = find(doc, from).clone();
    let v = find(doc, &at);
    let old = v.clone();
    match s.weighted(&[6, 1, 1, 1, 3]) {
        // another value of the same kind
        0 => match v {
            Value::Null => *v = Value::from(s.below(3)),
            Value::Bool(b) => *b = !*b,
            Value::Number(n) if n.is_f64() => {
                let f = *s.pick(&[0.0, -0.0, 1.5, 1e-300, 3.4e38, 16777217.0, 0.1]);
                *v = Number::from_f64(f).map(Value::Number)?;
            }
            Value::Number(_) => *v = integer(s),
            Value::String(t) => match s.below(4) {
                0 => t.push(*s.pick(&['x', '0', 'é', ' '])),
                1 => {
                    t.pop();
                }
                2 => *t = s.pick(&STRINGS).to_string(),
                _ => *t = t.to_uppercase(),
            },
            Value::Array(a) => match s.below(3) {
                0 => {
                    a.pop();
                }
                1 if a.len() > 1 => {
                    let (x, y) = (s.idx(a.len()), s.idx(a.len()));
                    a.swap(x, y);
                }
                _ => {
                    let x = a.first()?.clone();
                    a.push(x);
                }
            },
            Value::Object(m) => {
                let k = m.keys().nth(s.idx(m.len().max(1)))?.clone();
                m.shift_remove(&k);
            }
        },
        // a value of another kind
        1 => {
            *v = match s.below(7) {
                0 => Value::Null,
                1 => Value::Bool(s.chance(1, 2)),
                2 => integer(s),
                3 => Value::from(*s.pick(&[0.0, 1.0, 0.5, -3.0])),
                4 => Value::from(*s.pick(&STRINGS)),
                5 => Value::Array(vec![]),
                _ => Value::Object(Map::new()),
            }
        }
        // a member less
        2 => {
            let m = v.as_object_mut()?;
            let k = m.keys().nth(s.idx(m.len().max(1)))?.clone();
            m.shift_remove(&k);
        }
        // a member under another name
        3 => {
            let m = v.as_object_mut()?;
            let i = s.idx(m.len().max(1));
            let to = if names.is_empty() || s.chance(1, 3) { s.pick(&STRINGS).to_string() } else { s.pick(&names).clone() };
            if m.contains_key(&to) {
                return None;
            }
            *m = std::mem::take(m).into_iter().enumerate().map(|(n, (k, x))| if n == i { (to.clone(), x) } else { (k, x) }).collect();
        }
        // a value from elsewhere in the document
        _ => *v = donor,
    }
    let v = find(doc, &at);
    if *v == old { None } else { Some(format!("{at:?}: {} becomes {}", cut(&old.to_string()), cut(&v.to_string()))) }
}

/// The type of the elements of an array that lists plain values under a name.
fn elements(list: &str) -> Option<&'static str> {
    Some(match list {
        "bools" => "BoolProperty",
        "enums" => "EnumProperty",
        "floats" => "FloatProperty",
        "ints" => "IntProperty",
        "names" => "NameProperty",
        "strings" => "StrProperty",
        _ => return None,
    })
}

/// The types of the keys and values of a map that lists plain values under a name.
fn entries<'a>(list: &str, declared: Option<&'a Value>) -> Option<(&'static str, &'a str)> {
    let (key, value) = list.split_once('_')?;
    let key = match key {
        "enum" => "EnumProperty",
        "name" => "NameProperty",
        "str" => "StrProperty",
        _ => return None,
    };
    Some((key, match value {
        "bools" => "BoolProperty",
        "ints" => "IntProperty",
        "strs" => "StrProperty",
        "props" => declared?.as_str()?,
        _ => return None,
    }))
}

/// What the elements of an array, a set or a map hold: a save has no room there for the type of
/// an enum, the type of a struct, the name of a byte or the index of a name.
fn element(v: &Value) -> Value {
    let mut v = plain(v);
    if let Value::Object(m) = &mut v {
        for k in ["enum_type", "type_name", "guid", "name", "array_index"] {
            m.shift_remove(k);
        }
        if m.get("type").is_some_and(|t| t == "StructProperty") {
            m.insert("type".into(), Value::from("StructPropertyValue"));
        }
    }
    v
}

/// A document in the general form of arrays and maps, without what a save has no room for: names
/// of a struct that stand for no property, and details of elements.
fn plain(v: &Value) -> Value {
    let typed = |kind: &str, x: &Value| match x {
        Value::Null => json!({"type": kind}),
        _ => json!({"type": kind, "value": x}),
    };
    match v {
        Value::Array(a) => a.iter().map(plain).collect(),
        Value::Object(m) => {
            let kind = m.get("type").and_then(Value::as_str).unwrap_or("");
            let mut out = Map::new();
            for (k, x) in m {
                match x {
                    Value::Null => continue,
                    Value::Array(a) if kind == "ArrayProperty" && elements(k).is_some() => {
                        let of = elements(k).unwrap();
                        out.insert("property_type".into(), Value::from(of));
                        out.insert("properties".into(), a.iter().map(|x| typed(of, x)).collect());
                    }
                    Value::String(hex) if kind == "ArrayProperty" && k == "bytes" => {
                        let byte = |i: usize| u8::from_str_radix(hex.get(2 * i..2 * i + 2).unwrap_or(""), 16).unwrap_or(0);
                        out.insert("property_type".into(), Value::from("ByteProperty"));
                        out.insert("properties".into(), (0..hex.len() / 2).map(|i| json!({"type": "ByteProperty", "Byte": byte(i)})).collect());
                    }
                    Value::Object(o) if kind == "MapProperty" && entries(k, m.get("value_type")).is_some() => {
                        let (key, of) = entries(k, m.get("value_type")).unwrap();
                        let value = |x: &Value| if k.ends_with("props") { element(x) } else { typed(of, x) };
                        out.insert("key_type".into(), Value::from(key));
                        out.insert("value_type".into(), Value::from(of));
                        out.insert("allocation_flags".into(), Value::from(0));
                        out.insert("value".into(), o.iter().map(|(k, x)| json!([typed(key, &Value::from(k.as_str())), value(x)])).collect());
                    }
                    Value::Array(a) if kind == "MapProperty" && k == "value" => {
                        let pair = |x: &Value| x.as_array().map_or(Value::Null, |p| p.iter().map(element).collect());
                        out.insert(k.clone(), a.iter().map(pair).collect());
                    }
                    Value::Array(a) if matches!(kind, "ArrayProperty" | "SetProperty") && k == "properties" => {
                        out.insert(k.clone(), a.iter().map(element).collect());
                    }
                    Value::Object(members) if k == "CustomStruct" => {
                        let used = members.iter().filter(|(_, x)| x.as_array().is_none_or(|a| !a.is_empty()));
                        out.insert(k.clone(), used.map(|(k, x)| (k.clone(), plain(x))).collect());
                    }
                    _ => {
                        out.insert(k.clone(), plain(x));
                    }
                }
            }
            Value::Object(out)
        }
        _ => v.clone(),
    }
}

/// Whether a map has keys that a save does not tell apart.
fn merged(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(merged),
        Value::Object(m) => {
            let pairs = m.get("type").filter(|t| *t == "MapProperty").and_then(|_| m.get("value")).and_then(Value::as_array);
            let doubled = pairs.is_some_and(|a| a.iter().enumerate().any(|(i, x)| a[..i].iter().any(|y| x[0] == y[0])));
            doubled || m.values().any(merged)
        }
        _ => false,
    }
}

pub fn c39(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let hints = s.chance(1, 4);
    let c = g::file(s, Cfg { finite: true, budget: 8, hints, ..Cfg::default() });
    let f = conv::file(&c.file, Form::Compact);
    let mut doc = serde_json::to_value(&f).map_err(|e| format!("writing JSON failed: {e}"))?;
    let edits: Vec<String> = (0..s.range(1, 2)).filter_map(|_| edit(s, &mut doc)).collect();
    ctx.describe(|| format!("edits {edits:?}\nhints {:?}\ndocument {doc}", c.hints));
    let read = if s.chance(1, 2) { serde_json::from_value::<GvasFile>(doc.clone()) } else { serde_json::from_str(&doc.to_string()) };
    ctx.eval();
    let Ok(v) = read else {
        ctx.label("document refused");
        return Ok(());
    };
    if v != f {
        ctx.nontrivial(doc.to_string().as_bytes());
    }
    let mut out = Cursor::new(vec![]);
    let saved = v.write(&mut out);
    ctx.eval();
    if let Err(e) = saved {
        ctx.label("save refused");
        if !out.get_ref().is_empty() || out.position() != 0 {
            return Err(format!("the save is refused ({e}), but {} bytes were written", out.get_ref().len()));
        }
        return Ok(());
    }
    let asked = plain(&serde_json::to_value(&v).map_err(|e| format!("writing JSON failed: {e}"))?);
    if merged(&asked) {
        ctx.label("keys equal in a save");
        return Ok(());
    }
    let out = out.into_inner();
    let b = match conv::read(&out, c.file.pal, &c.hints) {
        // The hints are those of the document before it was edited
        Err(_) if !c.hints.is_empty() => {
            ctx.label("hints may be wrong");
            return Ok(());
        }
        Err(e) => return Err(format!("the document is accepted and saved, but the save can not be read: {e}")),
        Ok(b) => b,
    };
    let mut again = Cursor::new(vec![]);
    b.write(&mut again).map_err(|e| format!("the save is read, but what was read can not be saved: {e}"))?;
    if again.into_inner() != out && c.file.pal.is_none() {
        return Err("the save is read, but saving what was read gives another file".into());
    }
    if b == v {
        ctx.label("saved and read");
        return Ok(());
    }
    ctx.label("saved and read in another form");
    let got = plain(&serde_json::to_value(&b).map_err(|e| format!("writing JSON failed: {e}"))?);
    if asked != got && c.hints.is_empty() {
        return Err(format!("the document is accepted and saved as {}, but read as {}", cut(&asked.to_string()), cut(&got.to_string())));
    }
    Ok(())
}
