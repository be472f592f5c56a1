//! C22, C23 and C27: histories of edits, unknown properties, independence of reads.

use super::*;
use crate::conv::{self, Form};
use crate::enc::{self, Enc};
use crate::r#gen::{self as g, Cfg, Gen, interesting};
use crate::leaf;
use crate::mutate;
use crate::src::Src;
use gvas::properties::array_property::ArrayProperty;
use gvas::properties::int_property::BytePropertyValue;
use gvas::properties::map_property::MapProperty;
use gvas::properties::struct_property::StructPropertyValue;
use gvas::properties::struct_types::DateTime;
use gvas::properties::text_property::FTextHistory;
use gvas::properties::{Property, PropertyOptions};
use gvas::types::Guid;
use gvas::types::map::HashableIndexMap;
use gvas::{GvasFile, GvasHeader};
use std::hash::Hash;
use std::io::{self, Cursor, Read, Seek, SeekFrom};

type Res = Result<(), String>;

// ---- C22 ----

struct World {
    m: MFile,
    real: GvasFile,
    log: Vec<String>,
}

fn fresh_name(g: &mut Gen, taken: &[&String]) -> Option<String> {
    let n = g.name();
    if taken.contains(&&n) { None } else { Some(n) }
}

fn uses_hints(hints: &Hints, path: &[String]) -> bool {
    let prefix = path.join(".") + ".";
    hints.keys().any(|k| k.starts_with(&prefix))
}

fn lost(what: &str) -> String {
    format!("the file does not hold what the model holds: {what}")
}

pub fn c22(s: &mut Src, ctx: &mut Ctx) -> Res {
    let start = g::file(s, Cfg { budget: 20, depth: 4, pal: true, ..Cfg::default() });
    let mut gn = Gen::new(s, Cfg { budget: 30, depth: 3, ..Cfg::default() });
    gn.hints = start.hints.clone();
    gn.ver = start.file.ver();
    let built = gn.s.chance(1, 3);
    let real = if built {
        conv::file(&start.file, Form::Compact)
    } else {
        let disk = enc::disk(&start.file, &enc::encode(&start.file).b);
        conv::read(&disk, start.file.pal, &gn.hints).map_err(|e| format!("reading a well-formed save failed: {e}"))?
    };
    let mut w = World { m: start.file.clone(), real, log: vec![] };
    let mut snapshot: Option<(MFile, GvasFile)> = None;
    let steps = gn.s.range(2, 14);
    let (mut edits, mut saves, mut reloads) = (0, 0, 0);
    let mut out = Ok(());
    for step in 0..=steps {
        gn.budget = 12;
        gn.path.clear();
        let kind = if step == steps { 9 } else { gn.s.weighted(&[3, 2, 2, 2, 12, 1, 1, 3, 1, 3]) };
        let before = w.log.len();
        let r = match kind {
            0 => add(&mut gn, &mut w),
            1 => remove(&mut gn, &mut w),
            2 => replace(&mut gn, &mut w),
            3 => rename(&mut gn, &mut w),
            4 => in_place(&mut gn, &mut w),
            5 => header(&mut gn, &mut w),
            6 => reorder(&mut gn, &mut w),
            7 => {
                saves += 1;
                w.log.push("save".into());
                ctx.eval();
                save(&w.m, &w.real).map(drop)
            }
            8 => {
                w.log.push("keep a copy".into());
                let r = match &snapshot {
                    Some((m, f)) => save(m, f).map(drop).map_err(|e| format!("an earlier copy changed: {e}")),
                    None => Ok(()),
                };
                snapshot = Some((w.m.clone(), w.real.clone()));
                r
            }
            _ => {
                saves += 1;
                reloads += 1;
                w.log.push("save and reload".into());
                ctx.eval();
                save(&w.m, &w.real).and_then(|b| {
                    let back = conv::read(&b, w.m.pal, &gn.hints).map_err(|e| format!("reloading failed: {e}"))?;
                    conv::cmp_file(&w.m, &back).map_err(|e| format!("after reloading: {e}"))?;
                    w.real = back;
                    Ok(())
                })
            }
        };
        if kind < 7 && w.log.len() > before {
            edits += 1;
            ctx.eval();
            let r2 = r.and_then(|()| conv::cmp_file(&w.m, &w.real).map_err(|e| format!("after the edit: {e}")));
            if r2.is_err() {
                out = r2;
                break;
            }
        } else if r.is_err() {
            out = r;
            break;
        }
    }
    if out.is_ok()
        && let Some((m, f)) = &snapshot
    {
        ctx.eval();
        out = save(m, f).map(drop).map_err(|e| format!("an earlier copy changed: {e}"));
    }
    ctx.describe(|| format!("start {}\n{}\nhistory:\n  {}", if built { "built" } else { "read" }, show(&start), w.log.join("\n  ")));
    ctx.label(match edits {
        0 => "no edit",
        1..=3 => "1 to 3 edits",
        4..=7 => "4 to 7 edits",
        _ => "8 and more edits",
    });
    if edits >= 1 && reloads >= 1 {
        ctx.nontrivial(w.log.join("\n").as_bytes());
    }
    for l in &w.log {
        ctx.label(l.split(':').next().unwrap_or("").to_string());
    }
    ctx.max("edits in one history", edits as u64);
    ctx.max("saves in one history", saves as u64);
    out
}

fn save(m: &MFile, real: &GvasFile) -> Result<Vec<u8>, String> {
    let out = conv::write(real).map_err(|e| format!("saving failed: {e}"))?;
    let plain = basic::unwrap_pal(m.pal, &out)?;
    let want = enc::encode(m).b;
    if plain != want {
        return Err(format!("the saved bytes are not those of the edited contents; {}", diff(&want, &plain)));
    }
    Ok(out)
}

fn add(gn: &mut Gen, w: &mut World) -> Res {
    let taken: Vec<&String> = w.m.props.iter().map(|p| &p.0).collect();
    let Some(name) = fresh_name(gn, &taken) else { return Ok(()) };
    gn.path.push(name.clone());
    let d = gn.s.below(4) as usize;
    let v = gn.value(d);
    let p = conv::value(&v, if gn.s.chance(1, 4) { Form::General } else { Form::Compact });
    let at = gn.s.idx(w.m.props.len() + 1);
    if gn.s.chance(1, 2) {
        w.log.push(format!("add: {name:?} = {v:?}"));
        w.m.props.push((name.clone(), v));
        w.real.properties.insert(name, p);
    } else {
        w.log.push(format!("insert: {name:?} = {v:?} at {at}"));
        w.m.props.insert(at, (name.clone(), v));
        w.real.properties.shift_insert(at, name, p);
    }
    Ok(())
}

fn remove(gn: &mut Gen, w: &mut World) -> Res {
    if w.m.props.is_empty() {
        return Ok(());
    }
    let i = gn.s.idx(w.m.props.len());
    let name = w.m.props[i].0.clone();
    w.log.push(format!("remove: {name:?}"));
    if gn.s.chance(3, 4) {
        w.m.props.remove(i);
        w.real.properties.shift_remove(&name).ok_or_else(|| lost(&name))?;
    } else {
        w.m.props.swap_remove(i);
        w.real.properties.swap_remove(&name).ok_or_else(|| lost(&name))?;
    }
    Ok(())
}

fn replace(gn: &mut Gen, w: &mut World) -> Res {
    if w.m.props.is_empty() {
        return Ok(());
    }
    let i = gn.s.idx(w.m.props.len());
    let name = w.m.props[i].0.clone();
    gn.path.push(name.clone());
    let d = gn.s.below(4) as usize;
    let v = gn.value(d);
    w.log.push(format!("replace: {name:?} by {v:?}"));
    let p = conv::value(&v, Form::Compact);
    w.m.props[i].1 = v;
    if gn.s.chance(1, 2) {
        w.real.properties.insert(name, p);
    } else {
        *w.real.properties.get_mut(&name).ok_or_else(|| lost(&name))? = p;
    }
    Ok(())
}

fn rename(gn: &mut Gen, w: &mut World) -> Res {
    if w.m.props.is_empty() {
        return Ok(());
    }
    let i = gn.s.idx(w.m.props.len());
    let taken: Vec<&String> = w.m.props.iter().map(|p| &p.0).collect();
    let Some(new) = fresh_name(gn, &taken) else { return Ok(()) };
    let old = w.m.props[i].0.clone();
    if uses_hints(&gn.hints, std::slice::from_ref(&old)) {
        return Ok(());
    }
    w.log.push(format!("rename: {old:?} to {new:?}"));
    w.m.props[i].0 = new.clone();
    let p = w.real.properties.shift_remove(&old).ok_or_else(|| lost(&old))?;
    w.real.properties.shift_insert(i, new, p);
    Ok(())
}

fn reorder(gn: &mut Gen, w: &mut World) -> Res {
    if w.m.props.len() < 2 {
        return Ok(());
    }
    let (i, j) = (gn.s.idx(w.m.props.len()), gn.s.idx(w.m.props.len()));
    w.log.push(format!("exchange: {i} and {j}"));
    w.m.props.swap(i, j);
    w.real.properties.swap_indices(i, j);
    Ok(())
}

fn header(gn: &mut Gen, w: &mut World) -> Res {
    let h = &mut w.m.header;
    let what = gn.s.below(6);
    if what == 5 {
        // kept in another kind of container
        w.m.pal = *gn.s.pick(&[None, Some(0), Some(1), Some(2)]);
        w.log.push(format!("container: {:?}", w.m.pal));
        w.real.deserialized_game_version = conv::game(w.m.pal);
        return Ok(());
    }
    let text = gn.string();
    let num = interesting(gn.s, 32) as u32;
    let mut guid = gn.guid();
    if guid == RELEASE_GUID || guid == EDITOR_GUID {
        guid[0] ^= 1;
    }
    w.log.push(format!("header: part {what} {text:?} {num}"));
    let (engine, versions, class) = match &mut w.real.header {
        GvasHeader::Version2 { engine_version, custom_versions, save_game_class_name, .. }
        | GvasHeader::Version3 { engine_version, custom_versions, save_game_class_name, .. } => (engine_version, custom_versions, save_game_class_name),
        #[allow(unreachable_patterns)]
        _ => panic!("HARNESS: header kind not known to the harness"),
    };
    match what {
        0 => {
            h.class_name = text.clone();
            *class = text;
        }
        1 => {
            h.branch = text.clone();
            engine.branch = text;
        }
        2 => {
            h.engine.3 = num;
            engine.change_list = num;
        }
        3 => {
            h.engine.1 = num as u16;
            engine.minor = num as u16;
        }
        _ => {
            match h.versions.iter_mut().find(|v| v.0 == guid) {
                Some(v) => v.1 = num,
                None => h.versions.push((guid, num)),
            }
            versions.insert(Guid(guid), num);
        }
    }
    Ok(())
}

fn in_place(gn: &mut Gen, w: &mut World) -> Res {
    if w.m.props.is_empty() {
        return Ok(());
    }
    let i = gn.s.idx(w.m.props.len());
    let (name, m) = &mut w.m.props[i];
    let p = w.real.properties.get_mut(name).ok_or_else(|| lost(name))?;
    gn.path.push(name.clone());
    let at = format!("{name:?}");
    edit(gn, m, p, true, &at, &mut w.log)
}

/// Changes something inside the value, in the model and in place in the file. The path ends in the
/// name of the property, or in the part of the container.
fn edit(gn: &mut Gen, m: &mut MVal, p: &mut Property, header: bool, at: &str, log: &mut Vec<String>) -> Res {
    match m {
        MVal::Struct { guid, ty, val } => {
            let st = p.get_struct_mut().ok_or_else(|| lost(at))?;
            if gn.s.chance(1, 8) {
                *guid = gn.guid();
                st.guid = Guid(*guid);
                log.push(format!("struct guid: {at} = {guid:02x?}"));
                return Ok(());
            }
            gn.path.push("StructProperty".into());
            if gn.s.chance(1, 8) {
                *ty = gn.struct_type(1);
                *val = gn.strukt(ty, 1);
                st.type_name = ty.clone();
                st.value = conv::strukt(val, Form::Compact);
                log.push(format!("struct type: {at} = {ty:?} {val:?}"));
                return Ok(());
            }
            edit_struct(gn, val, &mut st.value, at, log)
        }
        MVal::StructVal(val) => {
            let Property::StructPropertyValue(v) = p else { return Err(lost(at)) };
            edit_struct(gn, val, v, at, log)
        }
        MVal::Array { .. } => {
            gn.path.push("ArrayProperty".into());
            edit_array(gn, m, p.get_array_mut().ok_or_else(|| lost(at))?, at, log)
        }
        MVal::Set { ty, flags, items } => {
            gn.path.push("SetProperty".into());
            let set = p.get_set_mut().ok_or_else(|| lost(at))?;
            if gn.s.chance(1, 8) {
                *flags = interesting(gn.s, 32) as u32;
                set.allocation_flags = *flags;
                log.push(format!("set flags: {at} = {flags}"));
                return Ok(());
            }
            // the type of the elements is part of their path
            let ty = ty.clone();
            list(gn, &ty, items, &mut set.properties, true, at, log)
        }
        MVal::Map { .. } => {
            gn.path.push("MapProperty".into());
            edit_map(gn, m, p.get_map_mut().ok_or_else(|| lost(at))?, at, log)
        }
        MVal::Unknown { ty, raw } => {
            if header {
                *raw = gn.raw(20);
            } else if let Some(b) = raw.first_mut() {
                // elements are of one size
                *b ^= 0x55;
            }
            *p.get_unknown_mut().ok_or_else(|| lost(at))? = gvas::properties::unknown_property::UnknownProperty::new(ty.clone(), raw.clone());
            log.push(format!("raw: {at} = {raw:02x?}"));
            Ok(())
        }
        _ => {
            let new = match m {
                MVal::ByteNs { .. } if !header => MVal::ByteNs { name: None, val: gn.string() },
                MVal::Text(t) if gn.s.chance(1, 2) => {
                    // one part of the text
                    let mut v = MVal::Text(t.clone());
                    let n = gn.s.idx(leaf::count_leaves(&mut v).max(1));
                    let mut g2 = Gen::new(gn.s, Cfg::default());
                    leaf::nth_leaf(&mut v, n, |l| leaf::fresh(l, &mut g2));
                    if leaf::well_keyed(&v) { v } else { return Ok(()) }
                }
                _ => gn.scalar(&m.type_name().to_string(), header),
            };
            assign(p, &new).map_err(|e| format!("{at}: {e}"))?;
            log.push(format!("value: {at} = {new:?}"));
            *m = new;
            Ok(())
        }
    }
}

/// Sets the value through the accessors and fields of its type.
fn assign(p: &mut Property, new: &MVal) -> Res {
    let none = || lost("a value of this type");
    match new {
        MVal::Bool(x) => p.get_bool_mut().ok_or_else(none)?.value = *x,
        MVal::Byte { name, val } => {
            let b = p.get_byte_mut().ok_or_else(none)?;
            b.name = name.clone();
            b.value = BytePropertyValue::Byte(*val);
        }
        MVal::ByteNs { name, val } => {
            let b = p.get_byte_mut().ok_or_else(none)?;
            b.name = name.clone();
            b.value = BytePropertyValue::Namespaced(val.clone());
        }
        MVal::I8(x) => p.get_i8_mut().ok_or_else(none)?.value = *x,
        MVal::I16(x) => p.get_i16_mut().ok_or_else(none)?.value = *x,
        MVal::U16(x) => p.get_u16_mut().ok_or_else(none)?.value = *x,
        MVal::I32(x) => p.get_int_mut().ok_or_else(none)?.value = *x,
        MVal::U32(x) => p.get_u32_mut().ok_or_else(none)?.value = *x,
        MVal::I64(x) => p.get_i64_mut().ok_or_else(none)?.value = *x,
        MVal::U64(x) => p.get_u64_mut().ok_or_else(none)?.value = *x,
        MVal::F32(x) => p.get_f32_mut().ok_or_else(none)?.value.0 = conv::f(*x),
        MVal::F64(x) => p.get_f64_mut().ok_or_else(none)?.value.0 = conv::d(*x),
        MVal::Enum { ty, val } => {
            let e = p.get_enum_mut().ok_or_else(none)?;
            e.enum_type = ty.clone();
            e.value = val.clone();
        }
        MVal::Name { idx, val } => {
            let n = p.get_name_mut().ok_or_else(none)?;
            n.array_index = *idx;
            n.value = val.clone();
        }
        MVal::Str(x) => p.get_str_mut().ok_or_else(none)?.value = x.clone(),
        MVal::Object(x) => p.get_object_ref_mut().ok_or_else(none)?.value = x.clone(),
        MVal::Delegate(x) => {
            let d = p.get_delegate_mut().ok_or_else(none)?;
            d.value.object = x.object.clone();
            d.value.function_name = x.function.clone();
        }
        MVal::MultiInline(_) => {
            let Property::MulticastInlineDelegateProperty(v) = conv::value(new, Form::Compact) else { return Err(none()) };
            p.get_multicast_inline_delegate_mut().ok_or_else(none)?.value.delegates = v.value.delegates;
        }
        MVal::MultiSparse(_) => {
            let Property::MulticastSparseDelegateProperty(v) = conv::value(new, Form::Compact) else { return Err(none()) };
            p.get_multicast_sparse_delegate_mut().ok_or_else(none)?.value.delegates = v.value.delegates;
        }
        MVal::FieldPath { path, owner } => {
            let f = p.get_field_path_mut().ok_or_else(none)?;
            f.value.path = path.clone();
            f.value.resolved_owner = owner.clone();
        }
        MVal::Text(t) => {
            let x = p.get_text_mut().ok_or_else(none)?;
            x.value.flags = t.flags;
            match (&mut x.value.history, &t.hist) {
                (FTextHistory::Base { namespace, key, source_string }, MHist::Base(a, b, c)) => {
                    *namespace = a.clone();
                    *key = b.clone();
                    *source_string = c.clone();
                }
                (FTextHistory::AsDate { date_time, target_culture, .. }, MHist::Date(d, s, c)) => {
                    let FTextHistory::AsDate { date_style, .. } = conv::hist(&MHist::Date(*d, *s, c.clone())) else { return Err(none()) };
                    *date_time = DateTime::new(*d);
                    *target_culture = c.clone();
                    x.value.history = FTextHistory::AsDate { date_time: *date_time, date_style, target_culture: target_culture.clone() };
                }
                (h, m) => *h = conv::hist(m),
            }
        }
        _ => return Err("HARNESS: not a scalar".into()),
    }
    Ok(())
}

fn edit_struct(gn: &mut Gen, m: &mut MStruct, v: &mut StructPropertyValue, at: &str, log: &mut Vec<String>) -> Res {
    if let MStruct::Custom(fields) = m {
        let real = v.get_custom_struct_mut().ok_or_else(|| lost(at))?;
        return edit_fields(gn, fields, real, at, log);
    }
    // one component
    let mut holder = MVal::StructVal(m.clone());
    let n = leaf::count_leaves(&mut holder);
    if n == 0 || gn.s.chance(1, 5) {
        if let (MStruct::Tags(t), StructPropertyValue::GameplayTagContainer(r)) = (&mut *m, &mut *v) {
            let s = gn.string();
            t.push(s.clone());
            r.push(s);
            log.push(format!("tags: {at} {t:?}"));
        }
        return Ok(());
    }
    let n = gn.s.idx(n);
    let mut g2 = Gen::new(gn.s, Cfg::default());
    leaf::nth_leaf(&mut holder, n, |l| leaf::fresh(l, &mut g2));
    let MVal::StructVal(new) = holder else { unreachable!() };
    *m = new;
    log.push(format!("component: {at} = {m:?}"));
    use conv::{d, f};
    let bad = || lost(at);
    match m {
        MStruct::VF(a) => {
            let x = v.get_vector_f_mut().ok_or_else(bad)?;
            (x.x.0, x.y.0, x.z.0) = (f(a[0]), f(a[1]), f(a[2]));
        }
        MStruct::VD(a) => {
            let x = v.get_vector_d_mut().ok_or_else(bad)?;
            (x.x.0, x.y.0, x.z.0) = (d(a[0]), d(a[1]), d(a[2]));
        }
        MStruct::RF(a) => {
            let x = v.get_rotator_f_mut().ok_or_else(bad)?;
            (x.pitch.0, x.yaw.0, x.roll.0) = (f(a[0]), f(a[1]), f(a[2]));
        }
        MStruct::RD(a) => {
            let x = v.get_rotator_d_mut().ok_or_else(bad)?;
            (x.pitch.0, x.yaw.0, x.roll.0) = (d(a[0]), d(a[1]), d(a[2]));
        }
        MStruct::QF(a) => {
            let x = v.get_quat_f_mut().ok_or_else(bad)?;
            (x.x.0, x.y.0, x.z.0, x.w.0) = (f(a[0]), f(a[1]), f(a[2]), f(a[3]));
        }
        MStruct::QD(a) => {
            let x = v.get_quat_d_mut().ok_or_else(bad)?;
            (x.x.0, x.y.0, x.z.0, x.w.0) = (d(a[0]), d(a[1]), d(a[2]), d(a[3]));
        }
        MStruct::DateTime(t) => v.get_date_time_mut().ok_or_else(bad)?.ticks = *t,
        MStruct::Guid(g) => *v.get_guid_mut().ok_or_else(bad)? = Guid(*g),
        MStruct::IntPoint(x, y) => {
            let p = v.get_int_point_mut().ok_or_else(bad)?;
            p.x = *x;
            p.y = *y;
        }
        m => *v = conv::strukt(m, Form::Compact),
    }
    Ok(())
}

fn edit_fields(gn: &mut Gen, fields: &mut Vec<(String, Vec<MVal>)>, real: &mut HashableIndexMap<String, Vec<Property>>, at: &str, log: &mut Vec<String>) -> Res {
    let op = if fields.is_empty() { 1 } else { gn.s.weighted(&[8, 2, 2, 2, 2, 1]) };
    if op == 1 {
        let taken: Vec<&String> = fields.iter().map(|p| &p.0).collect();
        let Some(name) = fresh_name(gn, &taken) else { return Ok(()) };
        gn.path.push(name.clone());
        let v = gn.value(1);
        gn.path.pop();
        log.push(format!("add field: {at}/{name:?} = {v:?}"));
        let p = conv::value(&v, Form::Compact);
        let i = gn.s.idx(fields.len() + 1);
        fields.insert(i, (name.clone(), vec![v]));
        real.shift_insert(i, name, vec![p]);
        return Ok(());
    }
    let i = gn.s.idx(fields.len());
    let name = fields[i].0.clone();
    let here = format!("{at}/{name:?}");
    match op {
        0 => {
            let k = gn.s.idx(fields[i].1.len());
            let p = real.get_mut(&name).and_then(|v| v.get_mut(k)).ok_or_else(|| lost(&here))?;
            gn.path.push(name);
            edit(gn, &mut fields[i].1[k], p, true, &here, log)
        }
        2 => {
            log.push(format!("remove field: {here}"));
            fields.remove(i);
            real.shift_remove(&name).map(drop).ok_or_else(|| lost(&here))
        }
        3 => {
            // another value of the same name
            gn.path.push(name.clone());
            let v = gn.value(1);
            gn.path.pop();
            log.push(format!("repeat field: {here} = {v:?}"));
            let p = conv::value(&v, Form::Compact);
            fields[i].1.push(v);
            real.get_mut(&name).ok_or_else(|| lost(&here))?.push(p);
            Ok(())
        }
        4 => {
            let taken: Vec<&String> = fields.iter().map(|p| &p.0).collect();
            let Some(new) = fresh_name(gn, &taken) else { return Ok(()) };
            gn.path.push(name.clone());
            let hinted = uses_hints(&gn.hints, &gn.path);
            gn.path.pop();
            if hinted {
                return Ok(());
            }
            log.push(format!("rename field: {here} to {new:?}"));
            fields[i].0 = new.clone();
            let v = real.shift_remove(&name).ok_or_else(|| lost(&here))?;
            real.shift_insert(i, new, v);
            Ok(())
        }
        _ => {
            let j = gn.s.idx(fields.len());
            log.push(format!("exchange fields: {at} {i} and {j}"));
            fields.swap(i, j);
            real.swap_indices(i, j);
            Ok(())
        }
    }
}

/// An element to put beside those in the list.
fn one_more(gn: &mut Gen, ty: &str, items: &[MVal], hinted: bool) -> Option<MVal> {
    Some(match items.first() {
        Some(MVal::ByteNs { .. }) => MVal::ByteNs { name: None, val: gn.string() },
        Some(MVal::Unknown { raw, .. }) => MVal::Unknown { ty: ty.into(), raw: raw.iter().map(|_| gn.s.below(256) as u8).collect() },
        _ if ty == "StructProperty" && !hinted => return None,
        _ if ty == "StructProperty" || SCALARS.contains(&ty) => gn.element(ty, 1),
        _ if is_known_type(ty) => return None,
        _ => MVal::Unknown { ty: ty.into(), raw: vec![gn.s.below(256) as u8; 3] },
    })
}

fn list(gn: &mut Gen, ty: &str, items: &mut Vec<MVal>, real: &mut Vec<Property>, hinted: bool, at: &str, log: &mut Vec<String>) -> Res {
    let op = if items.is_empty() { 1 } else { gn.s.weighted(&[4, 3, 2, 1, 1]) };
    if items.len() != real.len() {
        return Err(lost(at));
    }
    match op {
        0 => {
            let i = gn.s.idx(items.len());
            gn.path.push(ty.into());
            edit(gn, &mut items[i], &mut real[i], false, &format!("{at}[{i}]"), log)
        }
        1 => {
            let Some(v) = one_more(gn, ty, items, hinted) else { return Ok(()) };
            let i = gn.s.idx(items.len() + 1);
            log.push(format!("insert element: {at}[{i}] = {v:?}"));
            real.insert(i, conv::value(&v, Form::Compact));
            items.insert(i, v);
            Ok(())
        }
        2 => {
            let i = gn.s.idx(items.len());
            log.push(format!("remove element: {at}[{i}]"));
            items.remove(i);
            real.remove(i);
            Ok(())
        }
        3 => {
            log.push(format!("reverse: {at}"));
            items.reverse();
            real.reverse();
            Ok(())
        }
        _ => {
            log.push(format!("clear: {at}"));
            items.clear();
            real.clear();
            Ok(())
        }
    }
}

fn edit_array(gn: &mut Gen, m: &mut MVal, a: &mut ArrayProperty, at: &str, log: &mut Vec<String>) -> Res {
    let MVal::Array { ty, sinfo, items } = m else { unreachable!() };
    // a compact list of plain values
    fn plain<T: Clone>(gn: &mut Gen, ty: &str, items: &mut Vec<MVal>, real: &mut Vec<T>, get: &dyn Fn(&MVal) -> Option<T>, at: &str, log: &mut Vec<String>) -> Res {
        if items.len() != real.len() {
            return Err(lost(at));
        }
        let op = if items.is_empty() { 1 } else { gn.s.weighted(&[4, 3, 2, 1, 1]) };
        match op {
            0 | 1 => {
                let v = gn.scalar(ty, false);
                let x = get(&v).ok_or_else(|| lost(at))?;
                if op == 0 {
                    let i = gn.s.idx(items.len());
                    log.push(format!("element: {at}[{i}] = {v:?}"));
                    items[i] = v;
                    real[i] = x;
                } else {
                    let i = gn.s.idx(items.len() + 1);
                    log.push(format!("insert element: {at}[{i}] = {v:?}"));
                    items.insert(i, v);
                    real.insert(i, x);
                }
            }
            2 => {
                let i = gn.s.idx(items.len());
                log.push(format!("remove element: {at}[{i}]"));
                items.remove(i);
                real.remove(i);
            }
            3 => {
                log.push(format!("reverse: {at}"));
                items.reverse();
                real.reverse();
            }
            _ => {
                log.push(format!("clear: {at}"));
                items.clear();
                real.clear();
            }
        }
        Ok(())
    }
    let ty = ty.clone();
    macro_rules! get {
        ($pat:pat => $e:expr) => {
            &|v: &MVal| match v {
                $pat => Some($e),
                _ => None,
            }
        };
    }
    match a {
        ArrayProperty::Bools { bools } => plain(gn, &ty, items, bools, get!(MVal::Bool(x) => *x), at, log),
        ArrayProperty::Bytes { bytes } => plain(gn, &ty, items, bytes, get!(MVal::Byte { val, .. } => *val), at, log),
        ArrayProperty::Enums { enums } => plain(gn, &ty, items, enums, get!(MVal::Enum { val, .. } => val.clone()), at, log),
        ArrayProperty::Floats { floats } => plain(gn, &ty, items, floats, get!(MVal::F32(x) => conv::f(*x).into()), at, log),
        ArrayProperty::Ints { ints } => plain(gn, &ty, items, ints, get!(MVal::I32(x) => *x), at, log),
        ArrayProperty::Names { names } => plain(gn, &ty, items, names, get!(MVal::Name { val, .. } => val.clone()), at, log),
        ArrayProperty::Strings { strings } => plain(gn, &ty, items, strings, get!(MVal::Str(x) => x.clone()), at, log),
        ArrayProperty::Structs { field_name, type_name: _, guid, structs } => {
            let Some((mf, mt, mg)) = sinfo else { return Err(lost(at)) };
            if items.len() != structs.len() {
                return Err(lost(at));
            }
            let op = if items.is_empty() { 1 } else { gn.s.weighted(&[6, 3, 2, 1, 1]) };
            match op {
                0 => {
                    let i = gn.s.idx(items.len());
                    let MVal::StructVal(x) = &mut items[i] else { unreachable!() };
                    edit_struct(gn, x, &mut structs[i], &format!("{at}[{i}]"), log)
                }
                1 => {
                    let v = gn.strukt(mt, 1);
                    let i = gn.s.idx(items.len() + 1);
                    log.push(format!("insert struct: {at}[{i}] = {v:?}"));
                    structs.insert(i, conv::strukt(&v, Form::Compact));
                    items.insert(i, MVal::StructVal(v));
                    Ok(())
                }
                2 => {
                    let i = gn.s.idx(items.len());
                    log.push(format!("remove struct: {at}[{i}]"));
                    items.remove(i);
                    structs.remove(i);
                    Ok(())
                }
                3 => {
                    *mf = gn.string();
                    *field_name = mf.clone();
                    log.push(format!("struct array field: {at} = {mf:?}"));
                    Ok(())
                }
                _ => {
                    *mg = gn.guid();
                    *guid = Guid(*mg);
                    log.push(format!("struct array guid: {at} = {mg:02x?}"));
                    Ok(())
                }
            }
        }
        ArrayProperty::Properties { properties, .. } => list(gn, &ty, items, properties, false, at, log),
        #[allow(unreachable_patterns)]
        _ => panic!("HARNESS: array form not known to the harness"),
    }
}

fn edit_map(gn: &mut Gen, m: &mut MVal, map: &mut MapProperty, at: &str, log: &mut Vec<String>) -> Res {
    let MVal::Map { kt, vt, flags, items } = m else { unreachable!() };
    if let MapProperty::Properties { allocation_flags, .. } = map
        && gn.s.chance(1, 10)
    {
        *flags = interesting(gn.s, 32) as u32;
        *allocation_flags = *flags;
        log.push(format!("map flags: {at} = {flags}"));
        return Ok(());
    }
    let ready = |t: &str| t == "StructProperty" || SCALARS.contains(&t);
    let op = if items.is_empty() { 1 } else { gn.s.weighted(&[5, 4, 2, 1, 1]) };
    let i = gn.s.idx(items.len().max(1));
    let j = gn.s.idx(items.len().max(1));
    let mut key = None;
    let mut val = None;
    match op {
        0 | 1 => {
            if !ready(kt) || !ready(vt) {
                return Ok(());
            }
            gn.path.push("Value".into());
            val = Some(gn.element(vt, 1));
            gn.path.pop();
            if op == 1 {
                gn.path.push("Key".into());
                let k = gn.element(kt, 1);
                gn.path.pop();
                let c = k.canon_string();
                if items.iter().any(|(k, _)| k.canon_string() == c) {
                    return Ok(());
                }
                key = Some(k);
            }
        }
        _ => {}
    }
    // the same operation on whichever map the form holds
    #[allow(clippy::too_many_arguments)]
    fn run<K: Hash + Eq + Clone, V: Hash>(
        op: usize, i: usize, j: usize, key: &Option<MVal>, val: &Option<MVal>, items: &mut Vec<(MVal, MVal)>,
        map: &mut HashableIndexMap<K, V>, k: &dyn Fn(&MVal) -> Option<K>, v: &dyn Fn(&MVal) -> Option<V>, at: &str, log: &mut Vec<String>,
    ) -> Res {
        let bad = || lost(at);
        match op {
            0 => {
                let Some(val) = val else { unreachable!() };
                let (Some(rk), Some(rv)) = (k(&items[i].0), v(val)) else { return Err(bad()) };
                log.push(format!("map value: {at}[{i}] = {val:?}"));
                items[i].1 = val.clone();
                *map.get_mut(&rk).ok_or_else(bad)? = rv;
            }
            1 => {
                let (Some(key), Some(val)) = (key, val) else { unreachable!() };
                // keys that the form cannot hold are left out
                let Some(rk) = k(key) else { return Ok(()) };
                let rv = v(val).ok_or_else(bad)?;
                log.push(format!("map entry: {at} {key:?} = {val:?}"));
                items.push((key.clone(), val.clone()));
                if map.insert(rk, rv).is_some() {
                    return Err(format!("{at}: the map held a key that the model does not hold"));
                }
            }
            2 => {
                log.push(format!("remove map entry: {at}[{i}]"));
                let rk = k(&items[i].0).ok_or_else(bad)?;
                items.remove(i);
                map.shift_remove(&rk).ok_or_else(bad)?;
            }
            3 => {
                log.push(format!("exchange map entries: {at} {i} and {j}"));
                items.swap(i, j);
                map.swap_indices(i, j);
            }
            _ => {
                log.push(format!("clear map: {at}"));
                items.clear();
                map.clear();
            }
        }
        Ok(())
    }
    let en = |v: &MVal| match v {
        MVal::Enum { ty: None, val } => Some(val.clone()),
        _ => None,
    };
    let na = |v: &MVal| match v {
        MVal::Name { idx: 0, val } => val.clone(),
        _ => None,
    };
    let st = |v: &MVal| match v {
        MVal::Str(x) => x.clone(),
        _ => None,
    };
    let bo = |v: &MVal| match v {
        MVal::Bool(b) => Some(*b),
        _ => None,
    };
    let it = |v: &MVal| match v {
        MVal::I32(x) => Some(*x),
        _ => None,
    };
    let ss = |v: &MVal| match v {
        MVal::Str(x) => Some(x.clone()),
        _ => None,
    };
    let pr = |v: &MVal| Some(conv::value(v, Form::Compact));
    macro_rules! go {
        ($map:expr, $k:expr, $v:expr) => {
            run(op, i, j, &key, &val, items, $map, $k, $v, at, log)
        };
    }
    match map {
        MapProperty::EnumBool { enum_bools } => go!(enum_bools, &en, &bo),
        MapProperty::EnumInt { enum_ints } => go!(enum_ints, &en, &it),
        MapProperty::EnumProperty { enum_props, .. } => go!(enum_props, &en, &pr),
        MapProperty::NameBool { name_bools } => go!(name_bools, &na, &bo),
        MapProperty::NameInt { name_ints } => go!(name_ints, &na, &it),
        MapProperty::NameProperty { name_props, .. } => go!(name_props, &na, &pr),
        MapProperty::StrBool { str_bools } => go!(str_bools, &st, &bo),
        MapProperty::StrInt { str_ints } => go!(str_ints, &st, &it),
        MapProperty::StrProperty { str_props, .. } => go!(str_props, &st, &pr),
        MapProperty::StrStr { str_strs } => go!(str_strs, &st, &ss),
        MapProperty::Properties { value, .. } => go!(value, &pr, &pr),
        #[allow(unreachable_patterns)]
        _ => panic!("HARNESS: map form not known to the harness"),
    }
}

// ---- C23 ----

/// Contents for a property of unknown type, some of which look like other parts of a file.
fn contents(gn: &mut Gen) -> Vec<u8> {
    match gn.s.weighted(&[3, 2, 3, 3, 1, 1]) {
        0 => gn.raw(20),
        1 => vec![],
        2 => {
            // an end marker, alone or within other bytes
            let mut e = Enc::new(gn.ver);
            e.b = gn.raw(5);
            e.s("None");
            e.b.extend_from_slice(&[0; 4]);
            let tail = gn.raw(5);
            e.b.extend_from_slice(&tail);
            e.b
        }
        3 => {
            // a whole property
            let v = gn.value(1);
            let mut e = Enc::new(gn.ver);
            e.path = vec!["x".into()];
            e.named("x", &v);
            e.b
        }
        4 => {
            let n = *gn.s.pick(&[127usize, 128, 255, 256, 65535, 65536, 70000]);
            let b = gn.s.below(256) as u8;
            vec![b; n]
        }
        _ => {
            // the start of another save
            let mut e = Enc::new(gn.ver);
            let h = gn.header();
            e.header(&h);
            e.b
        }
    }
}

/// A property that is of an unknown type or holds elements of one.
fn stranger(gn: &mut Gen) -> MVal {
    let ty = gn.unknown_type();
    match gn.s.weighted(&[4, 1, 1]) {
        0 => MVal::Unknown { ty, raw: contents(gn) },
        k => {
            let n = *gn.s.pick(&[1usize, 2, 3, 7, 40]);
            let len = *gn.s.pick(&[1usize, 2, 4, 5, 8, 9, 16, 100]);
            let items = (0..n)
                .map(|_| {
                    let mut raw = contents(gn);
                    raw.resize(len, 7);
                    MVal::Unknown { ty: ty.clone(), raw }
                })
                .collect();
            if k == 1 {
                MVal::Array { ty, sinfo: None, items }
            } else {
                let flags = if gn.s.chance(1, 3) { interesting(gn.s, 32) as u32 } else { 0 };
                MVal::Set { ty, flags, items }
            }
        }
    }
}

/// Places where fields can be added: every struct with fields, by its number in the walk.
fn field_lists(v: &mut MVal, f: &mut dyn FnMut(&mut Vec<(String, Vec<MVal>)>)) {
    leaf::nodes(v, &mut |v| {
        if let MVal::Struct { val: MStruct::Custom(x), .. } | MVal::StructVal(MStruct::Custom(x)) = v {
            f(x)
        }
    });
}

pub fn c23(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = g::file(s, Cfg { unknown: false, deep: true, pal: true, budget: 25, ..Cfg::default() });
    let without = c.file.clone();
    let mut with = c.file.clone();
    let mut gn = Gen::new(s, Cfg { budget: 8, depth: 2, hints: false, ..Cfg::default() });
    gn.ver = with.ver();
    // several strangers in one file; each remembers where it went
    let n = gn.s.range(1, 3);
    let mut names: Vec<String> = vec![];
    let mut nested = 0;
    for k in 0..n {
        gn.budget = 8;
        let v = stranger(&mut gn);
        let name = if gn.s.chance(1, 3) { format!("Strange{k}") } else { format!("{}{k}", gn.ident()) };
        let mut lists = 0;
        for p in &mut with.props {
            field_lists(&mut p.1, &mut |_| lists += 1);
        }
        if with.props.iter().any(|p| p.0 == name) || names.contains(&name) {
            continue;
        }
        ctx.label(match &v {
            MVal::Unknown { .. } => "property of unknown type",
            MVal::Array { .. } => "array of unknown type",
            _ => "set of unknown type",
        });
        if lists > 0 && gn.s.chance(1, 2) {
            let at = gn.s.idx(lists);
            let mut i = 0;
            let place = gn.s.bits();
            let mut done = false;
            for p in &mut with.props {
                field_lists(&mut p.1, &mut |x| {
                    if i == at && !x.iter().any(|f| f.0 == name) {
                        x.insert(place as usize % (x.len() + 1), (name.clone(), vec![v.clone()]));
                        done = true;
                    }
                    i += 1;
                });
            }
            if done {
                nested += 1;
                names.push(name);
            }
            ctx.label("inside a struct");
        } else {
            let at = gn.s.idx(with.props.len() + 1);
            with.props.insert(at, (name.clone(), v));
            names.push(name);
            ctx.label("at top level");
        }
    }
    let both = g::Case { file: with.clone(), hints: c.hints.clone() };
    ctx.describe(|| format!("added {names:?}\n{}", show(&both)));
    if names.is_empty() {
        return Ok(());
    }
    let l = enc::encode(&with);
    ctx.nontrivial(&l.b);
    let read = |m: &MFile, b: &[u8]| conv::read(&enc::disk(m, b), m.pal, &c.hints);
    let got = read(&with, &l.b).map_err(|e| format!("reading failed: {e}"))?;
    ctx.eval();
    conv::cmp_file(&with, &got)?;
    let out = conv::write(&got).map_err(|e| format!("saving failed: {e}"))?;
    let out = basic::unwrap_pal(with.pal, &out)?;
    ctx.eval();
    if out != l.b {
        return Err(format!("saved differently; {}", diff(&l.b, &out)));
    }
    // the rest is as if they were not there
    let base = read(&without, &enc::encode(&without).b).map_err(|e| format!("reading without them failed: {e}"))?;
    let mut rest = got;
    for n in &names {
        rest.properties.shift_remove(n);
    }
    fn strip(p: &mut Property, names: &[String]) {
        fn inside(v: &mut StructPropertyValue, names: &[String]) {
            if let Some(f) = v.get_custom_struct_mut() {
                names.iter().for_each(|n| drop(f.shift_remove(n)));
                f.values_mut().flatten().for_each(|p| strip(p, names));
            }
        }
        match p {
            Property::StructProperty(x) => inside(&mut x.value, names),
            Property::StructPropertyValue(x) => inside(x, names),
            Property::ArrayProperty(ArrayProperty::Structs { structs, .. }) => structs.iter_mut().for_each(|x| inside(x, names)),
            Property::ArrayProperty(ArrayProperty::Properties { properties, .. }) => properties.iter_mut().for_each(|x| strip(x, names)),
            Property::SetProperty(x) => x.properties.iter_mut().for_each(|x| strip(x, names)),
            Property::MapProperty(MapProperty::EnumProperty { enum_props: m, .. })
            | Property::MapProperty(MapProperty::NameProperty { name_props: m, .. })
            | Property::MapProperty(MapProperty::StrProperty { str_props: m, .. }) => m.values_mut().for_each(|x| strip(x, names)),
            Property::MapProperty(MapProperty::Properties { value, .. }) => {
                let all = std::mem::take(&mut value.0);
                for (mut k, mut v) in all {
                    strip(&mut k, names);
                    strip(&mut v, names);
                    value.insert(k, v);
                }
            }
            _ => {}
        }
    }
    rest.properties.values_mut().for_each(|p| strip(p, &names));
    // generated names may repeat an added one in another struct
    let mut repeats = false;
    for p in &without.props {
        p.1.walk(&mut |v| {
            if let MVal::Struct { val: MStruct::Custom(x), .. } | MVal::StructVal(MStruct::Custom(x)) = v {
                repeats |= x.iter().any(|f| names.contains(&f.0));
            }
        });
    }
    if !repeats {
        ctx.eval();
        conv::cmp_file(&without, &rest).map_err(|e| format!("the rest: {e}"))?;
        if rest != base {
            return Err("the rest of the file differs from the file without the unknown properties".into());
        }
        let a = conv::write(&rest).map_err(|e| format!("saving the rest failed: {e}"))?;
        let b = conv::write(&base).map_err(|e| format!("saving without them failed: {e}"))?;
        ctx.eval();
        if a != b {
            return Err(format!("the rest is saved differently; {}", diff(&b, &a)));
        }
    }
    // one of them read and written alone
    let name = &names[0];
    if nested == 0
        && let Some((_, v)) = with.props.iter().find(|p| p.0 == *name)
    {
        let mut e = Enc::new(with.ver());
        e.tagged(v);
        let vers = conv::versions(&with.header.versions);
        let hints = no_hints();
        let mut stack = vec![];
        let mut options = PropertyOptions { hints: &hints, properties_stack: &mut stack, custom_versions: &vers };
        let mut rd = Cursor::new([&e.b[..], b"after"].concat());
        let p = Property::new(&mut rd, v.type_name(), true, &mut options, None).map_err(|e| format!("reading it alone failed: {e}"))?;
        ctx.eval();
        conv::cmp(v, &p).map_err(|e| format!("read alone: {e}"))?;
        if rd.position() as usize != e.b.len() {
            return Err(format!("reading it alone ended at {} of {}", rd.position(), e.b.len()));
        }
    }
    Ok(())
}

// ---- C27 ----

#[derive(Clone)]
enum Input {
    File { bytes: Vec<u8>, pal: Option<u8>, hints: Hints },
    Prop { bytes: Vec<u8>, ty: String, header: bool, suggested: Option<u32> },
    Header { bytes: Vec<u8> },
}

#[derive(Clone, PartialEq, Debug)]
enum Outcome {
    File(Box<GvasFile>, Vec<u8>),
    Prop(Box<Property>, u64),
    Header(GvasHeader, u64),
    Failed(String),
}

fn run_input<R: Read + Seek>(i: &Input, dev: &mut R, options: &mut PropertyOptions) -> Outcome {
    match i {
        Input::File { pal, hints, .. } => {
            let r = if hints.is_empty() {
                GvasFile::read(dev, conv::game_arg(*pal))
            } else {
                GvasFile::read_with_hints(dev, conv::game_arg(*pal), hints)
            };
            match r {
                Ok(f) => {
                    let b = conv::write(&f).unwrap_or_else(|e| format!("{e:?}").into_bytes());
                    Outcome::File(Box::new(f), b)
                }
                Err(e) => Outcome::Failed(format!("{e:?}")),
            }
        }
        Input::Prop { ty, header, suggested, .. } => match Property::new(dev, ty, *header, options, *suggested) {
            Ok(p) => Outcome::Prop(Box::new(p), dev.stream_position().unwrap_or(u64::MAX)),
            Err(e) => Outcome::Failed(format!("{e:?}")),
        },
        Input::Header { .. } => match GvasHeader::read(dev) {
            Ok(h) => Outcome::Header(h, dev.stream_position().unwrap_or(u64::MAX)),
            Err(e) => Outcome::Failed(format!("{e:?}")),
        },
    }
}

fn bytes_of(i: &Input) -> &[u8] {
    match i {
        Input::File { bytes, .. } | Input::Prop { bytes, .. } | Input::Header { bytes } => bytes,
    }
}

/// A device that performs another read in the middle of its own.
struct Interleaved<'a> {
    inner: Cursor<&'a [u8]>,
    calls: u64,
    at: u64,
    other: &'a dyn Fn(),
}
impl Read for Interleaved<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls == self.at {
            (self.other)();
        }
        self.inner.read(b)
    }
}
impl Seek for Interleaved<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.inner.seek(p)
    }
}

pub fn c27(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut pool: Vec<Input> = vec![];
    let mut models: Vec<Option<MFile>> = vec![];
    let mut notes: Vec<String> = vec![];
    // properties share the hints, the versions and the path
    let mut gn = Gen::new(s, Cfg { budget: 12, depth: 4, structs: true, ..Cfg::default() });
    let versions = gn.versions();
    gn.ver = ver_of(&versions);
    let stack: Vec<String> = (0..gn.s.below(3)).map(|_| gn.ident()).collect();
    let nprops = gn.s.range(1, 4);
    let mut hints;
    let mut raw: Vec<(MVal, bool)> = vec![];
    for _ in 0..nprops {
        gn.budget = 12;
        gn.path = stack.clone();
        let v = if gn.s.chance(3, 4) {
            let d = gn.s.range(1, 4) as usize;
            (gn.value(d), true)
        } else {
            let ty = if gn.s.chance(1, 2) { "StructProperty".into() } else { gn.scalar_type().to_string() };
            (gn.element(&ty, 2), false)
        };
        raw.push(v);
    }
    hints = gn.hints.clone();
    // some hints are missing, so that reads fail at a path
    if !hints.is_empty() && s.chance(1, 2) {
        let mut keys: Vec<String> = hints.keys().cloned().collect();
        keys.sort();
        let k = &keys[s.idx(keys.len())];
        hints.remove(k);
        notes.push(format!("without the hint for {k:?}"));
    }
    for (v, header) in &raw {
        let mut e = Enc::new(ver_of(&versions));
        e.path = stack.clone();
        if *header {
            e.tagged(v);
        } else {
            e.body(v);
        }
        let mut bytes = e.b;
        let len = bytes.len() as u32;
        match s.weighted(&[4, 2, 2, 1]) {
            1 => {
                let n = s.idx(bytes.len() + 1);
                bytes.truncate(n);
                notes.push(format!("cut at {n}"));
            }
            2 if !bytes.is_empty() => {
                for _ in 0..s.range(1, 3) {
                    let i = s.idx(bytes.len());
                    bytes[i] = s.below(256) as u8;
                }
                notes.push("damaged".into());
            }
            3 => bytes.extend_from_slice(&[1, 2, 3]),
            _ => {}
        }
        notes.push(format!("property {v:?}"));
        pool.push(Input::Prop { bytes, ty: v.type_name().to_string(), header: *header, suggested: if *header { None } else { Some(len) } });
        models.push(None);
    }
    for _ in 0..s.range(0, 2) {
        let c = g::file(s, Cfg { budget: 12, depth: 4, pal: true, ..Cfg::default() });
        let l = enc::encode(&c.file);
        notes.push(format!("file {:?} hints {:?}", c.file, c.hints));
        let (bytes, model) = match s.below(3) {
            0 => {
                let (b, how) = mutate::damage(s, &l);
                notes.push(how);
                (enc::disk(&c.file, &b), None)
            }
            1 => {
                let d = enc::disk(&c.file, &l.b);
                let n = s.idx(d.len());
                notes.push(format!("cut at {n}"));
                (d[..n].to_vec(), None)
            }
            _ => (enc::disk(&c.file, &l.b), Some(c.file.clone())),
        };
        if s.chance(1, 6) {
            pool.push(Input::Header { bytes: l.b.clone() });
            models.push(None);
        }
        pool.push(Input::File { bytes, pal: c.file.pal, hints: c.hints });
        models.push(model);
    }
    ctx.describe(|| format!("path {stack:?} hints {hints:?} versions {versions:02x?}\n{}", notes.join("\n")));
    let vers = conv::versions(&versions);

    // each on its own with state of its own
    let alone = |i: &Input| {
        let mut st = stack.clone();
        let mut o = PropertyOptions { hints: &hints, properties_stack: &mut st, custom_versions: &vers };
        let r = run_input(i, &mut Cursor::new(bytes_of(i)), &mut o);
        (r, st)
    };
    let mut base = vec![];
    for (k, i) in pool.iter().enumerate() {
        let (r, st) = alone(i);
        ctx.eval();
        if st != stack {
            return Err(format!("input {k}: the path is {st:?} after the read, it was {stack:?}"));
        }
        if let (Some(m), Outcome::File(f, _)) = (&models[k], &r) {
            conv::cmp_file(m, f)?;
        } else if models[k].is_some() {
            return Err(format!("input {k}: reading a well-formed save failed: {r:?}"));
        }
        base.push(r);
    }
    let failed = base.iter().filter(|b| matches!(b, Outcome::Failed(_))).count();
    ctx.label(match (failed, base.len() - failed) {
        (0, _) => "all reads succeed",
        (_, 0) => "all reads fail",
        _ => "some reads fail",
    });
    if pool.len() >= 2 {
        ctx.nontrivial(&pool.iter().flat_map(|i| bytes_of(i).to_vec()).collect::<Vec<u8>>());
    }
    let differs = |k: usize, r: &Outcome, how: &str| -> Res {
        if *r == base[k] {
            return Ok(());
        }
        let short = |o: &Outcome| format!("{o:?}").chars().take(300).collect::<String>();
        Err(format!("input {k} gives another result {how}: {} instead of {}", short(r), short(&base[k])))
    };

    // a history over shared state
    let mut st = stack.clone();
    let mut shared = PropertyOptions { hints: &hints, properties_stack: &mut st, custom_versions: &vers };
    let len = s.range(2, 10);
    let mut order = vec![];
    for _ in 0..len {
        let k = s.idx(pool.len());
        order.push(k);
        let r = run_input(&pool[k], &mut Cursor::new(bytes_of(&pool[k])), &mut shared);
        ctx.eval();
        differs(k, &r, &format!("after the reads {order:?} with the same options"))?;
        if *shared.properties_stack != stack {
            return Err(format!("the path is {:?} after the reads {order:?}, it was {stack:?}", shared.properties_stack));
        }
    }

    // one read inside another
    let (k, j) = (s.idx(pool.len()), s.idx(pool.len()));
    let inner: std::cell::RefCell<Option<Outcome>> = Default::default();
    let other = || *inner.borrow_mut() = Some(alone(&pool[j]).0);
    let mut dev = Interleaved { inner: Cursor::new(bytes_of(&pool[k])), calls: 0, at: s.range(1, 30), other: &other };
    let mut st = stack.clone();
    let mut o = PropertyOptions { hints: &hints, properties_stack: &mut st, custom_versions: &vers };
    let r = run_input(&pool[k], &mut dev, &mut o);
    ctx.eval();
    differs(k, &r, &format!("while input {j} is read"))?;
    if let Some(r) = inner.borrow().as_ref() {
        ctx.label("one read inside another");
        differs(j, r, &format!("during a read of input {k}"))?;
    }
    if st != stack {
        return Err(format!("the path is {st:?} after a read, it was {stack:?}"));
    }

    // at the same time
    if s.chance(1, 3) {
        ctx.label("threads");
        let shift = s.idx(pool.len());
        let results: Vec<Vec<(usize, Outcome)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..3)
                .map(|t| {
                    let alone = &alone;
                    let pool = &pool;
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(sc, move || (0..pool.len()).map(|i| (i + t * shift) % pool.len()).map(|i| (i, alone(&pool[i]).0)).collect())
                        .expect("HARNESS: thread")
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
        });
        for (k, r) in results.iter().flatten() {
            ctx.eval();
            differs(*k, r, "while other threads read")?;
        }
    }
    Ok(())
}
