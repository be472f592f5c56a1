//! Model to gvas values through the public API, and comparison of gvas values with the model.
#![allow(unreachable_patterns)]

use crate::model::*;
use gvas::engine_version::FEngineVersion;
use gvas::game_version::{DeserializedGameVersion, PalworldCompressionType};
use gvas::properties::Property;
use gvas::properties::array_property::ArrayProperty;
use gvas::properties::delegate_property::*;
use gvas::properties::enum_property::EnumProperty;
use gvas::properties::field_path_property::{FieldPath, FieldPathProperty};
use gvas::properties::int_property::*;
use gvas::properties::map_property::MapProperty;
use gvas::properties::name_property::NameProperty;
use gvas::properties::object_property::ObjectProperty;
use gvas::properties::set_property::SetProperty;
use gvas::properties::str_property::StrProperty;
use gvas::properties::struct_property::{StructProperty, StructPropertyValue};
use gvas::properties::struct_types::*;
use gvas::properties::text_property::*;
use gvas::properties::unknown_property::UnknownProperty;
use gvas::types::Guid;
use gvas::types::map::HashableIndexMap;
use gvas::{GvasFile, GvasHeader};
use indexmap::IndexMap;
use std::collections::HashMap;

pub fn f(b: u32) -> f32 {
    f32::from_bits(b)
}
pub fn d(b: u64) -> f64 {
    f64::from_bits(b)
}

pub fn header(h: &MHeader) -> GvasHeader {
    let engine_version = FEngineVersion::new(h.engine.0, h.engine.1, h.engine.2, h.engine.3, h.branch.clone());
    let custom_versions = versions(&h.versions);
    let save_game_class_name = h.class_name.clone();
    match h.ue5 {
        None => GvasHeader::Version2 {
            package_file_version: h.package, engine_version, custom_version_format: 3, custom_versions, save_game_class_name,
        },
        Some(v) => GvasHeader::Version3 {
            package_file_version: h.package, package_file_version_ue5: v, engine_version, custom_version_format: 3,
            custom_versions, save_game_class_name,
        },
    }
}

pub fn versions(v: &[(G16, u32)]) -> HashableIndexMap<Guid, u32> {
    HashableIndexMap(v.iter().map(|(g, v)| (Guid(*g), *v)).collect())
}

pub fn game(pal: Option<u8>) -> DeserializedGameVersion {
    match pal {
        None => DeserializedGameVersion::Default,
        Some(0) => DeserializedGameVersion::Palworld(PalworldCompressionType::None),
        Some(1) => DeserializedGameVersion::Palworld(PalworldCompressionType::Zlib),
        Some(_) => DeserializedGameVersion::Palworld(PalworldCompressionType::ZlibTwice),
    }
}

/// How containers are built.
#[derive(Clone, Copy, PartialEq)]
pub enum Form {
    /// Through the constructors, which choose compact forms.
    Compact,
    /// The general forms.
    General,
}

pub fn file(m: &MFile, form: Form) -> GvasFile {
    let mut properties = HashableIndexMap(IndexMap::new());
    for (n, v) in &m.props {
        properties.insert(n.clone(), value(v, form));
    }
    GvasFile { deserialized_game_version: game(m.pal), header: header(&m.header), properties }
}

fn deleg(d: &MDel) -> Delegate {
    Delegate::new(d.object.clone(), d.function.clone())
}
fn delegs(d: &[MDel]) -> MulticastScriptDelegate {
    MulticastScriptDelegate::new(d.iter().map(deleg).collect())
}

pub fn value(v: &MVal, form: Form) -> Property {
    match v {
        MVal::Bool(x) => BoolProperty::new(*x).into(),
        MVal::Byte { name, val } => ByteProperty::new_byte(name.clone(), *val).into(),
        MVal::ByteNs { name, val } => ByteProperty::new_namespaced(name.clone(), val.clone()).into(),
        MVal::I8(x) => Int8Property::new(*x).into(),
        MVal::I16(x) => Int16Property::new(*x).into(),
        MVal::U16(x) => UInt16Property::new(*x).into(),
        MVal::I32(x) => IntProperty::new(*x).into(),
        MVal::U32(x) => UInt32Property::new(*x).into(),
        MVal::I64(x) => Int64Property::new(*x).into(),
        MVal::U64(x) => UInt64Property::new(*x).into(),
        MVal::F32(x) => FloatProperty::new(f(*x)).into(),
        MVal::F64(x) => DoubleProperty::new(d(*x)).into(),
        MVal::Enum { ty, val } => EnumProperty::new(ty.clone(), val.clone()).into(),
        MVal::Name { idx, val } => NameProperty { array_index: *idx, value: val.clone() }.into(),
        MVal::Str(x) => StrProperty::new(x.clone()).into(),
        MVal::Object(x) => ObjectProperty::new(x.clone()).into(),
        MVal::Delegate(x) => DelegateProperty::new(deleg(x)).into(),
        MVal::MultiInline(x) => MulticastInlineDelegateProperty::new(delegs(x)).into(),
        MVal::MultiSparse(x) => MulticastSparseDelegateProperty::new(delegs(x)).into(),
        MVal::FieldPath { path, owner } => FieldPathProperty::new(FieldPath::new(path.clone(), owner.clone())).into(),
        MVal::Text(t) => TextProperty::new(text(t)).into(),
        MVal::Struct { guid, ty, val } => StructProperty::new(Guid(*guid), ty.clone(), strukt(val, form)).into(),
        MVal::StructVal(s) => strukt(s, form).into(),
        MVal::Array { ty, sinfo, items } => {
            let props: Vec<Property> = items.iter().map(|i| value(i, form)).collect();
            let info = sinfo.as_ref().map(|(a, b, g)| (a.clone(), b.clone(), Guid(*g)));
            match (form, &info) {
                (Form::General, None) => ArrayProperty::Properties { property_type: ty.clone(), properties: props }.into(),
                _ => match ArrayProperty::new(ty.clone(), info, props) {
                    Ok(a) => a.into(),
                    Err(e) => panic!("ORACLE: ArrayProperty::new refused {ty} elements: {e}"),
                },
            }
        }
        MVal::Set { ty, flags, items } => SetProperty::new(ty.clone(), *flags, items.iter().map(|i| value(i, form)).collect()).into(),
        MVal::Map { kt, vt, flags, items } => {
            let map = HashableIndexMap(items.iter().map(|(k, v)| (value(k, form), value(v, form))).collect::<IndexMap<_, _>>());
            match form {
                Form::Compact => MapProperty::new(kt.clone(), vt.clone(), *flags, map).into(),
                Form::General => MapProperty::Properties { key_type: kt.clone(), value_type: vt.clone(), allocation_flags: *flags, value: map }.into(),
            }
        }
        MVal::Unknown { ty, raw } => UnknownProperty::new(ty.clone(), raw.clone()).into(),
    }
}

pub fn strukt(s: &MStruct, form: Form) -> StructPropertyValue {
    match s {
        MStruct::V2F(a) => Vector2F::new(f(a[0]), f(a[1])).into(),
        MStruct::V2D(a) => Vector2D::new(d(a[0]), d(a[1])).into(),
        MStruct::VF(a) => VectorF::new(f(a[0]), f(a[1]), f(a[2])).into(),
        MStruct::VD(a) => VectorD::new(d(a[0]), d(a[1]), d(a[2])).into(),
        MStruct::RF(a) => RotatorF::new(f(a[0]), f(a[1]), f(a[2])).into(),
        MStruct::RD(a) => RotatorD::new(d(a[0]), d(a[1]), d(a[2])).into(),
        MStruct::QF(a) => QuatF::new(f(a[0]), f(a[1]), f(a[2]), f(a[3])).into(),
        MStruct::QD(a) => QuatD::new(d(a[0]), d(a[1]), d(a[2]), d(a[3])).into(),
        MStruct::DateTime(t) => DateTime::new(*t).into(),
        MStruct::Timespan(t) => Timespan::new(*t).into(),
        MStruct::Guid(g) => Guid(*g).into(),
        MStruct::Color(a) => LinearColor::new(f(a[0]), f(a[1]), f(a[2]), f(a[3])).into(),
        MStruct::IntPoint(x, y) => IntPoint::new(*x, *y).into(),
        MStruct::Tags(t) => StructPropertyValue::GameplayTagContainer(t.clone()),
        MStruct::Custom(fields) => StructPropertyValue::CustomStruct(HashableIndexMap(
            fields.iter().map(|(n, vs)| (n.clone(), vs.iter().map(|v| value(v, form)).collect())).collect(),
        )),
    }
}

pub fn text(t: &MText) -> FText {
    match &t.hist {
        // the constructors of FText cover these
        MHist::Empty => FText::new_none(t.flags, None),
        MHist::None(s) => FText::new_none(t.flags, Some(s.clone())),
        MHist::Base(a, b, c) => FText::new_base(t.flags, a.clone(), b.clone(), c.clone()),
        h => FText { flags: t.flags, history: hist(h) },
    }
}

fn style(v: i8) -> DateTimeStyle {
    [DateTimeStyle::Default, DateTimeStyle::Short, DateTimeStyle::Medium, DateTimeStyle::Long, DateTimeStyle::Full][v as usize]
}

const ROUNDING: [RoundingMode; 7] = [
    RoundingMode::HalfToEven, RoundingMode::HalfFromZero, RoundingMode::HalfToZero, RoundingMode::FromZero,
    RoundingMode::ToZero, RoundingMode::ToNegativeInfinity, RoundingMode::ToPositiveInfinity,
];

pub fn fmt(m: &MFmt) -> NumberFormattingOptions {
    NumberFormattingOptions {
        always_include_sign: m.sign,
        use_grouping: m.grouping,
        rounding_mode: ROUNDING[m.rounding as usize],
        minimum_integral_digits: m.digits[0],
        maximum_integral_digits: m.digits[1],
        minimum_fractional_digits: m.digits[2],
        maximum_fractional_digits: m.digits[3],
    }
}

pub fn arg(a: &MArg) -> FormatArgumentValue {
    match a {
        MArg::I32(x) => FormatArgumentValue::Int(*x),
        MArg::U32(x) => FormatArgumentValue::UInt(*x),
        MArg::I64(x) => FormatArgumentValue::Int64(*x),
        MArg::U64(x) => FormatArgumentValue::UInt64(*x),
        MArg::F32(x) => FormatArgumentValue::Float(f(*x).into()),
        MArg::F64(x) => FormatArgumentValue::Double(d(*x).into()),
        MArg::Text(t) => FormatArgumentValue::Text(text(t)),
    }
}

fn named(a: &[(String, MArg)]) -> HashableIndexMap<String, FormatArgumentValue> {
    HashableIndexMap(a.iter().map(|(k, v)| (k.clone(), arg(v))).collect())
}

pub fn hist(h: &MHist) -> FTextHistory {
    match h {
        MHist::Empty => FTextHistory::Empty {},
        MHist::None(s) => FTextHistory::None { culture_invariant_string: s.clone() },
        MHist::Base(a, b, c) => FTextHistory::Base { namespace: a.clone(), key: b.clone(), source_string: c.clone() },
        MHist::Named(t, a) => FTextHistory::NamedFormat { source_format: Box::new(text(t)), arguments: named(a) },
        MHist::Ordered(t, a) => FTextHistory::OrderedFormat { source_format: Box::new(text(t)), arguments: a.iter().map(arg).collect() },
        MHist::Argument(t, a) => FTextHistory::ArgumentFormat { source_format: Box::new(text(t)), arguments: named(a) },
        MHist::Number(a, o, c) => FTextHistory::AsNumber { source_value: Box::new(arg(a)), format_options: o.as_ref().map(fmt), target_culture: c.clone() },
        MHist::Percent(a, o, c) => FTextHistory::AsPercent { source_value: Box::new(arg(a)), format_options: o.as_ref().map(fmt), target_culture: c.clone() },
        MHist::Currency(k, a, o, c) => FTextHistory::AsCurrency {
            currency_code: k.clone(), source_value: Box::new(arg(a)), format_options: o.as_ref().map(fmt), target_culture: c.clone(),
        },
        MHist::Date(t, s, c) => FTextHistory::AsDate { date_time: DateTime::new(*t), date_style: style(*s), target_culture: c.clone() },
        MHist::Time(t, s, z, c) => FTextHistory::AsTime {
            source_date_time: DateTime::new(*t), time_style: style(*s), time_zone: z.clone(), target_culture: c.clone(),
        },
        MHist::DateTime(t, s, u, z, c) => FTextHistory::AsDateTime {
            source_date_time: DateTime::new(*t), date_style: style(*s), time_style: style(*u), time_zone: z.clone(), target_culture: c.clone(),
        },
        MHist::Transform(t, k) => FTextHistory::Transform {
            source_text: Box::new(text(t)), transform_type: if *k == 0 { TransformType::ToLower } else { TransformType::ToUpper },
        },
        MHist::StringTable(a, b) => FTextHistory::StringTableEntry { table_id: a.clone(), key: b.clone() },
    }
}

// ---- comparison ----

pub type Cmp = Result<(), String>;

fn short(s: impl std::fmt::Debug) -> String {
    let t = format!("{s:?}");
    if t.chars().count() > 300 { t.chars().take(300).collect::<String>() + "…" } else { t }
}

macro_rules! same {
    ($at:expr, $e:expr, $a:expr) => {
        if $e != $a {
            return Err(format!("{}: expected {}, got {}", $at, short(&$e), short(&$a)));
        }
    };
}

pub fn cmp_header(e: &MHeader, a: &GvasHeader) -> Cmp {
    let want = header(e);
    // FEngineVersion and the rest derive equality; compare the parts anyway so that a message is useful
    if let (GvasHeader::Version2 { .. }, Some(_)) | (GvasHeader::Version3 { .. }, None) = (a, e.ue5) {
        return Err(format!("header kind: expected {}, got {}", short(&want), short(a)));
    }
    let (pkg, ue5, eng, form, vers, class) = header_parts(a);
    same!("package version", e.package, pkg);
    same!("UE5 package version", e.ue5, ue5);
    same!("engine version", e.engine, (eng.major, eng.minor, eng.patch, eng.change_list));
    same!("engine branch", e.branch, eng.branch);
    same!("custom version format", 3, form);
    let got: Vec<(G16, u32)> = vers.iter().map(|(g, v)| (g.0, *v)).collect();
    same!("custom versions", e.versions, got);
    same!("class name", e.class_name, *class);
    let got: Vec<(G16, u32)> = a.get_custom_versions().iter().map(|(g, v)| (g.0, *v)).collect();
    same!("get_custom_versions", e.versions, got);
    Ok(())
}

#[allow(clippy::type_complexity)]
pub fn header_parts(a: &GvasHeader) -> (u32, Option<u32>, &FEngineVersion, u32, &HashableIndexMap<Guid, u32>, &String) {
    match a {
        GvasHeader::Version2 { package_file_version, engine_version, custom_version_format, custom_versions, save_game_class_name, .. } => {
            (*package_file_version, None, engine_version, *custom_version_format, custom_versions, save_game_class_name)
        }
        GvasHeader::Version3 { package_file_version, package_file_version_ue5, engine_version, custom_version_format, custom_versions, save_game_class_name, .. } => {
            (*package_file_version, Some(*package_file_version_ue5), engine_version, *custom_version_format, custom_versions, save_game_class_name)
        }
        _ => panic!("HARNESS: header kind not known to the harness"),
    }
}

pub fn cmp_file(e: &MFile, a: &GvasFile) -> Cmp {
    cmp_header(&e.header, &a.header)?;
    if a.deserialized_game_version != game(e.pal) {
        return Err(format!("game version: expected {:?}, got {:?}", game(e.pal), a.deserialized_game_version));
    }
    cmp_props(&e.props, &a.properties)
}

pub fn cmp_props(e: &[(String, MVal)], a: &HashableIndexMap<String, Property>) -> Cmp {
    let en: Vec<&String> = e.iter().map(|p| &p.0).collect();
    let an: Vec<&String> = a.keys().collect();
    same!("property names", en, an);
    for ((n, v), (_, p)) in e.iter().zip(a.iter()) {
        cmp(v, p).map_err(|m| format!("{n:?}/{m}"))?;
    }
    Ok(())
}

fn b32(at: &str, e: &[u32], a: &[f32]) -> Cmp {
    let bits: Vec<u32> = a.iter().map(|x| x.to_bits()).collect();
    same!(at, e, &bits[..]);
    Ok(())
}
fn b64(at: &str, e: &[u64], a: &[f64]) -> Cmp {
    let bits: Vec<u64> = a.iter().map(|x| x.to_bits()).collect();
    same!(at, e, &bits[..]);
    Ok(())
}

/// Element type, struct information and elements of an array in any form.
#[allow(clippy::type_complexity)]
pub fn array_parts(a: &ArrayProperty) -> Option<(String, Option<(String, String, G16)>, Vec<Property>)> {
    let s = |t: &str, v: Vec<Property>| Some((t.to_string(), None, v));
    match a {
        ArrayProperty::Bools { bools } => s("BoolProperty", bools.iter().map(|b| BoolProperty::new(*b).into()).collect()),
        ArrayProperty::Bytes { bytes } => s("ByteProperty", bytes.iter().map(|b| ByteProperty::new_byte(None, *b).into()).collect()),
        ArrayProperty::Enums { enums } => s("EnumProperty", enums.iter().map(|e| EnumProperty::new(None, e.clone()).into()).collect()),
        ArrayProperty::Floats { floats } => s("FloatProperty", floats.iter().map(|x| FloatProperty { value: *x }.into()).collect()),
        ArrayProperty::Ints { ints } => s("IntProperty", ints.iter().map(|x| IntProperty::new(*x).into()).collect()),
        ArrayProperty::Names { names } => s("NameProperty", names.iter().map(|x| NameProperty { array_index: 0, value: x.clone() }.into()).collect()),
        ArrayProperty::Strings { strings } => s("StrProperty", strings.iter().map(|x| StrProperty::new(x.clone()).into()).collect()),
        ArrayProperty::Structs { field_name, type_name, guid, structs } => Some((
            "StructProperty".into(),
            Some((field_name.clone(), type_name.clone(), guid.0)),
            structs.iter().map(|x| x.clone().into()).collect(),
        )),
        ArrayProperty::Properties { property_type, properties } => Some((property_type.clone(), None, properties.clone())),
        _ => None,
    }
}

/// Key type, value type, flags and entries of a map in any form.
#[allow(clippy::type_complexity)]
pub fn map_parts(m: &MapProperty) -> Option<(String, String, u32, Vec<(Property, Property)>)> {
    fn en(k: &str) -> Property {
        EnumProperty::new(None, k.to_string()).into()
    }
    fn na(k: &str) -> Property {
        NameProperty { array_index: 0, value: Some(k.to_string()) }.into()
    }
    fn st(k: &str) -> Property {
        StrProperty::new(Some(k.to_string())).into()
    }
    fn bo(v: &bool) -> Property {
        BoolProperty::new(*v).into()
    }
    fn it(v: &i32) -> Property {
        IntProperty::new(*v).into()
    }
    fn all<V: std::hash::Hash>(kt: &str, vt: &str, m: &HashableIndexMap<String, V>, k: fn(&str) -> Property, v: impl Fn(&V) -> Property)
        -> Option<(String, String, u32, Vec<(Property, Property)>)> {
        Some((kt.into(), vt.into(), 0, m.iter().map(|(a, b)| (k(a), v(b))).collect()))
    }
    let (e, n, s) = ("EnumProperty", "NameProperty", "StrProperty");
    match m {
        MapProperty::EnumBool { enum_bools } => all(e, "BoolProperty", enum_bools, en, bo),
        MapProperty::EnumInt { enum_ints } => all(e, "IntProperty", enum_ints, en, it),
        MapProperty::EnumProperty { value_type, enum_props } => all(e, value_type, enum_props, en, |p| p.clone()),
        MapProperty::NameBool { name_bools } => all(n, "BoolProperty", name_bools, na, bo),
        MapProperty::NameInt { name_ints } => all(n, "IntProperty", name_ints, na, it),
        MapProperty::NameProperty { value_type, name_props } => all(n, value_type, name_props, na, |p| p.clone()),
        MapProperty::StrBool { str_bools } => all(s, "BoolProperty", str_bools, st, bo),
        MapProperty::StrInt { str_ints } => all(s, "IntProperty", str_ints, st, it),
        MapProperty::StrProperty { value_type, str_props } => all(s, value_type, str_props, st, |p| p.clone()),
        MapProperty::StrStr { str_strs } => all(s, "StrProperty", str_strs, st, |v| StrProperty::new(v.clone()).into()),
        MapProperty::Properties { key_type, value_type, allocation_flags, value } => Some((
            key_type.clone(), value_type.clone(), *allocation_flags, value.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        )),
        _ => None,
    }
}

fn cmp_del(e: &MDel, a: &Delegate) -> Cmp {
    same!("delegate object", e.object, a.object);
    same!("delegate function", e.function, a.function_name);
    Ok(())
}
fn cmp_dels(e: &[MDel], a: &MulticastScriptDelegate) -> Cmp {
    same!("delegate count", e.len(), a.delegates.len());
    e.iter().zip(&a.delegates).try_for_each(|(x, y)| cmp_del(x, y))
}

fn cmp_list(what: &str, e: &[MVal], a: &[Property]) -> Cmp {
    same!(format!("{what} length"), e.len(), a.len());
    for (i, (x, y)) in e.iter().zip(a).enumerate() {
        cmp(x, y).map_err(|m| format!("{what}[{i}]/{m}"))?;
    }
    Ok(())
}

pub fn cmp(e: &MVal, a: &Property) -> Cmp {
    match (e, a) {
        (MVal::Bool(x), Property::BoolProperty(p)) => same!("bool", *x, p.value),
        (MVal::Byte { name, val }, Property::ByteProperty(p)) => {
            same!("byte type", *name, p.name);
            match &p.value {
                BytePropertyValue::Byte(b) => same!("byte", *val, *b),
                other => return Err(format!("byte: expected {val}, got {}", short(other))),
            }
        }
        (MVal::ByteNs { name, val }, Property::ByteProperty(p)) => {
            same!("byte type", *name, p.name);
            match &p.value {
                BytePropertyValue::Namespaced(b) => same!("byte name", *val, *b),
                other => return Err(format!("byte: expected {val:?}, got {}", short(other))),
            }
        }
        (MVal::I8(x), Property::Int8Property(p)) => same!("i8", *x, p.value),
        (MVal::I16(x), Property::Int16Property(p)) => same!("i16", *x, p.value),
        (MVal::U16(x), Property::UInt16Property(p)) => same!("u16", *x, p.value),
        (MVal::I32(x), Property::IntProperty(p)) => same!("i32", *x, p.value),
        (MVal::U32(x), Property::UInt32Property(p)) => same!("u32", *x, p.value),
        (MVal::I64(x), Property::Int64Property(p)) => same!("i64", *x, p.value),
        (MVal::U64(x), Property::UInt64Property(p)) => same!("u64", *x, p.value),
        (MVal::F32(x), Property::FloatProperty(p)) => b32("f32 bits", &[*x], &[p.value.0])?,
        (MVal::F64(x), Property::DoubleProperty(p)) => b64("f64 bits", &[*x], &[p.value.0])?,
        (MVal::Enum { ty, val }, Property::EnumProperty(p)) => {
            same!("enum type", *ty, p.enum_type);
            same!("enum value", *val, p.value);
        }
        (MVal::Name { idx, val }, Property::NameProperty(p)) => {
            same!("name index", *idx, p.array_index);
            same!("name", *val, p.value);
        }
        (MVal::Str(x), Property::StrProperty(p)) => same!("string", *x, p.value),
        (MVal::Object(x), Property::ObjectProperty(p)) => same!("object", *x, p.value),
        (MVal::Delegate(x), Property::DelegateProperty(p)) => cmp_del(x, &p.value)?,
        (MVal::MultiInline(x), Property::MulticastInlineDelegateProperty(p)) => cmp_dels(x, &p.value)?,
        (MVal::MultiSparse(x), Property::MulticastSparseDelegateProperty(p)) => cmp_dels(x, &p.value)?,
        (MVal::FieldPath { path, owner }, Property::FieldPathProperty(p)) => {
            same!("field path", *path, p.value.path);
            same!("field owner", *owner, p.value.resolved_owner);
        }
        (MVal::Text(t), Property::TextProperty(p)) => cmp_text(t, &p.value)?,
        (MVal::Struct { guid, ty, val }, Property::StructProperty(p)) => {
            same!("struct guid", *guid, p.guid.0);
            same!("struct type", *ty, p.type_name);
            cmp_struct(val, &p.value)?;
        }
        (MVal::StructVal(val), Property::StructPropertyValue(p)) => cmp_struct(val, p)?,
        (MVal::Array { ty, sinfo, items }, Property::ArrayProperty(p)) => {
            let Some((aty, ainfo, aitems)) = array_parts(p) else {
                panic!("HARNESS: array form not known to the harness");
            };
            same!("array type", *ty, aty);
            same!("array struct info", *sinfo, ainfo);
            cmp_list("array", items, &aitems)?;
        }
        (MVal::Set { ty, flags, items }, Property::SetProperty(p)) => {
            same!("set type", *ty, p.property_type);
            same!("set flags", *flags, p.allocation_flags);
            cmp_list("set", items, &p.properties)?;
        }
        (MVal::Map { kt, vt, flags, items }, Property::MapProperty(p)) => {
            let Some((akt, avt, aflags, aitems)) = map_parts(p) else {
                panic!("HARNESS: map form not known to the harness");
            };
            same!("map key type", *kt, akt);
            same!("map value type", *vt, avt);
            same!("map flags", *flags, aflags);
            same!("map length", items.len(), aitems.len());
            for (i, ((k, v), (ak, av))) in items.iter().zip(&aitems).enumerate() {
                cmp(k, ak).map_err(|m| format!("map key {i}/{m}"))?;
                cmp(v, av).map_err(|m| format!("map value {i}/{m}"))?;
            }
        }
        (MVal::Unknown { ty, raw }, Property::UnknownProperty(p)) => {
            let want = UnknownProperty::new(ty.clone(), raw.clone());
            same!("unknown property", want, *p);
        }
        _ => return Err(format!("expected {}, got {}", short(e), short(a))),
    }
    Ok(())
}

pub fn cmp_struct(e: &MStruct, a: &StructPropertyValue) -> Cmp {
    match (e, a) {
        (MStruct::V2F(x), StructPropertyValue::Vector2F(v)) => b32("Vector2F", x, &[v.x.0, v.y.0]),
        (MStruct::V2D(x), StructPropertyValue::Vector2D(v)) => b64("Vector2D", x, &[v.x.0, v.y.0]),
        (MStruct::VF(x), StructPropertyValue::VectorF(v)) => b32("VectorF", x, &[v.x.0, v.y.0, v.z.0]),
        (MStruct::VD(x), StructPropertyValue::VectorD(v)) => b64("VectorD", x, &[v.x.0, v.y.0, v.z.0]),
        (MStruct::RF(x), StructPropertyValue::RotatorF(v)) => b32("RotatorF", x, &[v.pitch.0, v.yaw.0, v.roll.0]),
        (MStruct::RD(x), StructPropertyValue::RotatorD(v)) => b64("RotatorD", x, &[v.pitch.0, v.yaw.0, v.roll.0]),
        (MStruct::QF(x), StructPropertyValue::QuatF(v)) => b32("QuatF", x, &[v.x.0, v.y.0, v.z.0, v.w.0]),
        (MStruct::QD(x), StructPropertyValue::QuatD(v)) => b64("QuatD", x, &[v.x.0, v.y.0, v.z.0, v.w.0]),
        (MStruct::Color(x), StructPropertyValue::LinearColor(v)) => b32("LinearColor", x, &[v.r.0, v.g.0, v.b.0, v.a.0]),
        (MStruct::DateTime(x), StructPropertyValue::DateTime(v)) => {
            same!("DateTime", *x, v.ticks);
            Ok(())
        }
        (MStruct::Timespan(x), StructPropertyValue::Timespan(v)) => {
            same!("Timespan", *x, v.ticks);
            Ok(())
        }
        (MStruct::Guid(x), StructPropertyValue::Guid(v)) => {
            same!("Guid", *x, v.0);
            Ok(())
        }
        (MStruct::IntPoint(x, y), StructPropertyValue::IntPoint(v)) => {
            same!("IntPoint", (*x, *y), (v.x, v.y));
            Ok(())
        }
        (MStruct::Tags(x), StructPropertyValue::GameplayTagContainer(v)) => {
            same!("GameplayTagContainer", *x, *v);
            Ok(())
        }
        (MStruct::Custom(x), StructPropertyValue::CustomStruct(v)) => {
            let en: Vec<&String> = x.iter().map(|p| &p.0).collect();
            let an: Vec<&String> = v.keys().collect();
            same!("field names", en, an);
            for ((n, vs), (_, ps)) in x.iter().zip(v.iter()) {
                cmp_list(&format!("field {n:?}"), vs, ps)?;
            }
            Ok(())
        }
        _ => Err(format!("expected {}, got {}", short(e), short(a))),
    }
}

fn cmp_arg(e: &MArg, a: &FormatArgumentValue) -> Cmp {
    match (e, a) {
        (MArg::I32(x), FormatArgumentValue::Int(v)) => same!("argument", x, v),
        (MArg::U32(x), FormatArgumentValue::UInt(v)) => same!("argument", x, v),
        (MArg::I64(x), FormatArgumentValue::Int64(v)) => same!("argument", x, v),
        (MArg::U64(x), FormatArgumentValue::UInt64(v)) => same!("argument", x, v),
        (MArg::F32(x), FormatArgumentValue::Float(v)) => b32("argument", &[*x], &[v.0])?,
        (MArg::F64(x), FormatArgumentValue::Double(v)) => b64("argument", &[*x], &[v.0])?,
        (MArg::Text(x), FormatArgumentValue::Text(v)) => cmp_text(x, v)?,
        _ => return Err(format!("argument: expected {}, got {}", short(e), short(a))),
    }
    Ok(())
}

pub fn cmp_text(e: &MText, a: &FText) -> Cmp {
    same!("text flags", e.flags, a.flags);
    cmp_hist(&e.hist, &a.history)
}

pub fn cmp_hist(e: &MHist, a: &FTextHistory) -> Cmp {
    let named = |x: &[(String, MArg)], v: &HashableIndexMap<String, FormatArgumentValue>| -> Cmp {
        let en: Vec<&String> = x.iter().map(|p| &p.0).collect();
        let an: Vec<&String> = v.keys().collect();
        same!("argument names", en, an);
        x.iter().zip(v.values()).try_for_each(|((_, x), v)| cmp_arg(x, v))
    };
    match (e, a) {
        (MHist::Named(t, x), FTextHistory::NamedFormat { source_format, arguments }) => {
            cmp_text(t, source_format)?;
            named(x, arguments)
        }
        (MHist::Argument(t, x), FTextHistory::ArgumentFormat { source_format, arguments }) => {
            cmp_text(t, source_format)?;
            named(x, arguments)
        }
        (MHist::Ordered(t, x), FTextHistory::OrderedFormat { source_format, arguments }) => {
            cmp_text(t, source_format)?;
            same!("argument count", x.len(), arguments.len());
            x.iter().zip(arguments).try_for_each(|(x, v)| cmp_arg(x, v))
        }
        (MHist::Number(x, o, c), FTextHistory::AsNumber { source_value, format_options, target_culture })
        | (MHist::Percent(x, o, c), FTextHistory::AsPercent { source_value, format_options, target_culture }) => {
            cmp_arg(x, source_value)?;
            same!("format options", o.as_ref().map(fmt), *format_options);
            same!("culture", *c, *target_culture);
            Ok(())
        }
        (MHist::Currency(k, x, o, c), FTextHistory::AsCurrency { currency_code, source_value, format_options, target_culture }) => {
            same!("currency", *k, *currency_code);
            cmp_arg(x, source_value)?;
            same!("format options", o.as_ref().map(fmt), *format_options);
            same!("culture", *c, *target_culture);
            Ok(())
        }
        (MHist::Transform(t, k), FTextHistory::Transform { source_text, transform_type }) => {
            same!("transform", *k, *transform_type as i8);
            cmp_text(t, source_text)
        }
        // the remaining kinds hold neither floats nor maps
        _ => {
            let want = hist(e);
            same!("text", want, *a);
            Ok(())
        }
    }
}

pub type Hints = HashMap<String, String>;

pub fn game_arg(pal: Option<u8>) -> gvas::game_version::GameVersion {
    match pal {
        None => gvas::game_version::GameVersion::Default,
        Some(_) => gvas::game_version::GameVersion::Palworld,
    }
}

/// Reads bytes as gvas does.
pub fn read(b: &[u8], pal: Option<u8>, hints: &Hints) -> Result<GvasFile, gvas::error::Error> {
    let mut c = std::io::Cursor::new(b);
    if hints.is_empty() {
        GvasFile::read(&mut c, game_arg(pal))
    } else {
        GvasFile::read_with_hints(&mut c, game_arg(pal), hints)
    }
}

pub fn write(f: &GvasFile) -> Result<Vec<u8>, gvas::error::Error> {
    let mut c = std::io::Cursor::new(Vec::new());
    f.write(&mut c)?;
    Ok(c.into_inner())
}
