//! C35: the shape of JSON documents.

use super::*;
use super::values::cut;
use crate::conv::{self, Form};
use crate::r#gen::{self as g, Cfg, Gen};
use crate::src::Src;
use gvas::engine_version::FEngineVersion;
use gvas::game_version::{DeserializedGameVersion, PalworldCompressionType};
use gvas::properties::array_property::ArrayProperty;
use gvas::properties::delegate_property::{Delegate, MulticastScriptDelegate};
use gvas::properties::int_property::BytePropertyValue;
use gvas::properties::map_property::MapProperty;
use gvas::properties::struct_property::StructPropertyValue;
use gvas::properties::text_property::*;
use gvas::properties::{Property, PropertyOptions, PropertyTrait};
use gvas::types::Guid;
use gvas::types::map::HashableIndexMap;
use gvas::{GvasFile, GvasHeader};
use serde_json::{Map, Value};
use std::io::Cursor;

/// Writes the JSON a value has to have, from what its public fields hold.
struct Shape<'a> {
    /// 32-bit floats as in a text, rounded to the shortest digits, or as in a value tree.
    text: bool,
    /// Optional members that may be left out are written now and then.
    full: Option<&'a mut Src>,
    filled: u32,
}

type Obj = Map<String, Value>;

fn set(o: &mut Obj, k: &str, v: impl Into<Value>) {
    o.insert(k.to_string(), v.into());
}

fn hexed(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn ident(x: &Guid) -> String {
    if x.0 == [0; 16] {
        return "0".into();
    }
    let h = hexed(&x.0).to_uppercase();
    format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])
}

impl Shape<'_> {
    fn fill(&mut self) -> bool {
        let yes = self.full.as_mut().is_some_and(|s| s.chance(1, 2));
        self.filled += yes as u32;
        yes
    }
    /// A member that is left out when the value is the default.
    fn optional(&mut self, o: &mut Obj, k: &str, default: bool, v: impl Into<Value>) {
        if !default || self.fill() {
            set(o, k, v);
        }
    }
    fn maybe(&mut self, o: &mut Obj, k: &str, v: &Option<String>) {
        self.optional(o, k, v.is_none(), v.clone());
    }
    fn f32(&self, f: f32) -> Value {
        if self.text { serde_json::from_str(&serde_json::to_string(&f).unwrap()).unwrap() } else { (f as f64).into() }
    }
    fn f32s(&self, names: &[&str], v: &[f32]) -> Value {
        let mut o = Obj::new();
        names.iter().zip(v).for_each(|(n, x)| set(&mut o, n, self.f32(*x)));
        o.into()
    }
    fn f64s(&self, names: &[&str], v: &[f64]) -> Value {
        let mut o = Obj::new();
        names.iter().zip(v).for_each(|(n, x)| set(&mut o, n, *x));
        o.into()
    }
    fn list<T>(&mut self, v: &[T], f: impl Fn(&mut Self, &T) -> Value) -> Value {
        Value::Array(v.iter().map(|x| f(self, x)).collect())
    }
    fn map<T: std::hash::Hash>(&mut self, v: &HashableIndexMap<String, T>, f: impl Fn(&mut Self, &T) -> Value) -> Value {
        let mut o = Obj::new();
        v.0.iter().for_each(|(k, x)| {
            let x = f(self, x);
            set(&mut o, k, x)
        });
        o.into()
    }

    fn engine(&mut self, e: &FEngineVersion) -> Value {
        let mut o = Obj::new();
        set(&mut o, "major", e.major);
        set(&mut o, "minor", e.minor);
        set(&mut o, "patch", e.patch);
        set(&mut o, "change_list", e.change_list);
        set(&mut o, "branch", e.branch.clone());
        o.into()
    }
    fn header(&mut self, h: &GvasHeader) -> Value {
        let mut o = Obj::new();
        let (package, ue5, engine, format, versions, class) = conv::header_parts(h);
        set(&mut o, "type", if ue5.is_some() { "Version3" } else { "Version2" });
        set(&mut o, "package_file_version", package);
        if let Some(x) = ue5 {
            set(&mut o, "package_file_version_ue5", x);
        }
        let e = self.engine(engine);
        set(&mut o, "engine_version", e);
        set(&mut o, "custom_version_format", format);
        let mut v = Obj::new();
        versions.0.iter().for_each(|(k, x)| set(&mut v, &ident(k), *x));
        set(&mut o, "custom_versions", v);
        set(&mut o, "save_game_class_name", class.clone());
        o.into()
    }
    fn file(&mut self, f: &GvasFile) -> Value {
        let mut o = Obj::new();
        let game: Value = match &f.deserialized_game_version {
            DeserializedGameVersion::Default => "Default".into(),
            DeserializedGameVersion::Palworld(c) => {
                let mut p = Obj::new();
                set(&mut p, "Palworld", match c {
                    PalworldCompressionType::None => "None",
                    PalworldCompressionType::Zlib => "Zlib",
                    PalworldCompressionType::ZlibTwice => "ZlibTwice",
                });
                p.into()
            }
        };
        self.optional(&mut o, "deserialized_game_version", matches!(f.deserialized_game_version, DeserializedGameVersion::Default), game);
        let h = self.header(&f.header);
        set(&mut o, "header", h);
        let p = self.map(&f.properties, Self::property);
        set(&mut o, "properties", p);
        o.into()
    }

    fn property(&mut self, p: &Property) -> Value {
        let mut o = Obj::new();
        macro_rules! simple {
            ($t:literal, $v:expr) => {{
                set(&mut o, "type", $t);
                set(&mut o, "value", $v);
            }};
        }
        match p {
            Property::BoolProperty(x) => simple!("BoolProperty", x.value),
            Property::DoubleProperty(x) => simple!("DoubleProperty", x.value.0),
            Property::FloatProperty(x) => {
                let v = self.f32(x.value.0);
                simple!("FloatProperty", v)
            }
            Property::Int8Property(x) => simple!("Int8Property", x.value),
            Property::Int16Property(x) => simple!("Int16Property", x.value),
            Property::IntProperty(x) => simple!("IntProperty", x.value),
            Property::Int64Property(x) => simple!("Int64Property", x.value),
            Property::UInt16Property(x) => simple!("UInt16Property", x.value),
            Property::UInt32Property(x) => simple!("UInt32Property", x.value),
            Property::UInt64Property(x) => simple!("UInt64Property", x.value),
            Property::ObjectProperty(x) => simple!("ObjectProperty", x.value.clone()),
            Property::StrProperty(x) => {
                set(&mut o, "type", "StrProperty");
                self.maybe(&mut o, "value", &x.value);
            }
            Property::NameProperty(x) => {
                set(&mut o, "type", "NameProperty");
                self.optional(&mut o, "array_index", x.array_index == 0, x.array_index);
                self.maybe(&mut o, "value", &x.value);
            }
            Property::EnumProperty(x) => {
                set(&mut o, "type", "EnumProperty");
                self.maybe(&mut o, "enum_type", &x.enum_type);
                set(&mut o, "value", x.value.clone());
            }
            Property::ByteProperty(x) => {
                set(&mut o, "type", "ByteProperty");
                self.maybe(&mut o, "name", &x.name);
                match &x.value {
                    BytePropertyValue::Byte(b) => set(&mut o, "Byte", *b),
                    BytePropertyValue::Namespaced(n) => set(&mut o, "Namespaced", n.clone()),
                }
            }
            Property::DelegateProperty(x) => simple!("DelegateProperty", delegate(&x.value)),
            Property::MulticastInlineDelegateProperty(x) => simple!("MulticastInlineDelegateProperty", multicast(&x.value)),
            Property::MulticastSparseDelegateProperty(x) => simple!("MulticastSparseDelegateProperty", multicast(&x.value)),
            Property::FieldPathProperty(x) => {
                let mut v = Obj::new();
                set(&mut v, "path", x.value.path.clone());
                set(&mut v, "resolved_owner", x.value.resolved_owner.clone());
                simple!("FieldPathProperty", v)
            }
            Property::TextProperty(x) => {
                set(&mut o, "type", "TextProperty");
                self.text(&mut o, &x.value);
            }
            Property::StructProperty(x) => {
                set(&mut o, "type", "StructProperty");
                self.optional(&mut o, "guid", x.guid.0 == [0; 16], ident(&x.guid));
                set(&mut o, "type_name", x.type_name.clone());
                self.strukt(&mut o, &x.value);
            }
            Property::StructPropertyValue(x) => {
                set(&mut o, "type", "StructPropertyValue");
                self.strukt(&mut o, x);
            }
            Property::SetProperty(x) => {
                set(&mut o, "type", "SetProperty");
                set(&mut o, "property_type", x.property_type.clone());
                set(&mut o, "allocation_flags", x.allocation_flags);
                let v = self.list(&x.properties, Self::property);
                set(&mut o, "properties", v);
            }
            Property::ArrayProperty(x) => {
                set(&mut o, "type", "ArrayProperty");
                self.array(&mut o, x);
            }
            Property::MapProperty(x) => {
                set(&mut o, "type", "MapProperty");
                self.maps(&mut o, x);
            }
            Property::UnknownProperty(x) => {
                // its parts are not public, but what it writes is
                let (h, v) = (no_hints(), HashableIndexMap::new());
                let mut stack = vec![];
                let mut options = PropertyOptions { hints: &h, properties_stack: &mut stack, custom_versions: &v };
                let (mut all, mut raw) = (Cursor::new(vec![]), Cursor::new(vec![]));
                x.write(&mut all, true, &mut options).unwrap();
                x.write_body(&mut raw, &mut options).unwrap();
                use gvas::cursor_ext::ReadExt;
                all.set_position(0);
                set(&mut o, "type", "UnknownProperty");
                set(&mut o, "property_name", all.read_string().unwrap());
                set(&mut o, "raw", raw.into_inner());
            }
        }
        o.into()
    }

    fn strukt(&mut self, o: &mut Obj, v: &StructPropertyValue) {
        const XYZW: [&str; 4] = ["x", "y", "z", "w"];
        const PYR: [&str; 3] = ["pitch", "yaw", "roll"];
        let (k, x): (&str, Value) = match v {
            StructPropertyValue::Vector2F(v) => ("Vector2F", self.f32s(&XYZW, &[v.x.0, v.y.0])),
            StructPropertyValue::Vector2D(v) => ("Vector2D", self.f64s(&XYZW, &[v.x.0, v.y.0])),
            StructPropertyValue::VectorF(v) => ("VectorF", self.f32s(&XYZW, &[v.x.0, v.y.0, v.z.0])),
            StructPropertyValue::VectorD(v) => ("VectorD", self.f64s(&XYZW, &[v.x.0, v.y.0, v.z.0])),
            StructPropertyValue::RotatorF(v) => ("RotatorF", self.f32s(&PYR, &[v.pitch.0, v.yaw.0, v.roll.0])),
            StructPropertyValue::RotatorD(v) => ("RotatorD", self.f64s(&PYR, &[v.pitch.0, v.yaw.0, v.roll.0])),
            StructPropertyValue::QuatF(v) => ("QuatF", self.f32s(&XYZW, &[v.x.0, v.y.0, v.z.0, v.w.0])),
            StructPropertyValue::QuatD(v) => ("QuatD", self.f64s(&XYZW, &[v.x.0, v.y.0, v.z.0, v.w.0])),
            StructPropertyValue::LinearColor(v) => ("LinearColor", self.f32s(&["r", "g", "b", "a"], &[v.r.0, v.g.0, v.b.0, v.a.0])),
            StructPropertyValue::DateTime(v) => ("DateTime", ticks(v.ticks)),
            StructPropertyValue::Timespan(v) => ("Timespan", ticks(v.ticks)),
            StructPropertyValue::Guid(v) => ("Guid", ident(v).into()),
            StructPropertyValue::IntPoint(v) => {
                let mut p = Obj::new();
                set(&mut p, "x", v.x);
                set(&mut p, "y", v.y);
                ("IntPoint", p.into())
            }
            StructPropertyValue::GameplayTagContainer(v) => ("GameplayTagContainer", v.clone().into()),
            StructPropertyValue::CustomStruct(v) => ("CustomStruct", self.map(v, |s, l| s.list(l, Self::property))),
        };
        set(o, k, x);
    }

    fn array(&mut self, o: &mut Obj, v: &ArrayProperty) {
        match v {
            ArrayProperty::Bools { bools } => set(o, "bools", bools.clone()),
            ArrayProperty::Bytes { bytes } => set(o, "bytes", hexed(bytes)),
            ArrayProperty::Enums { enums } => set(o, "enums", enums.clone()),
            ArrayProperty::Floats { floats } => {
                let v = self.list(floats, |s, f| s.f32(f.0));
                set(o, "floats", v)
            }
            ArrayProperty::Ints { ints } => set(o, "ints", ints.clone()),
            ArrayProperty::Names { names } => set(o, "names", names.clone()),
            ArrayProperty::Strings { strings } => set(o, "strings", strings.clone()),
            ArrayProperty::Structs { field_name, type_name, guid, structs } => {
                set(o, "field_name", field_name.clone());
                set(o, "type_name", type_name.clone());
                self.optional(o, "guid", guid.0 == [0; 16], ident(guid));
                let v = self.list(structs, |s, x| {
                    let mut o = Obj::new();
                    s.strukt(&mut o, x);
                    o.into()
                });
                set(o, "structs", v);
            }
            ArrayProperty::Properties { property_type, properties } => {
                set(o, "property_type", property_type.clone());
                let v = self.list(properties, Self::property);
                set(o, "properties", v);
            }
        }
    }

    fn maps(&mut self, o: &mut Obj, v: &MapProperty) {
        let flag = |_: &mut Self, x: &bool| Value::from(*x);
        let int = |_: &mut Self, x: &i32| Value::from(*x);
        let (k, x, ty) = match v {
            MapProperty::EnumBool { enum_bools } => ("enum_bools", self.map(enum_bools, flag), None),
            MapProperty::EnumInt { enum_ints } => ("enum_ints", self.map(enum_ints, int), None),
            MapProperty::EnumProperty { value_type, enum_props } => ("enum_props", self.map(enum_props, Self::property), Some(value_type)),
            MapProperty::NameBool { name_bools } => ("name_bools", self.map(name_bools, flag), None),
            MapProperty::NameInt { name_ints } => ("name_ints", self.map(name_ints, int), None),
            MapProperty::NameProperty { value_type, name_props } => ("name_props", self.map(name_props, Self::property), Some(value_type)),
            MapProperty::StrBool { str_bools } => ("str_bools", self.map(str_bools, flag), None),
            MapProperty::StrInt { str_ints } => ("str_ints", self.map(str_ints, int), None),
            MapProperty::StrProperty { value_type, str_props } => ("str_props", self.map(str_props, Self::property), Some(value_type)),
            MapProperty::StrStr { str_strs } => ("str_strs", self.map(str_strs, |_, x| x.clone().into()), None),
            MapProperty::Properties { key_type, value_type, allocation_flags, value } => {
                set(o, "key_type", key_type.clone());
                set(o, "value_type", value_type.clone());
                set(o, "allocation_flags", *allocation_flags);
                let v: Vec<Value> = value.0.iter().map(|(k, v)| Value::Array(vec![self.property(k), self.property(v)])).collect();
                set(o, "value", v);
                return;
            }
        };
        if let Some(t) = ty {
            set(o, "value_type", t.clone());
        }
        set(o, k, x);
    }

    fn own_text(&mut self, t: &FText) -> Value {
        let mut o = Obj::new();
        self.text(&mut o, t);
        o.into()
    }

    fn arg(&mut self, a: &FormatArgumentValue) -> Value {
        let mut o = Obj::new();
        let (k, v): (&str, Value) = match a {
            FormatArgumentValue::Int(x) => ("Int", (*x).into()),
            FormatArgumentValue::UInt(x) => ("UInt", (*x).into()),
            FormatArgumentValue::Int64(x) => ("Int64", (*x).into()),
            FormatArgumentValue::UInt64(x) => ("UInt64", (*x).into()),
            FormatArgumentValue::Float(x) => ("Float", self.f32(x.0)),
            FormatArgumentValue::Double(x) => ("Double", x.0.into()),
            FormatArgumentValue::Text(t) => ("Text", self.own_text(t)),
        };
        set(&mut o, k, v);
        o.into()
    }

    fn number(&mut self, o: &mut Obj, a: &FormatArgumentValue, f: &Option<NumberFormattingOptions>, culture: &Option<String>) {
        let v = self.arg(a);
        set(o, "source_value", v);
        match f {
            None => self.optional(o, "format_options", true, Value::Null),
            Some(f) => {
                let mut p = Obj::new();
                set(&mut p, "always_include_sign", f.always_include_sign);
                set(&mut p, "use_grouping", f.use_grouping);
                set(&mut p, "rounding", match f.rounding_mode {
                    RoundingMode::HalfToEven => "HalfToEven",
                    RoundingMode::HalfFromZero => "HalfFromZero",
                    RoundingMode::HalfToZero => "HalfToZero",
                    RoundingMode::FromZero => "FromZero",
                    RoundingMode::ToZero => "ToZero",
                    RoundingMode::ToNegativeInfinity => "ToNegativeInfinity",
                    RoundingMode::ToPositiveInfinity => "ToPositiveInfinity",
                });
                set(&mut p, "minimum_integral_digits", f.minimum_integral_digits);
                set(&mut p, "maximum_integral_digits", f.maximum_integral_digits);
                set(&mut p, "minimum_fractional_digits", f.minimum_fractional_digits);
                set(&mut p, "maximum_fractional_digits", f.maximum_fractional_digits);
                set(o, "format_options", p);
            }
        }
        self.maybe(o, "target_culture", culture);
    }

    fn text(&mut self, o: &mut Obj, t: &FText) {
        self.optional(o, "flags", t.flags == 0, t.flags);
        let kind = |o: &mut Obj, k: &str| set(o, "history", k);
        match &t.history {
            FTextHistory::Empty {} => kind(o, "Empty"),
            FTextHistory::None { culture_invariant_string } => {
                kind(o, "None");
                self.maybe(o, "culture_invariant_string", culture_invariant_string);
            }
            FTextHistory::Base { namespace, key, source_string } => {
                kind(o, "Base");
                self.maybe(o, "namespace", namespace);
                self.maybe(o, "key", key);
                self.maybe(o, "source_string", source_string);
            }
            FTextHistory::NamedFormat { source_format, arguments } | FTextHistory::ArgumentFormat { source_format, arguments } => {
                kind(o, if matches!(t.history, FTextHistory::NamedFormat { .. }) { "NamedFormat" } else { "ArgumentFormat" });
                let v = self.own_text(source_format);
                set(o, "source_format", v);
                let v = self.map(arguments, Self::arg);
                set(o, "arguments", v);
            }
            FTextHistory::OrderedFormat { source_format, arguments } => {
                kind(o, "OrderedFormat");
                let v = self.own_text(source_format);
                set(o, "source_format", v);
                let v = self.list(arguments, Self::arg);
                set(o, "arguments", v);
            }
            FTextHistory::AsNumber { source_value, format_options, target_culture } => {
                kind(o, "AsNumber");
                self.number(o, source_value, format_options, target_culture);
            }
            FTextHistory::AsPercent { source_value, format_options, target_culture } => {
                kind(o, "AsPercent");
                self.number(o, source_value, format_options, target_culture);
            }
            FTextHistory::AsCurrency { currency_code, source_value, format_options, target_culture } => {
                kind(o, "AsCurrency");
                self.maybe(o, "currency_code", currency_code);
                self.number(o, source_value, format_options, target_culture);
            }
            FTextHistory::AsDate { date_time, date_style, target_culture } => {
                kind(o, "AsDate");
                set(o, "date_time", ticks(date_time.ticks));
                set(o, "date_style", style(date_style));
                set(o, "target_culture", target_culture.clone());
            }
            FTextHistory::AsTime { source_date_time, time_style, time_zone, target_culture } => {
                kind(o, "AsTime");
                set(o, "source_date_time", ticks(source_date_time.ticks));
                set(o, "time_style", style(time_style));
                set(o, "time_zone", time_zone.clone());
                set(o, "target_culture", target_culture.clone());
            }
            FTextHistory::AsDateTime { source_date_time, date_style, time_style, time_zone, target_culture } => {
                kind(o, "AsDateTime");
                set(o, "source_date_time", ticks(source_date_time.ticks));
                set(o, "date_style", style(date_style));
                set(o, "time_style", style(time_style));
                set(o, "time_zone", time_zone.clone());
                set(o, "target_culture", target_culture.clone());
            }
            FTextHistory::Transform { source_text, transform_type } => {
                kind(o, "Transform");
                let v = self.own_text(source_text);
                set(o, "source_text", v);
                set(o, "transform", match transform_type {
                    TransformType::ToLower => "ToLower",
                    TransformType::ToUpper => "ToUpper",
                });
            }
            FTextHistory::StringTableEntry { table_id, key } => {
                kind(o, "StringTableEntry");
                set(o, "table_id", table_id.clone());
                set(o, "key", key.clone());
            }
        }
    }
}

fn ticks(t: u64) -> Value {
    let mut o = Obj::new();
    set(&mut o, "ticks", t);
    o.into()
}

fn style(s: &DateTimeStyle) -> &'static str {
    match s {
        DateTimeStyle::Default => "Default",
        DateTimeStyle::Short => "Short",
        DateTimeStyle::Medium => "Medium",
        DateTimeStyle::Long => "Long",
        DateTimeStyle::Full => "Full",
    }
}

fn delegate(d: &Delegate) -> Value {
    let mut o = Obj::new();
    set(&mut o, "object", d.object.clone());
    set(&mut o, "function_name", d.function_name.clone());
    o.into()
}

fn multicast(d: &MulticastScriptDelegate) -> Value {
    let mut o = Obj::new();
    set(&mut o, "delegates", Value::Array(d.delegates.iter().map(delegate).collect()));
    o.into()
}

/// Where two documents differ.
fn place(want: &Value, got: &Value) -> Option<String> {
    match (want, got) {
        (Value::Object(a), Value::Object(b)) => {
            if let Some(k) = a.keys().find(|k| !b.contains_key(*k)) {
                return Some(format!(" has no member {k:?}"));
            }
            if let Some(k) = b.keys().find(|k| !a.contains_key(*k)) {
                return Some(format!(" has a member {k:?} too many"));
            }
            a.iter().find_map(|(k, v)| place(v, &b[k]).map(|e| format!("/{k}{e}")))
        }
        (Value::Array(a), Value::Array(b)) if a.len() == b.len() => a.iter().zip(b).enumerate().find_map(|(i, (x, y))| place(x, y).map(|e| format!("/{i}{e}"))),
        _ if want == got => None,
        _ => Some(format!(" is {} instead of {}", cut(&got.to_string()), cut(&want.to_string()))),
    }
}

fn judge<T>(s: &mut Src, ctx: &mut Ctx, v: &T, shape: fn(&mut Shape, &T) -> Value, same: &dyn Fn(&T) -> Result<(), String>) -> Result<(), String>
where
    T: serde::Serialize + for<'a> serde::Deserialize<'a> + PartialEq,
{
    let text = s.chance(1, 2);
    let got: Value = if text {
        let t = serde_json::to_string(v).map_err(|e| format!("writing JSON failed: {e}"))?;
        serde_json::from_str(&t).map_err(|e| format!("not JSON: {e}; {}", cut(&t)))?
    } else {
        serde_json::to_value(v).map_err(|e| format!("converting to a JSON value failed: {e}"))?
    };
    let want = shape(&mut Shape { text, full: None, filled: 0 }, v);
    ctx.nontrivial(want.to_string().as_bytes());
    ctx.eval();
    if let Some(e) = place(&want, &got) {
        return Err(format!("the JSON document{e}"));
    }
    // optional parts written out
    let mut full = Shape { text, full: Some(s), filled: 0 };
    let doc = shape(&mut full, v);
    let filled = full.filled;
    ctx.label(if filled > 0 { "optional members written out" } else { "no optional members" });
    ctx.describe(|| format!("document {}", cut(&doc.to_string())));
    let back: T = if s.chance(1, 2) {
        serde_json::from_str(&doc.to_string()).map_err(|e| format!("reading the document failed: {e}"))?
    } else {
        serde_json::from_value(doc).map_err(|e| format!("reading the document failed: {e}"))?
    };
    ctx.eval();
    if back != *v {
        return Err("the document reads as another value".into());
    }
    same(&back)
}

pub fn c35(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = Cfg { finite: true, pal: true, ..Cfg::default() };
    let form = if s.chance(1, 4) { Form::General } else { Form::Compact };
    match s.weighted(&[3, 6, 1, 2]) {
        0 => {
            let c = g::file(s, cfg);
            ctx.describe(|| show(&c));
            ctx.label("file");
            judge(s, ctx, &conv::file(&c.file, form), |j, f| j.file(f), &|b| conv::cmp_file(&c.file, b))
        }
        1 => {
            let mut gn = Gen::new(s, Cfg { budget: 12, ..cfg });
            gn.ver = Ver { lwc: gn.s.chance(1, 2), arg64: gn.s.chance(1, 2), culture: true };
            let v = match gn.s.weighted(&[4, 2, 2, 2, 1]) {
                0 => gn.value(4),
                1 => {
                    let ty = gn.struct_type(3);
                    MVal::StructVal(gn.strukt(&ty, 3))
                }
                2 => {
                    let t = gn.scalar_type();
                    let header = gn.s.chance(1, 2);
                    gn.scalar(t, header)
                }
                3 => gn.map(3),
                _ => gn.array(3),
            };
            ctx.describe(|| format!("property {v:?}"));
            ctx.label("property");
            judge(s, ctx, &conv::value(&v, form), |j, p| j.property(p), &|b| conv::cmp(&v, b))
        }
        2 => {
            let h = Gen::new(s, cfg).header();
            ctx.describe(|| format!("header {h:?}"));
            ctx.label("header");
            judge(s, ctx, &conv::header(&h), |j, h| j.header(h), &|b| conv::cmp_header(&h, b))
        }
        _ => {
            let mut gn = Gen::new(s, cfg);
            gn.ver = Ver { lwc: false, arg64: gn.s.chance(1, 2), culture: true };
            let t = gn.text(5);
            ctx.describe(|| format!("text {t:?}"));
            ctx.label("text");
            judge(s, ctx, &conv::text(&t), |j, t| j.own_text(t), &|b| conv::cmp_text(&t, b))
        }
    }
}
