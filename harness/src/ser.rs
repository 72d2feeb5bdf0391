//! Serialization: structs made up at run time, and structs with derived options.
use crate::fmt;
use crate::objects::table;
use crate::ops::{arr, bo, fl, num, st, text, un, us, R};
use macros_under_test::XlsxSerialize as Derived;
use rust_xlsxwriter::*;
use serde::de::IgnoredAny;
use serde::ser::{SerializeSeq, SerializeStruct, SerializeTuple};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::{json, Value};
use std::cell::RefCell;

thread_local! {
    static SHAPE: RefCell<(&'static str, &'static [&'static str])> = const { RefCell::new(("", &[])) };
    static OPTIONS: RefCell<SerializeFieldOptions> = RefCell::new(SerializeFieldOptions::new());
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// Any value, described by a record with one key.
#[derive(Clone, Default)]
pub struct V(Value);

impl V {
    fn never(&self) -> bool {
        false
    }
    fn absent(&self) -> bool {
        self.0.get("absent").is_some()
    }
}

#[derive(Serialize)]
struct Unit;
#[derive(Serialize)]
struct Wrap(V);
#[derive(Serialize)]
enum Variant {
    Wrapped(V),
}

impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let (k, v) = match self.0.as_object().and_then(|m| m.iter().next()) {
            Some(e) => e,
            None => return s.serialize_none(),
        };
        let t = || v.as_str().unwrap();
        match k.as_str() {
            "f64" => s.serialize_f64(num(t())),
            "f32" => s.serialize_f32(num(t()) as f32),
            "i8" => s.serialize_i8(t().parse().unwrap()),
            "i16" => s.serialize_i16(t().parse().unwrap()),
            "i32" => s.serialize_i32(t().parse().unwrap()),
            "i64" => s.serialize_i64(t().parse().unwrap()),
            "u8" => s.serialize_u8(t().parse().unwrap()),
            "u16" => s.serialize_u16(t().parse().unwrap()),
            "u32" => s.serialize_u32(t().parse().unwrap()),
            "u64" => s.serialize_u64(t().parse().unwrap()),
            "str" => s.serialize_str(&text(&self.0, "str")),
            "char" => s.serialize_char(t().chars().next().unwrap()),
            "bool" => s.serialize_bool(v.as_bool().unwrap()),
            "some" => s.serialize_some(&V(v.clone())),
            "unit" => s.serialize_unit(),
            "ustruct" => Unit.serialize(s),
            "uvar" => s.serialize_unit_variant("E", 0, leak(t())),
            "newt" => Wrap(V(v.clone())).serialize(s),
            "nvar" => Variant::Wrapped(V(v.clone())).serialize(s),
            "bytes" => s.serialize_bytes(b"bytes"),
            "date" => ExcelDateTime::parse_from_str(t()).unwrap().serialize(s),
            "seq" => {
                let vs = v.as_array().unwrap();
                let mut q = s.serialize_seq(Some(vs.len()))?;
                for e in vs {
                    q.serialize_element(&V(e.clone()))?;
                }
                q.end()
            }
            "tup" => {
                let vs = v.as_array().unwrap();
                let mut q = s.serialize_tuple(vs.len())?;
                for e in vs {
                    q.serialize_element(&V(e.clone()))?;
                }
                q.end()
            }
            "st" => {
                let fs = v["fs"].as_array().unwrap();
                let mut q = s.serialize_struct(leak(v["name"].as_str().unwrap()), fs.len())?;
                for f in fs {
                    q.serialize_field(leak(f[0].as_str().unwrap()), &V(f[1].clone()))?;
                }
                q.end()
            }
            "mac" => with_struct(v["k"].as_u64().unwrap(), &v["vs"], Ser(s)),
            _ => s.serialize_none(),
        }
    }
}

impl<'de> Deserialize<'de> for V {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        IgnoredAny::deserialize(d).map(|_| V::default())
    }
}

/// A struct with the name and fields in SHAPE, or the options in OPTIONS.
struct Shape;
impl<'de> Deserialize<'de> for Shape {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (name, fields) = SHAPE.with(|s| *s.borrow());
        d.deserialize_struct(name, fields, IgnoredAny).map(|_| Shape)
    }
}
impl Serialize for Shape {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_unit()
    }
}
impl XlsxSerialize for Shape {
    fn to_serialize_field_options() -> SerializeFieldOptions {
        OPTIONS.with(|o| o.borrow().clone())
    }
}

/// Structs with derived options.  tools/gser.py describes each of them.
mod shapes {
    use super::*;
    #[derive(Serialize, Deserialize, Derived)]
    pub struct Plain {
        pub name: V,
        pub price: V,
        pub in_stock: V,
    }
    #[derive(Serialize, Deserialize, Derived)]
    #[serde(rename_all = "camelCase", deny_unknown_fields)]
    pub struct Camel {
        pub first_name: V,
        pub last__name: V,
        pub z42_x: V,
    }
    #[derive(Serialize, Deserialize, Derived)]
    #[serde(deny_unknown_fields, bound(serialize = ""), rename_all = "SCREAMING-KEBAB-CASE")]
    #[xlsx(header_format = Format::new().set_bold())]
    pub struct Kebab {
        pub very_tasty: V,
        #[serde(default, rename = "Given Name")]
        pub given: V,
        #[serde(skip_serializing_if = "V::never", rename(deserialize = "in", serialize = "out name"))]
        #[xlsx(header_format = Format::new().set_italic())]
        pub both: V,
        pub original: V,
    }
    #[derive(Serialize, Deserialize, Derived)]
    pub struct Raw {
        pub r#type: V,
        pub r#match: V,
        pub plain: V,
    }
    #[derive(Serialize, Deserialize, Derived)]
    #[serde(rename = "Renamed struct", rename_all = "PascalCase")]
    pub struct Pascal {
        pub _lead: V,
        pub two__under: V,
        #[serde(skip)]
        pub gone: V,
        #[xlsx(rename = "Shown as")]
        pub b_c: V,
        #[serde(default, skip_serializing)]
        pub gone_too: V,
        pub a: V,
    }
    #[derive(Serialize, Deserialize, Derived)]
    #[xlsx(hide_headers)]
    pub struct Hidden {
        #[xlsx(num_format = "0.00")]
        pub cost: V,
        #[xlsx(skip)]
        pub gone: V,
        #[xlsx(column_width = 12.5)]
        pub wide: V,
        #[xlsx(column_width_pixels = 60)]
        pub narrow: V,
    }
    #[derive(Serialize, Deserialize, Derived)]
    #[xlsx(table_default)]
    pub struct Tabular {
        pub item: V,
        #[xlsx(value_format = Format::new().set_italic(), column_format = Format::new().set_bold(), header_format = Format::new().set_text_wrap())]
        pub qty: V,
    }
    #[derive(Serialize, Deserialize, Derived)]
    #[serde(rename_all(deserialize = "lowercase", serialize = "UPPERCASE"))]
    #[xlsx(table_style = TableStyle::Light10)]
    pub struct Styled {
        pub part_no: V,
        #[serde(rename = "kept")]
        pub other: V,
    }
    #[derive(Serialize, Deserialize, Derived)]
    #[xlsx(table = Table::new().set_total_row(true).set_banded_rows(false), header_format = Format::new().set_italic())]
    pub struct Generic<T> {
        pub item: T,
        #[serde(skip_serializing_if = "V::never")]
        #[xlsx(rename = "Total", skip)]
        pub total: V,
        pub last: T,
    }
    #[derive(Serialize, Deserialize, Derived)]
    #[serde(rename_all = "lowercase")]
    #[allow(non_snake_case)]
    pub struct Lower {
        pub isA: V,
        pub b_c: V,
    }
    #[derive(Serialize, Deserialize, Derived)]
    #[serde(rename_all = "kebab-case", rename = "kebab")]
    pub struct Kebab2 {
        pub _x_y_: V,
        #[serde(rename(serialize = "é & <b>"), default)]
        #[xlsx(num_format = "0%", rename = "x & <y>")]
        pub esc: V,
        pub été_b: V,
    }
    #[derive(Serialize, Deserialize, Derived)]
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    pub struct Optional {
        pub must: V,
        #[serde(skip_serializing_if = "V::absent")]
        pub may_be: V,
        pub end: V,
    }
}

/// Something to do with a struct with derived options.
trait Visit {
    type Out;
    fn visit<T: Serialize + XlsxSerialize + for<'de> Deserialize<'de>>(self, v: &T) -> Self::Out;
}
struct Ser<S>(S);
impl<S: Serializer> Visit for Ser<S> {
    type Out = Result<S::Ok, S::Error>;
    fn visit<T: Serialize + XlsxSerialize + for<'de> Deserialize<'de>>(self, v: &T) -> Self::Out {
        v.serialize(self.0)
    }
}

fn with_struct<X: Visit>(k: u64, vs: &Value, x: X) -> X::Out {
    use shapes::*;
    let g = |n: usize| V(vs.get(n).cloned().unwrap_or(Value::Null));
    match k {
        0 => x.visit(&Plain { name: g(0), price: g(1), in_stock: g(2) }),
        1 => x.visit(&Camel { first_name: g(0), last__name: g(1), z42_x: g(2) }),
        2 => x.visit(&Kebab { very_tasty: g(0), given: g(1), both: g(2), original: g(3) }),
        3 => x.visit(&Raw { r#type: g(0), r#match: g(1), plain: g(2) }),
        4 => x.visit(&Pascal { _lead: g(0), two__under: g(1), gone: g(2), b_c: g(3), gone_too: g(4), a: g(5) }),
        5 => x.visit(&Hidden { cost: g(0), gone: g(1), wide: g(2), narrow: g(3) }),
        6 => x.visit(&Tabular { item: g(0), qty: g(1) }),
        7 => x.visit(&Styled { part_no: g(0), other: g(1) }),
        8 => x.visit(&Generic::<V> { item: g(0), total: g(1), last: g(2) }),
        9 => x.visit(&Lower { isA: g(0), b_c: g(1) }),
        10 => x.visit(&Kebab2 { _x_y_: g(0), esc: g(1), été_b: g(2) }),
        11 => x.visit(&Optional { must: g(0), may_be: g(1), end: g(2) }),
        _ => panic!("harness: struct {k}"),
    }
}

fn options(o: &Value) -> SerializeFieldOptions {
    let mut x = SerializeFieldOptions::new();
    if let Some(f) = o.get("hfmt") {
        x = x.set_header_format(fmt::format(f));
    }
    if o.get("hide").is_some() {
        x = x.hide_headers(bo(o, "hide"));
    }
    if o.get("custom").is_some() {
        let cs: Vec<CustomSerializeField> = arr(o, "custom").iter().map(|c| custom(c)).collect();
        x = x.set_custom_headers(&cs);
    }
    if o.get("only").is_some() {
        x = x.use_custom_headers_only(bo(o, "only"));
    }
    match o.get("table") {
        Some(Value::String(s)) if s == "default" => x = x.set_table_default(),
        Some(t) if t.get("only_style").is_some() => x = x.set_table_style(crate::objects::table_style(st(t, "only_style"))),
        Some(t) => x = x.set_table(table(t)),
        None => {}
    }
    if o.get("name").is_some() {
        x = x.set_struct_name(st(o, "name"));
    }
    x
}

fn custom(o: &Value) -> CustomSerializeField {
    let mut c = CustomSerializeField::new(st(o, "field"));
    if o.get("rename").is_some() {
        c = c.rename(text(o, "rename"));
    }
    if let Some(f) = o.get("hfmt") {
        c = c.set_header_format(fmt::format(f));
    }
    if let Some(f) = o.get("cfmt") {
        c = c.set_column_format(fmt::format(f));
    }
    if let Some(f) = o.get("vfmt") {
        c = c.set_value_format(fmt::format(f));
    }
    if o.get("skip").is_some() {
        c = c.skip(bo(o, "skip"));
    }
    if o.get("width").is_some() {
        c = c.set_column_width(fl(o, "width"));
    }
    if o.get("pixels").is_some() {
        c = c.set_column_width_pixels(us(o, "pixels"));
    }
    c
}

/// Headers of a struct with derived options.
struct Head<'a>(&'a mut Worksheet, &'a Value);
impl Visit for Head<'_> {
    type Out = Result<(), XlsxError>;
    fn visit<T: Serialize + XlsxSerialize + for<'de> Deserialize<'de>>(self, v: &T) -> Self::Out {
        let (ws, o) = (self.0, self.1);
        match st(o, "via") {
            "set" => ws.set_serialize_headers::<T>(un(o, "r"), us(o, "c")).map(|_| ()),
            "de" => de::<T>(ws, o),
            _ => ser(ws, o, v),
        }
    }
}

fn de<T: for<'de> Deserialize<'de>>(ws: &mut Worksheet, o: &Value) -> Result<(), XlsxError> {
    let (r, c) = (un(o, "r"), us(o, "c"));
    if let Some(x) = o.get("opts") {
        return ws.deserialize_headers_with_options::<T>(r, c, &options(x)).map(|_| ());
    }
    match o.get("hfmt") {
        Some(f) => ws.deserialize_headers_with_format::<T>(r, c, &fmt::format(f)).map(|_| ()),
        None => ws.deserialize_headers::<T>(r, c).map(|_| ()),
    }
}

fn ser<T: Serialize>(ws: &mut Worksheet, o: &Value, v: &T) -> Result<(), XlsxError> {
    let (r, c) = (un(o, "r"), us(o, "c"));
    if let Some(x) = o.get("opts") {
        return ws.serialize_headers_with_options(r, c, v, &options(x)).map(|_| ());
    }
    match o.get("hfmt") {
        Some(f) => ws.serialize_headers_with_format(r, c, v, &fmt::format(f)).map(|_| ()),
        None => ws.serialize_headers(r, c, v).map(|_| ()),
    }
}

pub fn ser_op(ws: &mut Worksheet, op: &str, o: &Value) -> Option<R> {
    let unit = |r: Result<(), XlsxError>| r.map(|()| Value::Null);
    let dims = |r: Result<(u32, u16, u32, u16), XlsxError>| r.map(|d| json!([d.0, d.1, d.2, d.3]));
    Some(match op {
        "serhead" => {
            if let Some(m) = o["of"].get("mac") {
                return Some(unit(with_struct(m["k"].as_u64().unwrap(), &m["vs"], Head(ws, o))));
            }
            match st(o, "via") {
                "ser" => unit(ser(ws, o, &V(o["of"].clone()))),
                via => {
                    let s = &o["of"]["st"];
                    let names: Vec<&'static str> = arr(s, "fs").iter().map(|f| leak(f[0].as_str().unwrap())).collect();
                    SHAPE.with(|x| *x.borrow_mut() = (leak(s["name"].as_str().unwrap()), Box::leak(names.into_boxed_slice())));
                    if via == "set" {
                        OPTIONS.with(|x| *x.borrow_mut() = options(&o["opts"]));
                        unit(ws.set_serialize_headers::<Shape>(un(o, "r"), us(o, "c")).map(|_| ()))
                    } else {
                        unit(de::<Shape>(ws, o))
                    }
                }
            }
        }
        "ser" => unit(ws.serialize(&V(o["v"].clone())).map(|_| ())),
        "serdims" => dims(ws.get_serialize_dimensions(st(o, "name"))),
        "sercdims" => dims(ws.get_serialize_column_dimensions(st(o, "name"), st(o, "field"))),
        _ => return None,
    })
}
