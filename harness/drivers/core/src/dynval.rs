// Value trees that serialise and deserialise through exactly the serde calls their shape stands for.
use std::cell::RefCell;
use std::fmt;

use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant,
};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::{json, Value};

/// A tree `{"t": .., ..}` as described in UrlEncode.tla (text and keys already plain strings).
#[derive(Clone, Debug)]
pub struct Tree(pub Value);

thread_local! {
    /// Whether lists and maps say how long they are (and maps give their entries whole).
    pub static SIZED: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}
fn length(n: usize) -> Option<usize> {
    SIZED.get().then_some(n)
}

pub fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

fn t(v: &Value) -> &str {
    v["t"].as_str().unwrap()
}
fn st(v: &Value, k: &str) -> String {
    v[k].as_str().unwrap().to_string()
}
fn items(v: &Value) -> Vec<Value> {
    v["xs"].as_array().unwrap().clone()
}
fn fields(v: &Value) -> Vec<(String, Value)> {
    v["fs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| (f[0].as_str().unwrap().to_string(), f[1].clone()))
        .collect()
}
fn present(v: &Value) -> Vec<(String, Value)> {
    fields(v).into_iter().filter(|(_, x)| t(x) != "skip").collect()
}

impl Serialize for Tree {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let v = &self.0;
        match t(v) {
            "text" => s.serialize_str(&st(v, "s")),
            "char" => s.serialize_char(st(v, "c").chars().next().unwrap()),
            "bool" => s.serialize_bool(v["v"] == "true"),
            "num" => {
                let n = st(v, "v");
                match v["k"].as_str().unwrap() {
                    "u8" => s.serialize_u8(n.parse().unwrap()),
                    "u16" => s.serialize_u16(n.parse().unwrap()),
                    "u32" => s.serialize_u32(n.parse().unwrap()),
                    "u64" => s.serialize_u64(n.parse().unwrap()),
                    "i8" => s.serialize_i8(n.parse().unwrap()),
                    "i16" => s.serialize_i16(n.parse().unwrap()),
                    "i32" => s.serialize_i32(n.parse().unwrap()),
                    "i64" => s.serialize_i64(n.parse().unwrap()),
                    "f32" => s.serialize_f32(n.parse().unwrap()),
                    _ => s.serialize_f64(n.parse().unwrap()),
                }
            }
            "unitv" => s.serialize_unit_variant("E", 0, leak(&st(v, "n"))),
            "some" => s.serialize_some(&Tree(v["x"].clone())),
            "none" => s.serialize_none(),
            "newtype" => s.serialize_newtype_struct("N", &Tree(v["x"].clone())),
            "list" => {
                let xs = items(v);
                let mut q = s.serialize_seq(length(xs.len()))?;
                for x in xs {
                    q.serialize_element(&Tree(x))?;
                }
                q.end()
            }
            "bytes" => s.serialize_bytes(&items(v).iter().map(|x| st(x, "v").parse().unwrap()).collect::<Vec<u8>>()),
            "tuple" => {
                let xs = items(v);
                let mut q = s.serialize_tuple(xs.len())?;
                for x in xs {
                    q.serialize_element(&Tree(x))?;
                }
                q.end()
            }
            "tstruct" => {
                let xs = items(v);
                let mut q = s.serialize_tuple_struct("TS", xs.len())?;
                for x in xs {
                    q.serialize_field(&Tree(x))?;
                }
                q.end()
            }
            "struct" => {
                let fs = fields(v);
                let n = present(v).len();
                let mut q = s.serialize_struct("S", n)?;
                for (k, x) in fs {
                    if t(&x) == "skip" {
                        q.skip_field(leak(&k))?;
                    } else {
                        q.serialize_field(leak(&k), &Tree(x))?;
                    }
                }
                q.end()
            }
            "map" => {
                let fs = present(v);
                let mut q = s.serialize_map(length(fs.len()))?;
                for (k, x) in fs {
                    if length(0).is_some() {
                        q.serialize_entry(&k, &Tree(x))?;
                    } else {
                        q.serialize_key(&k)?;
                        q.serialize_value(&Tree(x))?;
                    }
                }
                q.end()
            }
            "newv" => s.serialize_newtype_variant("E", 0, leak(&st(v, "n")), &Tree(v["x"].clone())),
            "tupv" => {
                let xs = items(v);
                let mut q = s.serialize_tuple_variant("E", 0, leak(&st(v, "n")), xs.len())?;
                for x in xs {
                    q.serialize_field(&Tree(x))?;
                }
                q.end()
            }
            "structv" => {
                let fs = present(v);
                let mut q = s.serialize_struct_variant("E", 0, leak(&st(v, "n")), fs.len())?;
                for (k, x) in fs {
                    q.serialize_field(leak(&k), &Tree(x))?;
                }
                q.end()
            }
            other => panic!("unknown value {other}"),
        }
    }
}

thread_local! {
    static SHAPE: RefCell<Value> = const { RefCell::new(Value::Null) };
}

/// Deserialises into the shape set with `expect`.
#[derive(Debug)]
pub struct Shaped(pub Value);

pub fn expect(shape: &Value) {
    SHAPE.with(|s| *s.borrow_mut() = shape.clone());
}

impl<'de> Deserialize<'de> for Shaped {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let shape = SHAPE.with(|s| s.borrow().clone());
        Seed(shape).deserialize(d).map(Shaped)
    }
}

struct Seed(Value);

impl<'de> DeserializeSeed<'de> for Seed {
    type Value = Value;

    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        let v = self.0;
        macro_rules! num {
            ($ty:ty) => {{
                let n = <$ty>::deserialize(d)?;
                Ok(json!({"t": "num", "k": v["k"], "v": n.to_string()}))
            }};
        }
        match t(&v) {
            "text" => Ok(json!({"t": "text", "s": String::deserialize(d)?})),
            "char" => Ok(json!({"t": "char", "c": char::deserialize(d)?.to_string()})),
            "bool" => Ok(json!({"t": "bool", "v": bool::deserialize(d)?.to_string()})),
            "num" => match v["k"].as_str().unwrap() {
                "u8" => num!(u8),
                "u16" => num!(u16),
                "u32" => num!(u32),
                "u64" => num!(u64),
                "i8" => num!(i8),
                "i16" => num!(i16),
                "i32" => num!(i32),
                "i64" => num!(i64),
                "f32" => num!(f32),
                _ => num!(f64),
            },
            "some" | "none" => d.deserialize_option(V(v)),
            "newtype" => d.deserialize_newtype_struct("N", V(v)),
            "list" | "bytes" => d.deserialize_seq(V(v)),
            "tuple" => d.deserialize_tuple(items(&v).len(), V(v)),
            "tstruct" => d.deserialize_tuple_struct("TS", items(&v).len(), V(v)),
            "struct" => {
                let names: Vec<&'static str> = fields(&v).iter().map(|(k, _)| leak(k)).collect();
                d.deserialize_struct("S", Box::leak(names.into_boxed_slice()), V(v))
            }
            "map" => d.deserialize_map(V(v)),
            _ => {
                let names: Vec<&'static str> = vec![leak(&st(&v, "n")), "Other"];
                d.deserialize_enum("E", Box::leak(names.into_boxed_slice()), V(v))
            }
        }
    }
}

struct V(Value);

impl V {
    fn seq<'de, A: SeqAccess<'de>>(xs: Vec<Value>, exact: bool, mut a: A) -> Result<Vec<Value>, A::Error> {
        let mut out = vec![];
        for x in xs.iter() {
            match a.next_element_seed(Seed(x.clone()))? {
                Some(y) => out.push(y),
                None if exact => return Err(de::Error::invalid_length(out.len(), &"more elements")),
                None => return Ok(out),
            }
        }
        if !exact {
            while let Some(extra) = a.next_element::<Value>()? {
                out.push(json!({"t": "extra", "v": extra}));
            }
        }
        Ok(out)
    }

    fn map<'de, A: MapAccess<'de>>(v: &Value, is_map: bool, mut a: A) -> Result<Vec<Value>, A::Error> {
        let shape = fields(v);
        let mut got: Vec<(String, Value)> = vec![];
        while let Some(k) = a.next_key::<String>()? {
            match shape.iter().find(|(n, _)| *n == k) {
                Some((_, x)) => {
                    let x = if t(x) == "skip" { json!({"t": "some", "x": {"t": "text", "s": ""}}) } else { x.clone() };
                    if got.iter().any(|(n, _)| *n == k) {
                        return Err(de::Error::custom("duplicate field"));
                    }
                    let y = a.next_value_seed(Seed(x))?;
                    got.push((k, y));
                }
                None if is_map => {
                    let y: Value = a.next_value()?;
                    got.push((k, json!({"t": "extra", "v": y})));
                }
                None => {
                    a.next_value::<de::IgnoredAny>()?;
                }
            }
        }
        if is_map {
            return Ok(got.into_iter().map(|(k, y)| json!([k, y])).collect());
        }
        let mut out = vec![];
        for (k, x) in shape {
            match got.iter().find(|(n, _)| *n == k) {
                Some((_, y)) => out.push(json!([k, y])),
                None if t(&x) == "skip" => out.push(json!([k, {"t": "skip"}])),
                None => return Err(de::Error::custom(format!("missing field `{k}`"))),
            }
        }
        Ok(out)
    }
}

impl<'de> Visitor<'de> for V {
    type Value = Value;

    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", t(&self.0))
    }

    fn visit_none<E: de::Error>(self) -> Result<Value, E> {
        Ok(json!({"t": "none"}))
    }

    fn visit_unit<E: de::Error>(self) -> Result<Value, E> {
        if matches!(t(&self.0), "some" | "none") {
            Ok(json!({"t": "none"}))
        } else {
            Err(de::Error::invalid_type(de::Unexpected::Unit, &self))
        }
    }

    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        let inner = if self.0["x"].is_null() { json!({"t": "text", "s": ""}) } else { self.0["x"].clone() };
        Ok(json!({"t": "some", "x": Seed(inner).deserialize(d)?}))
    }

    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        Ok(json!({"t": "newtype", "x": Seed(self.0["x"].clone()).deserialize(d)?}))
    }

    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Value, A::Error> {
        let kind = t(&self.0).to_string();
        if !matches!(kind.as_str(), "list" | "bytes" | "tuple" | "tstruct" | "tupv") {
            return Err(de::Error::invalid_type(de::Unexpected::Seq, &self));
        }
        let xs = Self::seq(items(&self.0), kind != "list" && kind != "bytes", a)?;
        let mut v = self.0;
        v["xs"] = xs.into();
        Ok(v)
    }

    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Value, A::Error> {
        if !matches!(t(&self.0), "struct" | "map" | "structv") {
            return Err(de::Error::invalid_type(de::Unexpected::Map, &self));
        }
        let fs = Self::map(&self.0, t(&self.0) == "map", a)?;
        let mut v = self.0;
        v["fs"] = fs.into();
        Ok(v)
    }

    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Value, A::Error> {
        let (name, data) = a.variant::<String>()?;
        if name != st(&self.0, "n") {
            return Err(de::Error::unknown_variant(&name, &[]));
        }
        let mut v = self.0;
        match t(&v) {
            "unitv" => data.unit_variant()?,
            "newv" => v["x"] = data.newtype_variant_seed(Seed(v["x"].clone()))?,
            "tupv" => return data.tuple_variant(items(&v).len(), V(v)),
            "structv" => {
                let names: Vec<&'static str> = fields(&v).iter().map(|(k, _)| leak(k)).collect();
                return data.struct_variant(Box::leak(names.into_boxed_slice()), V(v));
            }
            other => panic!("not an enum: {other}"),
        }
        Ok(v)
    }
}
