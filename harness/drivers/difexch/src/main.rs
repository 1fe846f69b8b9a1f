//! Replays the Presentation Exchange specification against the real crate.
#[path = "../../common/io.rs"]
mod io;

use std::collections::HashMap;
use std::str::FromStr;

use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use vercre_dif_exch::{
    ClaimFormat, Claims, Constraints, DescriptorMap, Field, Filter, FilterValue, InputDescriptor, PathNested,
    PresentationDefinition, PresentationSubmission,
};

struct Doc(Option<Value>);
impl Claims for Doc {
    fn to_json(&self) -> anyhow::Result<Value> {
        self.0.clone().ok_or_else(|| anyhow::anyhow!("no json"))
    }
}

fn s(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}
fn os(v: &Value) -> Option<String> {
    v.as_str().map(str::to_string)
}
fn ob(v: &Value) -> Option<bool> {
    v.as_bool()
}
fn strings(v: &Value) -> Option<Vec<String>> {
    v.as_array().map(|a| a.iter().map(s).collect())
}

// Built member by member, not through serde.
fn filter(v: &Value) -> Filter {
    let value = match v["kind"].as_str().unwrap() {
        "const" => FilterValue::Const(s(&v["value"])),
        "pattern" => FilterValue::Pattern(s(&v["value"])),
        "format" => FilterValue::Format(s(&v["value"])),
        other => panic!("filter {other}"),
    };
    Filter { type_: s(&v["type"]), value }
}

fn field(v: &Value) -> Field {
    Field {
        id: os(&v["id"]),
        path: strings(&v["path"]).unwrap(),
        filter: v.get("filter").filter(|f| !f.is_null()).map(filter),
        predicate: os(&v["predicate"]),
        purpose: os(&v["purpose"]),
        name: os(&v["name"]),
        optional: ob(&v["optional"]),
        intent_to_retain: ob(&v["intent_to_retain"]),
    }
}

fn constraints(v: &Value) -> Constraints {
    Constraints {
        fields: v["fields"].as_array().map(|a| a.iter().map(field).collect()),
        limit_disclosure: os(&v["limit_disclosure"]),
    }
}

fn format(v: &Value) -> Option<HashMap<String, ClaimFormat>> {
    v.as_object().map(|o| {
        o.iter()
            .map(|(k, f)| (k.clone(), ClaimFormat { alg: strings(&f["alg"]), proof_type: strings(&f["proof_type"]) }))
            .collect()
    })
}

fn descriptor(v: &Value) -> InputDescriptor {
    InputDescriptor {
        id: s(&v["id"]),
        name: os(&v["name"]),
        purpose: os(&v["purpose"]),
        format: format(&v["format"]),
        constraints: constraints(&v["constraints"]),
    }
}

fn definition(v: &Value) -> PresentationDefinition {
    PresentationDefinition {
        id: s(&v["id"]),
        input_descriptors: v["input_descriptors"].as_array().unwrap().iter().map(descriptor).collect(),
        name: os(&v["name"]),
        purpose: os(&v["purpose"]),
        format: format(&v["format"]),
    }
}

fn submission(v: &Value) -> PresentationSubmission {
    PresentationSubmission {
        id: s(&v["id"]),
        definition_id: s(&v["definition_id"]),
        descriptor_map: v["descriptor_map"]
            .as_array()
            .unwrap()
            .iter()
            .map(|d| DescriptorMap {
                id: s(&d["id"]),
                format: s(&d["format"]),
                path: s(&d["path"]),
                path_nested: PathNested { format: s(&d["path_nested"]["format"]), path: s(&d["path_nested"]["path"]) },
            })
            .collect(),
    }
}

fn wire<T: Serialize + DeserializeOwned + PartialEq>(x: &T, expected: &Value) -> Value {
    let got = serde_json::to_value(x);
    let text = serde_json::to_string(x);
    let back = serde_json::from_value::<T>(expected.clone());
    let back_text = serde_json::from_str::<T>(&expected.to_string());
    let round = text.as_ref().ok().and_then(|t| serde_json::from_str::<T>(t).ok());
    json!({
        "json": got.ok(),
        "text_agrees": text.ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()),
        "read": back.is_ok_and(|b| b == *x),
        "read_text": back_text.is_ok_and(|b| b == *x),
        "round": round.is_some_and(|r| r == *x),
    })
}

fn accepts<T: DeserializeOwned>(v: &Value) -> Value {
    json!({
        "value": serde_json::from_value::<T>(v.clone()).is_ok(),
        "text": serde_json::from_str::<T>(&v.to_string()).is_ok(),
    })
}

fn main() {
    io::serve(|c| match c["op"].as_str().unwrap() {
        "satisfied" => {
            let native = constraints(&c["constraints"]);
            let doc = Doc(c.get("doc").cloned());
            let by = |k: &Constraints| match io::caught(|| k.satisfied(&doc)) {
                Ok(Ok(b)) => json!(b),
                Ok(Err(_)) => json!("err"),
                Err(p) => json!({ "panic": p }),
            };
            json!({ "out": by(&native) })
        }
        "wire" => match c["type"].as_str().unwrap() {
            "definition" => wire(&definition(&c["native"]), &c["json"]),
            "submission" => {
                let x = submission(&c["native"]);
                let mut r = wire(&x, &c["json"]);
                r["from_str"] =
                    json!(PresentationSubmission::from_str(&c["json"].to_string()).is_ok_and(|y| y == x));
                r
            }
            other => panic!("type {other}"),
        },
        "accepts" => match c["type"].as_str().unwrap() {
            "definition" => accepts::<PresentationDefinition>(&c["json"]),
            "submission" => {
                let mut r = accepts::<PresentationSubmission>(&c["json"]);
                r["from_str"] = json!(PresentationSubmission::from_str(&c["json"].to_string()).is_ok());
                r
            }
            "filter" => accepts::<Filter>(&c["json"]),
            other => panic!("type {other}"),
        },
        other => panic!("unknown op {other}"),
    });
}
