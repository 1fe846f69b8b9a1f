//! Replays the specifications of vercre-core against the real crate.
#[path = "../../common/io.rs"]
mod io;
mod dynval;

use std::collections::BTreeMap;

use dynval::{Shaped, Tree};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use vercre_core::{gen, pkce, urlencode, Kind, Quota};

fn main() {
    io::serve(|c| match c["op"].as_str().unwrap() {
        "roundtrip" => {
            let v = &c["v"];
            let enc = match io::caught(|| urlencode::to_string(&Tree(v.clone()))) {
                Ok(Ok(s)) => s,
                Ok(Err(e)) => return json!({ "enc_err": e.to_string() }),
                Err(p) => return json!({ "panic": p }),
            };
            dynval::SIZED.set(false);
            let again = io::caught(|| urlencode::to_string(&Tree(v.clone())));
            dynval::SIZED.set(true);
            match again {
                Ok(Ok(s)) if s == enc => {}
                Ok(other) => return json!({ "unsized": format!("{other:?}"), "sized": enc }),
                Err(p) => return json!({ "panic": p }),
            }
            let mut r = decode(v, &enc);
            r["enc"] = enc.into();
            r
        }
        "encode" => match io::caught(|| urlencode::to_string(&Tree(c["v"].clone()))) {
            Ok(Ok(s)) => json!({ "enc": s }),
            Ok(Err(e)) => json!({ "enc_err": e.to_string() }),
            Err(p) => json!({ "panic": p }),
        },
        "decode" => decode(&c["v"], c["q"].as_str().unwrap()),
        "derived" => derived(&c),
        "kind" => kind(&c),
        "quota" => quota(&c),
        "parse" => parse(&c),
        "draw" => draw(&c),
        "bulk" => bulk(&c),
        "challenge" => json!({ "out": pkce::code_challenge(c["v"].as_str().unwrap()) }),
        other => panic!("unknown op {other}"),
    });
}

fn decode(shape: &Value, q: &str) -> Value {
    dynval::expect(shape);
    match io::caught(|| urlencode::from_str::<Shaped>(q)) {
        Ok(Ok(v)) => json!({ "dec": v.0 }),
        Ok(Err(e)) => json!({ "err": e.to_string() }),
        Err(p) => json!({ "panic": p }),
    }
}

// ---------------------------------------------------------------- derived types, as requests use them
#[derive(Clone, Debug, Default, Deserialize, PartialEq, Serialize)]
struct Inner {
    name: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    note: Option<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    tags: Vec<String>,
}

#[derive(Clone, Debug, Default, Deserialize, PartialEq, Serialize)]
#[serde(rename_all = "snake_case")]
enum Choice {
    #[default]
    FirstOne,
    Held(Inner),
    Pair {
        left: String,
        right: u32,
    },
}

#[derive(Clone, Debug, Default, Deserialize, PartialEq, Serialize)]
struct Request {
    id: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    state: Option<String>,
    #[serde(rename = "pre-authorized_code")]
    code: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    details: Option<Vec<Inner>>,
    choice: Choice,
    #[serde(skip_serializing_if = "Option::is_none")]
    inner: Option<Inner>,
    kind: Kind<Inner>,
    #[serde(skip_serializing_if = "Option::is_none")]
    map: Option<BTreeMap<String, Inner>>,
    #[serde(skip_serializing_if = "Option::is_none")]
    count: Option<u64>,
    #[serde(skip_serializing_if = "Option::is_none")]
    flag: Option<bool>,
}

#[derive(Clone, Debug, Default, Deserialize, PartialEq, Serialize)]
struct Flat {
    id: String,
    #[serde(flatten)]
    rest: Rest,
}

#[derive(Clone, Debug, Default, Deserialize, PartialEq, Serialize)]
struct Rest {
    code: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    inner: Option<Inner>,
    #[serde(skip_serializing_if = "Option::is_none")]
    details: Option<Vec<Inner>>,
}

fn round<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(v: &Value) -> Value {
    let x: T = serde_json::from_value(v.clone()).expect("case fits its type");
    match io::caught(|| urlencode::to_string(&x)) {
        Ok(Ok(enc)) => match io::caught(|| urlencode::from_str::<T>(&enc)) {
            Ok(Ok(y)) => json!({ "enc": enc, "same": x == y, "got": format!("{y:?}") }),
            Ok(Err(e)) => json!({ "enc": enc, "err": e.to_string() }),
            Err(p) => json!({ "panic": p }),
        },
        Ok(Err(e)) => json!({ "enc_err": e.to_string() }),
        Err(p) => json!({ "panic": p }),
    }
}

fn derived(c: &Value) -> Value {
    match c["type"].as_str().unwrap() {
        "request" => round::<Request>(&c["v"]),
        "flat" => round::<Flat>(&c["v"]),
        _ => round::<BTreeMap<String, String>>(&c["v"]),
    }
}

// ---------------------------------------------------------------- Kind and Quota
#[derive(Clone, Debug, Default, Deserialize, PartialEq, Eq, Serialize)]
struct Obj {
    a: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    b: Option<u8>,
}

fn obj(v: &Value) -> Obj {
    serde_json::from_value(v.clone()).unwrap()
}

fn kind(c: &Value) -> Value {
    let k: Kind<Obj> = match &c["v"] {
        Value::Null => Kind::default(),
        Value::String(s) => Kind::String(s.clone()),
        v => Kind::Object(obj(v)),
    };
    let wire = serde_json::to_value(&k).unwrap();
    let text = serde_json::to_string(&k).unwrap();
    let back = serde_json::from_value::<Kind<Obj>>(wire.clone());
    let back2 = serde_json::from_str::<Kind<Obj>>(&text);
    json!({
        "wire": wire, "is_string": k.is_string(), "is_object": k.is_object(),
        "back": back.is_ok_and(|b| b == k) && back2.is_ok_and(|b| b == k),
        "equal": k.clone() == k,
    })
}

fn view<T: Clone + Default + PartialEq + Serialize + serde::de::DeserializeOwned>(q: &Quota<T>) -> Value {
    let wire = serde_json::to_value(q).unwrap();
    let back = serde_json::from_value::<Quota<T>>(wire.clone());
    json!({
        "wire": wire, "is_one": q.is_one(), "is_many": q.is_many(), "len": q.len(), "is_empty": q.is_empty(),
        "back": back.is_ok_and(|b| b == *q),
    })
}

fn adds<T: Clone + Default + PartialEq + Serialize + serde::de::DeserializeOwned>(c: &Value) -> Value {
    let item = |v: &Value| -> T { serde_json::from_value(v.clone()).unwrap() };
    let mut q: Quota<T> = match &c["start"] {
        Value::Null => Quota::default(),
        Value::Object(o) if o.contains_key("one") => Quota::One(item(&o["one"])),
        Value::Object(o) => Quota::Many(o["many"].as_array().unwrap().iter().map(item).collect()),
        other => panic!("start {other}"),
    };
    let mut out = vec![view(&q)];
    for a in c["adds"].as_array().unwrap() {
        q.add(item(a));
        out.push(view(&q));
    }
    json!({ "out": out })
}

fn quota(c: &Value) -> Value {
    match c["of"].as_str().unwrap() {
        "text" => adds::<String>(c),
        "obj" => adds::<Obj>(c),
        _ => adds::<Kind<Obj>>(c),
    }
}

fn parse(c: &Value) -> Value {
    let v = c["v"].clone();
    match c["as"].as_str().unwrap() {
        "kind" => json!({ "ok": serde_json::from_value::<Kind<Obj>>(v).is_ok() }),
        _ => json!({ "ok": serde_json::from_value::<Quota<Obj>>(v).is_ok() }),
    }
}

// ---------------------------------------------------------------- generators
fn draw(c: &Value) -> Value {
    let n = c["n"].as_u64().unwrap() as usize;
    let which = c["gen"].as_str().unwrap().to_string();
    let threads = c["threads"].as_u64().unwrap_or(1);
    let one = move |which: &str| -> String {
        match which {
            "auth_code" => gen::auth_code(),
            "issuer_state" => gen::issuer_state(),
            "nonce" => gen::nonce(),
            "notification_id" => gen::notification_id(),
            "uri_token" => gen::uri_token(),
            "token" => gen::token(),
            "transaction_id" => gen::transaction_id(),
            "tx_code" => gen::tx_code(),
            "code_verifier" => pkce::code_verifier(),
            other => panic!("unknown generator {other}"),
        }
    };
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let which = which.clone();
            std::thread::spawn(move || (0..n).map(|_| one(&which)).collect::<Vec<_>>())
        })
        .collect();
    let mut out = vec![];
    for h in hs {
        out.extend(h.join().map_err(|_| "panic").unwrap());
    }
    json!({ "out": out })
}

/// As `draw`, reporting only how many draws differ and how many are not of the generator's form.
fn bulk(c: &Value) -> Value {
    let all = draw(c);
    let out: Vec<&str> = all["out"].as_array().unwrap().iter().map(|s| s.as_str().unwrap()).collect();
    let verifier = c["gen"] == "code_verifier";
    let fits = |s: &&str| {
        if verifier {
            (43..=128).contains(&s.len()) && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~".contains(&b))
        } else {
            s.len() == 43 && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"-_".contains(&b))
        }
    };
    let bad = out.iter().filter(|s| !fits(s)).count();
    let distinct: std::collections::HashSet<&str> = out.iter().copied().collect();
    json!({ "n": out.len(), "distinct": distinct.len(), "bad": bad })
}
