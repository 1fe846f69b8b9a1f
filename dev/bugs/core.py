SER = "crates/core/src/urlencode/ser.rs"
LIB = "crates/core/src/lib.rs"
GEN = "crates/core/src/gen.rs"
PK = "crates/core/src/pkce.rs"
DX = "crates/dif-exch/src/lib.rs"
MX = "crates/dif-exch/src/matcher.rs"

ENC = '''use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum Choice { Plain, Held(String), Pair(u8, String), Named { left: String, right: u8 } }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Req { id: String, choice: Choice, list: Vec<Choice>, map: BTreeMap<String, Vec<String>>, x: f64, state: String }
fn main() {
    for s in ["", "a", "a&b=c", "\\"q\\"", "+ %25"] {
        for ch in [Choice::Plain, Choice::Held(s.into()), Choice::Pair(7, s.into()), Choice::Named { left: s.into(), right: 1 }] {
            for list in [vec![], vec![ch.clone()], vec![ch.clone(), Choice::Plain, ch.clone()]] {
                for x in [0.0, 1.5, 1e21, 0.1 + 0.2, 1e-9, -123456789.125] {
                    let map = BTreeMap::from([(s.to_string(), vec![]), (format!("k{s}"), vec![s.to_string(), "z".into()])]);
                    let r = Req { id: s.into(), choice: ch.clone(), list: list.clone(), map, x, state: s.into() };
                    let e = vercre_core::urlencode::to_string(&r).unwrap();
                    let back = vercre_core::urlencode::from_str::<Req>(&e);
                    assert_eq!(back.expect(&e), r, "{e}");
                }
            }
        }
    }
}
'''

def sat(body):
    return '''use vercre_dif_exch::*;
use serde_json::{json, Value};
struct D(Value);
impl Claims for D { fn to_json(&self) -> anyhow::Result<Value> { Ok(self.0.clone()) } }
fn sat(fields: Value, doc: Value) -> bool {
    let c: Constraints = serde_json::from_value(json!({"fields": fields})).unwrap();
    c.satisfied(&D(doc)).unwrap_or(false)
}
fn main() {
''' + body + "}\n"

BUGS = {
 "core-struct-variant-level": dict(property="C01", needs="a struct enum variant nested in a value, followed by another parameter",
   breaks="the serializer stays one level too deep after a nested struct variant, so later text parameters are encoded as JSON",
   edits=[(SER, '''            self.output += "}}";
        } else {
            self.output += "}";
        }
        self.level -= 1;
        Ok(())''', '''            self.output += "}}";
            return Ok(());
        }
        self.output += "}";
        self.level -= 1;
        Ok(())''')], demo=("ws", ENC)),
 "core-float-precision": dict(property="C01", needs="a float with more than six decimals",
   breaks="floats are encoded with fixed precision and do not decode to the same value",
   edits=[(SER, '''    fn serialize_f64(self, v: f64) -> Result<()> {
        self.output += &v.to_string();''', '''    fn serialize_f64(self, v: f64) -> Result<()> {
        self.output += format!("{v:.6}").trim_end_matches('0').trim_end_matches('.');''')], demo=("ws", ENC)),
 "core-nested-map-comma": dict(property="C01", needs="a nested map with an entry after one whose value is an empty object or ends in a brace",
   breaks="no comma is written between entries of a nested map when the previous value closes an object",
   edits=[(SER, '''    fn serialize_key<T>(&mut self, key: &T) -> Result<()>
    where
        T: ?Sized + Serialize,
    {
        if self.level > TOP_LEVEL {
            if !self.output.ends_with('{') {''', '''    fn serialize_key<T>(&mut self, key: &T) -> Result<()>
    where
        T: ?Sized + Serialize,
    {
        if self.level > TOP_LEVEL {
            if !self.output.ends_with(['{', '}']) {''')], demo=("ws", '''use serde_json::{json, Value};
use std::collections::BTreeMap;
fn main() {
    let m: BTreeMap<String, Value> = BTreeMap::from([("a".to_string(), json!({"x": {"p": "1"}, "y": "2"}))]);
    let e = vercre_core::urlencode::to_string(&m).unwrap();
    let back: BTreeMap<String, Value> = vercre_core::urlencode::from_str(&e).unwrap();
    assert_eq!(back, m, "{e}");
}
''')),
 "core-unreserved-plus": dict(property="C02", needs="a '+' in an encoded text",
   breaks="'+' is left bare in the query string, where form decoders read it as a space",
   edits=[(SER, "&NON_ALPHANUMERIC.remove(b'.').remove(b'_').remove(b'-').remove(b'~');", "&NON_ALPHANUMERIC.remove(b'.').remove(b'_').remove(b'-').remove(b'~').remove(b'+');")],
   demo=("ws", '''use std::collections::BTreeMap;
fn main() {
    let m = BTreeMap::from([("scope", "a+b c")]);
    let e = vercre_core::urlencode::to_string(&m).unwrap();
    assert!(e.chars().all(|c| c.is_ascii_alphanumeric() || "-._~%=&".contains(c)), "{e}");
}
''')),
 "core-quota-dedup": dict(property="C04", needs="adding an item equal to one already in a Quota of many",
   breaks="Quota::add drops repeated items once there are several",
   edits=[(LIB, '''                many.push(item);''', '''                if !many.contains(&item) {
                    many.push(item);
                }''')], demo=("ws", '''use vercre_core::Quota;
fn main() {
    let mut q = Quota::One(1u32);
    q.add(2); q.add(1);
    assert_eq!(q, Quota::Many(vec![1, 2, 1]));
    assert_eq!(q.len(), 3);
}
''')),
 "core-gen-off-by-one": dict(property="C05", needs="many draws: only the last character of each alphabet is never drawn",
   breaks="generated codes and PINs do not use their full alphabet",
   edits=[(GEN, "chars[fastrand::usize(..chars.len())]", "chars[fastrand::usize(..chars.len() - 1)]")],
   demo=("ws", '''fn main() {
    let all: String = (0..3000).map(|_| vercre_core::gen::tx_code()).collect();
    for c in '0'..='9' { assert!(all.contains(c), "{c} never drawn"); }
}
''')),
 "core-state-reuse": dict(property="C05", needs="two codes drawn in the same process",
   breaks="the generator is reseeded with a constant for each notification id, so ids (and what is drawn after) repeat",
   edits=[(GEN, '''pub fn notification_id() -> String {
    let rnd''', '''pub fn notification_id() -> String {
    fastrand::seed(STATE_LEN as u64);
    let rnd''')], demo=("ws", '''use vercre_core::gen::*;
fn main() {
    let (a, n) = (notification_id(), nonce());
    let (b, m) = (notification_id(), nonce());
    assert_ne!(a, b);
    assert_ne!(n, m);
}
''')),
 "core-verifier-length": dict(property="C05", needs="a draw of the shortest length",
   breaks="a code verifier can be 42 characters long, one short of what PKCE requires",
   edits=[(PK, "const MIN_LEN: usize = 43;", "const MIN_LEN: usize = 42;")], demo=("ws", '''fn main() {
    for _ in 0..20000 { let n = vercre_core::pkce::code_verifier().len(); assert!((43..=128).contains(&n), "{n}"); }
}
''')),
 "dif-fallthrough": dict(property="C06", needs="a field with two paths, the first selecting a value that does not match, the second one that does",
   breaks="a later path can rescue a field whose first selected value does not match",
   edits=[(MX, "Ok(false) => break,", "Ok(false) => continue,")], demo=("ws", sat('''    let f = json!([{"path": ["$.a", "$.b"], "filter": {"type": "string", "const": "x"}}]);
    assert!(!sat(f.clone(), json!({"a": "y", "b": "x"})));
    assert!(sat(f.clone(), json!({"b": "x"})));
''')) ),
 "dif-pattern-first": dict(property="C07", needs="an array whose matching element is not the last",
   breaks="a pattern only looks at the last element of an array",
   edits=[(MX, "Value::Array(arr_node) => Ok(arr_node.iter().any(matches)),", "Value::Array(arr_node) => Ok(arr_node.last().is_some_and(matches)),")], demo=("ws", sat('''    let f = json!([{"path": ["$.type"], "filter": {"type": "string", "pattern": "^Employee"}}]);
    assert!(sat(f.clone(), json!({"type": ["VerifiableCredential", "EmployeeID", "Other"]})));
    assert!(!sat(f.clone(), json!({"type": ["VerifiableCredential"]})));
'''))),
 "dif-filter-unknown": dict(property="C08", needs="a filter with a second condition or unknown member",
   breaks="filters with members the library does not support are accepted and silently ignored",
   edits=[(DX, '''#[serde(deny_unknown_fields)]
pub struct Filter {''', '''pub struct Filter {''')], demo=("ws", '''use vercre_dif_exch::*;
fn main() {
    let f = serde_json::json!({"type": "string", "const": "x", "minLength": 3});
    assert!(serde_json::from_value::<Filter>(f).is_err());
    let f = serde_json::json!({"type": "string", "const": "x"});
    assert!(serde_json::from_value::<Filter>(f).is_ok());
}
''')),
 "dif-nested-default": dict(property="C08", needs="a submission whose descriptor map leaves path_nested out",
   breaks="a submission that does not say where its credential is reads as one with an empty path",
   edits=[(DX, '''    pub path_nested: PathNested, // Option<Box<DescriptorMap>>,''', '''    #[serde(default)]
    pub path_nested: PathNested, // Option<Box<DescriptorMap>>,''')], demo=("ws", '''use vercre_dif_exch::*;
fn main() {
    let s = serde_json::json!({"id": "1", "definition_id": "2", "descriptor_map": [{"id": "d", "format": "jwt_vp", "path": "$"}]});
    assert!(serde_json::from_value::<PresentationSubmission>(s).is_err());
}
''')),
}
