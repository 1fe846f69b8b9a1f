//! Replays histories of calls from spec/Verifier.tla against vercre-verifier's endpoints.
#[path = "../../common/io.rs"]
mod io;
#[path = "../../common/world.rs"]
mod world;

use std::collections::BTreeMap;

use anyhow::{anyhow, Result};
use chrono::{DateTime, Utc};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use vercre_did::{DidResolver, Document};
use vercre_infosec::{Decryptor, Encryptor, SecOps, Signer};
use vercre_openid::verifier::*;
use world::{run, Key, Shared};

#[derive(Clone, Debug, Default)]
struct World { store: Shared }
fn s(v: &Value) -> String { v.as_str().unwrap_or_default().to_string() }
fn url(name: &str) -> String { format!("http://{name}.example") }
fn name_of(url: &str) -> String { url.trim_start_matches("http://").trim_end_matches(".example").to_string() }
fn did(name: &str) -> String { format!("did:ex:{name}") }
fn known(name: &str) -> bool { name == "v1" || name == "v2" }
fn about(name: &str) -> Value {
    json!({"client_id": url(name), "redirect_uris": [format!("{}/callback", url(name))], "client_name": format!("Verifier {name}"), "token_endpoint_auth_method": "none",
           "vp_formats": {"jwt_vp_json": {"alg": ["EdDSA", name]}}})
}
impl Provider for World {}
impl Metadata for World {
    async fn verifier(&self, id: &str) -> Result<Verifier> {
        let name = name_of(id);
        if !known(&name) || url(&name) != id { return Err(anyhow!("unknown verifier")); }
        Ok(serde_json::from_value(about(&name)).expect("metadata"))
    }
    async fn wallet(&self, _: &str) -> Result<Wallet> { Err(anyhow!("no wallets here")) }
    async fn register(&self, v: &Verifier) -> Result<Verifier> { Ok(v.clone()) }
}
impl StateStore for World {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> Result<()> { self.store.put(key, state, expiry) }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> { self.store.get(key) }
    async fn purge(&self, key: &str) -> Result<()> { self.store.purge(key) }
}
const DIDS: [&str; 6] = ["did:ex:h1", "did:ex:h2", "did:ex:i1", "did:ex:i2", "did:ex:v1", "did:ex:v2"];
impl DidResolver for World {
    async fn resolve(&self, url: &str) -> Result<Document> {
        let did = url.split('#').next().unwrap_or_default();
        if DIDS.contains(&did) { Ok(world::document(did)) } else { Err(anyhow!("no such DID")) }
    }
}
impl SecOps for World {
    fn signer(&self, id: &str) -> Result<impl Signer> {
        let name = name_of(id);
        if !known(&name) { return Err(anyhow!("no keys")); }
        Ok(Key(did(&name)))
    }
    fn encryptor(&self, id: &str) -> Result<impl Encryptor> { Ok(Key(did(&name_of(id)))) }
    fn decryptor(&self, id: &str) -> Result<impl Decryptor> { Ok(Key(did(&name_of(id)))) }
}

// ---------------------------------------------------------------- input descriptors
fn descriptor(name: &str) -> Value {
    let typ = |t: &str| json!({"path": ["$.type"], "filter": {"type": "string", "const": t}});
    let role = |optional: bool| {
        let mut f = json!({"path": ["$.credentialSubject.role", "$.role"], "filter": {"type": "string", "pattern": "^x$"}});
        if optional { f["optional"] = json!(true); }
        f
    };
    let (fields, format) = match name {
        "A" => (vec![typ("CredA")], None),
        "B" => (vec![typ("CredB")], None),
        "Ax" => (vec![role(false), typ("CredA")], None),
        "Ao" => (vec![typ("CredA"), role(true)], None),
        "Af" => (vec![typ("CredA")], Some("jwt_vc_json")),
        "Bf" => (vec![typ("CredB")], Some("ldp_vc")),
        "N" => (vec![], None),
        o => panic!("descriptor {o}"),
    };
    let mut d = json!({"id": name, "name": format!("the {name}"), "constraints": {}});
    if !fields.is_empty() { d["constraints"]["fields"] = json!(fields); }
    if let Some(f) = format { d["format"] = json!({f: {"alg": ["EdDSA"]}}); }
    d
}

// ---------------------------------------------------------------- what a wallet sends
fn signed(typ: &str, claims: &Value, did: &str, flaw: &str) -> String {
    let key = if flaw == "ghost" { "did:ex:ghost" } else { did };
    let jwt = world::token(&json!({"alg": "EdDSA", "typ": typ, "kid": world::kid_of(key)}), claims, if flaw == "bad" { "did:ex:mallory" } else { key });
    if flaw != "tampered" { return jwt; }
    // the signature of something else
    let parts: Vec<&str> = jwt.split('.').collect();
    let mut other = claims.clone();
    other["jti"] = json!("something else");
    let b = world::token(&json!({"alg": "EdDSA", "typ": typ, "kid": world::kid_of(key)}), &other, key);
    format!("{}.{}.{}", parts[0], parts[1], b.split('.').nth(2).unwrap())
}
fn credential(c: &Value, i: usize) -> Value {
    let at = Utc::now().timestamp();
    let mut subject = json!({"id": "did:ex:h1", "given": "Ann"});
    if c["role"] != "none" { subject["role"] = c["role"].clone(); }
    let mut vc = json!({"@context": ["https://www.w3.org/2018/credentials/v1", "http://i1.example/credentials/v1"], "id": format!("http://i1.example/credentials/{i}"),
        "type": ["VerifiableCredential", c["typ"]], "issuer": "http://i1.example", "validFrom": "2024-07-23T02:48:11Z", "credentialSubject": subject});
    let until = match c["until"].as_str().unwrap() { "past" => Some(at - 1), "soon" => Some(at + 2), _ => None };
    if let Some(t) = until { vc["validUntil"] = json!(DateTime::from_timestamp(t, 0).unwrap().to_rfc3339()); }
    let mut claims = json!({"sub": "did:ex:h1", "iss": "http://i1.example", "iat": at - 1000, "nbf": at - 1000, "jti": format!("http://i1.example/credentials/{i}"), "vc": vc});
    if let Some(t) = until { claims["exp"] = json!(t); }
    match c["sig"].as_str().unwrap() {
        "object" => {
            vc["proof"] = json!({"type": "DataIntegrityProof", "proofPurpose": "assertionMethod", "verificationMethod": "did:ex:i1#key-0", "proofValue": "zzz"});
            vc
        }
        "vp" => json!(signed("vp+jwt", &json!({"iss": "did:ex:i1", "jti": "x", "aud": "y", "nonce": "z", "nbf": at, "iat": at, "exp": at + 60,
                                              "vp": {"@context": ["a", "b"], "type": ["VerifiablePresentation", c["typ"]]}}), "did:ex:i1", "ok")),
        flaw => json!(signed("vc+jwt", &claims, "did:ex:i1", flaw)),
    }
}
struct Session { w: World, names: BTreeMap<String, String> }
impl Session {
    fn name(&self, kind: &str, n: &Value) -> String { self.names.get(&format!("{kind}:{n}")).cloned().unwrap_or_else(|| format!("unknown-{kind}-{n}")) }
    fn path(m: &Value, vps: usize) -> String {
        let vp = if vps == 1 { "$".to_string() } else { format!("$[{}]", m["vp"].as_i64().unwrap() - 1) };
        match m["path"].as_str().unwrap() {
            "at" => format!("{vp}.verifiableCredential[{}]", m["i"].as_i64().unwrap() - 1),
            "all" => format!("{vp}.verifiableCredential[*]"),
            "bad" => "$[[".into(),
            "root" => vp,
            "id" => format!("{vp}.holder"),
            o => panic!("path {o}"),
        }
    }
    fn response(&self, k: &Value, r: &Value) -> ResponseRequest {
        let at = Utc::now().timestamp();
        let vps = r["vps"].as_array().unwrap();
        let tokens: Vec<Value> = vps.iter().enumerate().map(|(i, v)| {
            let by = did(v["by"].as_str().unwrap());
            let nonce = self.name("nonce", &v["nonce"]);
            let creds: Vec<Value> = v["creds"].as_array().unwrap().iter().enumerate().map(|(j, c)| credential(c, i * 10 + j)).collect();
            let mut vp = json!({"@context": ["https://www.w3.org/2018/credentials/v1", "https://www.w3.org/2018/credentials/examples/v1"], "id": format!("urn:vp:{i}"),
                "type": ["VerifiablePresentation", "EmployeeIDPresentation"], "holder": by, "verifiableCredential": creds});
            if v["sig"] == "object" {
                vp["proof"] = json!({"type": "DataIntegrityProof", "proofPurpose": "authentication", "verificationMethod": world::kid_of(&by), "challenge": nonce, "proofValue": "zzz"});
                return vp;
            }
            json!(signed("vp+jwt", &json!({"iss": by, "jti": format!("urn:vp:{i}"), "aud": "http://v1.example/post", "nonce": nonce, "nbf": at, "iat": at, "exp": at + 3600, "vp": vp}),
                         &by, v["sig"].as_str().unwrap()))
        }).collect();
        let map: Vec<Value> = r["map"].as_array().unwrap().iter().map(|m| json!({"id": m["id"], "format": "jwt_vp_json", "path": "$",
            "path_nested": {"format": m["fmt"], "path": Self::path(m, vps.len())}})).collect();
        let mut body = Map::new();
        if r["tok"] == "list" { body.insert("vp_token".into(), json!(tokens)); }
        if r["sub"] == "given" { body.insert("presentation_submission".into(), json!({"id": "sub-1", "definition_id": self.name("def", &r["def"]), "descriptor_map": map})); }
        if *k != 0 { body.insert("state".into(), json!(self.name("state", k))); }
        serde_json::from_value(Value::Object(body)).expect("response")
    }
    fn object(&self, client: &str, state: &str) -> Value {
        match run(vercre_verifier::request_object(self.w.clone(), &RequestObjectRequest { client_id: url(client), id: state.into() })) {
            Err(e) => json!({ "err": e.to_string() }),
            Ok(r) => {
                let RequestObjectType::Jwt(jwt) = r.request_object else { return json!({"err2": "not signed"}) };
                match world::opened(&jwt, &DIDS) {
                    None => json!({"unreadable": jwt}),
                    Some((header, claims, by)) => json!({"header": header, "object": claims, "by": by}),
                }
            }
        }
    }
    fn call(&mut self, a: &Value, n: &Value) -> Value {
        match a["op"].as_str().unwrap() {
            "tick" => {
                world::set_now(world::now() + a["d"].as_i64().unwrap());
                json!({})
            }
            "create" => {
                let client = s(&a["client"]);
                let descs: Vec<Value> = a["descs"].as_array().unwrap().iter().map(|d| descriptor(d.as_str().unwrap())).collect();
                let mut req: CreateRequestRequest = serde_json::from_value(json!({"purpose": format!("To check {n}"), "input_descriptors": descs,
                    "device_flow": if a["flow"] == "cross" { "CrossDevice" } else { "SameDevice" }, "client_id": url(&client), "client_id_scheme": "redirect_uri"})).expect("request");
                req.client_id = url(&client);
                let resp = match run(vercre_verifier::create_request(self.w.clone(), &req)) {
                    Ok(r) => r,
                    Err(e) => return json!({ "err": e.to_string() }),
                };
                let uri = resp.request_uri.clone();
                let given = resp.request_object.as_ref().map(|o| serde_json::to_value(o).expect("object"));
                // the object of a request made by reference: looked at, and the look undone
                let object = given.clone().or_else(|| {
                    let state = uri.as_ref()?.rsplit('/').next()?.to_string();
                    let saved = self.w.store.save();
                    let o = self.object(&client, &state);
                    self.w.store.restore(saved);
                    o.get("object").cloned()
                });
                if let Some(o) = &object {
                    for (kind, v) in [("state", &o["state"]), ("nonce", &o["nonce"]), ("def", &o["presentation_definition"]["id"])] {
                        self.names.insert(format!("{kind}:{n}"), s(v));
                    }
                }
                json!({"uri": uri, "given": given.is_some(), "object": object, "descs": descs, "purpose": format!("To check {n}"), "meta": about(&client)})
            }
            "object" => {
                let mut o = self.object(a["client"].as_str().unwrap(), &self.name("state", &a["ref"]));
                o["meta"] = about(a["client"].as_str().unwrap());
                o
            }
            "response" => match run(vercre_verifier::response(self.w.clone(), &self.response(&a["state"], &a["resp"]))) {
                Ok(r) => json!({"redirect": r.redirect_uri}),
                Err(e) => json!({ "err": e.to_string() }),
            },
            "metadata" => match run(vercre_verifier::metadata(self.w.clone(), &MetadataRequest { client_id: url(a["client"].as_str().unwrap()) })) {
                Ok(r) => json!({"meta": r.client, "want": about(a["client"].as_str().unwrap())}),
                Err(e) => json!({ "err": e.to_string() }),
            },
            o => panic!("op {o}"),
        }
    }
}

fn main() {
    io::serve(|c| {
        world::set_now(0);
        let w = World::default();
        w.store.0.lock().unwrap().expunge = c["expunge"] == true;
        let mut x = Session { w, names: BTreeMap::new() };
        let mut obs = vec![];
        for h in c["hist"].as_array().unwrap() {
            obs.push(io::caught(|| x.call(&h["a"], &h["n"])).unwrap_or_else(|p| json!({ "panic": p })));
        }
        let (store, names, at) = (x.w.store.save(), x.names.clone(), world::now());
        let mut tried = vec![];
        for t in c["tries"].as_array().unwrap() {
            tried.push(io::caught(|| x.call(&t["a"], &t["n"])).unwrap_or_else(|p| json!({ "panic": p })));
            x.w.store.restore(store.clone());
            x.names.clone_from(&names);
            world::set_now(at);
        }
        json!({ "hist": obs, "tries": tried })
    });
}
