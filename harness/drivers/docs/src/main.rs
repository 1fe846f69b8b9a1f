//! Replays the documents of spec/W3c.tla, StatusList.tla and Mdoc.tla through vercre-w3c-vc, vercre-status and vercre-iso-mdl.
#[path = "../../common/io.rs"]
mod io;
#[path = "../../common/mdoc.rs"]
mod mdoc;
#[path = "../../common/world.rs"]
mod world;

use std::io::Read;

use anyhow::{anyhow, Result};
use serde_json::{json, Value};
use vercre_core::Kind;
use vercre_did::{DidResolver, Document};
use vercre_w3c_vc::model::types::{LangString, LangValue};
use vercre_w3c_vc::model::{VerifiableCredential, VerifiablePresentation};
use vercre_w3c_vc::proof::{self, Payload, Verify, W3cFormat};
use world::{run, Key};

const DIDS: [&str; 3] = ["did:ex:i1", "did:ex:h1", "did:ex:i2"];
struct Resolver;
impl DidResolver for Resolver {
    async fn resolve(&self, url: &str) -> Result<Document> {
        let did = url.split('#').next().unwrap_or_default();
        if DIDS.contains(&did) { Ok(world::document(did)) } else { Err(anyhow!("no such DID")) }
    }
}
fn from<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T> { Ok(serde_json::from_value(v.clone())?) }
fn s(v: &Value) -> &str { v.as_str().unwrap_or_default() }
fn result(r: Result<Value>) -> Value { r.unwrap_or_else(|e| json!({"err": e.to_string()})) }

fn payload(p: Payload) -> Value {
    match p {
        Payload::Vc { vc, issued_at } => json!({"vc": vc, "iat": issued_at}),
        Payload::Vp { vp, client_id, nonce } => json!({"vp": vp, "aud": client_id, "nonce": nonce}),
    }
}
fn make(c: &Value) -> Result<String> {
    let p = if c["kind"] == "vc" {
        Payload::Vc { vc: from(&c["doc"])?, issued_at: c["iat"].as_i64().unwrap() }
    } else {
        Payload::Vp { vp: from(&c["doc"])?, client_id: s(&c["aud"]).into(), nonce: s(&c["nonce"]).into() }
    };
    run(proof::create(from::<W3cFormat>(&c["format"])?, p, Key(format!("did:ex:{}", s(&c["by"])))))
}
fn check(kind: &str, v: &Value) -> Result<Value> {
    Ok(payload(if kind == "vc" {
        run(proof::verify(Verify::Vc(&from::<Kind<VerifiableCredential>>(v)?), &Resolver))?
    } else {
        run(proof::verify(Verify::Vp(&from::<Kind<VerifiablePresentation>>(v)?), &Resolver))?
    }))
}
/// there and back through JSON
fn json_of(c: &Value) -> Result<Value> {
    if c["kind"] == "vc" {
        let v: VerifiableCredential = from(&c["doc"])?;
        let text = serde_json::to_string(&v)?;
        let w: VerifiableCredential = serde_json::from_str(&text)?;
        Ok(json!({"value": v, "again": w}))
    } else {
        let v: VerifiablePresentation = from(&c["doc"])?;
        let text = serde_json::to_string(&v)?;
        let w: VerifiablePresentation = serde_json::from_str(&text)?;
        Ok(json!({"value": v, "again": w}))
    }
}
fn sign(c: &Value) -> Result<Value> {
    let wire = json_of(c)?;
    let jwt = make(c)?;
    let (header, claims, by) = world::opened(&jwt, &DIDS).ok_or(anyhow!("not a JWT"))?;
    let back = result(check(s(&c["kind"]), &json!(jwt)));
    Ok(json!({"wire": wire, "header": header, "claims": claims, "by": by, "back": back}))
}
fn spoilt(c: &Value) -> Result<Value> {
    let jwt = make(c)?;
    let parts: Vec<&str> = jwt.split('.').collect();
    let (header, mut claims, _) = world::opened(&jwt, &DIDS).ok_or(anyhow!("not a JWT"))?;
    let did = format!("did:ex:{}", s(&c["by"]));
    let v = match s(&c["flaw"]) {
        "none" => json!(jwt),
        "signature" => json!(world::token(&header, &claims, "did:ex:mallory")),
        "claims" => {
            claims["jti"] = json!("something else");
            json!(format!("{}.{}.{}", parts[0], world::b64(claims.to_string().as_bytes()), parts[2]))
        }
        "header" => {
            let mut h = header.clone();
            h["kid"] = json!(world::kid_of("did:ex:i2"));
            json!(format!("{}.{}.{}", world::b64(h.to_string().as_bytes()), parts[1], parts[2]))
        }
        "ghost" => {
            let mut h = header.clone();
            h["kid"] = json!(world::kid_of("did:ex:ghost"));
            json!(world::token(&h, &claims, "did:ex:ghost"))
        }
        "object" => c["doc"].clone(),
        "empty" => json!(""),
        "twoparts" => json!(format!("{}.{}", parts[0], parts[1])),
        "unsigned" => json!(format!("{}.{}.", parts[0], parts[1])),
        "fourparts" => json!(format!("{jwt}.{}", parts[2])),
        "garbage" => json!("x.y.z"),
        o => panic!("{o} {did}"),
    };
    Ok(json!({"ok": check(s(&c["as"]), &v).is_ok()}))
}
fn lang(c: &Value) -> Result<Value> {
    let value = |v: &Value| -> Result<LangValue> { from(v) };
    let mut l = if let Some(t) = c["start"].as_str() { LangString::new_string(t) } else { LangString::new_object(value(&c["start"])?) };
    for a in c["adds"].as_array().unwrap() { l.add(value(a)?); }
    let again: LangString = serde_json::from_str(&serde_json::to_string(&l)?)?;
    let said = |l: &LangString| ["en", "fr", "de"].map(|t| l.value(t).ok());
    Ok(json!({"json": l, "len": l.len(), "empty": l.is_empty(), "in": said(&l), "again": again, "same": again == l, "again_in": said(&again)}))
}
fn vc_build(c: &Value) -> Result<Value> {
    let mut b = VerifiableCredential::builder();
    for x in c["ctx"].as_array().unwrap() { b = b.add_context(from(x)?); }
    for x in c["types"].as_array().unwrap() { b = b.add_type(s(x)); }
    if let Some(i) = c["issuer"].as_str() { b = b.issuer(i); }
    for x in c["subjects"].as_array().unwrap() { b = b.add_subject(from(x)?); }
    if let Some(i) = c["id"].as_str() { b = b.id(i); }
    for x in c["proofs"].as_array().unwrap() { b = b.add_proof(from(x)?); }
    if c["status"].is_object() { b = b.status(Some(from(&c["status"])?)).add_name(Some(from(&c["name"])?)).add_description(Some(from(&c["description"])?)); }
    Ok(json!({"built": b.build()?}))
}
fn vp_build(c: &Value) -> Result<Value> {
    let mut b = VerifiablePresentation::builder();
    for x in c["ctx"].as_array().unwrap() { b = b.add_context(from(x)?); }
    for x in c["types"].as_array().unwrap() { b = b.add_type(s(x)); }
    for x in c["creds"].as_array().unwrap() { b = b.add_credential(from(x)?); }
    if let Some(h) = c["holder"].as_str() { b = b.holder(h); }
    Ok(json!({"built": b.build()?}))
}
fn text(c: &Value) -> Result<Value> { Ok(json!({"vp": s(&c["text"]).parse::<VerifiablePresentation>()?})) }

// ---------------------------------------------------------------- status lists
/// the bits of a published list, whichever way they are spelt
fn bits(list: &str) -> Result<Vec<bool>> {
    let gz = world::unb64(list).or_else(|| world::unb64(list.strip_prefix('u').unwrap_or(list))).ok_or(anyhow!("not base64url"))?;
    let mut out = vec![];
    flate2::read::GzDecoder::new(gz.as_slice()).read_to_end(&mut out)?;
    if out.iter().all(|b| *b == b'0' || *b == b'1') {
        Ok(out.iter().map(|b| *b == b'1').collect())
    } else {
        Ok(out.iter().flat_map(|b| (0..8).map(move |i| b >> (7 - i) & 1 == 1)).collect())
    }
}
fn list(c: &Value) -> Result<Value> {
    let text = vercre_status::bitstring::bitstring(&from(&c["config"])?, &from::<Vec<_>>(&c["log"])?)?;
    let b = bits(&text)?;
    // far fewer are ever set: more than these are not told apart
    let set: Vec<usize> = b.iter().enumerate().filter(|(_, x)| **x).map(|(i, _)| i).take(300).collect();
    let cred = &c["credential"];
    let published = if cred.is_object() {
        let jwt = run(vercre_status::bitstring::credential(s(&cred["issuer"]), &from(&c["config"])?, s(&cred["base"]), &text, cred["ttl"].as_u64(), Key("did:ex:i1".into())))?;
        let (header, claims, by) = world::opened(&jwt, &DIDS).ok_or(anyhow!("not a JWT"))?;
        let back = result(check("vc", &json!(jwt)));
        json!({"typ": header["typ"], "claims": claims, "by": by, "back": back, "list": text})
    } else {
        Value::Null
    };
    Ok(json!({"len": b.len(), "set": set, "published": published}))
}
fn mdl(c: &Value) -> Result<Value> {
    let script: Vec<i32> = from(&c["script"])?;
    rand::set_i32_script(&script);
    let r = run(vercre_iso_mdl::to_credential(from(&c["dataset"])?, Key("did:ex:i1".into())));
    rand::set_i32_script(&[]);
    Ok(mdoc::opened(&r?).map_or_else(|e| json!({"undecodable": e}), |m| json!({"mdoc": m})))
}

fn main() {
    io::serve(|c| {
        world::set_now(1000);
        let f: fn(&Value) -> Result<Value> = match s(&c["op"]) {
            "sign" => sign,
            "spoilt" => spoilt,
            "lang" => lang,
            "vcbuild" => vc_build,
            "vpbuild" => vp_build,
            "text" => text,
            "list" => list,
            "mdoc" => mdl,
            o => panic!("op {o}"),
        };
        match io::caught(|| f(&c)) {
            Ok(r) => result(r),
            Err(m) => json!({"panic": m}),
        }
    });
}
