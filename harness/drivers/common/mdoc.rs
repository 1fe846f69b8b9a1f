// Takes an encoded mdoc apart without using the library's own types.
use ciborium::Value as Cbor;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};

fn field<'a>(m: &'a Cbor, name: &str) -> Result<&'a Cbor, String> {
    let Cbor::Map(m) = m else { return Err(format!("no map around {name}")) };
    m.iter().find(|(k, _)| k.as_text() == Some(name)).map(|(_, v)| v).ok_or(format!("no {name}"))
}
pub fn plain(v: &Cbor) -> Value {
    match v {
        Cbor::Integer(i) => json!(i128::from(*i) as i64),
        Cbor::Float(f) => json!(f),
        Cbor::Text(t) => json!(t),
        Cbor::Bool(b) => json!(b),
        Cbor::Null => Value::Null,
        Cbor::Array(a) => a.iter().map(plain).collect(),
        Cbor::Map(m) => Value::Object(m.iter().map(|(k, v)| (k.as_text().map_or_else(|| format!("{k:?}"), str::to_string), plain(v))).collect()),
        Cbor::Bytes(b) => json!(format!("bytes:{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>())),
        o => json!(format!("{o:?}")),
    }
}
fn inner(v: &Cbor) -> Result<(Vec<u8>, Cbor), String> {
    let Cbor::Tag(24, b) = v else { return Err("not tag 24".into()) };
    let Cbor::Bytes(b) = b.as_ref() else { return Err("tag 24 without bytes".into()) };
    Ok((b.clone(), ciborium::from_reader(b.as_slice()).map_err(|e| e.to_string())?))
}
/// {items: {ns: [{id, name, value, salt, digest}]}, digests: {ns: {id: hex}}, mso: .., kid, alg, signed: bytes of the payload, signature}
pub fn opened(text: &str) -> Result<Value, String> {
    let bytes = crate::world::unb64(text).ok_or("not base64url")?;
    let doc: Cbor = ciborium::from_reader(bytes.as_slice()).map_err(|e| e.to_string())?;
    let mut items = serde_json::Map::new();
    if let Cbor::Map(spaces) = field(&doc, "nameSpaces")? {
        for (ns, list) in spaces {
            let mut out = vec![];
            for it in list.as_array().ok_or("items are not a list")? {
                let (_, item) = inner(it)?;
                let mut whole = vec![];
                ciborium::into_writer(it, &mut whole).map_err(|e| e.to_string())?;
                out.push(json!({
                    "id": plain(field(&item, "digestID")?), "name": plain(field(&item, "elementIdentifier")?), "value": plain(field(&item, "elementValue")?),
                    "salt": match field(&item, "random")? { Cbor::Bytes(b) => b.len(), Cbor::Array(a) => a.len(), _ => 0 },
                    "random": plain(field(&item, "random")?),
                    "digest": Sha256::digest(&whole).iter().map(|x| format!("{x:02x}")).collect::<String>(),
                }));
            }
            items.insert(ns.as_text().unwrap_or("?").to_string(), Value::Array(out));
        }
    }
    let auth = field(&doc, "issuerAuth")?.as_array().ok_or("issuerAuth is not a list")?;
    let [protected, unprotected, payload, signature] = auth.as_slice() else { return Err("not a COSE_Sign1".into()) };
    let payload = payload.as_bytes().ok_or("no payload")?;
    let (_, mso) = inner(&ciborium::from_reader(payload.as_slice()).map_err(|e| e.to_string())?)?;
    let mut digests = serde_json::Map::new();
    if let Cbor::Map(spaces) = field(&mso, "valueDigests")? {
        for (ns, m) in spaces {
            let mut out = serde_json::Map::new();
            if let Cbor::Map(m) = m {
                for (k, v) in m {
                    let hex = match v {
                        Cbor::Bytes(b) => b.iter().map(|x| format!("{x:02x}")).collect(),
                        Cbor::Array(a) => a.iter().map(|x| format!("{:02x}", x.as_integer().map_or(0, |i| i128::from(i) as u8))).collect::<String>(),
                        _ => "?".into(),
                    };
                    out.insert(plain(k).to_string(), json!(hex));
                }
            }
            digests.insert(ns.as_text().unwrap_or("?").to_string(), Value::Object(out));
        }
    }
    let signature = signature.as_bytes().ok_or("no signature")?;
    let by = ["did:ex:i1", "did:ex:i2"].iter().find(|d| &vercre_infosec::symbolic_sign(&crate::world::secret_of(d), payload) == signature);
    Ok(json!({"items": items, "digests": digests, "by": by, "protected": plain(protected), "unprotected": plain(unprotected),
              "doctype": plain(field(&mso, "docType")?), "algorithm": plain(field(&mso, "digestAlgorithm")?), "validity": plain(field(&mso, "validityInfo")?), "version": plain(field(&mso, "version")?)}))
}
