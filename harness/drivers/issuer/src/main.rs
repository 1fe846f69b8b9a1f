//! Replays histories of calls from spec/Issuer.tla against vercre-issuer's endpoints.
#[path = "../../common/io.rs"]
mod io;
#[path = "../../common/world.rs"]
mod world;
#[path = "../../common/mdoc.rs"]
mod mdoc;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

use anyhow::{anyhow, Result};
use chrono::{DateTime, Utc};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha256};
use vercre_core::{urlencode, Kind, Quota};
use vercre_did::{DidResolver, Document};
use vercre_infosec::{Decryptor, Encryptor, SecOps, Signer};
use vercre_openid::issuer::*;
use vercre_openid::Error;
use vercre_status::issuer::Status;
use vercre_w3c_vc::model::CredentialStatus;
use world::{run, Key, Shared};

// ---------------------------------------------------------------- the world
#[derive(Clone, Debug, Default)]
struct World {
    store: Shared,
    inner: Arc<Mutex<Inner>>,
}
#[derive(Clone, Debug, Default)]
struct Inner {
    cfg: BTreeMap<String, bool>,
    pend: BTreeSet<(String, String)>,
    registered: Vec<Client>,
}
fn flag(w: &World, name: &str) -> bool { w.inner.lock().unwrap().cfg[name] }
fn s(v: &Value) -> String { v.as_str().unwrap_or_default().to_string() }
fn opt(v: &Value) -> Option<String> { (v != "none").then(|| s(v)) }
fn url(name: &str) -> String { format!("http://{name}.example") }
fn redirect(name: &str) -> String { format!("https://{name}.example/cb?x=1") }
fn verifier(name: &str) -> String { format!("{name}-{}", "abcdefghijklmnopqrstuvwxyz0123456789-._~".repeat(2)) }
fn challenge(name: &str) -> String { world::b64(&Sha256::digest(verifier(name).as_bytes())) }
fn did(name: &str) -> String { format!("did:ex:{name}") }

fn claim(mandatory: Option<bool>) -> Claim {
    Claim::Entry(ClaimDefinition { mandatory, value_type: None, display: None })
}
fn claims_of(cfg: &str) -> HashMap<String, Claim> {
    if cfg == "M" {
        return HashMap::from([
            ("ns1".to_string(), Claim::Set(HashMap::from([("given_name".to_string(), claim(None)), ("family_name".to_string(), claim(None))]))),
            ("ns2".to_string(), Claim::Set(HashMap::from([("city".to_string(), claim(None))]))),
        ]);
    }
    HashMap::from([
        ("given_name".to_string(), claim(Some(true))),
        ("family_name".to_string(), claim(None)),
        ("email".to_string(), claim(None)),
        ("address".to_string(), Claim::Set(HashMap::from([("city".to_string(), claim(None)), ("street".to_string(), claim(Some(false)))]))),
    ])
}
/// claims asked for: some of the supported ones, one that is not supported, or without the mandatory one
fn asked(which: &str) -> Option<HashMap<String, Claim>> {
    let given = ("given_name".to_string(), claim(None));
    let email = ("email".to_string(), claim(None));
    let address = |k: &str| ("address".to_string(), Claim::Set(HashMap::from([(k.to_string(), claim(None))])));
    match which {
        "none" => None,
        "ok" => Some(HashMap::from([given, email, address("city")])),
        "bad" => Some(HashMap::from([given, ("nickname".to_string(), claim(None))])),
        "short" => Some(HashMap::from([email, address("city")])),
        "deep" => Some(HashMap::from([given, address("planet")])),
        o => panic!("claims {o}"),
    }
}
fn types(cfg: &str) -> Vec<String> {
    match cfg {
        "S" => vec!["VerifiableCredential".into(), "CredA".into(), "Extra".into()],
        "L" => vec!["VerifiableCredential".into(), "CredA".into()],
        o => vec!["VerifiableCredential".into(), format!("Cred{o}")],
    }
}
fn format(cfg: &str, claims: Option<HashMap<String, Claim>>) -> Format {
    let w3c = |claims| ProfileW3c {
        credential_definition: CredentialDefinition { context: None, type_: Some(types(cfg)), credential_subject: claims },
    };
    match cfg {
        "M" => Format::IsoMdl(ProfileIsoMdl { doctype: "org.example.doc".into(), claims }),
        "N" => Format::IsoMdl(ProfileIsoMdl { doctype: "CredA".into(), claims }),
        "L" => Format::LdpVc(w3c(claims)),
        _ => Format::JwtVcJson(w3c(claims)),
    }
}
fn cfg_of(f: &Format) -> String {
    match f {
        Format::JwtVcJson(w) => w.credential_definition.type_.as_ref().and_then(|t| t.get(1)).map_or("?".into(), |t| t.replace("Cred", "")),
        Format::IsoMdl(_) => "M".into(),
        _ => "?".into(),
    }
}
fn issuer(name: &str) -> Option<Issuer> {
    let cfgs: &[(&str, Option<&str>)] = match name {
        "i1" => &[("A", Some("sA")), ("B", Some("sB")), ("C", Some("sB")), ("M", None)],
        "i2" => &[("Z", None)],
        _ => return None,
    };
    let mut supported = HashMap::new();
    for (c, scope) in cfgs {
        supported.insert((*c).to_string(), CredentialConfiguration {
            format: format(c, Some(claims_of(c))),
            scope: scope.map(str::to_string),
            proof_types_supported: (*c != "B").then(|| HashMap::from([("jwt".to_string(), ProofTypesSupported { proof_signing_alg_values_supported: vec!["EdDSA".into()] })])),
            display: (*c == "A").then(|| vec![
                CredentialDisplay { name: "Name of A".into(), locale: Some("en-NZ".into()), description: Some("About A".into()), ..CredentialDisplay::default() },
                CredentialDisplay { name: "Nom de A".into(), locale: Some("fr".into()), ..CredentialDisplay::default() },
            ]),
            ..CredentialConfiguration::default()
        });
    }
    Some(Issuer {
        credential_issuer: url(name),
        authorization_servers: (name == "i1").then(|| vec![url("as1"), url("as2")]),
        credential_endpoint: format!("{}/credential", url(name)),
        deferred_credential_endpoint: Some(format!("{}/deferred", url(name))),
        notification_endpoint: None,
        credential_response_encryption: None,
        batch_credential_issuance: Some(BatchCredentialIssuance { batch_size: 3 }),
        signed_metadata: None,
        display: Some(Display { name: format!("Issuer {name}"), locale: Some("en".into()) }),
        credential_configurations_supported: supported,
    })
}
fn name_of(u: &str) -> String { u.trim_start_matches("http://").trim_end_matches(".example").to_string() }
fn server(w: &World, name: &str, as_: Option<&str>) -> Option<Server> {
    issuer(name)?;
    let who = match as_.map(name_of) {
        None => name.to_string(),
        Some(a) if a == "as1" => a,
        Some(_) => return None,
    };
    let mut grants = vec![];
    if flag(w, "pre") { grants.push(GrantType::PreAuthorizedCode); }
    if flag(w, "code") { grants.push(GrantType::AuthorizationCode); }
    Some(Server {
        oauth: OAuthServer {
            issuer: url(&who),
            authorization_endpoint: format!("{}/authorize", url(name)),
            token_endpoint: format!("{}/token", url(name)),
            scopes_supported: flag(w, "scopes").then(|| vec!["openid".into(), "sA".into(), "sB".into()]),
            response_types_supported: if flag(w, "resp") { vec![ResponseType::Code] } else { vec![ResponseType::VpToken] },
            grant_types_supported: Some(grants),
            code_challenge_methods_supported: flag(w, "methods").then(|| vec![CodeChallengeMethod::S256]),
            require_pushed_authorization_requests: Some(flag(w, "par")),
            ..OAuthServer::default()
        },
        pre_authorized_grant_anonymous_access_supported: flag(w, "anon"),
    })
}
fn client(id: &str) -> Option<Client> {
    if !["c1", "c2", "cg", "cr", "cs", "cn", "cu"].contains(&id) { return None; }
    Some(Client {
        oauth: OAuthClient {
            client_id: id.into(),
            redirect_uris: match id { "c1" => Some(vec![redirect("r1"), redirect("r1b")]), "cu" => None, _ => Some(vec![redirect("r2")]) },
            grant_types: Some(if id == "cg" { vec![GrantType::PreAuthorizedCode] } else { vec![GrantType::PreAuthorizedCode, GrantType::AuthorizationCode] }),
            response_types: if id == "cr" { None } else { Some(vec![ResponseType::Code]) },
            scope: match id { "cn" => None, "cs" => Some("sA sQ".into()), _ => Some("sA sB".into()) },
            ..OAuthClient::default()
        },
        credential_offer_endpoint: None,
    })
}
fn ids(subject: &str, cfg: &str) -> &'static [&'static str] {
    match (subject, cfg) {
        ("alice", "A") => &["a1", "a2"], ("alice", "B") => &["b1"], ("alice", "C") => &["c1"], ("alice", "M") => &["m1"],
        ("bob", "A") => &["a1"], ("bob", "B") => &["b2"],
        _ => &[],
    }
}
fn dataset(subject: &str, id: &str) -> Map<String, Value> {
    let v = if id == "m1" {
        json!({"ns1": {"given_name": format!("{subject} {id}"), "family_name": "Family", "age": 42}, "ns2": {"city": "Rotorua", "flags": {"ok": true}}})
    } else {
        json!({"given_name": format!("{subject} {id}"), "family_name": "Family", "email": format!("{subject}.{id}@example.com"),
               "address": {"city": "Rotorua", "street": format!("{id} street")}})
    };
    v.as_object().unwrap().clone()
}
impl Provider for World {}
impl Metadata for World {
    async fn client(&self, id: &str) -> Result<Client> { client(id).ok_or_else(|| anyhow!("unknown client")) }
    async fn issuer(&self, id: &str) -> Result<Issuer> { issuer(&name_of(id)).ok_or_else(|| anyhow!("unknown issuer")) }
    async fn server(&self, id: &str, as_: Option<&str>) -> Result<Server> { server(self, &name_of(id), as_).ok_or_else(|| anyhow!("unknown server")) }
    async fn register(&self, client: &Client) -> Result<Client> {
        let mut inner = self.inner.lock().unwrap();
        inner.registered.push(client.clone());
        let mut c = client.clone();
        c.oauth.client_id = format!("reg-{}", inner.registered.len());
        c.oauth.client_id_issued_at = Some(world::EPOCH);
        Ok(c)
    }
}
impl Subject for World {
    async fn authorize(&self, subject: &str, cfg: &str) -> Result<Vec<String>> {
        let found = ids(subject, cfg);
        if found.is_empty() { return Err(anyhow!("not entitled")); }
        Ok(found.iter().map(|i| (*i).to_string()).collect())
    }
    async fn dataset(&self, subject: &str, id: &str) -> Result<Dataset> {
        if !["A", "B", "C", "M"].iter().any(|c| ids(subject, c).contains(&id)) { return Err(anyhow!("no such dataset")); }
        let pending = self.inner.lock().unwrap().pend.contains(&(subject.to_string(), id.to_string()));
        Ok(Dataset { claims: dataset(subject, id), pending })
    }
}
impl StateStore for World {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> Result<()> { self.store.put(key, state, expiry) }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> { self.store.get(key) }
    async fn purge(&self, key: &str) -> Result<()> { self.store.purge(key) }
}
impl DidResolver for World {
    async fn resolve(&self, url: &str) -> Result<Document> {
        let did = url.split('#').next().unwrap_or_default();
        if ["did:ex:h1", "did:ex:h2", "did:ex:i1", "did:ex:i2"].contains(&did) { Ok(world::document(did)) } else { Err(anyhow!("no such DID")) }
    }
}
impl SecOps for World {
    fn signer(&self, id: &str) -> Result<impl Signer> {
        let name = name_of(id);
        if issuer(&name).is_none() { return Err(anyhow!("no keys")); }
        Ok(Key(did(&name)))
    }
    fn encryptor(&self, id: &str) -> Result<impl Encryptor> { Ok(Key(did(&name_of(id)))) }
    fn decryptor(&self, id: &str) -> Result<impl Decryptor> { Ok(Key(did(&name_of(id)))) }
}
fn status_of(subject: &str, id: &str) -> Option<Value> {
    // only some credentials have a status
    (id == "a1" || id == "b2").then(|| json!({"id": format!("http://i1.example/status#{subject}-{id}"), "type": "BitstringStatusListEntry", "statusPurpose": "revocation",
        "statusListIndex": subject.len() * 100 + id.as_bytes()[0] as usize, "statusListCredential": "http://i1.example/status"}))
}
impl Status for World {
    async fn status(&self, subject: &str, id: &str) -> Result<Option<Quota<CredentialStatus>>> {
        Ok(status_of(subject, id).map(|v| Quota::One(serde_json::from_value(v).expect("status"))))
    }
}

// ---------------------------------------------------------------- one session
struct Session { w: World, names: BTreeMap<String, String> }
fn tag(kind: &str, n: &Value) -> String { format!("{kind}:{n}") }
impl Session {
    fn name(&self, kind: &str, n: &Value) -> String { self.names.get(&tag(kind, n)).cloned().unwrap_or_else(|| format!("unknown-{kind}-{n}")) }
    fn key(&self, k: &Value) -> String { self.name(k[0].as_str().unwrap(), &k[1]) }
    fn bind(&mut self, kind: &str, n: &Value, v: &str) { self.names.insert(tag(kind, n), v.to_string()); }

    fn detail(d: &Value) -> AuthorizationDetail {
        let cfg = s(&d["cfg"]);
        let claims = asked(d["claims"].as_str().unwrap());
        let credential = if d["by"] == "id" {
            CredentialAuthorization::ConfigurationId {
                credential_configuration_id: cfg,
                claims: claims.map(|c| ProfileClaims::W3c(CredentialDefinition { context: None, type_: None, credential_subject: Some(c) })),
            }
        } else {
            CredentialAuthorization::Format(format(&cfg, claims))
        };
        AuthorizationDetail { type_: AuthorizationDetailType::OpenIdCredential, credential, locations: None }
    }
    fn details(v: &Value) -> Option<Vec<AuthorizationDetail>> {
        let l: Vec<_> = v.as_array().unwrap().iter().map(Self::detail).collect();
        (!l.is_empty()).then_some(l)
    }
    fn request(&self, r: &Value) -> RequestObject {
        RequestObject {
            credential_issuer: url(&s(&r["issuer"])),
            response_type: ResponseType::Code,
            client_id: s(&r["client"]),
            redirect_uri: opt(&r["redirect"]).map(|x| redirect(&x)),
            state: opt(&r["state"]),
            code_challenge: match r["ch"].as_str().unwrap() {
                "short" => challenge("v1")[..42].to_string(),
                "long" => "c".repeat(129),
                v => challenge(v),
            },
            code_challenge_method: CodeChallengeMethod::S256,
            authorization_details: Self::details(&r["details"]),
            scope: opt(&r["scope"]),
            subject_id: opt(&r["subject"]).unwrap_or_default(),
            issuer_state: r["istate"].as_array().filter(|k| !k.is_empty()).map(|k| if k[0] == "code" { self.name("istate", &k[1]) } else { self.key(&r["istate"]) }),
            ..RequestObject::default()
        }
    }
    fn offer(o: &CredentialOffer) -> Value {
        let mut v = json!({"issuer": name_of(&o.credential_issuer), "ids": o.credential_configuration_ids, "pre": null, "code": null, "empty": false});
        if let Some(g) = &o.grants {
            v["empty"] = json!(g.pre_authorized_code.is_none() && g.authorization_code.is_none());
            if let Some(p) = &g.pre_authorized_code { v["pre"] = json!({"code": p.pre_authorized_code, "pin": p.tx_code.is_some()}); }
            if let Some(c) = &g.authorization_code { v["code"] = json!({"istate": c.issuer_state}); }
        }
        // as a URL, and as a QR code of one
        let back = |text: &str| urlencode::from_str::<CredentialOffer>(text).ok().as_ref() == Some(o);
        let qs = o.to_querystring().unwrap_or_default();
        let qr = o.to_qrcode("openid-vc://x?q=").unwrap_or_default();
        let drawn = {
            use base64ct::{Base64, Encoding};
            qr.strip_prefix("data:image/png;base64,").and_then(|b| Base64::decode_vec(b).ok()).and_then(|b| String::from_utf8(b).ok()).unwrap_or_default()
        };
        v["url"] = json!(back(&qs));
        v["qr"] = json!(drawn.strip_prefix("openid-vc://x?q=").is_some_and(back));
        v
    }
    fn fail(&mut self, e: Error, n: &Value) -> Value {
        if let Error::InvalidProof { c_nonce, c_nonce_expires_in, .. } = &e {
            self.bind("nonce", n, c_nonce);
            return json!({"err": "invalid_proof", "nonce": c_nonce, "nlife": c_nonce_expires_in});
        }
        let pending = matches!(e, Error::IssuancePending(_));
        json!({"err": if pending { "issuance_pending" } else { "refused" }, "why": e.to_string()})
    }
    fn proof(&self, a: &Value, p: &Value) -> String {
        let by = did(&s(&p["by"]));
        let flaw = p["flaw"].as_str().unwrap();
        let mut claims = json!({"iss": "c1", "aud": url(&s(&a["issuer"])), "iat": world::EPOCH + world::now(), "nonce": self.name("nonce", &p["nonce"])});
        let mut header = json!({"typ": "openid4vci-proof+jwt", "alg": "EdDSA", "kid": world::kid_of(&by)});
        let mut key = by.clone();
        match flaw {
            "none" | "sig" => {}
            "typ" => header["typ"] = json!("vc+jwt"),
            "kid" => header["kid"] = json!(format!("{by}#key-9")),
            "jwk" => { header.as_object_mut().unwrap().remove("kid"); header["jwk"] = serde_json::to_value(world::jwk_of(&by)).unwrap(); }
            "nononce" => { claims.as_object_mut().unwrap().remove("nonce"); }
            "garbage" => return "not.a-jwt".into(),
            "alien" => { header["kid"] = json!("did:ex:nobody#key-0"); key = "did:ex:nobody".into(); }
            "otherkey" => key = did(if p["by"] == "h1" { "h2" } else { "h1" }),
            o => panic!("flaw {o}"),
        }
        let mut jwt = world::token(&header, &claims, &key);
        if flaw == "sig" {
            // the same token with another claim in it
            let parts: Vec<&str> = jwt.split('.').collect();
            claims["iss"] = json!("c2");
            jwt = format!("{}.{}.{}", parts[0], world::b64(claims.to_string().as_bytes()), parts[2]);
        }
        jwt
    }
    fn issued(&mut self, r: &CredentialResponse, n: &Value) -> Value {
        let mut v = json!({"nonce": r.c_nonce, "nlife": r.c_nonce_expires_in, "note": r.notification_id});
        if let Some(x) = &r.c_nonce { self.bind("nonce", n, x); }
        if let Some(x) = &r.notification_id { self.bind("note", n, x); }
        match &r.response {
            CredentialResponseType::TransactionId(t) => { self.bind("txn", n, t); v["txn"] = json!(t); }
            CredentialResponseType::Credential(Kind::String(c)) => v["vc"] = self.opened(c),
            CredentialResponseType::Credentials(many) => {
                v["many"] = json!(many.len());
                v["vc"] = match many.first() { Some(Kind::String(c)) => self.opened(c), _ => json!("object") };
            }
            CredentialResponseType::Credential(_) => v["vc"] = json!("object"),
        }
        v
    }
    fn opened(&self, c: &str) -> Value {
        if c.contains('.') {
            return world::opened(c, &["did:ex:i1", "did:ex:i2", "did:ex:h1", "did:ex:h2"])
                .map_or(json!("unreadable"), |(h, c, by)| json!({"header": h, "claims": c, "by": by, "at": world::EPOCH + world::now()}));
        }
        mdoc::opened(c).map_or_else(|e| json!(e), |m| json!({"mdoc": m}))
    }

    fn call(&mut self, a: &Value, n: &Value) -> Value {
        let w = self.w.clone();
        match a["op"].as_str().unwrap() {
            "tick" => { world::set_now(world::now() + a["d"].as_i64().unwrap()); json!({}) }
            "server" => { w.inner.lock().unwrap().cfg = serde_json::from_value(a["cfg"].clone()).unwrap(); json!({}) }
            "ready" => { w.inner.lock().unwrap().pend.remove(&(s(&a["subject"]), s(&a["id"]))); json!({}) }
            "create_offer" => {
                let grants: Vec<String> = a["grants"].as_array().unwrap().iter().map(s).collect();
                let request = CreateOfferRequest {
                    credential_issuer: url(&s(&a["issuer"])),
                    subject_id: opt(&a["subject"]),
                    credential_configuration_ids: a["ids"].as_array().unwrap().iter().map(s).collect(),
                    grant_types: (grants != ["absent"]).then(|| grants.iter().map(|g| if g == "pre" { GrantType::PreAuthorizedCode } else { GrantType::AuthorizationCode }).collect()),
                    tx_code_required: a["tx"] == true,
                    send_type: if a["send"] == "ref" { SendType::ByRef } else { SendType::ByVal },
                };
                match run(vercre_issuer::create_offer(w.clone(), request)) {
                    Err(e) => self.fail(e, n),
                    Ok(r) => {
                        let mut v = json!({"pin": r.tx_code});
                        if let Some(p) = &r.tx_code { self.bind("pin", n, p); }
                        let offer = match &r.offer_type {
                            OfferType::Object(o) => Some(o.clone()),
                            OfferType::Uri(u) => {
                                let id = u.rsplit('/').next().unwrap_or_default().to_string();
                                v["uri"] = json!(u.strip_suffix(&id));
                                self.bind("ref", n, &id);
                                // what would be found there
                                let saved = w.store.save();
                                let got = run(vercre_issuer::credential_offer(w.clone(), CredentialOfferRequest { credential_issuer: url(&s(&a["issuer"])), id }));
                                w.store.restore(saved);
                                got.ok().map(|g| g.credential_offer)
                            }
                        };
                        if let Some(g) = offer.as_ref().and_then(|o| o.grants.as_ref()) {
                            if let Some(c) = &g.authorization_code { self.bind("istate", n, c.issuer_state.as_deref().unwrap_or_default()); self.bind("code", n, c.issuer_state.as_deref().unwrap_or_default()); }
                            if let Some(p) = &g.pre_authorized_code { self.bind("code", n, &p.pre_authorized_code); if g.authorization_code.is_none() { self.bind("istate", n, &p.pre_authorized_code); } }
                        }
                        v["offer"] = offer.map_or(Value::Null, |o| Self::offer(&o));
                        v
                    }
                }
            }
            "credential_offer" => {
                let request = CredentialOfferRequest { credential_issuer: url(&s(&a["issuer"])), id: self.name("ref", &a["ref"]) };
                match run(vercre_issuer::credential_offer(w, request)) { Err(e) => self.fail(e, n), Ok(r) => json!({"offer": Self::offer(&r.credential_offer)}) }
            }
            "authorize" => {
                let request = if a["via"] == "par" { AuthorizationRequest::Uri(RequestUri { request_uri: self.name("par", &a["par"]) }) } else { AuthorizationRequest::Object(self.request(&a["req"])) };
                match run(vercre_issuer::authorize(w, request)) {
                    Err(e) => self.fail(e, n),
                    Ok(r) => { self.bind("acode", n, &r.code); json!({"code": r.code, "state": r.state, "redirect": r.redirect_uri}) }
                }
            }
            "par" => match run(vercre_issuer::par(w, PushedAuthorizationRequest { request: self.request(&a["req"]), client_assertion: None })) {
                Err(e) => self.fail(e, n),
                Ok(r) => { self.bind("par", n, &r.request_uri); json!({"life": r.expires_in}) }
            },
            "token" => {
                let code = self.key(&a["key"]);
                let grant_type = if a["grant"] == "pre" {
                    let right = self.names.get(&tag("pin", &a["key"][1])).cloned().unwrap_or_else(|| "123456".into());
                    let wrong: String = right.chars().enumerate().map(|(i, c)| if i + 1 == right.len() { if c == '1' { '2' } else { '1' } } else { c }).collect();
                    TokenGrantType::PreAuthorizedCode { pre_authorized_code: code, tx_code: match a["pin"].as_str().unwrap() { "none" => None, "right" => Some(right), "wrong" => Some(wrong), "empty" => Some(String::new()), o => panic!("pin {o}") } }
                } else {
                    TokenGrantType::AuthorizationCode { code, redirect_uri: opt(&a["redirect"]).map(|r| redirect(&r)), code_verifier: match a["ver"].as_str().unwrap() { "none" => None, "challenge" => Some(challenge("v1")), "empty" => Some(String::new()), v => Some(verifier(v)) } }
                };
                let request = TokenRequest {
                    credential_issuer: url(&s(&a["issuer"])),
                    client_id: match a["client"].as_str().unwrap() { "none" => None, "empty" => Some(String::new()), c => Some(c.to_string()) },
                    grant_type,
                    authorization_details: Self::details(&a["narrow"]),
                    client_assertion: None,
                };
                match run(vercre_issuer::token(w, request)) {
                    Err(e) => self.fail(e, n),
                    Ok(r) => {
                        self.bind("tok", n, &r.access_token);
                        if let Some(x) = &r.c_nonce { self.bind("nonce", n, x); }
                        let details: Vec<Value> = r.authorization_details.unwrap_or_default().iter().map(|d| {
                            let cfg = match &d.authorization_detail.credential { CredentialAuthorization::ConfigurationId { credential_configuration_id, .. } => credential_configuration_id.clone(), CredentialAuthorization::Format(f) => cfg_of(f) };
                            json!({"cfg": cfg, "ids": d.credential_identifiers})
                        }).collect();
                        json!({"token": r.access_token, "nonce": r.c_nonce, "life": r.expires_in, "nlife": r.c_nonce_expires_in, "details": details})
                    }
                }
            }
            "credential" => {
                let proofs: Vec<String> = a["proofs"].as_array().unwrap().iter().map(|p| self.proof(a, p)).collect();
                let what = s(&a["what"]);
                let request = CredentialRequest {
                    credential_issuer: url(&s(&a["issuer"])),
                    access_token: self.key(&a["tok"]),
                    credential: if a["by"] == "id" {
                        CredentialIssuance::Identifier { credential_identifier: if what == "empty" { String::new() } else { what } }
                    } else {
                        let some = || if what == "M" { HashMap::from([("ns1".to_string(), claim(None))]) } else { HashMap::from([("given_name".to_string(), claim(None)), ("address".to_string(), claim(None))]) };
                        CredentialIssuance::Format(format(&what, (a["claims"] == "some").then(some)))
                    },
                    proof: match a["form"].as_str().unwrap() {
                        "none" => None,
                        "one" => Some(Proof::Single { proof_type: SingleProof::Jwt { jwt: proofs[0].clone() } }),
                        _ => Some(Proof::Multiple(MultipleProofs::Jwt(proofs))),
                    },
                    credential_response_encryption: None,
                };
                match run(vercre_issuer::credential(w, request)) { Err(e) => self.fail(e, n), Ok(r) => self.issued(&r, n) }
            }
            "deferred" => {
                let request = DeferredCredentialRequest { credential_issuer: url(&s(&a["issuer"])), access_token: self.key(&a["tok"]), transaction_id: self.name("txn", &a["txn"]) };
                match run(vercre_issuer::deferred(w, request)) { Err(e) => self.fail(e, n), Ok(r) => self.issued(&r.credential_response, n) }
            }
            "notification" => {
                let request = NotificationRequest { credential_issuer: url("i1"), access_token: "any".into(), notification_id: self.key(&a["key"]), event: NotificationEvent::CredentialAccepted, event_description: None };
                match run(vercre_issuer::notification(w, request)) { Err(e) => self.fail(e, n), Ok(_) => json!({}) }
            }
            "metadata" => match run(vercre_issuer::metadata(w, MetadataRequest { credential_issuer: url(&s(&a["issuer"])), languages: None })) {
                Err(e) => self.fail(e, n),
                Ok(r) => json!({"issuer": if issuer(&s(&a["issuer"])).as_ref() == Some(&r.credential_issuer) { s(&a["issuer"]) } else { "changed".into() }}),
            },
            "oauth_server" => {
                let as_ = opt(&a["server"]).map(|x| url(&x));
                match run(vercre_issuer::oauth_server(w.clone(), OAuthServerRequest { credential_issuer: url(&s(&a["issuer"])), issuer: as_.clone() })) {
                    Err(e) => self.fail(e, n),
                    Ok(r) => json!({"same": server(&w, &s(&a["issuer"]), as_.as_deref()).as_ref() == Some(&r.authorization_server)}),
                }
            }
            "register" => {
                let meta = match a["client"].as_str().unwrap() {
                    "min" => Client { oauth: OAuthClient { redirect_uris: Some(vec![redirect("new")]), ..OAuthClient::default() }, ..Client::default() },
                    "full" => Client {
                        oauth: OAuthClient {
                            redirect_uris: Some(vec![redirect("n1"), redirect("n2")]), grant_types: Some(vec![GrantType::AuthorizationCode]), response_types: Some(vec![ResponseType::Code]),
                            client_name: Some("Näme".into()), scope: Some("sA".into()), logo_uri: Some("https://logo".into()), software_id: Some("1".into()), ..OAuthClient::default()
                        },
                        credential_offer_endpoint: Some("openid-credential-offer://".into()),
                    },
                    _ => client("c1").unwrap(),
                };
                let before = w.inner.lock().unwrap().registered.len();
                let request = RegistrationRequest { credential_issuer: url("i1"), access_token: self.key(&a["key"]), client_metadata: meta.clone() };
                let got = run(vercre_issuer::register(w.clone(), request));
                let seen = w.inner.lock().unwrap().registered[before..].to_vec();
                match got {
                    Err(e) => { let mut v = self.fail(e, n); v["stored"] = json!(seen.len()); v }
                    Ok(r) => {
                        let mut c = r.client_metadata.clone();
                        c.oauth.client_id = meta.oauth.client_id.clone();
                        c.oauth.client_id_issued_at = meta.oauth.client_id_issued_at;
                        json!({"stored": seen.len(), "kept": seen.first() == Some(&meta), "returned": c == meta && r.client_metadata.oauth.client_id == format!("reg-{}", before + 1)})
                    }
                }
            }
            o => panic!("op {o}"),
        }
    }
}

fn main() {
    io::serve(|c| {
        world::set_now(0);
        let w = World::default();
        w.store.0.lock().unwrap().expunge = c["expunge"] == true;
        {
            let mut i = w.inner.lock().unwrap();
            i.cfg = serde_json::from_value(c["start"].clone()).unwrap();
            i.pend = serde_json::from_value(c["pend"].clone()).unwrap();
        }
        let mut x = Session { w, names: BTreeMap::new() };
        let mut obs = vec![];
        for h in c["hist"].as_array().unwrap() {
            obs.push(io::caught(|| x.call(&h["a"], &h["n"])).unwrap_or_else(|p| json!({ "panic": p })));
        }
        let (store, inner, names, at) = (x.w.store.save(), x.w.inner.lock().unwrap().clone(), x.names.clone(), world::now());
        let mut tried = vec![];
        for t in c["tries"].as_array().unwrap() {
            tried.push(io::caught(|| x.call(&t["a"], &t["n"])).unwrap_or_else(|p| json!({ "panic": p })));
            x.w.store.restore(store.clone());
            *x.w.inner.lock().unwrap() = inner.clone();
            x.names.clone_from(&names);
            world::set_now(at);
        }
        json!({ "hist": obs, "tries": tried, "names": names })
    });
}
