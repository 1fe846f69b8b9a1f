//! Replays histories of calls from spec/Holder.tla and spec/HolderPres.tla against vercre-holder's endpoints;
//! the issuer and the verifier are played here, as the specifications' environment.
#[path = "../../common/io.rs"]
mod io;
#[path = "../../common/world.rs"]
mod world;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

use anyhow::{anyhow, Result};
use chrono::{DateTime, Utc};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use vercre_core::{urlencode, Kind};
use vercre_did::{DidResolver, Document};
use vercre_holder::credential::{Credential, Logo};
use vercre_holder::issuance::*;
use vercre_holder::provider::{CredentialStorer, HolderProvider, Issuer as IssuerApi, StateStore, Verifier as VerifierApi};
use vercre_holder::{presentation, Constraints};
use vercre_infosec::{Algorithm, Signer};
use vercre_openid::issuer::*;
use vercre_openid::verifier::{RequestObject as VpRequest, RequestObjectResponse, ResponseRequest, ResponseResponse};
use world::{run, Key, Shared};

// ---------------------------------------------------------------- the world
#[derive(Clone, Debug, Default)]
struct World { store: Shared, inner: Arc<Mutex<Inner>> }
#[derive(Clone, Debug, Default)]
struct Inner {
    env: String,
    /// the flow being worked on, for requests that do not say
    cur: i64,
    sent: Vec<Value>,
    asked: usize,
    cnt: BTreeMap<String, usize>,
    serial: usize,
    /// what each code stands for
    codes: BTreeMap<String, Grant>,
    tokens: BTreeMap<String, Access>,
    txs: BTreeMap<String, (String, usize)>,
    /// what was offered in each flow
    offers: BTreeMap<i64, Vec<String>>,
    wallet: BTreeMap<String, Credential>,
    odd: Vec<String>,
    objects: BTreeMap<String, Value>,
}
#[derive(Clone, Debug, Default)]
struct Grant { flow: i64, cfgs: Option<Vec<String>>, challenge: String, redirect: Option<String> }
#[derive(Clone, Debug, Default)]
struct Access { flow: i64, nonce: String, notes: Vec<String> }

const CLIENT: &str = "wallet-client";
const SUBJECT: &str = "the-subject";
const HOLDER: &str = "did:ex:h1";
const DIDS: [&str; 4] = ["did:ex:h1", "did:ex:i1", "did:ex:i2", "did:ex:v1"];
fn s(v: &Value) -> String { v.as_str().unwrap_or_default().to_string() }
fn url(name: &str) -> String { if name == "i2" { "http://i2.example/".into() } else { format!("http://{name}.example") } }
fn name_of(at: &str) -> String { ["i1", "i2", "iX"].iter().find(|n| url(n) == at).map_or_else(|| at.to_string(), |n| (*n).to_string()) }
fn redirect(flow: i64) -> String { format!("https://wallet.example/cb/{flow}") }
fn num(s: &str, prefix: &str) -> i64 { s.strip_prefix(prefix).and_then(|x| x.parse().ok()).unwrap_or(-1) }
fn list(v: &Value) -> Vec<String> { v.as_array().map(|a| a.iter().map(s).collect()).unwrap_or_default() }

fn claim() -> Claim { Claim::Entry(ClaimDefinition { mandatory: None, value_type: None, display: None }) }
fn ids(cfg: &str) -> Vec<String> {
    match cfg { "A" => vec!["a1".into(), "a2".into()], "B" => vec!["b1".into()], "C" => vec!["c1".into()], _ => vec![] }
}
fn cfg_of(id: &str) -> &'static str { match &id[..1] { "a" => "A", "b" => "B", "c" => "C", _ => match id { "fA" => "A", "fB" => "B", _ => "C" } } }
fn later(id: &str) -> bool { id == "a2" || id == "c1" || id == "fC" }
fn format(cfg: &str) -> Format {
    Format::JwtVcJson(ProfileW3c {
        credential_definition: CredentialDefinition {
            context: None,
            type_: Some(vec!["VerifiableCredential".into(), format!("Cred{cfg}")]),
            credential_subject: Some(HashMap::from([("given".to_string(), claim()), ("family".to_string(), claim())])),
        },
    })
}
fn display(cfg: &str) -> Option<Vec<CredentialDisplay>> {
    match cfg {
        "A" => Some(serde_json::from_value(json!([{"name": "Card A", "logo": {"uri": "http://i1.example/a.png"}}, {"name": "Carte A"}])).expect("display")),
        "B" => None,
        _ => Some(vec![]),
    }
}
fn logo(cfg: &str) -> Option<Logo> { (cfg == "A").then(|| Logo { image: "image of http://i1.example/a.png".into(), media_type: "image/png".into() }) }
fn issuer(name: &str) -> Option<Issuer> {
    if name != "i1" && name != "i2" { return None; }
    let supported = ["A", "B", "C"].iter().map(|c| ((*c).to_string(), CredentialConfiguration {
        format: format(c),
        scope: Some(if *c == "B" { "sb".into() } else { "sa".into() }),
        display: display(c),
        ..CredentialConfiguration::default()
    })).collect();
    Some(Issuer { credential_issuer: url(name), credential_endpoint: format!("{}/credential", url(name)), credential_configurations_supported: supported, ..Issuer::default() })
}
fn details_of(d: Option<&Vec<AuthorizationDetail>>) -> Value {
    let Some(d) = d else { return json!({"any": true, "list": []}) };
    let list: Vec<Value> = d.iter().map(|x| match &x.credential {
        CredentialAuthorization::ConfigurationId { credential_configuration_id, claims } => {
            let mut names: Vec<String> = match claims {
                None => vec![],
                Some(ProfileClaims::W3c(c)) => c.credential_subject.as_ref().map(|m| m.keys().cloned().collect()).unwrap_or_default(),
                Some(ProfileClaims::IsoMdl(m) | ProfileClaims::SdJwt(m)) => m.keys().cloned().collect(),
            };
            names.sort();
            json!({"cfg": credential_configuration_id, "claims": names})
        }
        CredentialAuthorization::Format(_) => json!({"cfg": "?", "claims": []}),
    }).collect();
    json!({"any": false, "list": list})
}
fn cfgs_of(d: &Value) -> Option<Vec<String>> { (d["any"] == false).then(|| d["list"].as_array().unwrap().iter().map(|x| s(&x["cfg"])).collect()) }

// ---------------------------------------------------------------- credentials
fn vc_of(id: &str, k: usize) -> Value {
    json!({"@context": ["https://www.w3.org/2018/credentials/v1", "http://i1.example/credentials/v1"], "id": format!("http://i1.example/credentials/{id}-{k}"),
           "type": ["VerifiableCredential", format!("Cred{}", cfg_of(id))], "issuer": "http://i1.example", "validFrom": "2024-07-23T02:48:11Z",
           "credentialSubject": {"id": HOLDER, "given": "Ann", "number": k}})
}
fn issued_at(k: usize) -> i64 { world::EPOCH - 1000 - k as i64 }
fn issue(id: &str, k: usize, flaw: bool) -> Value {
    let claims = json!({"sub": HOLDER, "iss": "http://i1.example", "iat": issued_at(k), "nbf": issued_at(k), "jti": format!("http://i1.example/credentials/{id}-{k}"), "vc": vc_of(id, k)});
    json!(world::token(&json!({"alg": "EdDSA", "typ": "vc+jwt", "kid": "did:ex:i1#key-0"}), &claims, if flaw { "did:ex:mallory" } else { "did:ex:i1" }))
}
fn cred_name(id: &str) -> Option<(String, usize)> {
    let (a, b) = id.strip_prefix("http://i1.example/credentials/")?.split_once('-')?;
    Some((a.to_string(), b.parse().ok()?))
}
impl Inner {
    fn put(&mut self, v: Value) { self.sent.push(v); }
    fn fresh(&mut self, what: &str) -> String { self.serial += 1; format!("{what}-{}", self.serial) }
    fn next(&mut self, id: &str) -> usize { let c = self.cnt.entry(id.to_string()).or_default(); *c += 1; *c }
    /// the answer to a credential request (or to a deferred one, which is not deferred again unless `again')
    fn answer(&mut self, access: &str, id: &str, defer: bool) -> Result<CredentialResponse> {
        let env = self.env.clone();
        if env == "fail" { return Err(anyhow!("the issuer cannot")); }
        let mut body = if env == "bad" {
            json!({"credential": issue(id, 900, true)})
        } else if env == "onebad" {
            json!({"credentials": [issue(id, 901, false), issue(id, 902, true)]})
        } else if defer {
            let k = self.next(id);
            let tx = format!("tx-{id}-{k}");
            self.txs.insert(tx.clone(), (id.to_string(), k));
            json!({"transaction_id": tx})
        } else if env == "two" {
            let (j, k) = (self.next(id), self.next(id));
            json!({"credentials": [issue(id, j, false), issue(id, k, false)]})
        } else {
            let k = self.next(id);
            json!({"credential": issue(id, k, false)})
        };
        if env != "quiet" && !env.ends_with("bad") {
            let (nonce, note) = (self.fresh("nonce"), self.fresh("note"));
            body["c_nonce"] = json!(nonce);
            body["c_nonce_expires_in"] = json!(600);
            body["notification_id"] = json!(note);
            let a = self.tokens.entry(access.to_string()).or_default();
            a.nonce = nonce;
            a.notes.push(note);
        }
        Ok(serde_json::from_value(body).expect("credential response"))
    }
}

// ---------------------------------------------------------------- providers
impl World { fn i(&self) -> std::sync::MutexGuard<'_, Inner> { self.inner.lock().unwrap() } }
impl HolderProvider for World {}
impl IssuerApi for World {
    async fn metadata(&self, req: MetadataRequest) -> Result<MetadataResponse> {
        self.i().asked += 1;
        issuer(&name_of(&req.credential_issuer)).map(|credential_issuer| MetadataResponse { credential_issuer }).ok_or_else(|| anyhow!("no such issuer"))
    }
    async fn oauth_server(&self, req: OAuthServerRequest) -> Result<OAuthServerResponse> {
        self.i().asked += 1;
        let name = name_of(&req.credential_issuer);
        if issuer(&name).is_none() { return Err(anyhow!("no such issuer")); }
        let mut grants = vec![GrantType::PreAuthorizedCode];
        if name == "i1" { grants.push(GrantType::AuthorizationCode); }
        Ok(OAuthServerResponse { authorization_server: Server {
            oauth: OAuthServer {
                issuer: url(&name),
                authorization_endpoint: format!("{}/authorize", url(&name)),
                token_endpoint: format!("{}/token", url(&name)),
                response_types_supported: vec![ResponseType::Code],
                grant_types_supported: Some(grants),
                code_challenge_methods_supported: Some(vec![CodeChallengeMethod::S256]),
                ..OAuthServer::default()
            },
            pre_authorized_grant_anonymous_access_supported: false,
        } })
    }
    async fn authorization(&self, req: AuthorizationRequest) -> Result<AuthorizationResponse> {
        let mut i = self.i();
        i.asked += 1;
        let AuthorizationRequest::Object(r) = req else {
            i.put(json!({"kind": "authorization", "faults": ["not an object"]}));
            return Err(anyhow!("not an object"));
        };
        let mut faults = vec![];
        if r.client_id != CLIENT { faults.push("client") }
        if r.subject_id != SUBJECT { faults.push("subject") }
        if r.response_type != ResponseType::Code || r.code_challenge_method != CodeChallengeMethod::S256 { faults.push("response type or method") }
        let flow = r.issuer_state.as_deref().map_or(i.cur, |x| num(x, "state-"));
        let details = details_of(r.authorization_details.as_ref());
        let cur = i.cur;
        if r.redirect_uri.as_ref().is_some_and(|u| *u != redirect(cur)) { faults.push("redirect") }
        i.put(json!({"kind": "authorization", "issuer": name_of(&r.credential_issuer), "flow": flow, "details": details, "scope": r.scope.clone().unwrap_or("none".into()),
                     "istate": r.issuer_state.is_some(), "redirect": if r.redirect_uri.is_some() { "yes" } else { "no" }, "faults": faults}));
        if i.env == "fail" { return Err(anyhow!("the issuer cannot")); }
        let code = i.fresh("code");
        i.codes.insert(code.clone(), Grant { flow, cfgs: if r.scope.is_some() { Some(vec![]) } else { cfgs_of(&details) }, challenge: r.code_challenge, redirect: r.redirect_uri });
        Ok(AuthorizationResponse { code, state: r.state, redirect_uri: "https://wallet.example/cb".into() })
    }
    async fn token(&self, req: TokenRequest) -> Result<TokenResponse> {
        let mut i = self.i();
        i.asked += 1;
        let mut faults = vec![];
        if req.client_id.as_deref() != Some(CLIENT) { faults.push("client") }
        let details = details_of(req.authorization_details.as_ref());
        let iss = name_of(&req.credential_issuer);
        let (flow, cfgs) = match &req.grant_type {
            TokenGrantType::PreAuthorizedCode { pre_authorized_code, tx_code } => {
                let flow = num(pre_authorized_code, "pre-");
                i.put(json!({"kind": "token", "issuer": iss, "flow": flow, "grant": "pre", "pin": tx_code.clone().unwrap_or("none".into()), "details": details, "faults": faults}));
                (flow, cfgs_of(&details).or_else(|| i.offers.get(&flow).cloned()))
            }
            TokenGrantType::AuthorizationCode { code, redirect_uri, code_verifier } => {
                let g = i.codes.get(code).cloned();
                if g.is_none() { faults.push("unknown code") }
                let g = g.unwrap_or_default();
                if world::b64(&Sha256::digest(code_verifier.clone().unwrap_or_default().as_bytes())) != g.challenge { faults.push("verifier") }
                if *redirect_uri != g.redirect { faults.push("redirect") }
                i.put(json!({"kind": "token", "issuer": iss, "flow": g.flow, "grant": "code", "redirect": if redirect_uri.is_some() { "yes" } else { "no" }, "details": details, "faults": faults}));
                (g.flow, g.cfgs)
            }
        };
        if i.env == "fail" { return Err(anyhow!("the issuer cannot")); }
        let (access, nonce) = (i.fresh("access"), i.fresh("nonce"));
        i.tokens.insert(access.clone(), Access { flow, nonce: nonce.clone(), notes: vec![] });
        let auth: Vec<AuthorizedDetail> = cfgs.unwrap_or_default().iter().map(|c| AuthorizedDetail {
            authorization_detail: AuthorizationDetail {
                credential: if c == "B" { CredentialAuthorization::Format(format(c)) } else { CredentialAuthorization::ConfigurationId { credential_configuration_id: c.clone(), claims: None } },
                ..AuthorizationDetail::default()
            },
            credential_identifiers: ids(c),
        }).collect();
        Ok(TokenResponse { access_token: access, token_type: TokenType::Bearer, expires_in: 900, c_nonce: Some(nonce), c_nonce_expires_in: Some(600),
                           authorization_details: (!auth.is_empty()).then_some(auth) })
    }
    async fn credential(&self, req: CredentialRequest) -> Result<CredentialResponse> {
        let mut i = self.i();
        i.asked += 1;
        let mut faults = vec![];
        let access = i.tokens.get(&req.access_token).cloned();
        if access.is_none() { faults.push("access token") }
        let access = access.unwrap_or_default();
        let id = match &req.credential {
            CredentialIssuance::Identifier { credential_identifier } => credential_identifier.clone(),
            CredentialIssuance::Format(f) => ["A", "B", "C"].iter().find(|c| format(c) == *f).map_or("?".into(), |c| format!("f{c}")),
        };
        match &req.proof {
            Some(Proof::Single { proof_type: SingleProof::Jwt { jwt } }) => match world::opened(jwt, &DIDS) {
                None => faults.push("unreadable proof"),
                Some((header, claims, by)) => {
                    if by.as_deref() != Some(HOLDER) || header["kid"] != world::kid_of(HOLDER) || header["typ"] != "openid4vci-proof+jwt" { faults.push("proof not the holder's") }
                    if claims["nonce"] != access.nonce { faults.push("not the latest nonce") }
                    if claims["aud"] != req.credential_issuer.as_str() { faults.push("audience") }
                    if claims["iss"] != CLIENT { faults.push("client") }
                    if claims["iat"] != Utc::now().timestamp() { faults.push("iat") }
                }
            },
            _ => faults.push("no proof"),
        }
        i.put(json!({"kind": "credential", "issuer": name_of(&req.credential_issuer), "flow": access.flow, "id": id, "faults": faults}));
        if id.len() != 2 { return Err(anyhow!("no such credential")); }
        i.answer(&req.access_token, &id, later(&id))
    }
    async fn deferred(&self, req: DeferredCredentialRequest) -> Result<DeferredCredentialResponse> {
        let mut i = self.i();
        i.asked += 1;
        let access = i.tokens.get(&req.access_token).cloned();
        let faults = if access.is_none() { vec!["access token"] } else { vec![] };
        let tx = i.txs.get(&req.transaction_id).cloned();
        let flow = access.unwrap_or_default().flow;
        i.put(json!({"kind": "deferred", "issuer": name_of(&req.credential_issuer), "flow": flow, "tx": tx.as_ref().map(|t| json!({"id": t.0, "k": t.1})), "faults": faults}));
        let Some((id, _)) = tx else { return Err(anyhow!("no such transaction")) };
        let again = i.env == "again";
        let credential_response = i.answer(&req.access_token, &id, again)?;
        if !i.env.ends_with("bad") { i.txs.remove(&req.transaction_id); }
        Ok(DeferredCredentialResponse { credential_response })
    }
    async fn logo(&self, logo_url: &str) -> Result<Logo> { Ok(Logo { image: format!("image of {logo_url}"), media_type: "image/png".into() }) }
    async fn notification(&self, req: NotificationRequest) -> Result<NotificationResponse> {
        let mut i = self.i();
        i.asked += 1;
        let access = i.tokens.get(&req.access_token).cloned().unwrap_or_default();
        let faults = if access.notes.contains(&req.notification_id) { vec![] } else { vec!["notification id"] };
        i.put(json!({"kind": "notification", "issuer": name_of(&req.credential_issuer), "flow": access.flow, "event": req.event, "faults": faults}));
        Ok(NotificationResponse {})
    }
}
impl VerifierApi for World {
    async fn request_object(&self, req: &str) -> Result<RequestObjectResponse> {
        let mut i = self.i();
        i.asked += 1;
        let Some(o) = i.objects.get(req) else { return Err(anyhow!("no such request")) };
        Ok(serde_json::from_value(o.clone()).expect("request object response"))
    }
    async fn present(&self, uri: Option<&str>, r: &ResponseRequest) -> Result<ResponseResponse> {
        let mut i = self.i();
        i.asked += 1;
        let tokens: Vec<Value> = r.vp_token.as_ref().map(|v| v.iter().map(|t| match t {
            Kind::String(jwt) => world::opened(jwt, &DIDS).map_or(json!("unreadable"), |(header, claims, by)| json!({"header": header, "claims": claims, "by": by})),
            Kind::Object(_) => json!("object"),
        }).collect()).unwrap_or_default();
        i.put(json!({"kind": "present", "uri": uri, "state": r.state, "tokens": tokens, "submission": r.presentation_submission}));
        if i.env == "fail" { return Err(anyhow!("the verifier cannot")); }
        Ok(serde_json::from_value(json!({"redirect_uri": "https://v1.example/done", "response_code": null})).expect("response"))
    }
}
impl CredentialStorer for World {
    async fn save(&self, c: &Credential) -> Result<()> {
        let mut i = self.i();
        if i.env == "full" { return Err(anyhow!("no room")); }
        if i.wallet.contains_key(&c.id) { i.odd.push(format!("{} saved twice", c.id)); }
        if let Some((id, k)) = cred_name(&c.id) {
            let cfg = cfg_of(&id);
            if serde_json::to_value(&c.vc).expect("vc") != vc_of(&id, k) { i.odd.push(format!("{}: another credential", c.id)); }
            if json!(c.issued) != issue(&id, k, false) { i.odd.push(format!("{}: not as issued", c.id)); }
            if c.issuance_date.timestamp() != issued_at(k) { i.odd.push(format!("{}: issuance date", c.id)); }
            if c.issuer != "http://i1.example" || c.display != display(cfg) || c.logo != logo(cfg) { i.odd.push(format!("{}: issuer, display or logo", c.id)); }
        }
        i.wallet.insert(c.id.clone(), c.clone());
        Ok(())
    }
    async fn load(&self, id: &str) -> Result<Option<Credential>> { Ok(self.i().wallet.get(id).cloned()) }
    async fn find(&self, filter: Option<Constraints>) -> Result<Vec<Credential>> {
        let mut out = vec![];
        for c in self.i().wallet.values() {
            if match &filter { None => true, Some(f) => f.satisfied(&c.vc)? } { out.push(c.clone()); }
        }
        Ok(out)
    }
    async fn remove(&self, id: &str) -> Result<()> { self.i().wallet.remove(id); Ok(()) }
}
impl StateStore for World {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> Result<()> { self.store.put(key, state, expiry) }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> { self.store.get(key) }
    async fn purge(&self, key: &str) -> Result<()> { self.store.purge(key) }
}
impl DidResolver for World {
    async fn resolve(&self, url: &str) -> Result<Document> {
        let did = url.split('#').next().unwrap_or_default();
        if DIDS.contains(&did) { Ok(world::document(did)) } else { Err(anyhow!("no such DID")) }
    }
}
impl Signer for World {
    async fn try_sign(&self, msg: &[u8]) -> Result<Vec<u8>> { Key(HOLDER.into()).try_sign(msg).await }
    async fn public_key(&self) -> Result<Vec<u8>> { Signer::public_key(&Key(HOLDER.into())).await }
    fn algorithm(&self) -> Algorithm { Algorithm::EdDSA }
    fn verification_method(&self) -> String { world::kid_of(HOLDER) }
}

// ---------------------------------------------------------------- presentations
fn descriptor(name: &str) -> Value {
    let typ = |t: &str| json!({"path": ["$.type"], "filter": {"type": "string", "const": t}});
    let role = |optional: bool| {
        let mut f = json!({"path": ["$.credentialSubject.role", "$.role"], "filter": {"type": "string", "pattern": "^x$"}});
        if optional { f["optional"] = json!(true); }
        f
    };
    let fields = match name {
        "A" => vec![typ("CredA")],
        "B" => vec![typ("CredB")],
        "Ax" => vec![role(false), typ("CredA")],
        "Ao" => vec![typ("CredA"), role(true)],
        "X" => vec![role(false)],
        "N" => vec![],
        o => panic!("descriptor {o}"),
    };
    let mut d = json!({"id": format!("the {name}"), "constraints": {}});
    if !fields.is_empty() { d["constraints"]["fields"] = json!(fields); }
    d
}
/// a credential the wallet holds: its type, and its role
fn held(name: &str) -> Credential {
    let (typ, role) = match name {
        "a" => ("CredA", None), "ax" => ("CredA", Some("x")), "ay" => ("CredA", Some("y")), "b" => ("CredB", None), "bx" => ("CredB", Some("x")),
        o => panic!("credential {o}"),
    };
    let mut subject = json!({"id": HOLDER, "given": "Ann"});
    if let Some(r) = role { subject["role"] = json!(r); }
    let vc = json!({"@context": ["https://www.w3.org/2018/credentials/v1", "http://i1.example/credentials/v1"], "id": format!("urn:{name}"),
        "type": ["VerifiableCredential", typ], "issuer": "http://i1.example", "validFrom": "2024-07-23T02:48:11Z", "credentialSubject": subject});
    let claims = json!({"sub": HOLDER, "iss": "http://i1.example", "iat": world::EPOCH, "nbf": world::EPOCH, "jti": format!("urn:{name}"), "vc": vc});
    Credential {
        id: format!("urn:{name}"),
        issuer: "http://i1.example".into(),
        vc: serde_json::from_value(vc).expect("vc"),
        issued: world::token(&json!({"alg": "EdDSA", "typ": "vc+jwt", "kid": "did:ex:i1#key-0"}), &claims, "did:ex:i1"),
        issuance_date: DateTime::from_timestamp(world::EPOCH, 0).unwrap(),
        ..Credential::default()
    }
}
fn request_object(n: &Value, descs: &[String]) -> VpRequest {
    let ds: Vec<Value> = descs.iter().map(|d| descriptor(d)).collect();
    serde_json::from_value(json!({"response_type": "vp_token", "client_id": format!("http://v1.example/client/{n}"), "response_mode": "direct_post",
        "response_uri": format!("http://v1.example/post/{n}"), "nonce": format!("nonce {n}"), "state": format!("state {n}"),
        "presentation_definition": {"id": format!("def {n}"), "purpose": "To see", "input_descriptors": ds}, "client_id_scheme": "redirect_uri",
        "client_metadata": {"client_id": "http://v1.example", "redirect_uris": ["http://v1.example/callback"]}})).expect("request object")
}

// ---------------------------------------------------------------- calls
struct Session { w: World, names: BTreeMap<i64, String> }
impl Session {
    fn flow(&self, v: &Value) -> String { self.names.get(&v.as_i64().unwrap_or(-1)).cloned().unwrap_or_else(|| format!("unknown {v}")) }
    fn number(&self, id: &str) -> Value { self.names.iter().find(|(_, v)| *v == id).map_or(json!("?"), |(k, _)| json!(k)) }
    fn details(v: &Value) -> Vec<AuthorizationDetail> {
        v["list"].as_array().unwrap().iter().map(|d| AuthorizationDetail {
            credential: CredentialAuthorization::ConfigurationId {
                credential_configuration_id: s(&d["cfg"]),
                claims: (!list(&d["claims"]).is_empty()).then(|| ProfileClaims::W3c(CredentialDefinition {
                    credential_subject: Some(list(&d["claims"]).into_iter().map(|c| (c, claim())).collect()), ..CredentialDefinition::default() })),
            },
            ..AuthorizationDetail::default()
        }).collect()
    }
    fn authorized(&mut self, n: Option<i64>, r: AuthorizedCredentials) -> Value {
        if let Some(n) = n { self.names.insert(n, r.issuance_id.clone()); }
        let auth: Vec<Value> = r.authorized.iter().flat_map(|m| m.iter().map(|(c, ids)| json!({"cfg": c, "ids": ids}))).collect();
        json!({"flow": self.number(&r.issuance_id), "auth": auth})
    }
    fn received(&self, r: &CredentialsResponse) -> Value {
        let mut wrong = vec![];
        let later: Vec<Value> = r.deferred.iter().flatten().map(|(tx, cfg)| {
            let t = self.w.i().txs.get(tx).cloned().unwrap_or(("?".into(), 0));
            if t.0 == "?" || cfg_of(&t.0) != cfg { wrong.push(tx.clone()); }
            json!({"id": t.0, "k": t.1})
        }).collect();
        json!({"flow": self.number(&r.issuance_id), "later": later, "wrong": wrong})
    }
    fn did(&self, r: Result<String>) -> Value { r.map_or_else(|e| json!({"err": e.to_string()}), |id| json!({"flow": self.number(&id)})) }
    fn act(&mut self, a: &Value, n: &Value) -> Value {
        let w = self.w.clone();
        let id = self.flow(&a["flow"]);
        let at = n.as_i64().unwrap();
        let fail = |e: anyhow::Error| json!({ "err": e.to_string() });
        match a["op"].as_str().unwrap() {
            "offer" => {
                let g = s(&a["grants"]);
                let grants = (g != "none").then(|| {
                    let mut v = json!({});
                    if g.contains("code") { v["authorization_code"] = json!({"issuer_state": format!("state-{n}")}); }
                    if g.contains("pre") || g.contains("tx") {
                        v["urn:ietf:params:oauth:grant-type:pre-authorized_code"] = json!({"pre-authorized_code": format!("pre-{n}")});
                        if g.contains("tx") { v["urn:ietf:params:oauth:grant-type:pre-authorized_code"]["tx_code"] = match (g.as_str(), a["issuer"].as_str()) {
                            ("tx", Some("i2")) => json!({}), ("tx", _) => json!({"input_mode": "numeric", "length": 4}), (_, Some("i2")) => json!({"input_mode": "text"}), _ => json!({"description": "see letter"}) }; }
                    }
                    serde_json::from_value::<Grants>(v).expect("grants")
                });
                let offer = CredentialOffer { credential_issuer: url(&s(&a["issuer"])), credential_configuration_ids: list(&a["cfgs"]), grants: grants.clone() };
                w.i().offers.insert(at, list(&a["cfgs"]));
                let req = OfferRequest { client_id: CLIENT.into(), subject_id: SUBJECT.into(), offer };
                match run(offer_(w, &req)) {
                    Err(e) => fail(e),
                    Ok(r) => {
                        self.names.insert(at, r.issuance_id.clone());
                        let wrong: Vec<&String> = r.offered.iter().filter(|(c, k)| k.format != format(c)).map(|(c, _)| c).collect();
                        json!({"flow": at, "issuer": name_of(&r.issuer), "cfgs": r.offered.keys().collect::<BTreeSet<_>>(), "wrong": wrong,
                               "grants": serde_json::to_value(&r.grants).ok() == serde_json::to_value(&grants).ok()})
                    }
                }
            }
            "accept" => {
                let accept = (a["acc"]["any"] == false).then(|| a["acc"]["list"].as_array().unwrap().iter().map(|d| AuthorizationSpec {
                    credential_configuration_id: s(&d["cfg"]),
                    claims: (!list(&d["claims"]).is_empty()).then(|| list(&d["claims"]).into_iter().map(|c| (c, claim())).collect()),
                }).collect());
                self.did(run(accept_(w, &AcceptRequest { issuance_id: id, accept })))
            }
            "pin" => self.did(run(pin(w, &PinRequest { issuance_id: id, pin: s(&a["pin"]) }))),
            "token" => match run(token(w, &id)) { Ok(r) => self.authorized(None, r), Err(e) => fail(e) },
            "authorize" | "start" => {
                let start = a["op"] == "start";
                let flow = if start { at } else { a["flow"].as_i64().unwrap() };
                let initiator = if start {
                    Initiator::Wallet { client_id: CLIENT.into(), issuer: url(&s(&a["issuer"])), scope: (a["scope"] != "none").then(|| s(&a["scope"])), subject_id: SUBJECT.into() }
                } else { Initiator::Issuer { issuance_id: id } };
                let req = AuthorizeRequest { initiator, redirect_uri: (a["redirect"] == "yes").then(|| redirect(flow)),
                                             authorization_details: (start && a["details"]["any"] == false).then(|| Self::details(&a["details"])) };
                match run(authorize(w, &req)) { Ok(r) => self.authorized(start.then_some(at), r), Err(e) => fail(e) }
            }
            "credentials" => {
                let req = CredentialsRequest { issuance_id: id, credential_identifiers: (a["ids"]["any"] == false).then(|| list(&a["ids"]["list"])),
                                               format: (a["fmt"] != "none").then(|| format(&s(&a["fmt"]))) };
                match run(credentials(w, &req)) { Ok(r) => self.received(&r), Err(e) => fail(e) }
            }
            "deferred" => {
                let (i, k) = (s(&a["tx"]["id"]), a["tx"]["k"].as_u64().unwrap());
                let req = DeferredRequest { issuance_id: id, transaction_id: format!("tx-{i}-{k}"), credential_configuration_id: cfg_of(&i).into() };
                match run(deferred(w, &req)) { Ok(r) => self.received(&r), Err(e) => fail(e) }
            }
            "save" => self.did(run(save(w, &SaveRequest { issuance_id: id }))),
            "cancel" => self.did(run(cancel(w, &CancelRequest { issuance_id: id }))),
            // ---- presentations
            "keep" => {
                run(CredentialStorer::save(&w, &held(&s(&a["cred"])))).expect("kept");
                json!({})
            }
            "request" => {
                let descs = list(&a["descs"]);
                let object = request_object(n, &descs);
                let json_object = serde_json::to_value(&object).expect("object");
                let uri = format!("http://v1.example/presentation_definition/{n}?a=b c");
                let key = if a["sig"] == "ghost" { "did:ex:ghost" } else { "did:ex:v1" };
                let signed = |claims: &Value, by: &str| world::token(&json!({"alg": "EdDSA", "typ": "oauth-authz-req+jwt", "kid": world::kid_of(key)}), claims, by);
                let answer = match a["sig"].as_str().unwrap() {
                    "missing" => None,
                    "object" => Some(json!({"request_object": json_object})),
                    "bad" => Some(json!({"jwt": signed(&json_object, "did:ex:mallory")})),
                    "tampered" => {
                        let mut other = json_object.clone();
                        other["nonce"] = json!("another nonce");
                        let (x, y) = (signed(&json_object, key), signed(&other, key));
                        Some(json!({"jwt": format!("{}.{}", y.rsplit_once('.').unwrap().0, x.rsplit_once('.').unwrap().1)}))
                    }
                    "none" => { let x = signed(&json_object, key); Some(json!({"jwt": format!("{}.", x.rsplit_once('.').unwrap().0)})) }
                    _ => Some(json!({"jwt": signed(&json_object, key)})),
                };
                if let Some(x) = answer { w.i().objects.insert(uri.clone(), x); }
                let req = match a["form"].as_str().unwrap() {
                    "query" => urlencode::to_string(&object).expect("query"),
                    _ => uri.replace(':', "%3A").replace('/', "%2F").replace('?', "%3F").replace('=', "%3D").replace(' ', "%20"),
                };
                match run(presentation::request(w, &req)) {
                    Err(e) => fail(e),
                    Ok(r) => {
                        self.names.insert(at, r.presentation_id.clone());
                        json!({"flow": at, "status": r.status.to_string(), "creds": r.credentials.iter().map(|c| c.id.replace("urn:", "")).collect::<BTreeSet<_>>(), "count": r.credentials.len()})
                    }
                }
            }
            "consent" => match run(presentation::authorize(w, id)) { Ok(r) => json!({"status": r.to_string()}), Err(e) => fail(e) },
            "present" => match run(presentation::present(w, id)) { Ok(r) => json!({"redirect": r.redirect_uri}), Err(e) => fail(e) },
            o => panic!("op {o}"),
        }
    }
    fn call(&mut self, a: &Value, n: &Value) -> Value {
        {
            let mut i = self.w.i();
            i.env = a.get("env").map_or("ok".into(), s);
            i.cur = a.get("flow").map_or(n, |f| f).as_i64().unwrap();
            i.sent.clear();
            i.odd.clear();
            i.asked = 0;
        }
        let before = self.w.store.save();
        let mut got = io::caught(|| self.act(a, n)).unwrap_or_else(|p| json!({ "panic": p }));
        let after = self.w.store.save();
        let Ok(i) = self.w.inner.lock() else { return got };
        got["sent"] = json!(i.sent);
        got["asked"] = json!(i.asked);
        got["odd"] = json!(i.odd);
        got["changed"] = json!(before.map != after.map);
        got["kept"] = json!(i.wallet.keys().map(|k| cred_name(k).map_or(json!(k), |(id, k)| json!({"id": id, "k": k}))).collect::<Vec<_>>());
        got
    }
}
async fn offer_(w: World, r: &OfferRequest) -> Result<OfferResponse> { offer(w, r).await }
async fn accept_(w: World, r: &AcceptRequest) -> Result<String> { accept(w, r).await }

fn main() {
    io::serve(|c| {
        world::set_now(0);
        if c.get("status").is_some() {
            let text = s(&c["status"]);
            return match text.parse::<presentation::Status>() { Ok(x) => json!({"text": x.to_string(), "value": serde_json::to_value(&x).unwrap()}), Err(e) => json!({"err": e.to_string()}) };
        }
        let mut x = Session { w: World::default(), names: BTreeMap::new() };
        let mut obs = vec![];
        for h in c["hist"].as_array().unwrap() { obs.push(x.call(&h["a"], &h["n"])); }
        let (store, names, inner) = (x.w.store.save(), x.names.clone(), x.w.i().clone());
        let mut tried = vec![];
        for t in c["tries"].as_array().unwrap() {
            tried.push(x.call(&t["a"], &t["n"]));
            x = Session { w: World { store: Shared::default(), inner: Arc::new(Mutex::new(inner.clone())) }, names: names.clone() };
            x.w.store.restore(store.clone());
        }
        json!({ "hist": obs, "tries": tried })
    });
}
