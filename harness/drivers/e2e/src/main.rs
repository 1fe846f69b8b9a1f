//! Replays histories from spec/EndToEnd.tla against vercre-issuer, vercre-holder and vercre-verifier at once: the
//! wallets' requests go to the real issuer and verifier, each as text, as they would over the wire.
#[path = "../../common/io.rs"]
mod io;
#[path = "../../common/world.rs"]
mod world;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

use anyhow::{anyhow, Result};
use chrono::{DateTime, Utc};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use vercre_core::{urlencode, Kind, Quota};
use vercre_did::{DidResolver, Document};
use vercre_holder::credential::{Credential, Logo};
use vercre_holder::issuance::{self, AcceptRequest, AuthorizationSpec, AuthorizeRequest, AuthorizedCredentials, CancelRequest, CredentialsRequest, CredentialsResponse, DeferredRequest, Initiator, OfferRequest, PinRequest, SaveRequest};
use vercre_holder::provider::{CredentialStorer, HolderProvider, Issuer as IssuerApi, Verifier as VerifierApi};
use vercre_holder::{presentation, Constraints};
use vercre_infosec::{Algorithm, Decryptor, Encryptor, SecOps, Signer};
use vercre_openid::issuer::{self as oi, *};
use vercre_openid::verifier as ov;
use vercre_w3c_vc::model::CredentialStatus;
use world::{run, Key, Shared};

const ISSUER: &str = "http://i1.example";
const VERIFIER: &str = "http://v1.example";
const DIDS: [&str; 4] = ["did:ex:i1", "did:ex:v1", "did:ex:w1", "did:ex:w2"];
fn s(v: &Value) -> String { v.as_str().unwrap_or_default().to_string() }
fn list(v: &Value) -> Vec<String> { v.as_array().map(|a| a.iter().map(s).collect()).unwrap_or_default() }
fn resolve(url: &str) -> Result<Document> {
    let did = url.split('#').next().unwrap_or_default();
    if DIDS.contains(&did) { Ok(world::document(did)) } else { Err(anyhow!("no such DID")) }
}
fn user(w: &str) -> &'static str { if w == "w1" { "alice" } else { "bob" } }
fn callback(w: &str) -> String { format!("https://{w}.example/cb?x=1&y=2") }
/// as text and back
fn body<T: Serialize + DeserializeOwned>(v: &T) -> Result<T> { Ok(serde_json::from_str(&serde_json::to_string(v)?)?) }
fn form<T: Serialize + DeserializeOwned>(v: &T) -> Result<T> { Ok(urlencode::from_str(&urlencode::to_string(v)?)?) }

// ---------------------------------------------------------------- the issuer
#[derive(Clone, Debug, Default)]
struct Iss { store: Shared, pend: Arc<Mutex<BTreeSet<(String, String)>>>, told: Arc<Mutex<Vec<String>>> }
fn claim(mandatory: bool) -> Claim { Claim::Entry(ClaimDefinition { mandatory: mandatory.then_some(true), value_type: None, display: None }) }
fn format(cfg: &str) -> Format {
    Format::JwtVcJson(ProfileW3c {
        credential_definition: CredentialDefinition {
            context: None,
            type_: Some(vec!["VerifiableCredential".into(), format!("Cred{cfg}")]),
            credential_subject: Some(HashMap::from([("given".to_string(), claim(cfg == "A")), ("family".to_string(), claim(false)), ("email".to_string(), claim(false))])),
        },
    })
}
fn issuer() -> Issuer {
    let supported = ["A", "B"].iter().map(|c| ((*c).to_string(), CredentialConfiguration {
        format: format(c),
        scope: Some(format!("s{c}")),
        proof_types_supported: (*c == "A").then(|| HashMap::from([("jwt".to_string(), ProofTypesSupported { proof_signing_alg_values_supported: vec!["EdDSA".into()] })])),
        display: (*c == "A").then(|| serde_json::from_value(json!([{"name": "Card A", "locale": "en-NZ", "logo": {"uri": "http://i1.example/a.png"}}])).expect("display")),
        ..CredentialConfiguration::default()
    })).collect();
    Issuer { credential_issuer: ISSUER.into(), credential_endpoint: format!("{ISSUER}/credential"), deferred_credential_endpoint: Some(format!("{ISSUER}/deferred")),
             credential_configurations_supported: supported, ..Issuer::default() }
}
fn server() -> Server {
    Server {
        oauth: OAuthServer {
            issuer: ISSUER.into(),
            authorization_endpoint: format!("{ISSUER}/authorize"),
            token_endpoint: format!("{ISSUER}/token"),
            scopes_supported: Some(vec!["sA".into(), "sB".into()]),
            response_types_supported: vec![ResponseType::Code],
            grant_types_supported: Some(vec![GrantType::PreAuthorizedCode, GrantType::AuthorizationCode]),
            code_challenge_methods_supported: Some(vec![CodeChallengeMethod::S256]),
            ..OAuthServer::default()
        },
        pre_authorized_grant_anonymous_access_supported: false,
    }
}
fn ids(subject: &str, cfg: &str) -> &'static [&'static str] {
    match (subject, cfg) { ("alice", "A") => &["a1", "a2"], ("alice", "B") => &["b1"], ("bob", "A") => &["a3"], _ => &[] }
}
fn value(subject: &str, id: &str, claim: &str) -> String { format!("{claim} of {subject} {id}") }
impl oi::Provider for Iss {}
impl oi::Metadata for Iss {
    async fn client(&self, id: &str) -> Result<Client> {
        if id != "w1" && id != "w2" { return Err(anyhow!("unknown client")); }
        Ok(Client {
            oauth: OAuthClient {
                client_id: id.into(),
                redirect_uris: Some(vec![callback(id)]),
                grant_types: Some(vec![GrantType::PreAuthorizedCode, GrantType::AuthorizationCode]),
                response_types: Some(vec![ResponseType::Code]),
                scope: Some("sA sB".into()),
                ..OAuthClient::default()
            },
            credential_offer_endpoint: None,
        })
    }
    async fn issuer(&self, id: &str) -> Result<Issuer> { if id == ISSUER { Ok(issuer()) } else { Err(anyhow!("unknown issuer")) } }
    async fn server(&self, id: &str, _: Option<&str>) -> Result<Server> { if id == ISSUER { Ok(server()) } else { Err(anyhow!("unknown server")) } }
    async fn register(&self, c: &Client) -> Result<Client> { Ok(c.clone()) }
}
impl oi::Subject for Iss {
    async fn authorize(&self, subject: &str, cfg: &str) -> Result<Vec<String>> {
        let found = ids(subject, cfg);
        if found.is_empty() { return Err(anyhow!("not entitled")); }
        Ok(found.iter().map(|i| (*i).to_string()).collect())
    }
    async fn dataset(&self, subject: &str, id: &str) -> Result<Dataset> {
        if !["A", "B"].iter().any(|c| ids(subject, c).contains(&id)) { return Err(anyhow!("no such dataset")); }
        let claims = json!({"given": value(subject, id, "given"), "family": value(subject, id, "family"), "email": value(subject, id, "email")});
        Ok(Dataset { claims: claims.as_object().unwrap().clone(), pending: self.pend.lock().unwrap().contains(&(subject.to_string(), id.to_string())) })
    }
}
impl StateStore for Iss {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> Result<()> { self.store.put(key, state, expiry) }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> { self.store.get(key) }
    async fn purge(&self, key: &str) -> Result<()> { self.store.purge(key) }
}
impl DidResolver for Iss { async fn resolve(&self, url: &str) -> Result<Document> { resolve(url) } }
impl SecOps for Iss {
    fn signer(&self, id: &str) -> Result<impl Signer> { if id == ISSUER { Ok(Key("did:ex:i1".into())) } else { Err(anyhow!("no keys")) } }
    fn encryptor(&self, _: &str) -> Result<impl Encryptor> { Ok(Key("did:ex:i1".into())) }
    fn decryptor(&self, _: &str) -> Result<impl Decryptor> { Ok(Key("did:ex:i1".into())) }
}
impl vercre_status::issuer::Status for Iss { async fn status(&self, _: &str, _: &str) -> Result<Option<Quota<CredentialStatus>>> { Ok(None) } }

// ---------------------------------------------------------------- the verifier
#[derive(Clone, Debug, Default)]
struct Ver { store: Shared }
impl ov::Provider for Ver {}
impl ov::Metadata for Ver {
    async fn verifier(&self, id: &str) -> Result<ov::Verifier> {
        if id != VERIFIER { return Err(anyhow!("unknown verifier")); }
        Ok(serde_json::from_value(json!({"client_id": VERIFIER, "redirect_uris": [format!("{VERIFIER}/callback")], "vp_formats": {"jwt_vp_json": {"alg": ["EdDSA"]}}})).expect("metadata"))
    }
    async fn wallet(&self, _: &str) -> Result<ov::Wallet> { Err(anyhow!("no wallets here")) }
    async fn register(&self, v: &ov::Verifier) -> Result<ov::Verifier> { Ok(v.clone()) }
}
impl StateStore for Ver {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> Result<()> { self.store.put(key, state, expiry) }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> { self.store.get(key) }
    async fn purge(&self, key: &str) -> Result<()> { self.store.purge(key) }
}
impl DidResolver for Ver { async fn resolve(&self, url: &str) -> Result<Document> { resolve(url) } }
impl SecOps for Ver {
    fn signer(&self, id: &str) -> Result<impl Signer> { if id == VERIFIER { Ok(Key("did:ex:v1".into())) } else { Err(anyhow!("no keys")) } }
    fn encryptor(&self, _: &str) -> Result<impl Encryptor> { Ok(Key("did:ex:v1".into())) }
    fn decryptor(&self, _: &str) -> Result<impl Decryptor> { Ok(Key("did:ex:v1".into())) }
}
fn descriptor(name: &str) -> Value {
    let typ = |t: &str| json!({"path": ["$.type"], "filter": {"type": "string", "const": t}});
    let has = |claim: &str, pattern: &str, optional: bool| {
        let mut f = json!({"path": [format!("$.credentialSubject.{claim}"), format!("$.{claim}")], "filter": {"type": "string", "pattern": pattern}});
        if optional { f["optional"] = json!(true); }
        f
    };
    let fields = match name {
        "A" => vec![typ("CredA")],
        "B" => vec![typ("CredB")],
        "Ae" => vec![typ("CredA"), has("email", "^email of", false)],
        "Al" => vec![has("given", "^given of alice", false), typ("CredA")],
        "Ao" => vec![typ("CredA"), has("given", "alice", true)],
        o => panic!("descriptor {o}"),
    };
    json!({"id": format!("the {name}"), "constraints": {"fields": fields}})
}

// ---------------------------------------------------------------- the wallets
#[derive(Clone, Debug)]
struct Wal { name: String, store: Shared, iss: Iss, ver: Ver, creds: Arc<Mutex<Vec<Credential>>> }
impl HolderProvider for Wal {}
fn bad<E: std::fmt::Display>(e: E) -> anyhow::Error { anyhow!("{e}") }
impl IssuerApi for Wal {
    async fn metadata(&self, req: MetadataRequest) -> Result<MetadataResponse> { body(&vercre_issuer::metadata(self.iss.clone(), req).await.map_err(bad)?) }
    async fn oauth_server(&self, req: OAuthServerRequest) -> Result<OAuthServerResponse> { body(&vercre_issuer::oauth_server(self.iss.clone(), req).await.map_err(bad)?) }
    async fn authorization(&self, req: AuthorizationRequest) -> Result<AuthorizationResponse> {
        body(&vercre_issuer::authorize(self.iss.clone(), form(&req)?).await.map_err(bad)?)
    }
    async fn token(&self, req: TokenRequest) -> Result<TokenResponse> {
        let mut got: TokenRequest = form(&req)?;
        got.credential_issuer = ISSUER.into();
        body(&vercre_issuer::token(self.iss.clone(), got).await.map_err(bad)?)
    }
    async fn credential(&self, req: CredentialRequest) -> Result<CredentialResponse> {
        let mut got: CredentialRequest = body(&req)?;
        got.credential_issuer = req.credential_issuer.clone();
        got.access_token = req.access_token;
        body(&vercre_issuer::credential(self.iss.clone(), got).await.map_err(bad)?)
    }
    async fn deferred(&self, req: DeferredCredentialRequest) -> Result<DeferredCredentialResponse> {
        let mut got: DeferredCredentialRequest = body(&req)?;
        got.credential_issuer = req.credential_issuer.clone();
        got.access_token = req.access_token;
        body(&vercre_issuer::deferred(self.iss.clone(), got).await.map_err(bad)?)
    }
    async fn logo(&self, url: &str) -> Result<Logo> { Ok(Logo { image: format!("image of {url}"), media_type: "image/png".into() }) }
    async fn notification(&self, req: NotificationRequest) -> Result<NotificationResponse> {
        let mut got: NotificationRequest = body(&req)?;
        got.credential_issuer = req.credential_issuer.clone();
        got.access_token = req.access_token;
        let r = vercre_issuer::notification(self.iss.clone(), got).await.map_err(bad);
        self.iss.told.lock().unwrap().push(r.as_ref().map_or_else(ToString::to_string, |_| "ok".into()));
        body(&r?)
    }
}
impl VerifierApi for Wal {
    async fn request_object(&self, uri: &str) -> Result<ov::RequestObjectResponse> {
        let Some((_, id)) = uri.strip_prefix(&format!("{VERIFIER}/")).and_then(|x| x.rsplit_once('/')) else { return Err(anyhow!("nothing at {uri}")) };
        body(&vercre_verifier::request_object(self.ver.clone(), &ov::RequestObjectRequest { client_id: VERIFIER.into(), id: id.into() }).await.map_err(bad)?)
    }
    async fn present(&self, uri: Option<&str>, r: &ov::ResponseRequest) -> Result<ov::ResponseResponse> {
        // on the same device the answer is handed over, not posted
        if uri.is_some_and(|u| !u.starts_with(&format!("{VERIFIER}/"))) { return Err(anyhow!("nothing at {uri:?}")); }
        body(&vercre_verifier::response(self.ver.clone(), &form(r)?).await.map_err(bad)?)
    }
}
impl CredentialStorer for Wal {
    async fn save(&self, c: &Credential) -> Result<()> { self.creds.lock().unwrap().push(c.clone()); Ok(()) }
    async fn load(&self, id: &str) -> Result<Option<Credential>> { Ok(self.creds.lock().unwrap().iter().find(|c| c.id == id).cloned()) }
    async fn find(&self, filter: Option<Constraints>) -> Result<Vec<Credential>> {
        let mut out = vec![];
        for c in self.creds.lock().unwrap().iter() {
            if match &filter { None => true, Some(f) => f.satisfied(&c.vc)? } { out.push(c.clone()); }
        }
        Ok(out)
    }
    async fn remove(&self, _: &str) -> Result<()> { Err(anyhow!("nothing is removed")) }
}
impl StateStore for Wal {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> Result<()> { self.store.put(key, state, expiry) }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> { self.store.get(key) }
    async fn purge(&self, key: &str) -> Result<()> { self.store.purge(key) }
}
impl DidResolver for Wal { async fn resolve(&self, url: &str) -> Result<Document> { resolve(url) } }
impl Wal { fn did(&self) -> String { format!("did:ex:{}", self.name) } }
impl Signer for Wal {
    async fn try_sign(&self, msg: &[u8]) -> Result<Vec<u8>> { Key(self.did()).try_sign(msg).await }
    async fn public_key(&self) -> Result<Vec<u8>> { Signer::public_key(&Key(self.did())).await }
    fn algorithm(&self) -> Algorithm { Algorithm::EdDSA }
    fn verification_method(&self) -> String { world::kid_of(&self.did()) }
}

/// a credential as its holder, and anyone it is shown to, sees it
fn seen(c: &Credential) -> Value {
    let signed = world::opened(&c.issued, &DIDS);
    let Some((_, claims, by)) = signed else { return json!("unreadable") };
    let vc = serde_json::to_value(&c.vc).unwrap_or_default();
    let subject = &vc["credentialSubject"];
    let (mut subj, mut id, mut names, mut odd) = (String::new(), String::new(), BTreeSet::new(), vec![]);
    for (k, v) in subject.as_object().cloned().unwrap_or_default() {
        if k == "id" { continue; }
        let text = s(&v);
        let Some((who, which)) = text.strip_prefix(&format!("{k} of ")).and_then(|x| x.split_once(' ')) else { odd.push(format!("claim {k}")); continue };
        if (!subj.is_empty() && subj != who) || (!id.is_empty() && id != which) { odd.push("claims of different credentials".into()); }
        (subj, id) = (who.into(), which.into());
        names.insert(k);
    }
    if by.as_deref() != Some("did:ex:i1") { odd.push("not signed by the issuer".into()); }
    if claims["vc"] != vc { odd.push("not what was signed".into()); }
    let cfg = vc["type"].as_array().and_then(|t| t.get(1)).map(s).unwrap_or_default().replace("Cred", "");
    if c.logo.as_ref().map(|l| l.image.clone()) != (cfg == "A").then(|| "image of http://i1.example/a.png".to_string()) { odd.push("logo".into()); }
    if c.display.is_some() != (cfg == "A") { odd.push("display".into()); }
    if c.issuer != ISSUER { odd.push("issuer".into()); }
    json!({"id": id, "cfg": cfg, "subj": subj, "to": s(&subject["id"]).replace("did:ex:", ""), "claims": names, "odd": odd})
}

// ---------------------------------------------------------------- calls
#[derive(Clone)]
struct Session { iss: Iss, ver: Ver, wallets: BTreeMap<String, Wal>, offers: BTreeMap<String, (OfferType, Option<String>)>, flows: BTreeMap<String, (String, String)>, asks: BTreeMap<String, String>,
                 pres: BTreeMap<String, (String, String)>, txs: BTreeMap<String, String>, pins: BTreeMap<String, Option<String>> }
fn new_session() -> Session {
    let (iss, ver) = (Iss::default(), Ver::default());
    let wal = |n: &str| (n.to_string(), Wal { name: n.into(), store: Shared::default(), iss: iss.clone(), ver: ver.clone(), creds: Arc::default() });
    Session { wallets: BTreeMap::from([wal("w1"), wal("w2")]), iss, ver, offers: BTreeMap::new(), flows: BTreeMap::new(), asks: BTreeMap::new(), pres: BTreeMap::new(), txs: BTreeMap::new(), pins: BTreeMap::new() }
}
/// everything again, with stores of its own
fn copy(x: &Session) -> Session {
    let mut y = new_session();
    y.iss.store.restore(x.iss.store.save());
    y.iss.pend.lock().unwrap().clone_from(&x.iss.pend.lock().unwrap());
    y.ver.store.restore(x.ver.store.save());
    for (n, w) in &x.wallets {
        y.wallets[n].store.restore(w.store.save());
        y.wallets[n].creds.lock().unwrap().clone_from(&w.creds.lock().unwrap());
    }
    Session { iss: y.iss, ver: y.ver, wallets: y.wallets, ..x.clone() }
}
fn claims_of(d: &Value) -> Option<HashMap<String, Claim>> { let l = list(&d["claims"]); (!l.is_empty()).then(|| l.into_iter().map(|c| (c, claim(false))).collect()) }
impl Session {
    fn flow(&self, k: &Value) -> (Wal, String) {
        let (w, id) = self.flows.get(&k.to_string()).cloned().unwrap_or(("w1".into(), format!("unknown {k}")));
        (self.wallets[&w].clone(), id)
    }
    fn authorized(&mut self, k: Option<(&Value, &str)>, r: &AuthorizedCredentials) -> Value {
        if let Some((k, w)) = k { self.flows.insert(k.to_string(), (w.into(), r.issuance_id.clone())); }
        let auth: Vec<Value> = r.authorized.iter().flat_map(|m| m.iter().map(|(c, ids)| json!({"cfg": c, "ids": ids}))).collect();
        json!({ "auth": auth })
    }
    /// deferred transactions are told apart by what the issuer holds about them
    fn received(&mut self, r: &CredentialsResponse, n: &Value) -> Value {
        let later: Vec<Value> = r.deferred.iter().flatten().map(|(tx, cfg)| {
            let held: Value = self.iss.store.get(tx).unwrap_or_default();
            let text = held.to_string();
            let id = ["a1", "a2", "a3", "b1"].iter().find(|i| text.contains(&format!("\"credential_identifier\":\"{i}\""))).map_or("?".to_string(), ToString::to_string);
            let id = if id == "?" && r.deferred.as_ref().is_some_and(|d| d.len() == 1) { ids("alice", cfg).last().map_or("?".into(), ToString::to_string) } else { id };
            let k = self.txs.iter().find(|(_, v)| *v == tx).map(|(k, _)| k.clone()).unwrap_or_else(|| { let k = format!("{id}:{n}"); self.txs.insert(k.clone(), tx.clone()); k });
            json!({"tx": k, "cfg": cfg})
        }).collect();
        json!({ "later": later })
    }
    fn act(&mut self, a: &Value, n: &Value) -> Value {
        let fail = |e: anyhow::Error| json!({ "err": e.to_string() });
        let done = |r: Result<String>| r.map_or_else(|e| json!({ "err": e.to_string() }), |_| json!({}));
        match a["op"].as_str().unwrap() {
            "tick" => { world::set_now(world::now() + a["d"].as_i64().unwrap()); json!({}) }
            "ready" => { self.iss.pend.lock().unwrap().remove(&(s(&a["subject"]), s(&a["id"]))); json!({}) }
            "make" => {
                let g = s(&a["grants"]);
                let mut grants = vec![];
                if g.contains("pre") || g.contains("tx") { grants.push(GrantType::PreAuthorizedCode); }
                if g.contains("code") { grants.push(GrantType::AuthorizationCode); }
                let req = CreateOfferRequest { credential_issuer: ISSUER.into(), subject_id: Some(s(&a["subject"])), credential_configuration_ids: list(&a["cfgs"]),
                    grant_types: (!grants.is_empty()).then_some(grants), tx_code_required: g == "tx", send_type: if a["send"] == "ref" { SendType::ByRef } else { SendType::ByVal } };
                match run(vercre_issuer::create_offer(self.iss.clone(), req)) {
                    Err(e) => json!({ "err": e.to_string() }),
                    Ok(r) => { self.offers.insert(n.to_string(), (r.offer_type, r.tx_code)); json!({}) }
                }
            }
            "take" => {
                let Some((offer, pin)) = self.offers.get(&a["offer"].to_string()).cloned() else { return json!({"err": "no such offer"}) };
                let w = self.wallets[&s(&a["w"])].clone();
                let offer = match offer {
                    OfferType::Object(o) => o.to_querystring().map_err(bad).and_then(|q| Ok(urlencode::from_str::<CredentialOffer>(&q)?)),
                    OfferType::Uri(u) => {
                        let id = u.rsplit('/').next().unwrap_or_default().to_string();
                        run(vercre_issuer::credential_offer(self.iss.clone(), CredentialOfferRequest { credential_issuer: ISSUER.into(), id })).map_err(bad).and_then(|r| Ok(body(&r)?.credential_offer))
                    }
                };
                let offer = match offer { Ok(o) => o, Err(e) => return fail(e) };
                let req = OfferRequest { client_id: w.name.clone(), subject_id: user(&w.name).into(), offer };
                match run(issuance::offer(w.clone(), &req)) {
                    Err(e) => fail(e),
                    Ok(r) => {
                        self.flows.insert(n.to_string(), (w.name.clone(), r.issuance_id));
                        self.pins.insert(n.to_string(), pin);
                        let wrong = r.offered.iter().any(|(c, k)| Some(k) != issuer().credential_configurations_supported.get(c));
                        json!({"cfgs": r.offered.keys().collect::<BTreeSet<_>>(), "wrong": wrong})
                    }
                }
            }
            "accept" => {
                let (w, issuance_id) = self.flow(&a["flow"]);
                let accept = (a["acc"]["any"] == false).then(|| a["acc"]["list"].as_array().unwrap().iter().map(|d| AuthorizationSpec { credential_configuration_id: s(&d["cfg"]), claims: claims_of(d) }).collect());
                done(run(issuance::accept(w, &AcceptRequest { issuance_id, accept })))
            }
            "pin" => {
                let (w, issuance_id) = self.flow(&a["flow"]);
                let right = self.pins.get(&a["flow"].to_string()).cloned().flatten().unwrap_or_else(|| "123456".into());
                let wrong: String = right.chars().rev().enumerate().map(|(i, c)| if i == 0 { if c == '1' { '2' } else { '1' } } else { c }).collect::<Vec<_>>().into_iter().rev().collect();
                done(run(issuance::pin(w, &PinRequest { issuance_id, pin: if a["pin"] == "right" { right } else { wrong } })))
            }
            "token" => { let (w, id) = self.flow(&a["flow"]); match run(issuance::token(w, &id)) { Ok(r) => self.authorized(None, &r), Err(e) => fail(e) } }
            "authorize" | "start" => {
                let start = a["op"] == "start";
                let (w, id) = if start { (self.wallets[&s(&a["w"])].clone(), String::new()) } else { self.flow(&a["flow"]) };
                let initiator = if start {
                    Initiator::Wallet { client_id: w.name.clone(), issuer: ISSUER.into(), scope: (a["scope"] != "none").then(|| s(&a["scope"])), subject_id: user(&w.name).into() }
                } else { Initiator::Issuer { issuance_id: id } };
                let details = (start && a["acc"]["any"] == false).then(|| a["acc"]["list"].as_array().unwrap().iter().map(|d| AuthorizationDetail {
                    credential: CredentialAuthorization::ConfigurationId { credential_configuration_id: s(&d["cfg"]),
                        claims: claims_of(d).map(|c| ProfileClaims::W3c(CredentialDefinition { credential_subject: Some(c), ..CredentialDefinition::default() })) },
                    ..AuthorizationDetail::default()
                }).collect());
                let redirect = if a["redirect"] == "own" { callback(&w.name) } else { "https://elsewhere.example/cb".into() };
                let name = w.name.clone();
                match run(issuance::authorize(w, &AuthorizeRequest { initiator, redirect_uri: Some(redirect), authorization_details: details })) {
                    Ok(r) => self.authorized(start.then_some((n, &name)), &r),
                    Err(e) => fail(e),
                }
            }
            "collect" => {
                let (w, issuance_id) = self.flow(&a["flow"]);
                let req = CredentialsRequest { issuance_id, credential_identifiers: (a["ids"]["any"] == false).then(|| list(&a["ids"]["list"])), format: (a["fmt"] != "none").then(|| format(&s(&a["fmt"]))) };
                match run(issuance::credentials(w, &req)) { Ok(r) => self.received(&r, n), Err(e) => fail(e) }
            }
            "defer" => {
                let (w, issuance_id) = self.flow(&a["flow"]);
                let id = s(&a["tx"]["id"]);
                let transaction_id = self.txs.get(&format!("{id}:{}", a["tx"]["k"])).cloned().unwrap_or_else(|| "unknown".into());
                match run(issuance::deferred(w, &DeferredRequest { issuance_id, transaction_id, credential_configuration_id: id[..1].to_uppercase() })) { Ok(r) => self.received(&r, n), Err(e) => fail(e) }
            }
            "save" => { let (w, issuance_id) = self.flow(&a["flow"]); done(run(issuance::save(w, &SaveRequest { issuance_id }))) }
            "cancel" => { let (w, issuance_id) = self.flow(&a["flow"]); done(run(issuance::cancel(w, &CancelRequest { issuance_id }))) }
            "ask" => {
                let descs: Vec<Value> = list(&a["descs"]).iter().map(|d| descriptor(d)).collect();
                let mut req: ov::CreateRequestRequest = serde_json::from_value(json!({"purpose": format!("To check {n}"), "input_descriptors": descs,
                    "device_flow": if a["how"] == "cross" { "CrossDevice" } else { "SameDevice" }, "client_id": VERIFIER, "client_id_scheme": "redirect_uri"})).expect("request");
                req.client_id = VERIFIER.into();
                match run(vercre_verifier::create_request(self.ver.clone(), &req)) {
                    Err(e) => json!({ "err": e.to_string() }),
                    Ok(r) => {
                        let text = match (&r.request_uri, &r.request_object) {
                            (Some(u), _) => u.replace(':', "%3A").replace('/', "%2F"),
                            (_, Some(o)) => urlencode::to_string(o).expect("query"),
                            _ => "neither".into(),
                        };
                        self.asks.insert(n.to_string(), text);
                        json!({})
                    }
                }
            }
            "request" => {
                let w = self.wallets[&s(&a["w"])].clone();
                let text = self.asks.get(&a["ask"].to_string()).cloned().unwrap_or_else(|| format!("{VERIFIER}/request/unknown"));
                match run(presentation::request(w.clone(), &text)) {
                    Err(e) => fail(e),
                    Ok(r) => {
                        self.pres.insert(n.to_string(), (w.name, r.presentation_id));
                        json!({"creds": r.credentials.iter().map(seen).collect::<Vec<_>>()})
                    }
                }
            }
            "consent" | "present" => {
                let (w, id) = self.pres.get(&a["pres"].to_string()).cloned().unwrap_or(("w1".into(), "unknown".into()));
                let w = self.wallets[&w].clone();
                if a["op"] == "consent" { match run(presentation::authorize(w, id)) { Ok(_) => json!({}), Err(e) => fail(e) } }
                else { match run(presentation::present(w, id)) { Ok(r) => json!({"redirect": r.redirect_uri}), Err(e) => fail(e) } }
            }
            o => panic!("op {o}"),
        }
    }
    fn call(&mut self, a: &Value, n: &Value) -> Value {
        self.iss.told.lock().unwrap().clear();
        let mut got = io::caught(|| self.act(a, n)).unwrap_or_else(|p| json!({ "panic": p }));
        got["held"] = self.wallets.iter().map(|(k, w)| (k.clone(), json!(w.creds.lock().unwrap().iter().map(seen).collect::<Vec<_>>()))).collect::<serde_json::Map<_, _>>().into();
        got["told"] = json!(*self.iss.told.lock().unwrap());
        got
    }
}
#[allow(dead_code)]
fn unused(_: Kind<String>) {}

fn main() {
    io::serve(|c| {
        world::set_now(0);
        let mut x = new_session();
        *x.iss.pend.lock().unwrap() = serde_json::from_value(c["pend"].clone()).unwrap();
        let mut obs = vec![];
        for h in c["hist"].as_array().unwrap() { obs.push(x.call(&h["a"], &h["n"])); }
        let at = world::now();
        let mut tried = vec![];
        for t in c["tries"].as_array().unwrap() {
            world::set_now(at);
            tried.push(copy(&x).call(&t["a"], &t["n"]));
        }
        json!({ "hist": obs, "tries": tried })
    });
}
