//! Replays the messages, errors and claim requests of spec/OpenidWire.tla, OidError.tla and Claims.tla through vercre-openid.
#[path = "../../common/io.rs"]
mod io;

use std::collections::HashMap;

use anyhow::Result;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use vercre_core::urlencode;
use vercre_openid::{issuer as i, oauth as o, verifier as v, Error};

fn s(v: &Value) -> &str { v.as_str().unwrap_or_default() }
type Fields = Value;
/// through the Rust value and back, twice: once by JSON value, once by JSON text
fn there<T: Serialize + DeserializeOwned>(doc: &Value, fields: impl Fn(&T) -> Fields) -> Result<Value> {
    let a: T = serde_json::from_value(doc.clone())?;
    let b: T = serde_json::from_str(&serde_json::to_string(&a)?)?;
    Ok(json!({"value": serde_json::to_value(&a)?, "again": serde_json::to_value(&b)?, "fields": fields(&a), "fields_again": fields(&b)}))
}
macro_rules! of { ($x:ident; $($f:ident)*) => { json!({ $(stringify!($f): $x.$f),* }) } }
macro_rules! fields { ($($f:ident)*) => { |x| json!({ $(stringify!($f): x.$f),* }) } }
fn none<T>(_: &T) -> Fields { Value::Null }
fn oauth_client(x: &o::OAuthClient) -> Value {
    let o::OAuthClient { client_id, client_id_issued_at, client_secret, client_secret_expires_at, redirect_uris, token_endpoint_auth_method, grant_types, response_types, client_name, client_uri, logo_uri, scope,
        contacts, tos_uri, policy_uri, jwks_uri, jwks, software_id, software_version, require_pushed_authorization_requests, .. } = x;
    let mut all = json!({"client_id": client_id, "client_id_issued_at": client_id_issued_at, "client_secret": client_secret, "client_secret_expires_at": client_secret_expires_at, "redirect_uris": redirect_uris});
    for (k, v) in json!({"token_endpoint_auth_method": token_endpoint_auth_method, "grant_types": grant_types, "response_types": response_types, "client_name": client_name, "client_uri": client_uri,
        "logo_uri": logo_uri, "scope": scope, "contacts": contacts, "tos_uri": tos_uri, "policy_uri": policy_uri, "jwks_uri": jwks_uri, "jwks": jwks, "software_id": software_id,
        "software_version": software_version, "require_pushed_authorization_requests": require_pushed_authorization_requests}).as_object().unwrap() { all[k] = v.clone(); }
    all
}
fn oauth_server(x: &o::OAuthServer) -> Value {
    let mut all = of!(x; issuer authorization_endpoint token_endpoint jwks_uri registration_endpoint scopes_supported response_types_supported response_modes_supported grant_types_supported);
    for (k, v) in of!(x; token_endpoint_auth_methods_supported token_endpoint_auth_signing_alg_values_supported service_documentation ui_locales_supported op_policy_uri op_tos_uri revocation_endpoint).as_object().unwrap() { all[k] = v.clone(); }
    for (k, v) in of!(x; introspection_endpoint code_challenge_methods_supported signed_metadata pushed_authorization_request_endpoint require_pushed_authorization_requests).as_object().unwrap() { all[k] = v.clone(); }
    all
}
fn request(x: &i::RequestObject) -> Value {
    of!(x; credential_issuer response_type client_id redirect_uri state code_challenge code_challenge_method authorization_details scope resource subject_id wallet_issuer user_hint issuer_state)
}
fn wire(kind: &str, d: &Value) -> Result<Value> {
    match kind {
        "offer" => there::<i::CredentialOffer>(d, fields!(credential_issuer credential_configuration_ids grants)),
        "grants" => there::<i::Grants>(d, |x| json!({"authorization_code": x.authorization_code, "urn:ietf:params:oauth:grant-type:pre-authorized_code": x.pre_authorized_code})),
        "pre grant offered" => there::<i::PreAuthorizedCodeGrant>(d, |x| json!({"pre-authorized_code": x.pre_authorized_code, "tx_code": x.tx_code, "authorization_server": x.authorization_server})),
        "tx code" => there::<i::TxCode>(d, fields!(input_mode length description)),
        "create offer request" => there::<i::CreateOfferRequest>(d, fields!(credential_issuer subject_id credential_configuration_ids grant_types tx_code_required send_type)),
        "create offer response" => there::<i::CreateOfferResponse>(d, fields!(tx_code)),
        "offer request" => there::<i::CredentialOfferRequest>(d, fields!(credential_issuer id)),
        "offer response" => there::<i::CredentialOfferResponse>(d, fields!(credential_offer)),
        "request" => there::<i::AuthorizationRequest>(d, |x| if let i::AuthorizationRequest::Object(r) = x { request(r) } else { json!("uri") }),
        "request by uri" => there::<i::AuthorizationRequest>(d, |x| if let i::AuthorizationRequest::Uri(u) = x { json!({"request_uri": u.request_uri}) } else { json!("object") }),
        "detail" => there::<i::AuthorizationDetail>(d, fields!(locations)),
        "authorized detail" => there::<i::AuthorizedDetail>(d, fields!(credential_identifiers)),
        "definition" => there::<i::CredentialDefinition>(d, |x| json!({"@context": x.context, "type": x.type_, "credentialSubject": x.credential_subject})),
        "authorization response" => there::<i::AuthorizationResponse>(d, fields!(code state redirect_uri)),
        "pushed request" => there::<i::PushedAuthorizationRequest>(d, |x| request(&x.request)),
        "pushed response" => there::<i::PushedAuthorizationResponse>(d, fields!(request_uri expires_in)),
        "token request" => there::<i::TokenRequest>(d, |x| {
            let mut f = of!(x; credential_issuer client_id authorization_details);
            match &x.grant_type {
                i::TokenGrantType::AuthorizationCode { code, redirect_uri, code_verifier } => { f["code"] = json!(code); f["redirect_uri"] = json!(redirect_uri); f["code_verifier"] = json!(code_verifier); }
                i::TokenGrantType::PreAuthorizedCode { pre_authorized_code, tx_code } => { f["pre-authorized_code"] = json!(pre_authorized_code); f["tx_code"] = json!(tx_code); }
            }
            if let Some(i::ClientAssertion::JwtBearer { client_assertion }) = &x.client_assertion { f["client_assertion"] = json!(client_assertion); }
            f
        }),
        "token response" => there::<i::TokenResponse>(d, fields!(access_token token_type expires_in c_nonce c_nonce_expires_in authorization_details)),
        "credential request" => there::<i::CredentialRequest>(d, |x| {
            let mut f = of!(x; credential_issuer access_token credential_response_encryption);
            if let i::CredentialIssuance::Identifier { credential_identifier } = &x.credential { f["credential_identifier"] = json!(credential_identifier); }
            match &x.proof {
                Some(i::Proof::Single { proof_type: i::SingleProof::Jwt { jwt } }) => f["proof"] = json!({"proof_type": "jwt", "jwt": jwt}),
                Some(i::Proof::Multiple(i::MultipleProofs::Jwt(jwts))) => f["proofs"] = json!({"jwt": jwts}),
                None => {}
            }
            f
        }),
        "encryption" => there::<i::CredentialResponseEncryption>(d, fields!(alg enc)),
        "credential response" => there::<i::CredentialResponse>(d, response),
        "deferred request" => there::<i::DeferredCredentialRequest>(d, fields!(credential_issuer access_token transaction_id)),
        "deferred response" => there::<i::DeferredCredentialResponse>(d, |x| response(&x.credential_response)),
        "metadata request" => there::<i::MetadataRequest>(d, fields!(credential_issuer languages)),
        "server request" => there::<i::OAuthServerRequest>(d, fields!(credential_issuer issuer)),
        "server response" => there::<i::OAuthServerResponse>(d, fields!(authorization_server)),
        "registration request" => there::<i::RegistrationRequest>(d, |x| {
            let mut f = oauth_client(&x.client_metadata.oauth);
            f["credential_issuer"] = json!(x.credential_issuer);
            f["access_token"] = json!(x.access_token);
            f
        }),
        "registration response" => there::<i::RegistrationResponse>(d, |x| oauth_client(&x.client_metadata.oauth)),
        "issuer" => there::<i::Issuer>(d, fields!(credential_issuer authorization_servers credential_endpoint deferred_credential_endpoint notification_endpoint credential_response_encryption batch_credential_issuance signed_metadata display credential_configurations_supported)),
        "configuration" => there::<i::CredentialConfiguration>(d, fields!(scope cryptographic_binding_methods_supported credential_signing_alg_values_supported proof_types_supported display)),
        "credential display" => there::<i::CredentialDisplay>(d, fields!(name locale logo description background_color background_image text_color)),
        "client" => there::<i::Client>(d, |x| oauth_client(&x.oauth)),
        "server" => there::<i::Server>(d, |x| {
            let mut f = oauth_server(&x.oauth);
            f["pre-authorized_grant_anonymous_access_supported"] = json!(x.pre_authorized_grant_anonymous_access_supported);
            f
        }),
        "notification request" => there::<i::NotificationRequest>(d, fields!(credential_issuer access_token notification_id event event_description)),
        "create request request" => there::<v::CreateRequestRequest>(d, fields!(client_id purpose input_descriptors device_flow client_id_scheme)),
        "create request response" => there::<v::CreateRequestResponse>(d, fields!(request_object request_uri)),
        "request object" => there::<v::RequestObject>(d, fields!(response_type client_id redirect_uri response_mode response_uri scope nonce state presentation_definition client_id_scheme client_metadata)),
        "request object request" => there::<v::RequestObjectRequest>(d, fields!(client_id id)),
        "request object response" => there::<v::RequestObjectResponse>(d, none),
        "response request" => there::<v::ResponseRequest>(d, fields!(vp_token presentation_submission state)),
        "response response" => there::<v::ResponseResponse>(d, fields!(redirect_uri response_code)),
        "verifier" => there::<v::Verifier>(d, |x| { let mut f = oauth_client(&x.oauth); f["vp_formats"] = json!(x.vp_formats); f }),
        "verifier metadata" => there::<v::MetadataResponse>(d, |x| { let mut f = oauth_client(&x.client.oauth); f["vp_formats"] = json!(x.client.vp_formats); f }),
        "wallet" => there::<v::Wallet>(d, |x| {
            let mut f = oauth_server(&x.oauth);
            f["presentation_definition_uri_supported"] = json!(x.presentation_definition_uri_supported);
            f["vp_formats_supported"] = json!(x.vp_formats_supported);
            f
        }),
        k => panic!("kind {k}"),
    }
}
fn response(x: &i::CredentialResponse) -> Value {
    let mut f = of!(x; c_nonce c_nonce_expires_in notification_id);
    match &x.response {
        i::CredentialResponseType::Credential(c) => f["credential"] = json!(c),
        i::CredentialResponseType::Credentials(c) => f["credentials"] = json!(c),
        i::CredentialResponseType::TransactionId(c) => f["transaction_id"] = json!(c),
    }
    f
}
/// as a query string and back
fn query(kind: &str, d: &Value) -> Result<Value> {
    let (text, back) = match kind {
        "request" | "request by uri" => {
            let r: i::AuthorizationRequest = serde_json::from_value(d.clone())?;
            let text = r.to_string();
            let by_json: i::AuthorizationRequest = serde_json::to_string(&r)?.parse()?;
            let spaced: i::AuthorizationRequest = format!("\n  {}", serde_json::to_string_pretty(&r)?).parse()?;
            let parsed: i::AuthorizationRequest = text.parse()?;
            let decoded: i::AuthorizationRequest = urlencode::from_str(&urlencode::to_string(&r)?)?;
            let all = [&by_json, &spaced, &parsed, &decoded].map(|x| serde_json::to_value(x).unwrap());
            if !all.iter().all(|x| *x == all[0]) || [by_json, spaced, parsed, decoded].iter().any(|x| *x != r) {
                return Ok(json!({"differ": all}));
            }
            (text, all[2].clone())
        }
        "offer" => {
            let r: i::CredentialOffer = serde_json::from_value(d.clone())?;
            let text = r.to_querystring()?;
            let back: i::CredentialOffer = urlencode::from_str(&text)?;
            (text, serde_json::to_value(back)?)
        }
        "request object" => {
            let r: v::RequestObject = serde_json::from_value(d.clone())?;
            let text = r.to_querystring()?;
            (text, Value::Null) // flattened members do not come back from a query string
        }
        k => panic!("kind {k}"),
    };
    Ok(json!({"query": text, "back": back}))
}

fn error(c: &Value) -> Result<Value> {
    let make = || -> Result<Error> { Ok(serde_json::from_value(c["make"].clone())?) };
    Ok(json!({"json": make()?.to_json(), "serialized": serde_json::to_value(make()?)?, "text": make()?.to_string(), "query": make()?.to_querystring()}))
}
fn status_error(c: &Value) -> Result<Value> {
    use vercre_status::bitstring::Error;
    let make = || -> Result<Error> { Ok(serde_json::from_value(c["make"].clone())?) };
    Ok(json!({"json": make()?.to_json(), "serialized": serde_json::to_value(make()?)?, "text": make()?.to_string()}))
}
fn claims(c: &Value) -> Result<Value> {
    let cfg: i::CredentialConfiguration = serde_json::from_value(c["config"].clone())?;
    let asked: HashMap<String, i::Claim> = serde_json::from_value(c["asked"].clone())?;
    Ok(json!({"ok": cfg.verify_claims(&asked).is_ok()}))
}
fn find(c: &Value) -> Result<Value> {
    let issuer: i::Issuer = serde_json::from_value(c["issuer"].clone())?;
    let fmt: i::Format = serde_json::from_value(c["format"].clone())?;
    Ok(json!({"id": issuer.credential_configuration_id(&fmt).ok()}))
}

fn main() {
    io::serve(|c| {
        let one = |f: &dyn Fn() -> Result<Value>| match io::caught(f) {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => json!({"err": e.to_string()}),
            Err(m) => json!({"panic": m}),
        };
        match s(&c["op"]) {
            "wire" => {
                let kind = s(&c["kind"]);
                json!({"wire": one(&|| wire(kind, &c["doc"])), "query": if c["query"] == true { one(&|| query(kind, &c["doc"])) } else { Value::Null }})
            }
            "error" => one(&|| error(&c)),
            "status error" => one(&|| status_error(&c)),
            "claims" => one(&|| claims(&c)),
            "find" => one(&|| find(&c)),
            o => panic!("op {o}"),
        }
    });
}
