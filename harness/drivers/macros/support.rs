// Projects the requests the macros build, field by field, onto JSON.
use std::collections::HashMap;

use serde_json::{json, Map, Value};
use vercre_openid::issuer::*;
use vercre_openid::oauth::{CodeChallengeMethod, GrantType, ResponseType};

pub fn same(s: &str) -> String {
    s.to_string()
}

#[allow(dead_code)]
pub fn encryption() -> CredentialResponseEncryption {
    CredentialResponseEncryption {
        alg: "enc-alg".into(),
        enc: "enc-enc".into(),
        ..CredentialResponseEncryption::default()
    }
}

pub fn run(id: usize, f: fn() -> Value) {
    let v = std::panic::catch_unwind(f).unwrap_or_else(|_| json!({"panic": true}));
    println!("\u{1e}{}", json!({"id": id, "got": v}));
}

pub trait Project {
    fn project(self) -> Value;
}

fn claims(c: &HashMap<String, Claim>) -> Value {
    let mut m = Map::new();
    for (k, v) in c {
        let x = match v {
            Claim::Entry(d) => {
                if d.mandatory.is_none() && d.value_type.is_none() && d.display.is_none() {
                    json!({"entry": true})
                } else {
                    json!({"entry": "not empty"})
                }
            }
            Claim::Set(s) => json!({"set": claims(s)}),
        };
        m.insert(k.clone(), x);
    }
    Value::Object(m)
}

fn definition(d: &CredentialDefinition) -> Value {
    json!({"context": d.context, "types": d.type_, "subject": d.credential_subject.as_ref().map(claims)})
}

fn format(f: &Format) -> Value {
    match f {
        Format::JwtVcJson(p) => json!({"format": "jwt_vc_json", "definition": definition(&p.credential_definition)}),
        Format::LdpVc(p) => json!({"format": "ldp_vc", "definition": definition(&p.credential_definition)}),
        Format::JwtVcJsonLd(p) => json!({"format": "jwt_vc_json-ld", "definition": definition(&p.credential_definition)}),
        Format::IsoMdl(_) => json!({"format": "mso_mdoc"}),
        Format::VcSdJwt(_) => json!({"format": "vc+sd-jwt"}),
    }
}

fn detail(d: &AuthorizationDetail) -> Value {
    let AuthorizationDetailType::OpenIdCredential = d.type_;
    let credential = match &d.credential {
        CredentialAuthorization::ConfigurationId { credential_configuration_id, claims } => json!({
            "id": credential_configuration_id,
            "claims": claims.as_ref().map(|c| match c {
                ProfileClaims::W3c(d) => definition(d),
                ProfileClaims::IsoMdl(_) => json!("mdl"),
                ProfileClaims::SdJwt(_) => json!("sd-jwt"),
            })
        }),
        CredentialAuthorization::Format(f) => format(f),
    };
    json!({"type": "openid_credential", "credential": credential, "locations": d.locations})
}

fn details(d: &Option<Vec<AuthorizationDetail>>) -> Value {
    d.as_ref().map_or(Value::Null, |d| d.iter().map(detail).collect())
}

impl Project for CreateOfferRequest {
    fn project(self) -> Value {
        json!({
            "credential_issuer": self.credential_issuer,
            "subject_id": self.subject_id,
            "credential_configuration_ids": self.credential_configuration_ids,
            "grant_types": self.grant_types.map(|g| g.iter().map(|g| match g {
                GrantType::AuthorizationCode => "authorization_code",
                GrantType::PreAuthorizedCode => "urn:ietf:params:oauth:grant-type:pre-authorized_code",
            }).collect::<Vec<_>>()),
            "tx_code_required": self.tx_code_required,
            "send_type": match self.send_type { SendType::ByVal => "by_val", SendType::ByRef => "by_ref" },
        })
    }
}

impl Project for AuthorizationRequest {
    fn project(self) -> Value {
        let r = match self {
            AuthorizationRequest::Object(r) => r,
            AuthorizationRequest::Uri(u) => return json!({"uri": u.request_uri}),
        };
        json!({
            "credential_issuer": r.credential_issuer,
            "response_type": match r.response_type { ResponseType::Code => "code", _ => "other" },
            "client_id": r.client_id,
            "redirect_uri": r.redirect_uri,
            "state": r.state,
            "code_challenge": r.code_challenge,
            "code_challenge_method": match r.code_challenge_method { CodeChallengeMethod::S256 => "S256" },
            "authorization_details": details(&r.authorization_details),
            "scope": r.scope,
            "resource": r.resource,
            "subject_id": r.subject_id,
            "wallet_issuer": r.wallet_issuer,
            "user_hint": r.user_hint,
            "issuer_state": r.issuer_state,
        })
    }
}

impl Project for TokenRequest {
    fn project(self) -> Value {
        let mut v = json!({
            "credential_issuer": self.credential_issuer,
            "client_id": self.client_id,
            "authorization_details": details(&self.authorization_details),
        });
        match self.grant_type {
            TokenGrantType::PreAuthorizedCode { pre_authorized_code, tx_code } => {
                v["grant_type"] = json!("urn:ietf:params:oauth:grant-type:pre-authorized_code");
                v["pre-authorized_code"] = json!(pre_authorized_code);
                v["tx_code"] = json!(tx_code);
            }
            TokenGrantType::AuthorizationCode { code, redirect_uri, code_verifier } => {
                v["grant_type"] = json!("authorization_code");
                v["code"] = json!(code);
                v["redirect_uri"] = json!(redirect_uri);
                v["code_verifier"] = json!(code_verifier);
            }
        }
        if self.client_assertion.is_some() {
            v["client_assertion"] = json!(true);
        }
        v
    }
}

impl Project for CredentialRequest {
    fn project(self) -> Value {
        json!({
            "credential_issuer": self.credential_issuer,
            "access_token": self.access_token,
            "credential": match &self.credential {
                CredentialIssuance::Identifier { credential_identifier } => json!({"identifier": credential_identifier}),
                CredentialIssuance::Format(f) => format(f),
            },
            "proof": self.proof.map(|p| match p {
                Proof::Single { proof_type: SingleProof::Jwt { jwt } } => json!({"proof_type": "jwt", "jwt": jwt}),
                Proof::Multiple(MultipleProofs::Jwt(j)) => json!({"multiple": j}),
            }),
            "credential_response_encryption": self.credential_response_encryption.map(|e| {
                if e == encryption() { "enc" } else { "other" }
            }),
        })
    }
}
