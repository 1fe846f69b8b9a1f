PA = "crates/macros/src/parse.rs"
AU = "crates/macros/src/authorization.rs"
TK = "crates/macros/src/token.rs"
CO = "crates/macros/src/create_offer.rs"

STUB = '''#![allow(warnings)]
mod vercre_issuer {
    use std::collections::HashMap;
    #[derive(Debug, PartialEq)] pub enum GrantType { PreAuthorizedCode, AuthorizationCode }
    #[derive(Debug, PartialEq)] pub enum SendType { ByVal, ByRef }
    #[derive(Debug, PartialEq)] pub struct CreateOfferRequest { pub credential_issuer: String, pub subject_id: Option<String>, pub credential_configuration_ids: Vec<String>,
        pub grant_types: Option<Vec<GrantType>>, pub tx_code_required: bool, pub send_type: SendType }
    #[derive(Debug, PartialEq)] pub enum TokenGrantType { PreAuthorizedCode { pre_authorized_code: String, tx_code: Option<String> },
        AuthorizationCode { code: String, redirect_uri: Option<String>, code_verifier: Option<String> } }
    #[derive(Debug, PartialEq, Default)] pub struct ClaimDefinition;
    #[derive(Debug, PartialEq)] pub enum Claim { Entry(ClaimDefinition), Set(HashMap<String, Claim>) }
    #[derive(Debug, PartialEq)] pub struct CredentialDefinition { pub context: Option<Vec<String>>, pub type_: Option<Vec<String>>, pub credential_subject: Option<HashMap<String, Claim>> }
    #[derive(Debug, PartialEq)] pub enum ProfileClaims { W3c(CredentialDefinition) }
    #[derive(Debug, PartialEq)] pub struct ProfileW3c { pub credential_definition: CredentialDefinition }
    #[derive(Debug, PartialEq)] pub enum Format { JwtVcJson(ProfileW3c) }
    #[derive(Debug, PartialEq)] pub enum CredentialAuthorization { ConfigurationId { credential_configuration_id: String, claims: Option<ProfileClaims> }, Format(Format) }
    #[derive(Debug, PartialEq)] pub enum AuthorizationDetailType { OpenIdCredential }
    #[derive(Debug, PartialEq)] pub struct AuthorizationDetail { pub type_: AuthorizationDetailType, pub credential: CredentialAuthorization, pub locations: Option<Vec<String>> }
    #[derive(Debug, PartialEq)] pub struct TokenRequest { pub credential_issuer: String, pub client_id: Option<String>, pub grant_type: TokenGrantType,
        pub authorization_details: Option<Vec<AuthorizationDetail>>, pub client_assertion: Option<()> }
}
use vercre_macros::*;
'''

BASE = '"credential_issuer": "i", "grant_type": "authorization_code", "code": "c", "code_verifier": "v"'
DET = '"authorization_details": [{"type": "openid_credential", "credential_configuration_id": "x"}]'

BUGS = {
 "macro-format-text": dict(property="C09", needs="a literal that holds braces", breaks="literals are built with format!, so doubled braces collapse (and single ones do not compile)",
   edits=[(PA, "quote! { #s.to_string() }", "quote! { format!(#s) }")],
   demo=("macro", STUB + 'fn main() { let r = token_request!({' + BASE + ', "redirect_uri": "http://x/{{id}}"});\n'
         'let vercre_issuer::TokenGrantType::AuthorizationCode { redirect_uri, .. } = r.grant_type else { panic!() };\n'
         'assert_eq!(redirect_uri.as_deref(), Some("http://x/{{id}}")); }\n')),
 "macro-single-nested-claim": dict(property="C09", needs="a claim set with exactly one nested claim", breaks="a nested set of one claim is taken for a plain claim, dropping the nested name",
   edits=[(AU, "            && !nested.is_empty()\n", "            && nested.len() > 1\n")],
   demo=("macro", STUB + 'fn main() { let r = token_request!({' + BASE + ', "authorization_details": [{"type": "openid_credential", "credential_configuration_id": "x", "credential_definition": {"credentialSubject": {"address": {"city": {}}}}}]});\n'
         'let d = r.authorization_details.unwrap(); let vercre_issuer::CredentialAuthorization::ConfigurationId { claims: Some(vercre_issuer::ProfileClaims::W3c(c)), .. } = &d[0].credential else { panic!() };\n'
         'assert!(matches!(&c.credential_subject.as_ref().unwrap()["address"], vercre_issuer::Claim::Set(s) if s.contains_key("city"))); }\n')),
 "macro-unchecked-with-details": dict(property="C10", needs="an unknown field next to authorization_details", breaks="unknown fields of a token request go unnoticed when authorization details are given",
   edits=[(TK, '''        let authorization_details = authorization_details(&details)?;
        quote! {Some(#authorization_details)}
    } else {
        quote! {None}
    };

    // return error for any unexpected fields
    input.check_consumed()?;

    let path''', '''        let authorization_details = authorization_details(&details)?;
        quote! {Some(#authorization_details)}
    } else {
        // return error for any unexpected fields
        input.check_consumed()?;
        quote! {None}
    };

    let path''')],
   demo=("refused", (STUB + "fn main() { let _ = token_request!({" + BASE + ", " + DET + "}); }\n", STUB + "fn main() { let _ = token_request!({" + BASE + ", " + DET + ', "tx_code": "1"}); }\n'))),
 "macro-lenient-grants": dict(property="C10", needs="an unsupported grant type listed after a supported one", breaks="unsupported grant types are skipped when a supported one came first",
   edits=[(CO, '''                _ => {
                    return Err(Error::new(''', '''                _ if !tokens.is_empty() => {}
                _ => {
                    return Err(Error::new(''')],
   demo=("refused", (STUB + 'fn main() { let _ = create_offer_request!({"credential_issuer": "i", "credential_configuration_ids": ["a"], "grant_types": ["authorization_code"]}); }\n',
                     STUB + 'fn main() { let _ = create_offer_request!({"credential_issuer": "i", "credential_configuration_ids": ["a"], "grant_types": ["authorization_code", "implicit"]}); }\n'))),
}
