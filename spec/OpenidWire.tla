----------------------------- MODULE OpenidWire -----------------------------
(***************************************************************************)
(* The messages of OpenID4VCI and OpenID4VP on the wire (crates/openid).    *)
(* Each kind of message has one or more shapes; a shape says which members  *)
(* there are, which must be present and what they hold.  The state machine  *)
(* writes a message by choosing a shape, then adding optional members, then *)
(* giving one member another value of its kind.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Group, Deep

Tx(s) == [t |-> "text", s |-> s]
In(n) == [t |-> "int", n |-> n]
Bo(b) == [t |-> "bool", b |-> b]
Ls(xs) == [t |-> "list", xs |-> xs]
Ob(ms) == [t |-> "doc", ms |-> ms]
R(k) == [req |-> TRUE, k |-> k]
O(k) == [req |-> FALSE, k |-> k]
PreGrant == "urn:ietf:params:oauth:grant-type:pre-authorized_code"
Odd == "U+0022U+005CU+0026U+003DU+0025U+002BU+0020U+000AU+00E9U+1F600U+0023U+003BU+005BU+007B"

(***************************** kinds ***************************************)
Enums == ( "grant type" :> {"authorization_code", PreGrant}
  @@ "send type" :> {"ByVal", "ByRef"} @@ "response type" :> {"code", "vp_token", "id_token vp_token"} @@ "presentation response type" :> {"vp_token", "vp_token id_token", "code"}
  @@ "challenge method" :> {"S256"} @@ "detail type" :> {"openid_credential"} @@ "w3c format" :> {"jwt_vc_json", "ldp_vc", "jwt_vc_json-ld"} @@ "mdoc" :> {"mso_mdoc"} @@ "sd-jwt" :> {"vc+sd-jwt"}
  @@ "value type" :> {"string", "number", "image"} @@ "bearer" :> {"Bearer"} @@ "jwt" :> {"jwt"} @@ "jwt-bearer" :> {"urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}
  @@ "code grant" :> {"authorization_code"} @@ "pre grant" :> {PreGrant} @@ "event" :> {"credential_accepted", "credential_failure", "credential_deleted"}
  @@ "response mode" :> {"query", "jarm"} @@ "client auth" :> {"none", "client_secret_jwt", "private_key_jwt"} @@ "auth alg" :> {"ES256K", "EdDSA"}
  @@ "device flow" :> {"CrossDevice", "SameDevice"} @@ "client id scheme" :> {"redirect_uri", "did"} @@ "key type" :> {"OKP", "EC"} @@ "curve" :> {"Ed25519"}
  @@ "bitstring" :> {"BitstringStatusListEntry"})
\* lists and maps: kind -> what they hold
Lists == ( "texts" :> "text" @@ "grant types" :> "grant type" @@ "details" :> "detail" @@ "authorized details" :> "authorized detail" @@ "displays" :> "display" @@ "credential displays" :> "credential display"
  @@ "response types" :> "response type" @@ "response modes" :> "response mode" @@ "client auths" :> "client auth" @@ "auth algs" :> "auth alg" @@ "challenge methods" :> "challenge method"
  @@ "credentials" :> "credential" @@ "presentations" :> "presentation" @@ "descriptors" :> "descriptor" @@ "mappings" :> "mapping" @@ "fields" :> "field")
Maps == ( "proof types" :> [k |-> "proof type", keys |-> {"jwt", "cwt"}] @@ "configurations" :> [k |-> "configuration", keys |-> {"A", "B_U+00E9"}]
  @@ "vp formats" :> [k |-> "vp format", keys |-> {"jwt_vp_json"}] @@ "wallet formats" :> [k |-> "vp format", keys |-> {"jwt_vp_json", "ldp_vp"}]
  @@ "claim formats" :> [k |-> "vp format", keys |-> {"jwt_vc", "ldp_vc"}] @@ "claims" :> [k |-> "claim", keys |-> {"given", "family_U+00E9"}] @@ "inner claims" :> [k |-> "entry", keys |-> {"street", "town"}])

OAuthClient == [client_id |-> R("text"), client_id_issued_at |-> O("int"), client_secret |-> O("text"), client_secret_expires_at |-> O("int"), redirect_uris |-> O("texts"),
  token_endpoint_auth_method |-> O("client auth"), grant_types |-> O("grant types"), response_types |-> O("response types"), client_name |-> O("text"), client_uri |-> O("text"), logo_uri |-> O("text"),
  scope |-> O("text"), contacts |-> O("text"), tos_uri |-> O("text"), policy_uri |-> O("text"), jwks_uri |-> O("text"), jwks |-> O("text"), software_id |-> O("text"), software_version |-> O("text"),
  require_pushed_authorization_requests |-> O("bool"), credential_offer_endpoint |-> O("text")]
OAuthServer == [issuer |-> R("text"), authorization_endpoint |-> R("text"), token_endpoint |-> R("text"), jwks_uri |-> O("text"), registration_endpoint |-> O("text"), scopes_supported |-> O("texts"),
  response_types_supported |-> R("response types"), response_modes_supported |-> O("response modes"), grant_types_supported |-> O("grant types"), token_endpoint_auth_methods_supported |-> O("client auths"),
  token_endpoint_auth_signing_alg_values_supported |-> O("auth algs"), service_documentation |-> O("text"), ui_locales_supported |-> O("texts"), op_policy_uri |-> O("text"), op_tos_uri |-> O("text"),
  revocation_endpoint |-> O("text"), revocation_endpoint_auth_methods_supported |-> O("texts"), revocation_endpoint_auth_signing_alg_values_supported |-> O("texts"), introspection_endpoint |-> O("text"),
  introspection_endpoint_auth_methods_supported |-> O("texts"), introspection_endpoint_auth_signing_alg_values_supported |-> O("texts"), code_challenge_methods_supported |-> O("challenge methods"),
  signed_metadata |-> O("text"), pushed_authorization_request_endpoint |-> O("text"), require_pushed_authorization_requests |-> O("bool")]
\* the credential by format
Formats == { ("format" :> R("w3c format") @@ "credential_definition" :> R("definition")), ("format" :> R("mdoc") @@ "doctype" :> R("text") @@ "claims" :> O("claims")),
             ("format" :> R("sd-jwt") @@ "vct" :> R("text") @@ "claims" :> O("claims")) }
Id == ("credential_issuer" :> O("nonempty"))
Assertion == ("client_assertion_type" :> R("jwt-bearer") @@ "client_assertion" :> R("text"))
NoMembers == [x \in {} |-> O("text")]
Detail == {f @@ ("type" :> R("detail type") @@ "locations" :> O("texts")) :
             f \in Formats \cup {("credential_configuration_id" :> R("text") @@ "credential_definition" :> O("definition")), ("credential_configuration_id" :> R("text") @@ "claims" :> R("claims"))}}
Request == ("response_type" :> R("response type") @@ "client_id" :> R("text") @@ "redirect_uri" :> O("text") @@ "state" :> O("text") @@ "code_challenge" :> R("text")
            @@ "code_challenge_method" :> R("challenge method") @@ "authorization_details" :> O("details") @@ "scope" :> O("text") @@ "resource" :> O("text") @@ "subject_id" :> R("text")
            @@ "wallet_issuer" :> O("text") @@ "user_hint" :> O("text") @@ "issuer_state" :> O("text")) @@ Id
CredentialResponse == {r @@ ("c_nonce" :> O("text") @@ "c_nonce_expires_in" :> O("int") @@ "notification_id" :> O("text")) :
                         r \in {("credential" :> R("credential")), ("credentials" :> R("credentials")), ("transaction_id" :> R("text"))}}
Entry == [mandatory |-> O("bool"), value_type |-> O("value type"), display |-> O("displays")]

\* the shapes of each kind of message
Shapes == (
  "offer" :> {Id @@ ("credential_configuration_ids" :> R("texts") @@ "grants" :> O("grants"))}
  @@ "grants" :> {("authorization_code" :> O("code grant offered") @@ PreGrant :> O("pre grant offered"))}
  @@ "code grant offered" :> {[issuer_state |-> O("text"), authorization_server |-> O("text")]}
  @@ "pre grant offered" :> {("pre-authorized_code" :> R("text") @@ "tx_code" :> O("tx code") @@ "authorization_server" :> O("text"))}
  @@ "tx code" :> {[input_mode |-> O("text"), length |-> O("int"), description |-> O("text")]}
  @@ "create offer request" :> {Id @@ [subject_id |-> O("text"), credential_configuration_ids |-> R("texts"), grant_types |-> O("grant types"), tx_code_required |-> R("bool"), send_type |-> R("send type")]}
  @@ "create offer response" :> {[credential_offer |-> R("offer"), tx_code |-> O("text")], [credential_offer_uri |-> R("text"), tx_code |-> O("text")]}
  @@ "offer request" :> {[credential_issuer |-> R("text"), id |-> R("text")]}
  @@ "offer response" :> {[credential_offer |-> R("offer")]}
  @@ "request" :> {Request}
  @@ "request by uri" :> {[request_uri |-> R("nonempty")]}
  @@ "detail" :> Detail
  @@ "authorized detail" :> {d @@ ("credential_identifiers" :> R("texts")) : d \in Detail}
  @@ "definition" :> {("@context" :> O("texts") @@ "type" :> O("texts") @@ "credentialSubject" :> O("claims"))}
  @@ "entry" :> {Entry}
  @@ "display" :> {[name |-> R("text"), locale |-> O("text")]}
  @@ "authorization response" :> {[code |-> R("text"), state |-> O("text"), redirect_uri |-> R("text")]}
  @@ "pushed request" :> {Request, Request @@ Assertion}
  @@ "pushed response" :> {[request_uri |-> R("text"), expires_in |-> R("int")]}
  @@ "token request" :> {g @@ a @@ Id @@ ("client_id" :> O("text") @@ "authorization_details" :> O("details")) :
       g \in {[grant_type |-> R("code grant"), code |-> R("text"), redirect_uri |-> O("text"), code_verifier |-> O("text")],
              ("grant_type" :> R("pre grant") @@ "pre-authorized_code" :> R("text") @@ "tx_code" :> O("text"))}, a \in {NoMembers, Assertion}}
  @@ "token response" :> {[access_token |-> R("text"), token_type |-> R("bearer"), expires_in |-> R("int"), c_nonce |-> O("text"), c_nonce_expires_in |-> O("int"), authorization_details |-> O("authorized details")]}
  @@ "credential request" :> {c @@ p @@ Id @@ ("access_token" :> O("nonempty") @@ "credential_response_encryption" :> O("encryption")) :
       c \in Formats \cup {("credential_identifier" :> R("text"))}, p \in {NoMembers, ("proof" :> R("proof")), ("proofs" :> R("proofs"))}}
  @@ "proof" :> {[proof_type |-> R("jwt"), jwt |-> R("text")]}
  @@ "proofs" :> {[jwt |-> R("texts")]}
  @@ "encryption" :> {[jwk |-> R("key"), alg |-> R("text"), enc |-> R("text")]}
  @@ "key" :> {[kty |-> R("key type"), crv |-> R("curve"), x |-> R("text")]}
  @@ "credential response" :> CredentialResponse
  @@ "deferred request" :> {Id @@ [access_token |-> O("nonempty"), transaction_id |-> R("text")]}
  @@ "deferred response" :> CredentialResponse
  @@ "metadata request" :> {Id @@ [languages |-> O("text")]}
  @@ "server request" :> {Id @@ [issuer |-> O("text")]}
  @@ "server response" :> {[authorization_server |-> R("server")]}
  @@ "registration request" :> {Id @@ ("access_token" :> O("nonempty")) @@ OAuthClient}
  @@ "registration response" :> {OAuthClient}
  @@ "issuer" :> {Id @@ [authorization_servers |-> O("texts"), credential_endpoint |-> R("text"), deferred_credential_endpoint |-> O("text"), notification_endpoint |-> O("text"),
       credential_response_encryption |-> O("encryption supported"), batch_credential_issuance |-> O("batch"), signed_metadata |-> O("text"), display |-> O("display"),
       credential_configurations_supported |-> R("configurations")]}
  @@ "encryption supported" :> {[alg_values_supported |-> R("texts"), enc_values_supported |-> R("texts"), encryption_required |-> R("bool")]}
  @@ "batch" :> {[batch_size |-> R("int")]}
  @@ "configuration" :> {f @@ [scope |-> O("text"), cryptographic_binding_methods_supported |-> O("texts"), credential_signing_alg_values_supported |-> O("texts"), proof_types_supported |-> O("proof types"),
       display |-> O("credential displays")] : f \in Formats}
  @@ "proof type" :> {[proof_signing_alg_values_supported |-> R("texts")]}
  @@ "credential display" :> {[name |-> R("text"), locale |-> O("text"), logo |-> O("picture"), description |-> O("text"), background_color |-> O("text"), background_image |-> O("picture"), text_color |-> O("text")]}
  @@ "picture" :> {[uri |-> O("text"), alt_text |-> O("text")]}
  @@ "client" :> {OAuthClient}
  @@ "server" :> {OAuthServer @@ ("pre-authorized_grant_anonymous_access_supported" :> R("bool"))}
  @@ "notification request" :> {Id @@ [access_token |-> O("nonempty"), notification_id |-> R("text"), event |-> R("event"), event_description |-> O("text")]}
  @@ "create request request" :> {[client_id |-> R("text"), purpose |-> R("text"), input_descriptors |-> R("descriptors"), device_flow |-> R("device flow"), client_id_scheme |-> R("text")]}
  @@ "create request response" :> {[request_object |-> O("request object"), request_uri |-> O("text")]}
  @@ "request object" :> {[response_type |-> R("presentation response type"), client_id |-> R("text"), redirect_uri |-> O("text"), response_mode |-> O("text"), response_uri |-> O("text"), scope |-> O("text"),
       nonce |-> R("text"), state |-> O("text"), presentation_definition |-> R(d), client_id_scheme |-> O("client id scheme"), client_metadata |-> R("verifier")] : d \in {"presentation definition", "text"}}
  @@ "request object request" :> {[client_id |-> R("text"), id |-> R("text")]}
  @@ "request object response" :> {[request_object |-> R("request object")]}
  @@ "response request" :> {[vp_token |-> O("presentations"), presentation_submission |-> O("submission"), state |-> O("text")]}
  @@ "response response" :> {[redirect_uri |-> O("text"), response_code |-> O("text")]}
  @@ "verifier" :> {OAuthClient @@ ("vp_formats" :> O("vp formats"))}
  @@ "verifier metadata" :> {OAuthClient @@ ("vp_formats" :> O("vp formats"))}
  @@ "wallet" :> {OAuthServer @@ [presentation_definition_uri_supported |-> R("bool"), vp_formats_supported |-> O("wallet formats")]}
  @@ "vp format" :> {[alg |-> O("texts"), proof_type |-> O("texts")]}
  @@ "presentation definition" :> {[id |-> R("text"), input_descriptors |-> R("descriptors"), name |-> O("text"), purpose |-> O("text"), format |-> O("claim formats")]}
  @@ "descriptor" :> {[id |-> R("text"), constraints |-> R("constraints"), name |-> O("text"), purpose |-> O("text"), format |-> O("claim formats")]}
  @@ "constraints" :> {[fields |-> O("fields"), limit_disclosure |-> O("text")]}
  @@ "field" :> {[path |-> R("texts"), filter |-> O("filter"), optional |-> O("bool"), id |-> O("text")]}
  @@ "filter" :> {[type |-> R("text"), const |-> R("text")], [type |-> R("text"), pattern |-> R("text")]}
  @@ "submission" :> {[id |-> R("text"), definition_id |-> R("text"), descriptor_map |-> R("mappings")]}
  @@ "mapping" :> {[id |-> R("text"), format |-> R("text"), path |-> R("text"), path_nested |-> R("nested path")]}
  @@ "nested path" :> {[format |-> R("text"), path |-> R("text")]}
  @@ "vc" :> {("@context" :> R("texts") @@ "id" :> O("text") @@ "type" :> R("texts") @@ "issuer" :> R("text") @@ "credentialSubject" :> R("subject"))}
  @@ "subject" :> {[id |-> O("text"), given |-> R("text")]}
  @@ "vp" :> {("@context" :> R("texts") @@ "id" :> O("text") @@ "type" :> R("texts") @@ "verifiableCredential" :> O("credentials") @@ "holder" :> O("text"))})
\* kinds that are one of several others
Either == ( "credential" :> <<"text", "vc">> @@ "presentation" :> <<"text", "vp">> @@ "claim" :> <<"entry", "inner claims">>)

(***************************** values **************************************)
Shape1(k) == CHOOSE s \in Shapes[k] : \A q \in Shapes[k] : Cardinality(DOMAIN s) <= Cardinality(DOMAIN q)
Need(sh) == {m \in DOMAIN sh : sh[m].req}
RECURSIVE Base(_, _)
\* the plainest value of a kind; text says where it stands, so that misplaced members show
Base(k, at) ==
  CASE k \in {"text", "nonempty"} -> Tx(at)
    [] k = "int" -> In(Len(at))
    [] k = "bool" -> Bo(TRUE)
    [] k \in DOMAIN Enums -> Tx(CHOOSE e \in Enums[k] : TRUE)
    [] k \in DOMAIN Lists -> Ls(<<Base(Lists[k], at)>>)
    [] k \in DOMAIN Maps -> LET x == CHOOSE x \in Maps[k].keys : TRUE IN Ob(x :> Base(Maps[k].k, at))
    [] k \in DOMAIN Either -> Base(Either[k][1], at)
    [] OTHER -> LET sh == Shape1(k) IN Ob([m \in Need(sh) |-> Base(sh[m].k, m)])
RECURSIVE Full(_, _), Whole(_, _)
Whole(sh, at) == Ob([m \in DOMAIN sh |-> Full(sh[m].k, m)])
Full(k, at) ==
  CASE k \in DOMAIN Lists -> Ls(<<Full(Lists[k], at), Base(Lists[k], at)>>)
    [] k \in DOMAIN Maps -> Ob([x \in Maps[k].keys |-> Full(Maps[k].k, at)])
    [] k \in DOMAIN Either -> Full(Either[k][2], at)
    [] k \in DOMAIN Shapes -> Whole(Shape1(k), at)
    [] OTHER -> Base(k, at)
RECURSIVE Vals(_, _)
Vals(k, at) ==
  CASE k = "text" -> {Tx(at), Tx(""), Tx(Odd), Tx("null"), Tx("1")}
    [] k = "nonempty" -> {Tx(at), Tx(Odd), Tx("true")}
    [] k = "int" -> {In(0), In(1), In(-1), In(2147483647)}
    [] k = "bool" -> {Bo(TRUE), Bo(FALSE)}
    [] k \in DOMAIN Enums -> {Tx(e) : e \in Enums[k]}
    [] k \in DOMAIN Lists -> {Ls(<<>>)} \cup {Ls(<<v>>) : v \in Vals(Lists[k], at)} \cup {Ls(<<v, Base(Lists[k], at)>>) : v \in Vals(Lists[k], at)}
    [] k \in DOMAIN Maps -> {Ob([x \in {} |-> 0]), Full(k, at)} \cup {Ob((CHOOSE x \in Maps[k].keys : TRUE) :> v) : v \in Vals(Maps[k].k, at)}
    [] k \in DOMAIN Either -> UNION {Vals(Either[k][i], at) : i \in {2}} \cup {Base(Either[k][1], at), Full(Either[k][1], at)}
    [] OTHER -> {Base(k, at)} \cup UNION {{Whole(s, at), Ob([m \in Need(s) |-> Base(s[m].k, m)])} : s \in Shapes[k]}
\* an empty set of inner claims is an entry
Sound(k, v) == ~(k = "inner claims" /\ v.ms = <<>>)

(***************************** the writer **********************************)
\* kinds that are messages, by group; "query": also sent as a query string
Groups == [
  request |-> {"request", "request by uri", "pushed request", "pushed response", "authorization response", "detail", "authorized detail", "definition"},
  token |-> {"token request", "token response", "credential request", "credential response", "deferred request", "deferred response", "notification request", "encryption"},
  offer |-> {"offer", "grants", "create offer request", "create offer response", "offer request", "offer response", "pre grant offered", "tx code"},
  metadata |-> {"issuer", "configuration", "credential display", "metadata request", "server request", "server response", "registration request", "registration response", "client", "server"},
  verifier |-> {"create request request", "create request response", "request object", "request object request", "request object response", "response request", "response response", "verifier", "verifier metadata", "wallet"}]
Queried == {"request", "request by uri", "offer", "request object"}

VARIABLES kind, shape, doc, varied
vars == <<kind, shape, doc, varied>>
Start(k, sh) == [m \in Need(sh) |-> Base(sh[m].k, m)]
Init == /\ kind \in Groups[Group] /\ shape \in Shapes[kind] /\ varied = FALSE
        /\ \/ doc = Start(kind, shape)
           \/ doc = Whole(shape, "").ms
           \/ \E m \in DOMAIN shape : ~shape[m].req /\ doc = [x \in DOMAIN shape \ {m} |-> Full(shape[x].k, x)]
Added == DOMAIN doc \ Need(shape)
Add(m) == /\ ~varied /\ m \in DOMAIN shape \ DOMAIN doc /\ Cardinality(Added) < (IF Deep THEN 3 ELSE 2) /\ (Cardinality(DOMAIN shape) > 15 => Cardinality(Added) < (IF Deep THEN 2 ELSE 1))
          /\ doc' = doc @@ (m :> Base(shape[m].k, m)) /\ UNCHANGED <<kind, shape, varied>>
Vary(m) == /\ ~varied /\ (Cardinality(Added) <= 1 \/ Deep) /\ m \in DOMAIN doc
           /\ \E v \in Vals(shape[m].k, m) : Sound(shape[m].k, v) /\ v # doc[m] /\ doc' = [doc EXCEPT ![m] = v]
           /\ varied' = TRUE /\ UNCHANGED <<kind, shape>>
Next == \E m \in DOMAIN shape : Add(m) \/ Vary(m)
Spec == Init /\ [][Next]_vars

\* a message always has what its shape demands and nothing its shape does not know; two shapes of a kind are never confused
WellFormed == Need(shape) \subseteq DOMAIN doc /\ DOMAIN doc \subseteq DOMAIN shape
ReadsAs(sh) == Need(sh) \subseteq DOMAIN doc /\ DOMAIN doc \subseteq DOMAIN sh
                /\ \A m \in DOMAIN doc : sh[m].k \in DOMAIN Enums => doc[m].t = "text" /\ doc[m].s \in Enums[sh[m].k]
Unambiguous == \A sh \in Shapes[kind] : ReadsAs(sh) /\ sh # shape => kind \in {"detail", "authorized detail", "request object", "registration request"}
Emit == PrintT(ToJson([kind |-> kind, doc |-> Ob(doc), query |-> kind \in Queried]))
=============================================================================
