------------------------------ MODULE OidError ------------------------------
(***************************************************************************)
(* Protocol errors as clients see them (crates/openid/src/error.rs, and the *)
(* status list errors of crates/status/src/bitstring.rs): each kind has its *)
(* code, and carries its description and companions whatever their text.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Deep

Codes == ("InvalidRequest" :> "invalid_request" @@ "InvalidClient" :> "invalid_client" @@ "InvalidGrant" :> "invalid_grant" @@ "UnauthorizedClient" :> "unauthorized_client"
  @@ "UnsupportedGrantType" :> "unsupported_grant_type" @@ "InvalidScope" :> "invalid_scope" @@ "InvalidAuthorizationDetails" :> "invalid_authorization_details" @@ "AccessDenied" :> "access_denied"
  @@ "UnsupportedResponseType" :> "unsupported_response_type" @@ "ServerError" :> "server_error" @@ "TemporarilyUnavailable" :> "temporarily_unavailable"
  @@ "InvalidCredentialRequest" :> "invalid_credential_request" @@ "UnsupportedCredentialType" :> "unsupported_credential_type" @@ "UnsupportedFormat" :> "unsupported_credential_format"
  @@ "InvalidEncryptionParameters" :> "invalid_encryption_parameters" @@ "InvalidTransactionId" :> "invalid_transaction_id" @@ "VpFormatsNotSupported" :> "vp_formats_not_supported"
  @@ "InvalidPresentationDefinitionUri" :> "invalid_presentation_definition_uri" @@ "InvalidPresentationDefinitionReference" :> "invalid_presentation_definition_reference"
  @@ "WalletUnavailable" :> "wallet_unavailable" @@ "InvalidProof" :> "invalid_proof" @@ "IssuancePending" :> "issuance_pending")
StatusCodes == ("Retrieval" :> -128 @@ "Verification" :> -129 @@ "ListLength" :> -130 @@ "Range" :> -67)
Alphabet == {"a", "U+0020", "U+0022", "U+005C", "U+0026", "U+003D", "U+0025", "U+002B", "U+000A", "U+0000", "U+007B", "U+007D", "U+00E9", "U+1F600", "U+002F", "U+003F", "U+0023", "0"}
Upto(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Long == IF Deep THEN 3 ELSE 2

VARIABLES case
vars == case
Texts(v) == IF v \in {"InvalidRequest", "InvalidProof"} THEN Upto(Long) ELSE Upto(1)
Init == \/ \E v \in DOMAIN Codes \ {"InvalidProof", "IssuancePending"} : case \in {[v |-> v, d |-> d] : d \in Texts(v)}
        \/ case \in {[v |-> "InvalidProof", d |-> d, nonce |-> n, expires |-> e] : d \in Upto(1), n \in Upto(1), e \in {0, 60, -1}}
        \/ case \in {[v |-> "IssuancePending", interval |-> i] : i \in {0, 5, -1, 2147483647}}
        \/ \E v \in DOMAIN StatusCodes : case \in {[v |-> v, d |-> d] : d \in Upto(1)}
\* a description grows by a character at a time
Next == /\ case.v = "InvalidProof" /\ Len(case.d) < Long
        /\ \E ch \in Alphabet : case' = [case EXCEPT !.d = Append(@, ch)]
Spec == Init /\ [][Next]_vars
Code == IF case.v \in DOMAIN StatusCodes THEN ToString(StatusCodes[case.v]) ELSE Codes[case.v]
Distinct == \A a, b \in DOMAIN Codes : a # b => Codes[a] # Codes[b]
Emit == PrintT(ToJson([case |-> case, code |-> Code]))
=============================================================================
