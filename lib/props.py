"""Source of properties.jsonl (python3 lib/props.py rewrites it)."""
import json, os

P = []


def p(id, title, statement, over, quant, why, files, mechanism, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mechanism]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})


U = ["crates/core/src/urlencode.rs", "crates/core/src/urlencode/ser.rs"]
p("C01", "URL-encoding a request and decoding it gives the same request back",
  "Decoding the url-encoded form of any struct or string-keyed map yields an equal value, whatever text, integers, floats, booleans, characters, enum variants, newtypes, optional values (absent ones skipped), lists, tuples, byte strings and nested structs or maps it holds, however long, wide or deep. This includes text with '&', '=', '%', '+', quotes, backslashes, braces, brackets, commas, control and non-ASCII characters, text that looks like JSON or numbers, and empty text or lists.",
  ["inputs"], "every serialisable struct or map within the model's type shapes and text alphabet",
  "The three stable tests encode one fixed struct of plain ASCII words and one enum; no reserved character, list, optional, number or empty value is ever decoded.",
  U, ["urlencode::to_string", "urlencode::from_str", "Param deserializer"])
p("C02", "URL-encoded output is a well-formed, injection-free query string",
  "The encoded form of a struct or map has exactly one 'key=value' pair per present field, in field order, joined by single '&'; apart from those separators it holds only unreserved characters and percent-encoded UTF-8 bytes. Plain values appear as their text and structured values as compact JSON, so no value can add, remove or change another parameter. An enum variant holding one value is the single parameter named after the variant.",
  ["inputs"], "every struct or map within the model's shapes and alphabet",
  "Tests compare two fixed strings; injection needs values with separators in particular positions.",
  U, ["Serializer", "UNRESERVED", "separators"])
p("C03", "URL-decoding accepts every equivalent query string and never panics",
  "Parameters decode to the same request in any order, with any characters percent-encoded (upper or lower case hex) and characters that separate nothing left bare, with unknown parameters present or with empty pairs between them. A missing required parameter, an unparsable number or boolean, or a malformed structured value is reported as an error, and no input string makes the decoder panic.",
  ["inputs"], "every query string over the model's alphabet and pair lists",
  "The only decode test uses the encoder's own output for one struct.",
  U, ["urlencode::from_str", "Param deserializer"])
p("C04", "Kind and Quota keep their wire shape and their contents",
  "A Kind serialises as a bare string or as the object itself and a Quota as the bare item or as an array, and both deserialise back to an equal value; is_string/is_object, is_one/is_many, len and is_empty agree with that shape. Any sequence of adds to a Quota keeps every earlier item, in order, with the new one last.",
  ["inputs", "histories"], "every Kind/Quota value and every sequence of add operations within bounds",
  "No test touches Kind or Quota directly.",
  ["crates/core/src/lib.rs"], ["Kind", "Quota", "Quota::add"])
p("C05", "Generated codes are well-formed, full-range, never repeat; PKCE is S256",
  "Every generated authorization code, issuer state, nonce, token, URI token, transaction id and notification id is unpadded base64url text carrying 32 independent random characters, and no two are ever equal; a transaction PIN is 6 decimal digits. A PKCE verifier has 43 to 128 unreserved characters and the challenge for any verifier is the unpadded base64url of its SHA-256, so different verifiers give different challenges.",
  ["inputs", "histories"], "every generator, every draw of the random source, every verifier string",
  "No test calls the generators.",
  ["crates/core/src/gen.rs", "crates/core/src/pkce.rs"], ["random_string", "code_verifier", "code_challenge"])

D = ["crates/dif-exch/src/matcher.rs", "crates/dif-exch/src/lib.rs"]
p("C06", "A credential satisfies constraints exactly when every field does",
  "A credential satisfies constraints if and only if every field is satisfied: its JSONPaths are tried in order, the first that selects a value decides, and that value must match the field's filter (any value will do without a filter). A field none of whose paths selects a value is satisfied only if it is optional; constraints without fields are always satisfied, and a required field with an invalid path is never satisfied by it.",
  ["inputs"], "every combination of fields, paths, optional flags, filters and credentials within bounds",
  "Three tests each match one field with one path against one fixed credential; no negative case exists.",
  D, ["Constraints::satisfied", "Field::matched"])
p("C07", "Filters accept exactly the values they describe, and never panic",
  "A const filter matches text equal to it, a number or boolean whose text equals it, or an array containing it as text, and never null or an object; a pattern filter matches when the regular expression finds a match in the value's text or in any array element; a date or date-time format matches only text that is a valid calendar date (YYYY-MM-DD) or RFC 3339 timestamp. An invalid pattern or an unsupported format matches nothing.",
  ["inputs"], "every filter against every JSON value within bounds",
  "One positive case per filter kind is tested; no number, boolean, null, object or invalid input.",
  D, ["match_const", "match_pattern", "match_format"])
p("C08", "Presentation Exchange documents survive the wire unchanged",
  "Presentation definitions and submissions serialise with the member names of Presentation Exchange 2.0, leave out absent optional members, and deserialise back to an equal value. A filter holds exactly one of const, pattern or format next to its type and any other member is rejected, as is a document without its required members.",
  ["inputs"], "every presence/absence combination of members and text within bounds",
  "Tests deserialise three constraint fragments and never serialise anything.",
  ["crates/dif-exch/src/lib.rs"], ["PresentationDefinition", "Filter", "PresentationSubmission"])

M = ["crates/macros/src/parse.rs", "crates/macros/src/create_offer.rs", "crates/macros/src/authorization.rs",
     "crates/macros/src/token.rs", "crates/macros/src/credential.rs"]
p("C09", "Request macros build the request their JSON text describes",
  "For every valid invocation of create_offer_request!, authorization_request!, token_request! and credential_request! the value built holds exactly the given fields: literals, variables, constants, borrowed values, calls and enum values are carried over unchanged, array order is kept, nested and credential claims are kept, and fields not given take their documented defaults.",
  ["programs", "inputs"], "every combination of optional fields, value forms, grant types, detail kinds and claim trees within bounds",
  "No stable test expands a macro.",
  M, ["Json::expect", "Json::option", "Value::to_tokens", "authorization_details", "claims"])
p("C10", "Request macros reject invalid requests at compile time",
  "An invocation with a missing required field, an unknown top-level field, an unsupported grant type, credential format, proof type or authorization detail type, or a value of the wrong JSON shape does not compile, whichever optional fields accompany it. Missing-field and unknown-field errors name the offending field.",
  ["programs"], "every single-fault mutation of every valid invocation shape within bounds",
  "No stable test compiles an invalid invocation.",
  M, ["Json::expect", "check_consumed", "grant_types", "proof"])

I = "vercre-issuer/src/"
p("C11", "Issuance codes, tokens and references can be used once only",
  "In any history of calls that do not overlap, a pre-authorized code, authorization code, by-reference credential offer or issuer state succeeds at most once: after a code or offer has been redeemed (or its redemption was refused), or an issuer state used in a successful authorization, every later use is refused. A deferred transaction id and a notification id stop working once the credential is issued or the notification accepted.",
  ["histories"], "every interleaving of endpoint calls over the model's flows, codes and clients",
  "The repository's endpoint tests run one straight-line flow each and cannot even be built offline.",
  [I + "token.rs", I + "authorize.rs", I + "credential_offer.rs", I + "deferred.rs", I + "notification.rs"],
  ["StateStore::get/purge keyed by code"], ["token", "credential_offer", "authorize", "deferred", "notification"])
p("C12", "An access token is issued only to the party the code was granted to",
  "A token request succeeds only with a code that was actually issued and used with the matching grant type, with the transaction PIN the offer requires, and for authorization codes with the same client, the same redirect URI and the PKCE verifier of the code's challenge; a client must be known unless anonymous pre-authorized access is supported. Every other token request is refused and yields no token.",
  ["histories", "inputs"], "every combination of code, grant, PIN, client, redirect URI and verifier in every reachable state",
  "Endpoint tests exercise the happy path of each grant.",
  [I + "token.rs"], ["Context::verify", "pkce::code_challenge"], ["token"])
p("C13", "Offers, codes, tokens and nonces are refused after they expire",
  "Offers, pre-authorized and authorization codes expire 5 minutes after issue, pushed authorization requests and c_nonces after 10 minutes, access tokens (from issue or last use) and deferred transactions after 15 minutes, and no endpoint honours one afterwards, whatever else happened in between; before that they are honoured. The lifetimes returned to clients are never longer than the ones enforced.",
  ["histories"], "every placement of time steps between endpoint calls within bounds",
  "No test moves time.",
  [I + "state.rs", I + "token.rs", I + "authorize.rs", I + "credential.rs", I + "par.rs"],
  ["Expire::duration", "State::is_expired"])
p("C14", "Credentials are issued only for what the access token authorizes",
  "A credential request succeeds only with a valid access token, and only for a credential identifier or format that the grant behind that token authorized; a token response lists exactly the authorized credentials, narrowed in the pre-authorized flow to what the token request asked for, and never widened. Requests naming unknown, unsupported or unauthorized credentials or claims are refused.",
  ["histories", "inputs"], "every credential request against every token in every reachable state",
  "Tests request one authorized credential.",
  [I + "credential.rs", I + "token.rs", I + "authorize.rs", "crates/openid/src/issuer.rs"],
  ["authorized_credential", "Authorized items", "narrowing"])
p("C15", "Credentials are bound to a key the holder proved possession of",
  "Where a configuration requires proof, a credential is issued only for a request whose proof is a correctly typed, correctly signed JWT from a resolvable key over the token's current c_nonce; the credential's subject id is the prover's DID. The c_nonce changes after every issued credential and after every refused proof, so a proof is never accepted twice, and a refusal carries the new c_nonce.",
  ["histories", "inputs"], "every proof variant (nonce, type, signature, key) in every reachable state",
  "Tests use one valid proof.",
  [I + "credential.rs"], ["verify proof", "c_nonce rotation"])
p("C16", "An authorization code is granted only for valid, permitted requests",
  "An authorization (or pushed authorization) request yields a code only if its issuer, client, response type, grant type, redirect URI, PKCE challenge and method, issuer state and subject are registered, supported and consistent, it asks for supported credentials (and supported claims of theirs) by details or scope, and the subject is entitled to all of them; what is granted is exactly that. An issuer state must be that of an unexpired offer made to the same subject. A server that requires pushed requests refuses direct ones, and a pushed request can be redeemed only by its own unexpired reference.",
  ["inputs", "histories", "configurations"], "every single- and double-fault variation of authorization requests against client and server configurations",
  "Tests run valid requests and a few single faults.",
  [I + "authorize.rs", I + "par.rs"], ["Context::verify", "verify_details", "verify_scope"])
p("C17", "Offers describe only supported credentials and grants",
  "Creating an offer succeeds exactly when the issuer is known, at least one configuration is named and all are supported, the grant types are supported, and for the pre-authorized flow a subject is given and entitled to them all; the offer then lists exactly those configurations and grants, a PIN is returned exactly when required for a pre-authorized offer, and offers sent by reference are retrievable at the returned URI and equal the offer by value. Offers round-trip through their URL and QR code.",
  ["inputs", "histories", "configurations"], "every combination of configurations, grants, PIN, subject and send type",
  "Tests create three fixed offers.",
  [I + "create_offer.rs", I + "credential_offer.rs", "crates/openid/src/issuer.rs"], ["create_offer", "credential_offer"])
p("C18", "Deferred credentials are kept until issued",
  "When the subject's data is not ready the credential request returns a transaction id and no credential; asking for it keeps answering issuance_pending with the transaction still valid until the data is ready, then returns the credential that was requested. No history loses a pending transaction before it expires or issues a credential for an unknown one.",
  ["histories"], "every interleaving of credential, deferred, readiness and time steps",
  "Tests defer once and collect once.",
  [I + "credential.rs", I + "deferred.rs"], ["Deferrance state"])
p("C19", "Issued credentials carry the issuer, type, subject and claims requested",
  "An issued credential's types, issuer, subject id, claims and status are those of the requested configuration, the credential issuer, the proven holder, the subject's dataset and the status kept for that credential, in a JWT whose iss, sub, jti and iat agree with the credential. An issued mdoc holds exactly the dataset's namespaces and elements.",
  ["inputs", "histories"], "every configuration, dataset and holder in the model",
  "Snapshot tests cover one credential.",
  [I + "credential.rs", "crates/w3c-vc/src/proof/jose.rs"], ["w3c_vc", "jwt_vc_json", "mso_mdoc"])
p("C20", "Notification, metadata and registration answer for known parties only",
  "A notification is accepted only for a notification id the issuer handed out; metadata and authorization-server metadata are returned unchanged for the issuer asked for and refused for unknown ones. Registering a client returns and stores exactly the metadata given under a client id, and never alters another client.",
  ["histories", "inputs"], "every order of registration, metadata and notification calls over known and unknown ids",
  "Tests make one call per endpoint.",
  [I + "notification.rs", I + "metadata.rs", I + "oauth_server.rs", I + "register.rs"], ["notification", "metadata", "register"])

V = "vercre-verifier/src/"
p("C21", "Presentation requests say what the verifier asked for",
  "Creating a presentation request succeeds exactly when a known verifier names at least one input descriptor; the request carries those descriptors, a fresh nonce and state, and the client and response URIs of its device flow. A cross-device request object is served, signed, only at its own unexpired reference and for its own client, and equals the one created. A verifier's metadata is returned unchanged, and only for a known verifier.",
  ["inputs", "histories"], "every device flow, descriptor list and history of request/lookup/time steps",
  "Tests create one request per flow.",
  [V + "create_request.rs", V + "request_object.rs"], ["create_request", "request_object"])
p("C22", "A presentation is accepted only if it proves what was asked",
  "A response is accepted exactly when it refers to a pending request, every presentation is correctly signed by the key it names over the request's nonce, the submission names the request's definition and maps every input descriptor to exactly one credential in a permitted format, and each such credential is correctly signed by the key it names, has not expired and satisfies the descriptor's constraints.",
  ["inputs", "histories"], "every combination of faults in presentation, submission and credentials against every pending request",
  "Tests submit one valid response.",
  [V + "response.rs", "crates/w3c-vc/src/proof.rs", "crates/w3c-vc/src/proof/jose.rs"], ["verify"])
p("C23", "A presentation request is answered at most once and not after expiry",
  "After a response to a presentation request has been accepted, or 5 minutes after it was created, neither a response to it nor a request for its request object succeeds; a refused response leaves the request open, and requests do not affect one another.",
  ["histories"], "every interleaving of two requests, responses, lookups and time steps",
  "Tests submit one response.",
  [V + "response.rs", V + "request_object.rs", V + "state.rs"], ["StateStore purge", "is_expired"])

H = "vercre-holder/src/"
p("C24", "A wallet's issuance steps run only in order",
  "Accepting, entering a PIN, obtaining a token, requesting credentials and collecting deferred ones each succeed only in the state the previous step left; a step out of order, or for an unknown flow, is refused, contacts no issuer and changes nothing, and a step the issuer refuses can be tried again. An offer that needs a PIN never proceeds without one and sends exactly the one entered, and an offer without the matching grant never obtains a token. What is shown of an offer is the offer made, and an offer of nothing, of unsupported credentials or by an unknown issuer is refused.",
  ["histories"], "every sequence of wallet calls over the model's offers",
  "Tests run each flow once in order.",
  [H + "issuance/offer.rs", H + "issuance/accept.rs", H + "issuance/pin.rs", H + "issuance/token.rs", H + "issuance/authorize.rs", H + "issuance/credentials.rs"],
  ["Issuance.status"])
p("C25", "A wallet asks for and stores only what its holder accepted",
  "The wallet asks for authorization, tokens and credentials only for what its holder accepted (or, starting on its own, named by details or scope), exactly once each and with a proof signed by the holder for that issuer over the latest c_nonce; it accepts only correctly signed credentials and reports exactly the deferred ones, which remain collectable until received. Save stores exactly the received credentials, unchanged, once, tells the issuer so (or that storing failed, keeping the flow), and forgets the flow unless deferred ones remain; cancel stores nothing, tells the issuer and forgets the flow. Flows never affect one another.",
  ["histories"], "every sequence of accept choices, credential, deferred, save and cancel calls",
  "Tests accept everything and save once.",
  [H + "issuance/accept.rs", H + "issuance/credentials.rs", H + "issuance/deferred.rs", H + "issuance/save.rs", H + "issuance/cancel.rs"],
  ["narrow_scope", "credential_by_identifier", "save", "cancel"])
p("C26", "A wallet presents only with consent, and only matching credentials",
  "Nothing is sent to a verifier before the holder authorizes the presentation; the presentation sent holds exactly the stored credentials that satisfy some input descriptor of the request, the ones shown to the holder, signed by the holder over the request's nonce and audience, and goes to the request's response URI with its state and a submission that names its definition and maps each descriptor to a credential satisfying it. A request fetched by reference that is missing, unsigned or wrongly signed is refused, as is one without descriptors.",
  ["histories", "inputs"], "every order of request, authorize and present over wallets of up to five credentials and requests of up to three input descriptors",
  "Tests run one presentation.",
  [H + "presentation/request.rs", H + "presentation/authorize.rs", H + "presentation/present.rs"], ["Presentation.status", "build_filter", "create_vp"])

O = "crates/openid/src/"
p("C27", "OpenID messages survive the wire unchanged",
  "Authorization requests (by object or by pushed reference), token, credential, deferred, notification, registration, offer, metadata, request-object and response messages serialise with the member names of OpenID4VCI and OpenID4VP, leave absent members out and deserialise back to an equal value, for every combination of optional members, grant types, credential formats and proof forms. Authorization requests, offers and request objects sent as query strings carry exactly the same members.",
  ["inputs"], "every combination of variants and optional members within the model",
  "Snapshot tests cover single instances and cannot be built offline.",
  [O + "issuer.rs", O + "oauth.rs", O + "verifier.rs"], ["serde implementations", "FromStr for AuthorizationRequest"])
p("C28", "Errors reach clients as valid, faithful OAuth errors",
  "Every protocol error's JSON and query-string form parses and carries the error code of its kind and exactly its description, whatever characters the description holds, together with the c_nonce and its lifetime or the interval that belongs to it. The errors of status lists carry the codes of their specification in the same way.",
  ["inputs"], "every error kind with every description and c_nonce over the model's alphabet",
  "Tests serialise two fixed errors.",
  [O + "error.rs"], ["Error::to_json", "Error::to_querystring"])
p("C29", "Claim requests are checked against the credential's claims",
  "Where a credential configuration lists claims, a set of requested claims is accepted exactly when every requested claim, at every nesting level, is listed as the same kind (single claim or nested set) and no mandatory claim is left out; a credential configuration is found for a format exactly when one is supported with that format and type.",
  ["inputs"], "every requested and supported claim tree within bounds",
  "No stable test reaches it.",
  [O + "issuer.rs"], ["Format::verify_claims", "Issuer::credential_configuration_id"])
p("C30", "Credentials and presentations survive signing and verification unchanged",
  "Signing a credential or presentation as a JWT and verifying it yields the same credential or presentation, with iss, sub, aud, nonce, jti and times as given; anything unsigned, wrongly signed or of the wrong kind is refused. Builders keep everything they are given, in order, and refuse to build what is incomplete; single-or-many members and language-tagged strings keep their shape through JSON, and a presentation is read alike from JSON and from base64url text, and unreadable text is an error.",
  ["inputs"], "every combination of optional members and shapes within the model",
  "Snapshot tests cover one credential.",
  ["crates/w3c-vc/src/proof.rs", "crates/w3c-vc/src/proof/jose.rs", "crates/w3c-vc/src/model/vc.rs", "crates/w3c-vc/src/model/vp.rs"],
  ["proof::create", "proof::verify"])
p("C31", "A status list publishes each credential's latest status at its index",
  "In a generated status list the entry at each issued credential's index holds exactly that credential's latest recorded status and every other entry is zero, whatever other credentials and purposes exist; the list is at least as long as its minimum, and a status that does not fit the list is refused. The credential publishing the list is signed by the issuer and carries exactly that list with its purpose, lifetime, address and issuer.",
  ["inputs", "histories"], "every set of log entries, indexes, message widths and configurations within bounds",
  "No stable test reaches it.",
  ["crates/status/src/bitstring.rs", "crates/status/src/config.rs"], ["bitstring", "credential"])
p("C32", "An mdoc's digests commit to exactly its issued items",
  "Every item of an issued mdoc has its own digest id, and the mobile security object maps that id to the digest of exactly that item's encoding, per namespace, with nothing else in it; ids and digests never collide within a namespace, and the encoded document decodes to the dataset given. The security object states version, document type and digest algorithm, is signed by the issuer with the key it names, and is valid from the moment of issue until later.",
  ["inputs"], "every dataset of namespaces and elements and every draw of digest ids within bounds",
  "Tests encode one dataset and check it parses.",
  ["crates/iso-mdl/src/lib.rs", "crates/iso-mdl/src/mdoc.rs", "crates/iso-mdl/src/mso.rs"], ["MDocBuilder/to_credential", "DigestIdGenerator"])
p("C33", "What a wallet ends up holding is exactly what the issuer granted it",
  "With issuer and wallets talking to each other, every way of obtaining credentials the two sides share (offer by value or by reference, pre-authorized code with or without a transaction code, authorization code with or without an offer, by identifier or by scope, at once or deferred) ends with the wallet holding exactly the credentials and claims that were offered or asked for, accepted and due to that subject, bound to that wallet. An offer yields an access token at most once, whichever wallet is first, and a wrong code, a foreign redirect, an expired or unknown offer or a missing entitlement yields nothing. Credentials still pending can be collected once ready for as long as the token lasts.",
  ["inputs", "histories"], "every interleaving of two wallets' calls, choices, delays and readiness within the model's depth",
  "No test runs the holder against the issuer; each crate's tests use a scripted other side.",
  ["vercre-issuer/src", "vercre-holder/src/issuance"], ["create_offer/token/authorize/credential/deferred", "issuance::offer/accept/pin/token/authorize/credentials/deferred/save"])
p("C34", "A request is answered only by consenting holders with what it asks for",
  "With wallet and verifier talking to each other, a wallet shows for consent exactly those credentials it holds that match the request, and once consented the presentation it makes is accepted by the verifier, on the same device or across devices. A request whose needs the wallet cannot meet, to which its holder has not consented, that has expired or has been answered already is never answered successfully.",
  ["inputs", "histories"], "every interleaving of issuance, requests, consents and presentations within the model's depth",
  "No test runs the holder against the verifier; each crate's tests use a scripted other side.",
  ["vercre-verifier/src", "vercre-holder/src/presentation"], ["create_request/request_object/response", "presentation::request/authorize/present"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w", encoding="utf-8") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
