------------------------------ MODULE Macros ------------------------------
(***************************************************************************)
(* The request macros (crates/macros): what an invocation means.            *)
(*                                                                          *)
(* An invocation is a macro's name and a sequence of <<field, value>>.      *)
(* Values: [v |-> "text", form, s] (form: how the text is written: literal, *)
(* variable, constant, call ..), [v |-> "bool", b, form], [v |-> "int", n], *)
(* [v |-> "arr", xs], [v |-> "obj", fs], [v |-> "enum", p] and [v |->       *)
(* "native", n] for a variable that holds a ready-made value.               *)
(* Meaning gives either the request it builds or the reasons it is refused, *)
(* each with the field the refusal must name ("" if none).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [o |-> "none"]
Some(x) == [o |-> "some", x |-> x]
Good(x) == [ok |-> TRUE, x |-> x, errs |-> {}]
Bad(e) == [ok |-> FALSE, x |-> None, errs |-> e]
Why(w, f) == [why |-> w, field |-> f]

Names(fs) == {fs[i][1] : i \in 1..Len(fs)}
Get(fs, n) == fs[CHOOSE i \in 1..Len(fs) : fs[i][1] = n][2]
Has(fs, n) == n \in Names(fs)

\* a text in a place that takes text
Text(v) == IF v.v = "text" THEN Good(v.s) ELSE Bad({Why("not a text", "")})
Literal(v) == v.v = "text" /\ v.form = "lit"
Req(fs, n) == IF Has(fs, n) THEN Text(Get(fs, n)) ELSE Bad({Why("missing", n)})
OptText(fs, n) ==
  IF ~Has(fs, n) THEN Good(None)
  ELSE LET t == Text(Get(fs, n)) IN IF t.ok THEN Good(Some(t.x)) ELSE t
Texts(v) == IF v.v # "arr" THEN Bad({Why("not an array", "")})
            ELSE IF \E i \in 1..Len(v.xs) : v.xs[i].v # "text" THEN Bad({Why("not a text", "")})
            ELSE Good([i \in 1..Len(v.xs) |-> v.xs[i].s])
OptTexts(fs, n) == IF ~Has(fs, n) THEN Good(None) ELSE LET t == Texts(Get(fs, n)) IN IF t.ok THEN Good(Some(t.x)) ELSE t

\* a record of parts: all must be good
Rec(parts) ==
  LET errs == UNION {parts[n].errs : n \in DOMAIN parts} IN
  IF errs = {} THEN Good([n \in DOMAIN parts |-> parts[n].x]) ELSE Bad(errs)
Also(r, errs) == IF errs = {} THEN r ELSE Bad(r.errs \cup errs)
Unknown(fs, known) == {Why("unexpected", n) : n \in Names(fs) \ known}
OneOf(v, set, w) == IF v.v = "text" /\ v.s \in set THEN Good(v.s) ELSE Bad({Why(w, "")})

(************************* claims and definitions **************************)
\* the claims of a credential subject: an empty object is a claim, any other a set of claims
RECURSIVE Claims(_)
Claims(fs) == [n \in Names(fs) |-> IF Get(fs, n).v = "obj" /\ Get(fs, n).fs # <<>> THEN [set |-> Claims(Get(fs, n).fs)] ELSE [entry |-> TRUE]]
Subject(fs) ==
  IF ~Has(fs, "credentialSubject") THEN Good(None)
  ELSE LET s == Get(fs, "credentialSubject") IN
       IF s.v = "obj" THEN Good(Some(Claims(s.fs))) ELSE Bad({Why("credentialSubject is not an object", "")})
Definition(v, typed, contexts) ==
  IF v.v # "obj" THEN Bad({Why("credential_definition is not an object", "")})
  ELSE Also(Rec([context |-> IF contexts THEN OptTexts(v.fs, "@context") ELSE Good(None), types |-> OptTexts(v.fs, "type"), subject |-> Subject(v.fs)]),
            IF typed /\ ~Has(v.fs, "type") THEN {Why("missing", "type")} ELSE {})

(************************* authorization details ***************************)
Detail(v, contexts) ==
  IF v.v # "obj" THEN Bad({Why("detail is not an object", "")})
  ELSE
  LET fs == v.fs
      typ == IF ~Has(fs, "type") THEN Bad({Why("missing", "type")}) ELSE OneOf(Get(fs, "type"), {"openid_credential"}, "unsupported detail type")
      cred ==
        IF Has(fs, "credential_configuration_id")
        THEN Rec([id |-> Text(Get(fs, "credential_configuration_id")),
                  claims |-> IF Has(fs, "credential_definition")
                             THEN LET d == Definition(Get(fs, "credential_definition"), FALSE, contexts) IN IF d.ok THEN Good(Some(d.x)) ELSE d
                             ELSE Good(None)])
        ELSE IF Has(fs, "format")
        THEN Rec([format |-> OneOf(Get(fs, "format"), {"jwt_vc_json"}, "unsupported format"),
                  definition |-> IF Has(fs, "credential_definition") THEN Definition(Get(fs, "credential_definition"), TRUE, FALSE)
                                 ELSE Bad({Why("missing", "credential_definition")})])
        ELSE Bad({Why("missing", "credential_configuration_id"), Why("missing", "format")})
  IN Rec([type |-> typ, credential |-> cred, locations |-> OptTexts(fs, "locations")])
Details(fs, contexts) ==
  IF ~Has(fs, "authorization_details") THEN Good(None)
  ELSE LET v == Get(fs, "authorization_details") IN
       IF v.v # "arr" THEN Bad({Why("authorization_details is not an array", "")})
       ELSE LET ds == [i \in 1..Len(v.xs) |-> Detail(v.xs[i], contexts)]
                errs == UNION {ds[i].errs : i \in 1..Len(ds)}
            IN IF errs = {} THEN Good(Some([i \in 1..Len(ds) |-> ds[i].x])) ELSE Bad(errs)

(************************* the four macros *********************************)
PreGrant == "urn:ietf:params:oauth:grant-type:pre-authorized_code"
AuthGrant == "authorization_code"

Offer(fs) ==
  LET ids == IF ~Has(fs, "credential_configuration_ids") THEN Bad({Why("missing", "credential_configuration_ids")})
             ELSE LET v == Get(fs, "credential_configuration_ids") IN
                  IF v.v = "arr" /\ v.xs = <<>> THEN Bad({Why("empty", "")}) ELSE Texts(v)
      grants == IF ~Has(fs, "grant_types") THEN Good(None)
                ELSE LET t == Texts(Get(fs, "grant_types")) IN
                     IF ~t.ok THEN t
                     ELSE IF \E i \in 1..Len(t.x) : t.x[i] \notin {PreGrant, AuthGrant} THEN Bad({Why("unsupported grant type", "")})
                     ELSE Good(Some(t.x))
      tx == IF ~Has(fs, "tx_code_required") THEN Good(FALSE)
            ELSE LET v == Get(fs, "tx_code_required") IN IF v.v = "bool" THEN Good(v.b) ELSE Bad({Why("not a boolean", "")})
      send == IF ~Has(fs, "send_type") THEN Good("by_val")
              ELSE LET v == Get(fs, "send_type") IN
                   CASE v.v = "enum" -> Good(v.p) [] v.v = "text" -> Good(v.s) [] OTHER -> Bad({Why("not a send type", "")})
  IN Also(Rec([credential_issuer |-> Req(fs, "credential_issuer"), subject_id |-> OptText(fs, "subject_id"), credential_configuration_ids |-> ids,
               grant_types |-> grants, tx_code_required |-> tx, send_type |-> send]),
          Unknown(fs, {"credential_issuer", "subject_id", "credential_configuration_ids", "grant_types", "tx_code_required", "send_type"}))

AuthOptional == {"redirect_uri", "state", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state"}
AuthRequired == {"credential_issuer", "client_id", "code_challenge", "subject_id", "response_type", "code_challenge_method"}
Authorization(fs) ==
  Also(Rec([n \in AuthOptional \cup AuthRequired \cup {"authorization_details"} |->
              CASE n \in AuthRequired -> Req(fs, n) [] n \in AuthOptional -> OptText(fs, n) [] OTHER -> Details(fs, FALSE)]),
       Unknown(fs, AuthOptional \cup AuthRequired \cup {"authorization_details"}))

Token(fs) ==
  LET g == IF ~Has(fs, "grant_type") THEN Bad({Why("missing", "grant_type")}) ELSE OneOf(Get(fs, "grant_type"), {PreGrant, AuthGrant}, "unsupported grant type")
      pre == g.ok /\ g.x = PreGrant
      common == [credential_issuer |-> Req(fs, "credential_issuer"), client_id |-> OptText(fs, "client_id"), grant_type |-> g, authorization_details |-> Details(fs, TRUE)]
      extra == IF ~g.ok THEN [x \in {} |-> {}]
               ELSE IF pre THEN ("pre-authorized_code" :> Req(fs, "pre-authorized_code")) @@ ("tx_code" :> OptText(fs, "tx_code"))
               ELSE ("code" :> Req(fs, "code")) @@ ("redirect_uri" :> OptText(fs, "redirect_uri")) @@ ("code_verifier" :> Req(fs, "code_verifier"))
      all == common @@ extra
  IN Also(Rec(all), IF g.ok THEN Unknown(fs, DOMAIN all) ELSE {})

Credential(fs) ==
  LET cred == IF Has(fs, "credential_identifier") THEN Rec([identifier |-> Text(Get(fs, "credential_identifier"))])
              ELSE IF Has(fs, "format")
              THEN Rec([format |-> OneOf(Get(fs, "format"), {"jwt_vc_json"}, "unsupported format"),
                        definition |-> IF Has(fs, "credential_definition") THEN Definition(Get(fs, "credential_definition"), TRUE, FALSE)
                                       ELSE Bad({Why("missing", "credential_definition")})])
              ELSE Bad({Why("missing", "credential_identifier"), Why("missing", "format")})
      proof == IF ~Has(fs, "proof") THEN Good(None)
               ELSE LET v == Get(fs, "proof") IN
                    IF v.v # "obj" THEN Bad({Why("proof is not an object", "")})
                    ELSE LET p == Rec([proof_type |-> IF Has(v.fs, "proof_type") THEN OneOf(Get(v.fs, "proof_type"), {"jwt"}, "unsupported proof type") ELSE Bad({Why("missing", "proof_type")}),
                                       jwt |-> Req(v.fs, "jwt")])
                         IN IF p.ok THEN Good(Some(p.x)) ELSE p
      enc == IF ~Has(fs, "credential_response_encryption") THEN Good(None)
             ELSE LET v == Get(fs, "credential_response_encryption") IN IF v.v = "native" THEN Good(Some(v.n)) ELSE Bad({Why("not an encryption", "")})
      known == {"credential_issuer", "access_token", "proof", "credential_response_encryption"}
               \cup (IF Has(fs, "credential_identifier") THEN {"credential_identifier"} ELSE {"format", "credential_definition"})
  IN Also(Rec([credential_issuer |-> Req(fs, "credential_issuer"), access_token |-> Req(fs, "access_token"), credential |-> cred, proof |-> proof,
               credential_response_encryption |-> enc]),
          Unknown(fs, known))

Meaning(m, fs) == CASE m = "create_offer_request" -> Offer(fs) [] m = "authorization_request" -> Authorization(fs)
                    [] m = "token_request" -> Token(fs) [] m = "credential_request" -> Credential(fs)
=============================================================================
